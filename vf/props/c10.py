"""C10: derivatives are second-order finite differences of the points."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, huge, oracle
from vf.core import close, recorded, require, same, sub
from skcurve import Curve, DifferentialGeometryWarning

DT = ('float64', 'float64', 'float32', 'int8', 'uint8', 'int32', 'int64')
NAMES = ('firstderiv', 'secondderiv', 'thirdderiv')


@sub('C10', st.one_of(gen.curve(0, 10, ndims=(2, 3, 4), dtypes=DT), gen.curve(0, 4, ndims=(2, 3), dtypes=DT),
                      gen.curve(2, 14, kinds=('medium', 'fine')), gen.scaled(gen.curve(2, 8, kinds=('dyadic', 'fine'))),
                      gen.curve(2, 8, dtypes=tuple(gen.INT_DTYPES), wide='full')), quick=1400)
def differences(case, ev):
    """the three derivatives, tangent and speed against exact rational finite differences, for every size"""
    c = gen.make(case)
    n = c.size
    rows = [oracle.fv([x.item() for x in r]) for r in c.data]
    tol = 1e-5 if case['dt'] == 'float32' else 1e-12
    scale = float(np.max(np.abs(np.asarray(c.data, dtype=float)), initial=0.0))
    for name in NAMES:
        rows = oracle.grad_exact(rows)
        ref = np.array([[float(x) for x in r] for r in rows]).reshape(n, c.ndim)
        if name == 'firstderiv':
            first = ref
        v = getattr(c, name)
        require(np.issubdtype(v.dtype, np.floating), '{} dtype {}', name, v.dtype)
        close(v, ref, name, rtol=tol, atol=tol * scale)
        for i in range(n):
            same(getattr(c[i], name), v[i], f'{name} of point {i}')
    same(c.tangent, c.firstderiv, 'tangent')
    close(c.speed, np.sqrt((first ** 2).sum(axis=1)), 'speed', rtol=tol, atol=tol * scale)
    ev.label(case['dt'], f'n={min(n, 4)}{"+" if n > 4 else ""}')
    ev.nontrivial(n > 1)


@sub('C10', st.fixed_dictionaries({'nd': st.integers(2, 4), 'n': st.integers(0, 4), 'x': st.integers(-9, 9)}), quick=80)
def few_points(case, ev):
    """a single point gives zeros with a warning, three or more points no warning, an empty curve an empty result"""
    n, nd = case['n'], case['nd']
    a = np.array([[(i + 1) * (k + case['x']) for k in range(nd)] for i in range(n)], dtype=float).reshape(n, nd)
    c = Curve(a)
    for name in NAMES + ('tangent',):
        with recorded() as w:
            v = getattr(Curve(a), name)
        w = [x for x in w if issubclass(x.category, DifferentialGeometryWarning)]
        same(v.shape, (n, nd), f'shape of {name} of {n} points')
        if n == 1:
            same(v, np.zeros((1, nd)), f'{name} of a single point')
            require(w, '{} of a single point does not warn', name)
        elif n == 2:
            require(w, '{} of two points does not warn', name)
        else:
            require(not w, '{} of {} points warns: {}', name, n, [str(x.message) for x in w])
    ev.label(f'n={n}')
    ev.nontrivial()


@sub('C10', st.fixed_dictionaries({'c': gen.curve(2, 10, parametric=False), 'd': st.lists(st.integers(-32, 32), min_size=40, max_size=40),
                                   'k': st.sampled_from([0, 1, -1, 2, -0.5, 8]), 'm': st.integers(0, 10 ** 6)}), quick=500)
def linearity(case, ev):
    """linear in the coordinates, coordinate-wise, translation invariant; odd and third derivatives flip on reversal"""
    a = gen.array(case['c'])
    n, nd = a.shape
    b = np.array(case['d'][:n * nd], dtype=float).reshape(n, nd) if n * nd <= 40 else np.ones((n, nd))
    k = case['k']
    perm = np.random.RandomState(case['m']).permutation(nd)
    ca, cb = Curve(a), Curve(b)
    for i, name in enumerate(NAMES):
        g = lambda x: getattr(Curve(x), name)   # noqa: E731
        va, vb = getattr(ca, name), getattr(cb, name)
        close(g(a + k * b), va + k * vb, f'{name} of a linear combination', atol=1e-10)
        close(g(a[:, perm]), va[:, perm], f'{name} of permuted coordinates')
        close(g(a + 7), va, f'{name} of the translated curve', atol=1e-10)
        close(getattr(ca.reverse(), name), (-1) ** (i + 1) * va[::-1], f'{name} of the reversed curve', atol=1e-10)
        if nd > 2:
            close(getattr(ca.deletedim(nd - 1), name), va[:, :-1], f'{name} without the last coordinate')
        other = a.copy()
        other[:, 0] = 0
        close(g(other)[:, 1:], va[:, 1:], f'{name} with the first coordinate replaced')
    # the parametrization does not enter the derivatives
    same(Curve(a, tdata=np.arange(n) ** 2.0).firstderiv, ca.firstderiv, 'firstderiv of the parametric curve')
    ev.nontrivial(n > 2)


@sub('C10', st.fixed_dictionaries({'coef': st.lists(st.lists(st.integers(-6, 6), min_size=3, max_size=3), min_size=2, max_size=4),
                                   'n': st.integers(3, 12), 'x0': st.integers(-6, 6)}), quick=300)
def polynomials(case, ev):
    """firstderiv is exact for polynomials of degree two at every point, ends included; so is secondderiv inside"""
    x = case['x0'] + np.arange(case['n'], dtype=float)
    y = np.stack([q[0] + q[1] * x + q[2] * x * x for q in case['coef']], axis=1)
    d1 = np.stack([q[1] + 2 * q[2] * x for q in case['coef']], axis=1)
    d2 = np.stack([2 * q[2] + 0 * x for q in case['coef']], axis=1)
    c = Curve(y)
    close(c.firstderiv, d1, 'firstderiv of a quadratic', atol=1e-9)
    close(c.secondderiv, d2, 'secondderiv of a quadratic', atol=1e-9)
    close(c.thirdderiv, 0 * d2, 'thirdderiv of a quadratic', atol=1e-9)
    ev.nontrivial(any(q[2] for q in case['coef']))


sub('C10', gen.long_curve(40, 120, dtypes=DT), quick=60, name='differences_long')(differences)

sub('C10', huge.curves(), quick=25, name='huge')(huge.differences)
