"""C27: plane detection and co-orientation decide the geometric condition."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vf import gen, huge, oracle
from vf.core import raises, recorded, require, same, sub
from skcurve import Curve, Point, Segment


@st.composite
def plane_cases(draw):
    nd = draw(st.sampled_from([2, 3, 3, 3, 4, 5]))
    n = draw(st.one_of(st.integers(4, 9), st.integers(4, 6), st.integers(0, 4)))
    kind = draw(st.sampled_from(['plane', 'plane', 'nearly', 'nearly', 'line', 'any', 'same']))
    o = draw(st.lists(st.integers(-20, 20), min_size=nd, max_size=nd))
    u = draw(st.lists(st.integers(-5, 5), min_size=nd, max_size=nd))
    v = draw(st.lists(st.integers(-5, 5), min_size=nd, max_size=nd))
    ab = draw(st.lists(st.tuples(st.integers(-5, 5), st.integers(-5, 5)), min_size=n, max_size=n))
    if kind == 'any':
        p = draw(st.lists(st.lists(st.integers(-4, 4), min_size=nd, max_size=nd), min_size=n, max_size=n))
    else:
        if kind == 'line':
            v = [0] * nd
        if kind == 'same':
            u, v = [0] * nd, [0] * nd
        p = [[c + a * x + b * y for c, x, y in zip(o, u, v)] for a, b in ab]
    if kind == 'nearly' and n > 3:
        # one point leaves the plane
        k = draw(st.integers(0, n - 1))
        p[k][draw(st.integers(0, nd - 1))] += draw(st.sampled_from([-1, 1, 3]))
    dt = draw(st.sampled_from(['float64', 'float64', 'float64', 'float32', 'int32', 'int64']))
    scale = draw(st.sampled_from([1, 1, 1024, 0.0625])) if dt == 'float64' else 1
    shift = draw(st.sampled_from([0, 0, 1000, -100000]))
    p = [[c * scale + shift for c in q] for q in p]
    return {'p': p, 'nd': nd, 'dt': dt, 'kind': kind, 't': None, 'order': draw(st.permutations(list(range(n))))}


@sub('C27', plane_cases(), quick=900)
def isplane(case, ev):
    """isplane is true exactly when the exact affine rank of the points is at most two, in every point order"""
    c = gen.make(case)
    ref = oracle.is_coplanar([oracle.fv(q) for q in case['p']]) if case['p'] else True
    got = c.isplane
    require(bool(got) == ref and isinstance(got, (bool, np.bool_)), 'isplane is {} for {}', got, case['p'])
    require(bool(c.reverse().isplane) == ref, 'isplane of the reversed curve')
    if case['order']:
        require(bool(Curve(c.data[case['order']]).isplane) == ref, 'isplane of the points in the order {}', case['order'])
        require(bool(Curve(c, ndmin=case['nd'] + 1).isplane) == ref, 'isplane with a zero dimension more')
        require(bool(c[list(case['order']) + [0]].isplane) == ref, 'isplane with a repeated point')
    ev.label(f'{case["nd"]}-d', case['kind'], 'plane' if ref else 'spatial')
    ev.nontrivial(len(case['p']) > 3 and case['nd'] > 2)


@st.composite
def rounded_planes(draw):
    nd = draw(st.sampled_from([3, 3, 4, 5]))
    n = draw(st.one_of(st.integers(4, 9), st.integers(10, 40)))
    f = st.integers(-9000, 9000).map(lambda k: k / 1000)
    v = lambda: draw(st.lists(f, min_size=nd, max_size=nd))     # noqa: E731
    ab = draw(st.lists(st.tuples(f, f), min_size=n, max_size=n))
    return {'o': v(), 'off': draw(st.sampled_from([0, 0, 100, -5000, 10.0 ** 6])), 'u': v(), 'v': v(), 'ab': ab, 'h': draw(st.sampled_from([0.001, 0.1, 5.0])),
            'i': draw(st.integers(0, n - 1)), 'order': draw(st.permutations(list(range(n))))}


@sub('C27', rounded_planes(), quick=300)
def rounded(case, ev):
    """curves in a plane up to rounding are plane, wherever they are; a point clearly off the plane makes them spatial"""
    u, v = np.array(case['u']), np.array(case['v'])
    nu, nv = np.linalg.norm(u), np.linalg.norm(v)
    if nu < 0.1 or nv < 0.1:
        return
    w = v - (v @ u) / nu ** 2 * u
    if np.linalg.norm(w) < 0.05 * nv:
        return
    ab = np.array(case['ab'])
    d = np.array(case['o']) + case['off'] + ab[:, :1] * u + ab[:, 1:] * v
    c = Curve(d)
    for x, what in ((c, 'as given'), (c.reverse(), 'reversed'), (Curve(d[case['order']]), 'in another order'), (Curve(c, ndmin=c.ndim + 1), 'with one dimension more')):
        require(bool(x.isplane), 'points of a plane, {}: isplane is {}', what, x.isplane)
    i = case['i']
    others = np.delete(ab, i, axis=0)
    area = max(abs(np.linalg.det(others[[0, j, k]][1:] - others[0])) for j in range(1, len(others)) for k in range(1, j + 1)) if len(others) < 12 else 1.0
    if area > 0.05 and len(others) > 2:
        n = np.linalg.svd(np.array([u, w]))[2][-1]
        d[i] += case['h'] * n
        require(not Curve(d).isplane and not Curve(d[::-1]).isplane, 'a curve with a point {} off its plane is plane', case['h'])
        ev.label('lifted')
    ev.label(f'{c.ndim}-d', 'far' if case['off'] else 'near the origin')
    ev.nontrivial()


@sub('C27', gen.curve(lo=0, hi=4, ndims=(2, 3, 4, 5, 6), dtypes=('float64', 'int32', 'float32')), quick=200)
def dimensions(case, ev):
    """is2d, is3d and isspatial follow the dimension of curves, points and segments"""
    c, nd = gen.make(case), case['nd']
    objs = [('curve', c)]
    if len(c):
        objs += [('curve point', c[0]), ('point', Point(c[0].data))]
    if len(c) > 1:
        objs += [('curve segment', c.segments[0]), ('segment', Segment(c[0], c[1]))]
    for what, o in objs:
        for name, want in (('is2d', nd == 2), ('is3d', nd == 3), ('isspatial', nd > 2)):
            if hasattr(o, name):
                require(getattr(o, name) is want or getattr(o, name) == want, '{} of a {}-d {} is {}', name, nd, what, getattr(o, name))
            else:
                require(what not in ('curve',), 'a curve has no {}', name)
    ev.label(f'{nd}-d')
    ev.nontrivial(len(c) > 0)


def det(p, q, i, j):
    return Fraction(p[i]) * Fraction(q[j]) - Fraction(p[j]) * Fraction(q[i])


@st.composite
def coorient_cases(draw):
    c = draw(gen.curve(lo=draw(st.sampled_from([0, 2, 2, 2, 3])), hi=6, ndims=(2, 3, 4, 5), dtypes=('float64', 'float64', 'float32', 'int16', 'int64')))
    nd = c['nd']
    ax = [draw(st.integers(-nd, nd - 1)), draw(st.integers(-nd, nd - 1))]
    return {'c': c, 'ax': ax, 'call': draw(st.sampled_from(['both', 'both', 'keyword', 'first', 'second', 'none']))}


@sub('C27', coorient_cases(), quick=900)
def coorient(case, ev):
    """the curve itself or its reverse, with positively oriented ends, parameters following; idempotent; leaves the original"""
    c = gen.make(case['c'])
    p, (a, b) = case['c']['p'], case['ax']
    call = case['call']
    if call in ('first', 'none'):
        b = 1
    if call in ('second', 'none'):
        a = 0

    def run(x):
        return {'both': lambda: x.coorientplane(a, b), 'keyword': lambda: x.coorientplane(axis2=b, axis1=a), 'first': lambda: x.coorientplane(a),
                'second': lambda: x.coorientplane(axis2=b), 'none': lambda: x.coorientplane()}[call]()
    with recorded() as w:
        r = run(c)
    require(not w, 'coorientplane warns {}', [str(x.message) for x in w])
    require(type(r) is Curve and r.ndim == c.ndim and r.dtype == c.dtype and r.isparametric == c.isparametric, 'coorientplane gives {!r}', r)
    require(r is not c, 'coorientplane returns the receiver')
    data = gen.array(case['c'])
    same(c.data, data, 'the receiver after coorientplane', dtype=True)
    t = case['c']['t']
    if len(p) < 2:
        same(r.data, data, 'coorientplane of an empty or one-point curve', dtype=True)
        if t is not None:
            same(r.t, np.array(t, dtype=float), 'parameters of an empty or one-point curve')
        ev.label('small')
        return
    d = det(p[0], p[-1], a, b)
    rev = d < 0
    if d == 0:
        # neither orientation is positive: the curve or its reverse, parameters following
        same_pts = np.array_equal(r.data, data) and (t is None or np.array_equal(r.t, t))
        rev_pts = np.array_equal(r.data, data[::-1]) and (t is None or np.array_equal(r.t, t[::-1]))
        require(same_pts or rev_pts, 'coorientplane gives neither the curve nor its reverse: {}', r.data)
        ev.label('degenerate')
        return
    if abs(d) < Fraction(1, 10 ** 6):
        return
    same(r.data, data[::-1] if rev else data, f'coorientplane({a}, {b}) of ends with determinant {float(d)}', dtype=True)
    if t is not None:
        same(r.t, np.array(t[::-1] if rev else t, dtype=float), 'parameters after coorientplane')
    q = r.data.tolist()
    require(det(q[0], q[-1], a, b) > 0, 'the ends are not positively oriented')
    again = run(r)
    same(again.data, r.data, 'coorientplane twice')
    if t is not None:
        same(again.t, r.t, 'parameters after coorientplane twice')
    same(run(c.reverse()).data, r.data, 'coorientplane of the reversed curve')
    same(c.coorientplane(b, a).data, r.data[::-1], 'coorientplane with swapped axes')
    ev.label('reversed' if rev else 'kept', call, 'parametric' if t else 'plain')
    ev.nontrivial()


@sub('C27', st.fixed_dictionaries({'c': gen.curve(lo=2, hi=5), 'over': st.integers(0, 3), 'neg': st.booleans(), 'first': st.booleans()}), quick=150)
def bad_axes(case, ev):
    """axes outside the dimension raise IndexError"""
    c, nd = gen.make(case['c']), case['c']['nd']
    bad = -nd - 1 - case['over'] if case['neg'] else nd + case['over']
    raises(IndexError, lambda: c.coorientplane(*((bad, 0) if case['first'] else (0, bad))), f'coorientplane with axis {bad} of a {nd}-d curve')
    ev.nontrivial()


@st.composite
def long_planes(draw):
    nd = draw(st.sampled_from([3, 4]))
    n, rs = draw(st.integers(40, 400)), np.random.RandomState(draw(st.integers(0, 2 ** 32 - 1)))
    k, kind = draw(st.integers(0, n - 1)), draw(st.sampled_from(['plane', 'nearly', 'nearly', 'line', 'two']))
    p = rs.randint(-9, 10, nd) + rs.randint(-5, 6, (n, 2)) @ rs.randint(-5, 6, (2, nd))
    if kind == 'line':
        p = rs.randint(-9, 10, nd) + rs.randint(-5, 6, (n, 1)) * rs.randint(-5, 6, nd)
    if kind != 'plane':
        p[k, rs.randint(nd)] += rs.choice([-1, 1, 3])
    if kind == 'two':
        p[(k + 1) % n, rs.randint(nd)] += rs.choice([-1, 1, 3])
    return {'p': p.tolist(), 'nd': nd, 'dt': 'float64', 'kind': kind, 't': None, 'order': rs.permutation(n).tolist()}


sub('C27', long_planes(), quick=60, name='isplane_long')(isplane)
sub('C27', st.fixed_dictionaries({'c': gen.long_curve(ndims=(2, 3, 4)), 'ax': st.tuples(st.integers(0, 1), st.integers(-2, -1)).map(list), 'call': st.just('both')}),
    quick=60, name='coorient_long')(coorient)

sub('C27', huge.curves(), quick=25, name='huge')(huge.planes)
