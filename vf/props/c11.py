"""C11: Frenet vectors form the Gram-Schmidt frame of the derivatives."""
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from vf import gen, huge, oracle
from vf.core import close, recorded, require, same, sub
from skcurve import Curve, DifferentialGeometryWarning

FRENET = ('frenet1', 'frenet2', 'frenet3')


def exact_frame(rows):
    """Exact squared norms and vectors of the Gram-Schmidt remainders of the first three derivatives."""
    d1 = oracle.grad_exact(rows)
    d2 = oracle.grad_exact(d1)
    d3 = oracle.grad_exact(d2)
    out = []
    for a, b, c in zip(d1, d2, d3):
        rem = []
        for v in (a, b, c):
            r = list(v)
            for e in rem:
                ee = oracle.vdot(e, e)
                if not ee:      # the frame ends here
                    break
                r = oracle.vsub(r, oracle.vmul(e, oracle.vdot(v, e) / ee))
            rem.append(r)
        out.append(rem)
    return out


@st.composite
def frame_curves(draw):
    nd = draw(st.sampled_from([2, 3, 3, 4, 5]))
    kind = draw(st.sampled_from(['generic', 'generic', 'line', 'plane', 'tiny', 'stop']))
    c = draw(gen.walk(1, 10, nd=nd)) if kind != 'tiny' else draw(gen.curve(0, 7, nd=nd, kinds=('tiny',)))
    p = c['p']
    if kind == 'line' and p:
        u = [draw(st.integers(-4, 4)) for _ in range(nd)]
        k, q = draw(st.integers(-9, 9)), p[0]
        rows = []
        for _ in p:
            rows.append([a + k * b for a, b in zip(q, u)])
            k += draw(st.integers(0, 5))
        p = rows
    elif kind == 'plane' and nd > 2:
        u, v = [[draw(st.integers(-3, 3)) for _ in range(nd)] for _ in range(2)]
        off = draw(st.lists(st.integers(-9, 9), min_size=nd, max_size=nd))
        p = [[o + x[0] * a + x[1] * b for o, a, b in zip(off, u, v)] for x in p]
    elif kind == 'stop' and len(p) > 2:
        i = draw(st.integers(0, len(p) - 1))
        p = p[:i] + [p[i]] * draw(st.integers(2, 4)) + p[i:]
    c['p'] = p
    c['t'] = None
    c['f'] = draw(st.sampled_from([0, 0, 0, -30, 30]))      # scaling by a power of two is exact
    return c


@sub('C11', frame_curves(), quick=1200)
def gram_schmidt(case, ev):
    """frames, normal and binormal against exact rational Gram-Schmidt of the finite differences"""
    n, nd = len(case['p']), case['nd']
    k = F(2) ** case['f']
    rows = [[F(x) * k for x in p] for p in case['p']]
    a = np.array([[float(x) for x in r] for r in rows]).reshape(n, nd)
    c = Curve(a)
    scale = float(np.max(np.abs(a), initial=0.0))
    frame = exact_frame(rows)
    norms = np.array([[oracle.sqrt_f(oracle.vdot(r, r)) for r in f] for f in frame]).reshape(n, 3)
    zero = norms == 0
    clear = norms > 2e-3 * scale
    got = {}
    for j, name in enumerate(FRENET):
        with recorded() as w:
            v = getattr(c, name)
        # the gradient of a few points has warnings of its own
        warned = any(issubclass(x.category, DifferentialGeometryWarning) and 'Frenet' in str(x.message) for x in w)
        same(np.shape(v), (n, nd), f'shape of {name}')
        require(np.all(np.isfinite(v)), '{} is not finite: {}', name, v)
        got[name] = v
        for i in range(n):
            # the first exactly vanishing remainder ends the frame: it and the following vectors are not well defined
            undefined = next((m for m in range(3) if zero[i, m]), 3)
            if j < undefined and all(clear[i, :j + 1]):
                close(v[i], [float(x / F(norms[i, j])) for x in frame[i][j]], f'{name} of point {i}', atol=1e-8)
                close(np.linalg.norm(v[i]), 1.0, f'length of {name} of point {i}', rtol=1e-12)
                for m in range(j):
                    close(np.dot(v[i], got[FRENET[m]][i]), 0.0, f'{name} . {FRENET[m]} at point {i}', atol=1e-8)
            elif j >= undefined and all(norms[i, m] > 0.05 * scale for m in range(undefined)):
                require(np.linalg.norm(v[i]) < 1e-6, '{} of point {} is not well defined, got {}', name, i, v[i])
                require(warned, 'no warning although {} of point {} is not well defined', name, i)
                ev.label(f'{name} undefined')
        if n and np.all(clear[:, :j + 1]):
            require(not warned, '{} warns although it is well defined everywhere', name)
            ev.label(f'{name} defined')
            ev.nontrivial(j >= 1)
    for name, j in (('normal', 1), ('binormal', 2)):
        v = getattr(c, name)
        same(np.shape(v), (n, nd), f'shape of {name}')
        for i in range(n):
            if all(clear[i, m] for m in range(next((m for m in range(j) if zero[i, m]), j))):
                close(v[i], [float(x) for x in frame[i][j]], f'{name} of point {i}', atol=1e-9 * scale + 0.0)
    if n and nd > 2 and np.all(zero[:, 2]) and np.all(clear[:, :2]):
        ev.label('plane')


@st.composite
def smooth_cases(draw):
    return {'kind': draw(st.sampled_from(['circle', 'helix', 'line', 'plane circle', 'ellipse'])), 'n': draw(st.integers(20, 600)),
            'r': draw(st.sampled_from([1.0, 1e-4, 3.5, 1e3, 1e6])), 'b': draw(st.integers(1, 8)) / 4,
            'off': [draw(st.integers(-4, 4)) for _ in range(4)], 'arc': draw(st.integers(3, 12)) / 2,
            'm': draw(st.integers(0, 10 ** 6)), 'nd': draw(st.sampled_from([2, 3, 4]))}


def smooth_curve(case):
    """An analytic curve with its analytic unit tangent and normal."""
    kind, n, r, nd = case['kind'], case['n'], case['r'], case['nd']
    if kind == 'helix' or kind == 'plane circle':
        nd = max(nd, 3)
    s = np.linspace(0, case['arc'], n)
    z = np.zeros((n, nd))
    if kind == 'line':
        u = np.array([1.0, 2.0, -1.5, 0.5][:nd])
        p, e1, e2 = s[:, None] * u, z + u / np.linalg.norm(u), None
    else:
        b = case['b'] if kind == 'helix' else 0.0
        k = 0.5 if kind == 'ellipse' else 1.0
        p, d1, d2 = z.copy(), z.copy(), z.copy()
        p[:, 0], p[:, 1] = np.cos(s), k * np.sin(s)
        d1[:, 0], d1[:, 1] = -np.sin(s), k * np.cos(s)
        d2[:, 0], d2[:, 1] = -np.cos(s), -k * np.sin(s)
        if kind == 'helix':
            p[:, 2], d1[:, 2] = b * s, b
        e1 = d1 / np.linalg.norm(d1, axis=1)[:, None]
        e2 = d2 - np.sum(d2 * e1, axis=1)[:, None] * e1
        e2 = e2 / np.linalg.norm(e2, axis=1)[:, None]
    q = np.eye(nd)
    if kind not in ('plane circle',):
        q, _ = np.linalg.qr(np.random.RandomState(case['m']).randn(nd, nd))
    p = r * (p + np.array(case['off'][:nd])) @ q
    return p, e1 @ q, None if e2 is None else e2 @ q, case['arc'] / (n - 1)


@sub('C11', smooth_cases(), quick=400)
def analytic(case, ev):
    """frames of densely sampled circles, ellipses, helices and lines at any scale against the analytic frame"""
    p, e1, e2, h = smooth_curve(case)
    c = Curve(p)
    n = len(p)
    if n < 12:
        return
    tol = 6 * h
    close(c.frenet1, e1, 'unit tangents', atol=tol)
    if e2 is not None:
        close(c.frenet2[2:-2], e2[2:-2], 'unit normals', atol=tol)
        close(np.linalg.norm(c.frenet2, axis=1), np.ones(n), 'length of unit normals')
        if case['kind'] == 'helix':
            close(np.linalg.norm(c.frenet3, axis=1), np.ones(n), 'length of unit binormals')
            for x, y in ((1, 2), (1, 3), (2, 3)):
                d = np.sum(getattr(c, f'frenet{x}') * getattr(c, f'frenet{y}'), axis=1)
                close(d, np.zeros(n), f'frenet{x} . frenet{y}', atol=1e-5)
        elif case['kind'] == 'plane circle':
            require(np.max(np.abs(c.frenet3)) < 1e-6, 'a plane curve has binormals {}', c.frenet3[:3])
    else:
        require(np.max(np.abs(c.frenet2)) < 1e-6, 'a straight line has normals {}', c.frenet2[:3])
    ev.label(case['kind'])
    ev.nontrivial()


@sub('C11', st.fixed_dictionaries({'nd': st.integers(2, 5), 'x': st.lists(st.integers(-9, 9), min_size=5, max_size=5),
                                   'n': st.integers(0, 3), 'stay': st.booleans()}), quick=120)
def few(case, ev):
    """empty, one-, two- and three-point and constant curves give finite, (nearly) zero undefined vectors of the right shape"""
    n, nd = case['n'], case['nd']
    p = np.array(case['x'][:nd], dtype=float)
    step = np.zeros(nd) if case['stay'] else np.arange(1.0, nd + 1)
    c = Curve(np.array([p + i * step for i in range(n)]).reshape(n, nd))
    for name in FRENET + ('normal', 'binormal'):
        v = getattr(c, name)
        require(np.all(np.isfinite(v)), '{} of {} points is not finite', name, n)
        require(np.size(v) == n * nd, '{} of {} points has shape {}', name, n, np.shape(v))
        if n and name != 'frenet1':
            require(np.max(np.abs(v)) < 1e-9, '{} of a straight curve is {}', name, v)
    if n:
        e = np.zeros(nd) if case['stay'] or n == 1 else step / np.linalg.norm(step)
        close(c.frenet1, np.tile(e, (n, 1)), 'unit tangents of a straight curve')
    ev.label(f'n={n}')
    ev.nontrivial(n > 0)


@st.composite
def long_frames(draw):
    c = draw(gen.long_curve(40, 100, ndims=(2, 3, 4, 5), spread=(9,), parametric=False))
    return dict(c, f=0)


sub('C11', long_frames(), quick=40, name='gram_schmidt_long')(gram_schmidt)

sub('C11', huge.curves(), quick=20, name='huge')(huge.frames)
