"""C16: parallel, collinear, coplanar and angle decide the geometric predicate."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import gen, oracle
from vf.core import close, raises, recorded, require, sub
from skcurve import Curve, GeometryAlgorithmsWarning, Point, Segment


@st.composite
def pairs(draw):
    """Two segments with small integer coordinates and many coincidences, scaled by powers of two, plus an offset."""
    nd = draw(st.sampled_from([1, 2, 2, 3, 3, 3, 4, 5]))
    v = lambda k=6: draw(st.lists(st.integers(-k, k), min_size=nd, max_size=nd))    # noqa: E731
    kind = draw(st.sampled_from(['generic', 'tiny', 'parallel', 'collinear', 'plane', 'singular', 'shared', 'near']))
    a, u = v(), v()
    c, w = v(), v()
    f = 1
    if kind == 'tiny':
        a, u, c, w = v(1), v(1), v(1), v(1)
    elif kind in ('parallel', 'collinear'):
        k = draw(st.sampled_from([1, -1, 2, -3, 5, 0]))
        w = [k * x for x in u]
        if kind == 'collinear':
            m = draw(st.integers(-4, 4))
            c = [x + m * y for x, y in zip(a, u)]
    elif kind == 'plane':
        k, m, i, j = (draw(st.integers(-3, 3)) for _ in range(4))
        e = v(3)
        c = [x + k * y + m * z for x, y, z in zip(a, u, e)]
        w = [i * y + j * z for y, z in zip(u, e)]
    elif kind == 'singular':
        w = [0] * nd
        if draw(st.booleans()):
            m = draw(st.integers(-2, 3))
            c = [x + m * y for x, y in zip(a, u)]
    elif kind == 'shared':
        c = draw(st.sampled_from([a, [x + y for x, y in zip(a, u)]]))
    elif kind == 'near':
        # long, almost parallel: the smallest angle possible at this size
        f = draw(st.sampled_from([16, 100]))
        u = [f * x for x in u]
        w = list(u)
        w[draw(st.integers(0, nd - 1))] += draw(st.sampled_from([1, -1]))
    s1 = draw(st.sampled_from([1, 1, 1, 1 / 64, 64]))       # lengths of the two segments differ by powers of two
    s2 = draw(st.sampled_from([1, 1, 1, 1 / 64, 64])) if kind in ('generic', 'parallel', 'tiny', 'near') else 1
    off = draw(st.sampled_from([0, 0, 0, 64, -1024, 2 ** 21]))
    sc = draw(st.sampled_from([1, 1, 0.25, 2.0 ** -12, 2.0 ** 12]))
    if kind in ('generic', 'parallel', 'tiny', 'near'):
        u, w = [x * s1 for x in u], [x * s2 for x in w]
    pts = [a, [x + y for x, y in zip(a, u)], c, [x + y for x, y in zip(c, w)]]
    pts = [[(x + off) * sc for x in p] for p in pts]
    if draw(st.booleans()):
        pts = [pts[1], pts[0]] + pts[2:]
    return {'p': pts, 'nd': nd, 'kind': kind, 'curve': draw(st.booleans())}


def segments(case):
    p = case['p']
    if case['curve'] and case['nd'] > 1:
        return Curve(np.array(p[:2], dtype=float)).segments[0], Curve(np.array(p[2:], dtype=float)).segments[-1]
    return Segment(Point(p[0]), Point(p[1])), Segment(Point(p[2]), Point(p[3]))


@sub('C16', pairs(), quick=2500)
def predicates(case, ev):
    """parallel, collinear and coplanar against exact rational geometry, with swapped and reversed operands"""
    a, b, c, d = case['p']
    s1, s2 = segments(case)
    par, col, cop = oracle.is_parallel(a, b, c, d), oracle.is_collinear([a, b, c, d]), oracle.is_coplanar([a, b, c, d])
    for what, x, y in (('', s1, s2), (' (swapped)', s2, s1), (' (reversed)', s1.reverse(), s2), (' (both reversed)', s2.reverse(), s1.reverse())):
        for name, ref in (('parallel', par), ('collinear', col), ('coplanar', cop)):
            r = getattr(x, name)(y)
            require(isinstance(r, (bool, np.bool_)), '{} gives {}', name, r)
            require(bool(r) == ref, '{}{} is {} instead of {}', name, what, r, ref)
    for q in (c, d, a, b):
        pt = Point(q)
        require(bool(s1.collinear(pt)) == oracle.is_collinear([a, b, q]), 'collinear with the point {} is {}', q, s1.collinear(pt))
        require(s1.coplanar(pt), 'not coplanar with a point')
    require(s1.parallel(s1) and s1.collinear(s1) and s1.coplanar(s1), 'a segment and itself')
    require(s1.parallel(s1.reverse()) and s1.collinear(s1.reverse()), 'a segment and its reverse')
    ev.label(case['kind'], f'{case["nd"]}-d', 'parallel' if par else 'skew', 'collinear' if col else '', 'coplanar' if cop else 'spatial')
    ev.nontrivial(a != b and c != d)


@sub('C16', pairs(), quick=1200)
def angle(case, ev):
    """the angle against atan2 of exact products: symmetric, in [0, pi], NaN with a warning for singular segments"""
    a, b, c, d = case['p']
    s1, s2 = segments(case)
    u, v = oracle.vsub(oracle.fv(b), oracle.fv(a)), oracle.vsub(oracle.fv(d), oracle.fv(c))
    uu, vv, uv = oracle.vdot(u, u), oracle.vdot(v, v), oracle.vdot(u, v)
    with recorded() as w:
        phi, psi = s1.angle(s2), s2.angle(s1)
    w = [x for x in w if issubclass(x.category, GeometryAlgorithmsWarning)]
    if uu == 0 or vv == 0:
        require(np.isnan(phi) and np.isnan(psi), 'angle of a singular segment is {}', phi)
        require(len(w) >= 2, 'no warning for a singular segment')
        ev.label('singular')
        return
    require(not w, 'warning: {}', [str(x.message) for x in w])
    ref = math.atan2(oracle.sqrt_f(uu * vv - uv * uv), float(uv) if uv else 0.0)
    if uv:
        k = oracle.sqrt_f(uu * vv)
        ref = math.atan2(oracle.sqrt_f(uu * vv - uv * uv) / k, float(uv) / k)
    require(0 <= phi <= math.pi, 'angle {} outside [0, pi]', phi)
    # the arc cosine loses half of the digits near 0 and pi
    close(phi, ref, 'angle', rtol=0, atol=1e-9 if 1e-3 < ref < math.pi - 1e-3 else 6e-8)
    close(psi, phi, 'angle with swapped operands', rtol=0, atol=6e-8)
    close(s1.angle(s2.reverse()), math.pi - phi, 'angle with the reversed segment', rtol=0, atol=6e-8)
    close(s1.angle(s1), 0.0, 'angle with itself', rtol=0, atol=6e-8)
    close(s1.angle(s1.reverse()), math.pi, 'angle with its reverse', rtol=0, atol=6e-8)
    for nd in (0, 1, 3, 6):
        lo, hi = (math.acos(max(-1.0, min(1.0, round(math.cos(ref), nd) + e))) for e in (1e-12, -1e-12))
        x = 10 ** nd * math.cos(ref)
        if abs(x - math.floor(x) - 0.5) > 1e-6:
            r = s1.angle(s2, ndigits=nd)
            require(lo - 1e-9 <= r <= hi + 1e-9, 'angle with ndigits={} is {} instead of {}', nd, r, lo)
    ev.label(case['kind'], 'right' if uv == 0 else 'acute' if uv > 0 else 'obtuse')
    ev.nontrivial()


@sub('C16', st.fixed_dictionaries({'p': pairs(), 'bad': st.sampled_from(['none', 'list', 'curve', 'int'])}), quick=100)
def rejects(case, ev):
    """operands of another type raise TypeError"""
    s1, s2 = segments(case['p'])
    bad = {'none': None, 'list': case['p']['p'][0], 'int': 5, 'curve': Curve(np.zeros((2, 2)))}[case['bad']]
    raises(TypeError, lambda: s1.angle(bad), 'angle')
    raises(TypeError, lambda: s1.angle(s2.p1), 'angle with a point')
    raises(TypeError, lambda: s1.collinear(bad), 'collinear')
    raises(TypeError, lambda: s1.coplanar(bad), 'coplanar')
    ev.nontrivial()


@st.composite
def near_flat(draw):
    """A line or plane figure of well-proportioned points, one of them lifted off it by a known height."""
    what = draw(st.sampled_from(['collinear', 'collinear_segments', 'coplanar', 'coplanar_segments', 't']))
    nd = draw(st.sampled_from([3, 3, 4] if 'coplanar' in what else [2, 2, 3, 4]))
    size = draw(st.sampled_from([8.0, 64.0, 2.0 ** -8, 2.0 ** 12]))
    h = size * 2.0 ** -draw(st.integers(8, 24))
    k = draw(st.integers(1, 7)) / 8
    m = draw(st.integers(1, 7)) / 8
    n = {'collinear': 3, 't': 3}.get(what, 4)
    pts = [[0.0] * nd for _ in range(n)]
    pts[1][0] = size
    if 'coplanar' in what:
        pts[2][1] = size
        pts[3][0], pts[3][1], pts[3][2] = k * size, m * size, h
    else:
        pts[2][0], pts[2][1] = k * size, h
        if n == 4:
            pts[3][0] = (m + 1) * size
    axes, signs = draw(st.permutations(range(nd))), draw(st.lists(st.sampled_from([1, -1]), min_size=nd, max_size=nd))
    off = draw(st.sampled_from([0, 0, 1, -4])) * size
    pts = [[s * p[a] + off for a, s in zip(axes, signs)] for p in pts]
    if what != 't':
        pts = draw(st.permutations(pts))
    return {'what': what, 'p': pts, 'h': h, 'k': k, 'f': draw(st.sampled_from([8.0, 64.0, 4096.0]))}


@sub('C16', near_flat(), quick=500)
def tolerance(case, ev):
    """a tolerance well above the deviation accepts, one well below it rejects, and so does the default one"""
    what, h, f = case['what'], case['h'], case['f']
    p = [Point(x) for x in case['p']]
    s = Segment(p[0], p[1])
    o = p[2] if len(p) == 3 else Segment(p[2], p[3])
    if what.startswith('co'):
        name = what.split('_')[0]
        test = getattr(s, name)
        require(test(o, tol=h * f) in (True, np.True_), '{} with the tolerance {} is false for points {} off', name, h * f, h)
        require(test(o, tol=h / f) in (False, np.False_), '{} with the tolerance {} is true for points {} off', name, h / f, h)
        require(not test(o), '{} is true for points {} off', name, h)
    else:
        with recorded():
            t, ts = s.t(o, tol=h * f), s.t([p[0], o, p[1]], tol=h * f)
        close(t, case['k'], 't within the tolerance', rtol=0, atol=1e-9)
        close(ts, [0, case['k'], 1], 't of a sequence within the tolerance', rtol=0, atol=1e-9)
        with recorded() as w:
            t, ts = s.t(o, tol=h / f), s.t([p[0], o, p[1]], tol=h / f)
        require(len(w) >= 2, 't outside of the tolerance warns {} times', len(w))
        close(t, np.nan, 't outside of the tolerance', rtol=0, atol=1e-9)
        close(ts, [0, np.nan, 1], 't of a sequence with a point outside of the tolerance', rtol=0, atol=1e-9)
    ev.label(what)
    ev.nontrivial(True)


@st.composite
def decimals(draw):
    """Figures with decimal coordinates, computed in floating point, away from the origin."""
    nd = draw(st.sampled_from([2, 3, 3, 4]))
    f = st.integers(-9000, 9000).map(lambda k: k / 1000)
    v = lambda: draw(st.lists(f, min_size=nd, max_size=nd))     # noqa: E731
    off = draw(st.sampled_from([0, 0, 100, -5000, 10.0 ** 6]))
    par = lambda: draw(st.integers(-3000, 3000)) / 1000     # noqa: E731
    return {'a': [x + off for x in v()], 'u': v(), 'e': v(), 'k': [par() for _ in range(6)], 'nd': nd, 'off': off, 'h': draw(st.sampled_from([0.001, 0.1, 2.0]))}


@sub('C16', decimals(), quick=500)
def rounded(case, ev):
    """figures which are collinear, parallel or coplanar up to rounding are so, those which are clearly not are not"""
    a, u, e = (np.array(case[k]) for k in 'aue')
    k, h, nd = case['k'], case['h'], case['nd']
    nu, ne = np.linalg.norm(u), np.linalg.norm(e)
    if nu < 0.1 or ne < 0.1:
        return
    w = e - (e @ u) / nu ** 2 * u
    w2 = np.linalg.norm(w)
    if w2 < 0.05 * ne:
        return
    w = w / w2
    s = Segment(Point(a), Point(a + u))
    x, y = a + k[0] * u, a + k[1] * u
    for o in (s, s.reverse()):
        require(o.collinear(Point(x)), 'a point of the line is not collinear')
        require(not o.collinear(Point(x + h * w)), 'collinear with a point {} off', h)
        if abs(k[0] - k[1]) > 1e-2:
            r = Segment(Point(x), Point(y))
            require(o.collinear(r) and r.collinear(o), 'segments of one line are not collinear')
            require(o.parallel(r) and o.coplanar(r), 'segments of one line are not parallel or coplanar')
            r = Segment(Point(x + h * w), Point(y + h * w))
            require(not o.collinear(r) and not r.collinear(o), 'collinear with a parallel segment {} off', h)
            require(o.parallel(r) and r.parallel(o) and o.coplanar(r), 'parallel segments are not parallel or coplanar')
            r = Segment(Point(x), Point(y + h * w))
            require(not o.collinear(r) and not o.parallel(r) and not r.parallel(o), 'collinear or parallel with a segment turned by {}', h)
    with recorded():
        close(s.t(Point(x)), k[0], 't of a point of the line', rtol=0, atol=(1e-12 + 1e-14 * abs(case['off'])) / nu)
        close(s.t([Point(x), Point(y + h * w)]), [k[0], np.nan], 't of a point on and a point off the line', rtol=0, atol=(1e-12 + 1e-14 * abs(case['off'])) / nu)
    if nd > 2 and abs(k[3]) > 0.05 and abs(k[2]) + abs(k[4]) > 0.05:
        n = np.linalg.svd(np.array([u, w]))[2][-1]
        p, q = a + k[2] * u + k[3] * e, a + k[4] * u + k[5] * e
        r = Segment(Point(p), Point(q))
        require(s.coplanar(r) and r.coplanar(s) and s.coplanar(Point(p)), 'segments of one plane are not coplanar')
        if abs(k[5]) > 0.05:
            r = Segment(Point(p), Point(q + h * n))
            require(not s.coplanar(r) and not r.coplanar(s), 'coplanar with an end {} off the plane', h)
    ev.label(f'{nd}-d', 'far' if case['off'] else 'near the origin')
    ev.nontrivial()
