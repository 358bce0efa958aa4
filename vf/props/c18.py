"""C18: shortest distance and segment are the true minimum."""
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from vf import gen, oracle
from vf.core import close, raises, require, same, sub
from skcurve import Curve, Point, Segment

SCALES = st.sampled_from([1, 1, 1, 1, 0.25, 2.0 ** 20, 2.0 ** -20, 1e-6, 1e6])


@st.composite
def pairs(draw):
    nd = draw(st.sampled_from([1, 2, 2, 3, 3, 3, 4, 5]))
    v = lambda k=9: draw(st.lists(st.integers(-k, k), min_size=nd, max_size=nd))    # noqa: E731
    kind = draw(st.sampled_from(['generic', 'generic', 'tiny', 'parallel', 'collinear', 'crossing', 'shared', 'singular', 'points', 'near', 'sizes', 'angle']))
    a, u, c, w = v(), v(), v(), v()
    if kind == 'tiny':
        a, u, c, w = v(1), v(1), v(1), v(1)
    elif kind in ('parallel', 'collinear'):
        k = draw(st.sampled_from([1, -1, 2, -3, 0.5]))
        w = [k * x for x in u]
        if kind == 'collinear':
            m = draw(st.sampled_from([-4, -2, -1, 0, 0.5, 1, 2, 3]))
            c = [x + m * y for x, y in zip(a, u)]
    elif kind == 'crossing':
        i, j = draw(st.sampled_from([0, 0.25, 0.5, 1])), draw(st.sampled_from([0, 0.25, 0.5, 1]))
        c = [x + i * y - j * z for x, y, z in zip(a, u, w)]
    elif kind == 'shared':
        c = draw(st.sampled_from([a, [x + y for x, y in zip(a, u)]]))
    elif kind == 'singular':
        w = [0] * nd
    elif kind == 'points':
        u = w = [0] * nd
    elif kind == 'near':
        w = [64 * x for x in u]
        w[draw(st.integers(0, nd - 1))] += draw(st.sampled_from([1, -1]))
    elif kind == 'angle':
        # almost parallel, at any angle
        e = 10.0 ** -draw(st.integers(1, 16))
        k = draw(st.sampled_from([1, -1, 0.3, 5]))
        m, g = draw(st.sampled_from([-1, 0, 0.3, 0.5, 1, 2])), draw(st.sampled_from([0, e, 1e-3, 1]))
        w = [k * x + e * y for x, y in zip(u, w)]
        c = [x + m * y + g * z for x, y, z in zip(a, u, v(1))]
    elif kind == 'sizes':
        w = [1024 * x for x in w]
        c = [x - draw(st.sampled_from([0, 0.5])) * y for x, y in zip(c, w)]
    sc = draw(SCALES)
    off = draw(st.sampled_from([0, 0, 0, 100]))
    pts = [[float(x + off) * sc for x in p] for p in (a, [x + y for x, y in zip(a, u)], c, [x + y for x, y in zip(c, w)])]
    if draw(st.booleans()):
        pts = pts[2:] + pts[:2]
    return {'p': pts, 'nd': nd, 'kind': kind, 'form': draw(st.sampled_from(['plain', 'curve', 'int']))}


def segments(case):
    p = case['p']
    if case['form'] == 'curve' and case['nd'] > 1:
        return Curve(np.array(p[:2])).segments[0], Curve(np.array(p[2:])).segments[0]
    if case['form'] == 'int' and all(float(x).is_integer() for q in p for x in q):
        q = [Point([int(x) for x in r], dtype=np.int64) for r in p]
        return Segment(q[0], q[1]), Segment(q[2], q[3])
    return Segment(Point(p[0]), Point(p[1])), Segment(Point(p[2]), Point(p[3]))


def extent(pts):
    return max((abs(x) for p in pts for x in p), default=0.0) + 1e-300


def on_segment(p, a, b, tol, what):
    d = oracle.sqrt_f(oracle.dist2_point_segment([float(x) for x in p.data], a, b))
    require(d <= tol, '{} is {} away from its operand', what, d)


@sub('C18', pairs(), quick=3000)
def two_segments(case, ev):
    """distance and shortest_segment of two segments against the exact minimum"""
    a, b, c, d = case['p']
    s1, s2 = segments(case)
    ref = oracle.sqrt_f(oracle.dist2_segments(a, b, c, d))
    tol = 1e-9 * extent(case['p'])
    tol *= {'near': 100, 'angle': 1000}.get(case['kind'], 1)
    for what, x, y, (e, f), (g, h) in (('', s1, s2, (a, b), (c, d)), (' (swapped)', s2, s1, (c, d), (a, b)),
                                       (' (reversed)', s1.reverse(), s2, (b, a), (c, d)),
                                       (' (second reversed)', s1, s2.reverse(), (a, b), (d, c))):
        r = x.shortest_segment(y)
        require(isinstance(r, Segment), 'shortest_segment{} is {}', what, r)
        on_segment(r.p1, e, f, tol, 'the beginning of the shortest segment' + what)
        on_segment(r.p2, g, h, tol, 'the end of the shortest segment' + what)
        close(r.seglen, ref, 'length of the shortest segment' + what, rtol=0, atol=tol)
        close(x.distance(y), ref, 'distance' + what, rtol=0, atol=tol)
        require(x.distance(y) == r.seglen, 'distance {} differs from the length {} of the shortest segment', x.distance(y), r.seglen)
    for s in (s1, s2):
        close(s.distance(s), 0.0, 'distance to itself', rtol=0, atol=tol)
        for p in (s.p1, s.p2):
            close(s.distance(p), 0.0, 'distance to its own end', rtol=0, atol=tol)
    ev.label(case['kind'], f'{case["nd"]}-d', 'apart' if ref > tol else 'in contact')
    ev.nontrivial(a != b and c != d)


@st.composite
def point_cases(draw):
    base = draw(pairs())
    a, b, c, _ = base['p']
    where = draw(st.sampled_from(['other', 'on the line', 'beside']))
    if where != 'other':
        t = draw(st.sampled_from([-2, -0.5, 0, 0.25, 0.5, 0.75, 1, 1.5, 3]))
        c = [x + t * (y - x) for x, y in zip(a, b)]
        if where == 'beside':
            k = draw(st.integers(0, len(a) - 1))
            c[k] += draw(st.sampled_from([1, -2, 0.5])) * extent([a, b])
    return {'p': [a, b, c], 'nd': base['nd'], 'form': base['form'], 'where': where, 'kind': base['kind']}


@sub('C18', point_cases(), quick=1500)
def segment_and_point(case, ev):
    """distance and shortest_segment of a segment and a point against the exact minimum"""
    a, b, c = case['p']
    s, _ = segments(dict(case, p=[a, b, c, c]))
    p = Point(c)
    ref = oracle.sqrt_f(oracle.dist2_point_segment(c, a, b))
    tol = 1e-9 * extent(case['p'])
    for what, x in (('', s), (' (reversed)', s.reverse())):
        r = x.shortest_segment(p)
        require(isinstance(r, Segment), 'shortest_segment is {}', r)
        on_segment(r.p1, a, b, tol, 'the beginning of the shortest segment' + what)
        same(r.p2.data, c, 'the end of the shortest segment' + what)
        close(r.seglen, ref, 'length of the shortest segment' + what, rtol=0, atol=tol)
        close(x.distance(p), ref, 'distance' + what, rtol=0, atol=tol)
    ev.label(case['where'], f'{case["nd"]}-d')
    ev.nontrivial(a != b)


@st.composite
def curve_pairs(draw):
    nd = draw(st.sampled_from([2, 3, 4]))
    elem = draw(st.sampled_from([gen.TINY, gen.SMALL, gen.DYADIC]))
    ints = draw(st.booleans()) and elem is not gen.DYADIC
    row = st.lists(elem, min_size=nd, max_size=nd)
    return {'a': draw(st.lists(row, min_size=2, max_size=6)), 'b': draw(st.lists(row, min_size=2, max_size=6)),
            'sc': 1 if ints else draw(st.sampled_from([1, 1, 1e-6, 1e6])), 'ints': ints}


@sub('C18', curve_pairs(), quick=500)
def all_pairs(case, ev):
    """the shortest segments of all segment pairs of two curves (as the almost method finds them) are the true minima"""
    from skcurve import get_intersect_method
    dt = np.int64 if case['ints'] else np.float64
    a, b = (np.array(case[k], dtype=dt) * dt(case['sc']) for k in 'ab')
    rows = get_intersect_method('almost', dist_tol=float('inf'))(Curve(a), Curve(b))
    m1, m2 = len(a) - 1, len(b) - 1
    require(len(rows) == m1 * m2, '{} shortest segments instead of {}', len(rows), m1 * m2)
    ext = extent(a.tolist() + b.tolist())
    for k, r in enumerate(rows):
        i, j = divmod(k, m2)
        e, f, g, h = a[i].tolist(), a[i + 1].tolist(), b[j].tolist(), b[j + 1].tolist()
        ref = oracle.sqrt_f(oracle.dist2_segments(e, f, g, h))
        s = r.intersect_segment
        close(s.seglen, ref, f'length of the shortest segment of the pair ({i}, {j})', rtol=0, atol=1e-9 * ext)
        on_segment(s.p1, e, f, 1e-9 * ext, f'beginning of the shortest segment of the pair ({i}, {j})')
        on_segment(s.p2, g, h, 1e-9 * ext, f'end of the shortest segment of the pair ({i}, {j})')
    ev.label('int' if case['ints'] else 'float')
    ev.nontrivial(m1 * m2 > 1)


@sub('C18', st.fixed_dictionaries({'p': pairs(), 'bad': st.sampled_from(['none', 'list', 'curve', 'int'])}), quick=80)
def rejects(case, ev):
    """operands which are neither a point nor a segment raise TypeError"""
    s, _ = segments(case['p'])
    bad = {'none': None, 'list': case['p']['p'][0], 'int': 5, 'curve': Curve(np.zeros((2, 2)))}[case['bad']]
    raises(TypeError, lambda: s.distance(bad), 'distance')
    raises(TypeError, lambda: s.shortest_segment(bad), 'shortest_segment')
    ev.nontrivial()
