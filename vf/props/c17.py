"""C17: overlap of collinear segments is exactly their common part."""
import numpy as np
from hypothesis import strategies as st

from vf import oracle
from vf.core import require, sub
from skcurve import Curve, Point, Segment

KINDS = ('plain', 'plain', 'curve', 'int')


@st.composite
def lines(draw):
    """Two segments on one line, given by integer parameters along an integer direction."""
    nd = draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
    a = draw(st.lists(st.integers(-9, 9), min_size=nd, max_size=nd))
    u = draw(st.lists(st.integers(-5, 5), min_size=nd, max_size=nd))
    if not any(u):
        u[draw(st.integers(0, nd - 1))] = draw(st.sampled_from([1, -1]))
    k = draw(st.lists(st.integers(-6, 6), min_size=4, max_size=4))
    if draw(st.booleans()):
        k[2] = draw(st.sampled_from(k[:2]))          # a shared end
    sc = draw(st.sampled_from([1, 1, 1, 0.125, 1024, 2.0 ** -20]))
    off = draw(st.sampled_from([0, 0, 0, 512, -4096, 2 ** 21]))
    pts = [[(x + m * y) * sc + off * sc for x, y in zip(a, u)] for m in k]
    return {'p': pts, 'nd': nd, 'kind': draw(st.sampled_from(KINDS))}


def segments(case):
    p, kind, nd = case['p'], case['kind'], case['nd']
    if kind == 'curve' and nd > 1:
        return Curve(np.array(p[:2], dtype=float)).segments[0], Curve(np.array(p[2:], dtype=float)).segments[-1]
    if kind == 'int' and all(float(x).is_integer() for q in p for x in q):
        q = [Point([int(x) for x in r], dtype=np.int64) for r in p]
        return Segment(q[0], q[1]), Segment(q[2], q[3])
    return Segment(Point(p[0]), Point(p[1])), Segment(Point(p[2]), Point(p[3]))


def ends(s):
    return sorted([tuple(float(x) for x in s.p1.data), tuple(float(x) for x in s.p2.data)])


@sub('C17', lines(), quick=3000)
def collinear(case, ev):
    """the overlap of two segments of one line has exactly the ends of the common part, None when there is none"""
    s1, s2 = segments(case)
    ref = oracle.overlap(*case['p'])
    want = None if ref is None else sorted(tuple(float(x) for x in e) for e in ref)
    for what, x, y in (('', s1, s2), (' (swapped)', s2, s1), (' (first reversed)', s1.reverse(), s2),
                       (' (second reversed)', s1, s2.reverse()), (' (both reversed)', s2.reverse(), s1.reverse())):
        for check in (False, True):
            r = x.overlap(y, check_collinear=check)
            if want is None:
                require(r is None, 'overlap{} of disjoint segments (check_collinear={}) is {}', what, check, r)
            else:
                require(isinstance(r, Segment), 'overlap{} (check_collinear={}) is {} instead of {}', what, check, r, want)
                require(ends(r) == want, 'overlap{} (check_collinear={}) runs between {} instead of {}', what, check, ends(r), want)
    for s in (s1, s2):
        require(ends(s.overlap(s)) == ends(s), 'overlap with itself is {}', s.overlap(s))
        require(ends(s.overlap(s.reverse())) == ends(s), 'overlap with its reverse is {}', s.overlap(s.reverse()))
    a, b, c, d = case['p']
    ev.label(f'{case["nd"]}-d', case['kind'], 'disjoint' if want is None else 'touch' if want[0] == want[1] else 'overlap',
             'singular operand' if a == b or c == d else 'regular')
    ev.nontrivial(a != b and c != d)


@st.composite
def rounded_lines(draw):
    nd = draw(st.sampled_from([2, 2, 3, 4]))
    f = st.integers(-9000, 9000).map(lambda k: k / 700)
    u = [draw(st.sampled_from([0.0, 1.0])) * draw(f) for _ in range(nd)]
    if max(abs(x) for x in u) < 0.1:
        u[draw(st.integers(0, nd - 1))] = draw(st.sampled_from([0.3, -7.1]))
    k = draw(st.lists(st.integers(-2100, 2100), min_size=4, max_size=4))
    if draw(st.integers(0, 2)) == 0:
        k[2] = draw(st.sampled_from(k[:2]))          # a shared end
    return {'a': draw(st.lists(f, min_size=nd, max_size=nd)), 'u': u, 'k': k, 'off': draw(st.sampled_from([0, 0, 100, -5000, 10.0 ** 6])),
            'ulps': draw(st.lists(st.lists(st.integers(-1, 1), min_size=nd, max_size=nd), min_size=4, max_size=4))}


@sub('C17', rounded_lines(), quick=900)
def rounded(case, ev):
    """segments of one line up to rounding overlap in their common part, and the exact intersection tells the same"""
    k = [x / 700 for x in case['k']]
    if abs(k[0] - k[1]) < 1e-2 or abs(k[2] - k[3]) < 1e-2:
        return
    u = np.array(case['u'])
    a = np.array(case['a']) + case['off']
    p = [a + x * u for x in k]
    p = [x + np.array(j) * np.spacing(np.abs(x)) for x, j in zip(p, case['ulps'])]
    s1, s2 = Segment(Point(p[0]), Point(p[1])), Segment(Point(p[2]), Point(p[3]))
    lo, hi = max(min(k[:2]), min(k[2:])), min(max(k[:2]), max(k[2:]))
    tol = 1e-12 + 1e-14 * (np.max(np.abs(a)) + 10 * np.max(np.abs(u)))
    for what, x, y in (('', s1, s2), (' (swapped)', s2, s1), (' (first reversed)', s1.reverse(), s2), (' (second reversed)', s1, s2.reverse())):
        i = x.intersect(y)
        for r in (x.overlap(y), x.overlap(y, check_collinear=True), i.intersect_segment if i else None):
            if lo > hi:
                require(r is None, 'overlap{} of disjoint segments is {}', what, r)
                continue
            require(isinstance(r, Segment), 'no overlap{} of segments of one line', what)
            e = [a + lo * u, a + hi * u]
            d = min(np.max(np.abs(r.data - np.array(e))), np.max(np.abs(r.data[::-1] - np.array(e))))
            require(d <= tol, 'overlap{} runs between {} instead of {}', what, r.data.tolist(), e)
        if i:
            require(i.intersect_type.name == 'OVERLAP', 'intersection{} is {}', what, i.intersect_type)
    found = Curve(np.array(p[:2])).intersect(Curve(np.array(p[2:])))
    require(len(found) == (lo <= hi), 'intersections of the curves of the segments: {}', found)
    ev.label('disjoint' if lo > hi else 'touch' if lo == hi else 'overlap', 'axis' if 0 in case['u'] else 'slanted')
    ev.nontrivial()


@st.composite
def spatial(draw):
    nd = draw(st.sampled_from([2, 3, 4]))
    pts = draw(st.lists(st.lists(st.integers(-3, 3), min_size=nd, max_size=nd), min_size=4, max_size=4))
    if draw(st.booleans()):
        # parallel neighbours, whose bounding boxes overlap
        pts[3] = [z + y - x for x, y, z in zip(pts[0], pts[1], pts[2])]
    return {'p': pts, 'nd': nd, 'kind': draw(st.sampled_from(KINDS))}


@sub('C17', spatial(), quick=800)
def check_collinear(case, ev):
    """with check_collinear segments which are not on one line have no overlap, whatever their bounding boxes"""
    s1, s2 = segments(case)
    col = oracle.is_collinear(case['p'])
    for x, y in ((s1, s2), (s2, s1), (s1.reverse(), s2)):
        r = x.overlap(y, check_collinear=True)
        if not col:
            require(r is None, 'overlap of non-collinear segments is {}', r)
        else:
            ref = oracle.overlap(*case['p'])
            require((r is None) == (ref is None), 'overlap is {} instead of {}', r, ref)
    ev.label('collinear' if col else 'parallel' if oracle.is_parallel(*case['p']) else 'skew')
    ev.nontrivial(not col)
