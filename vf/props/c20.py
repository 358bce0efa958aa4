"""C20: curve intersection finds exactly the intersecting segment pairs."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf import gen, huge, oracle
from vf.core import close, raises, require, same, sub
from vf.props.c19 import check_result, extent, flo
from skcurve import Curve, IntersectionType, Point, Segment, get_intersect_method
from skcurve._intersect import SegmentsIntersection, intersect

INT = ('int64', 'int32', 'int16')


@st.composite
def points(draw, nd, lo=0, hi=7, singular=False):
    """A polyline on a small integer grid: plenty of crossings, shared vertices and overlaps."""
    k = draw(st.sampled_from([1, 2, 3, 4, 6]))
    n = max(draw(st.integers(lo, hi)), draw(st.integers(lo, hi)))
    p = []
    for _ in range(n):
        q = draw(st.lists(st.integers(-k, k), min_size=nd, max_size=nd))
        kind = draw(st.integers(0, 5))
        if p and kind == 0:
            # along one axis
            a = draw(st.integers(0, nd - 1))
            q = [y if i == a else x for i, (x, y) in enumerate(zip(p[-1], q))]
        elif len(p) > 1 and kind == 1:
            # back along the last segment or back to an old vertex
            q = list(p[draw(st.integers(0, len(p) - 1))])
        if p and q == p[-1] and not singular:
            q[draw(st.integers(0, nd - 1))] += draw(st.sampled_from([1, -1]))
        p.append(q)
    return p


@st.composite
def pairs(draw, dims=(2, 2, 2, 3, 3, 4), lo=0):
    nd = draw(st.sampled_from(dims))
    sing = draw(st.integers(0, 5)) == 0
    a, b = draw(points(nd, lo=lo, singular=sing)), draw(points(nd, lo=lo, singular=sing))
    if nd > 2 and draw(st.booleans()):
        # plane curves, else contacts in space are rare
        z = [draw(st.integers(-2, 2)) for _ in range(nd - 2)]
        a = [q[:2] + z for q in a]
        b = [q[:2] + z for q in b]
    if a and b and draw(st.integers(0, 3)) == 0:
        i = draw(st.integers(0, len(a) - 1))
        part = a[i:i + draw(st.integers(1, 3))]
        b = b + (part[::-1] if draw(st.booleans()) else part)
    if not sing:
        for p in (a, b):
            i = 1
            while i < len(p):
                if p[i] == p[i - 1]:
                    del p[i]
                else:
                    i += 1
    dt = draw(st.sampled_from(['float64', 'float64', 'float64', 'int64', 'int32']))
    sc = draw(st.sampled_from([1, 1, 0.125, 32, 2.0 ** -10, 2.0 ** 30])) if dt == 'float64' else 1
    off = draw(st.sampled_from([0, 0, 100, -1000, 2 ** 21])) if dt == 'float64' else 0
    f = lambda p: [[(x + off) * sc for x in q] for q in p]      # noqa: E731
    return {'a': f(a), 'b': f(b), 'nd': nd, 'dt': dt, 'par': draw(st.booleans())}


def curve(case, k):
    p = np.array(case[k], dtype=case['dt']).reshape(-1, case['nd'])
    return Curve(p, tdata=np.arange(len(p)) if case['par'] else None)


def reference(p, q):
    """All intersecting pairs of segments of the two polylines, in row order."""
    out = []
    for i in range(len(p) - 1):
        for j in range(len(q) - 1):
            if all(min(max(w, x), max(y, z)) >= max(min(w, x), min(y, z)) for w, x, y, z in zip(p[i], p[i + 1], q[j], q[j + 1])):
                r = oracle.intersect(p[i], p[i + 1], q[j], q[j + 1])
                if r[0] != 'none':
                    out.append((i, j, r))
    return out


def same_data(r, s, what):
    require(r.intersect_type is s.intersect_type, '{}: {} differs from {} of the single pair', what, r.intersect_type, s.intersect_type)
    if r.intersect_type is IntersectionType.EXACT:
        same(r.intersect_point.data, s.intersect_point.data, what + ': point of the single pair')
    else:
        same(r.intersect_segment.data, s.intersect_segment.data, what + ': segment of the single pair')


def check_list(rs, c1, c2, ref, ext, what, single=False):
    require(isinstance(rs, list), '{} gives {}', what, type(rs))
    for r in rs:
        require(isinstance(r, SegmentsIntersection) and bool(r), '{}: {}', what, r)
    got = [(r.segment1.idx, r.segment2.idx) for r in rs]
    require(got == [(i, j) for i, j, _ in ref], '{}: segment pairs {} instead of {}', what, got, [(i, j) for i, j, _ in ref])
    for r, (i, j, x) in zip(rs, ref):
        here = f'{what}, pair ({i}, {j})'
        require(r.segment1.curve is c1 and r.segment2.curve is c2, '{}: segments of other curves', here)
        same(r.segment1.data, c1.data[i:i + 2], here + ': first segment')
        same(r.segment2.data, c2.data[j:j + 2], here + ': second segment')
        check_result(r, r.segment1, r.segment2, x, ext, here)
        if single:
            same_data(r, c1.segments[i].intersect(c2.segments[j]), here)


def swap(ref):
    return sorted(((j, i, (r[0], r[1], r[3], r[2]) if r[0] == 'point' else r) for i, j, r in ref), key=lambda x: x[:2])


def labels(ref, ev):
    ev.label(*{r[0] for _, _, r in ref} or {'none'})


@sub('C20', pairs(), quick=500)
def two_curves(case, ev):
    """the intersections of two curves against exact geometry for all pairs of segments, in both operand orders"""
    c1, c2 = curve(case, 'a'), curve(case, 'b')
    ref = reference(case['a'], case['b'])
    ext = extent(case['a'] + case['b'] + [[1e-300]])
    check_list(c1.intersect(c2), c1, c2, ref, ext, 'intersect', single=True)
    check_list(c2.intersect(c1), c2, c1, swap(ref), ext, 'intersect (swapped)')
    n = len(c2) - 1
    rev = sorted(((i, n - 1 - j, (r[0], r[1], r[2], 1 - r[3]) if r[0] == 'point' else r) for i, j, r in ref), key=lambda x: x[:2])
    if case['par']:
        c3 = c2.reverse()
        check_list(intersect(c1, c3, method='exact'), c1, c3, rev, ext, 'intersect with the reversed curve')
    labels(ref, ev)
    ev.label(case['dt'], f'{case["nd"]}-d', 'degenerate' if min(len(c1), len(c2)) < 2 else '')
    ev.nontrivial(len(ref) > 0 and len(c1) > 2 and len(c2) > 2)


@sub('C20', pairs(), quick=450)
def self_intersection(case, ev):
    """a curve with itself: exactly the intersecting pairs i < j which are not adjacent; with a copy: all pairs"""
    p = case['a'] + case['b'][:3]
    case = dict(case, a=p)
    c = curve(case, 'a')
    ref = reference(p, p)
    ext = extent(p + [[1e-300]])
    mine = [x for x in ref if x[1] - x[0] >= 2]
    check_list(c.intersect(), c, c, mine, ext, 'self-intersection', single=True)
    c2 = copy.copy(c)
    check_list(c.intersect(c2), c, c2, ref, ext, 'intersection with a copy')
    labels(mine, ev)
    if len(p) > 3 and p[0] == p[-1]:
        ev.label('closed')
    ev.nontrivial(len(mine) > 0)


@sub('C20', pairs(lo=2), quick=500)
def curve_and_segment(case, ev):
    """a curve and a segment, in both orders: the segment itself is named by the results"""
    c, v = curve(case, 'a'), case['b'][:2]
    if len(v) < 2:
        return
    s = Segment(Point(v[0], dtype=case['dt']), Point(v[1], dtype=case['dt']))
    ref = reference(case['a'], v)
    ext = extent(case['a'] + v)
    for what, rs, one, two in (('curve with segment', c.intersect(s), 1, 2), ('segment with curve', s.intersect(c), 2, 1)):
        require(isinstance(rs, list) and len(rs) == len(ref), '{}: {} intersections instead of {}', what, len(rs), len(ref))
        for r, (i, _, x) in zip(rs, ref):
            mine, seg = (r.segment1, r.segment2) if one == 1 else (r.segment2, r.segment1)
            require(seg is s, '{}: the result names {} instead of the segment', what, seg)
            require(mine.curve is c and mine.idx == i, '{}: segment {} instead of {}', what, mine, i)
            if x[0] == 'point' and one == 2:
                x = (x[0], x[1], x[3], x[2])
            check_result(r, r.segment1, r.segment2, x, ext, what)
            same_data(r, r.segment1.intersect(r.segment2), what)
    labels(ref, ev)
    ev.nontrivial(len(ref) > 0)


@st.composite
def decimals(draw):
    nd = 2
    f = st.integers(-4000, 4000).map(lambda k: k / 1000)
    row = st.lists(f, min_size=nd, max_size=nd)
    return {'a': draw(st.lists(row, min_size=2, max_size=9)), 'b': draw(st.lists(row, min_size=2, max_size=9)), 'nd': nd, 'dt': 'float64', 'par': False}


@sub('C20', decimals(), quick=300)
def general_position(case, ev):
    """curves with decimal coordinates: the pairs are those which the segment intersection reports pair by pair"""
    c1, c2 = curve(case, 'a'), curve(case, 'b')
    want = [(i, j) for i in range(len(c1) - 1) for j in range(len(c2) - 1) if c1.segments[i].intersect(c2.segments[j])]
    rs = c1.intersect(c2)
    got = [(r.segment1.idx, r.segment2.idx) for r in rs]
    require(got == want, 'pairs {} instead of {}', got, want)
    for r in rs:
        same_data(r, r.segment1.intersect(r.segment2), f'pair {(r.segment1.idx, r.segment2.idx)}')
    want = [(i, j) for i in range(len(c1) - 1) for j in range(i + 2, len(c1) - 1) if c1.segments[i].intersect(c1.segments[j])]
    got = [(r.segment1.idx, r.segment2.idx) for r in c1.intersect()]
    require(got == want, 'self-intersection: pairs {} instead of {}', got, want)
    ev.nontrivial(len(rs) > 0)


@st.composite
def dense(draw):
    """Longer curves made of sines: many segments, in-general crossings at scattered indices."""
    g = lambda a, b: draw(st.integers(a, b))     # noqa: E731
    return {'n': g(20, 60), 'm': g(20, 60), 'f': [g(1, 5) for _ in range(4)], 'ph': [g(0, 62) / 10 + 0.0137 for _ in range(4)], 'off': [g(-10, 10) / 10, g(-10, 10) / 10]}


@sub('C20', dense(), quick=40)
def long_curves(case, ev):
    """long curves: as many crossings as an orientation test of all pairs finds"""
    def pts(n, k, off):
        t = np.linspace(0, 6.2, n)
        return np.stack((np.sin(case['f'][k] * t + case['ph'][k]) + off[0], np.sin(case['f'][k + 1] * t + case['ph'][k + 1]) + off[1]), axis=1)
    p, q = pts(case['n'], 0, [0, 0]), pts(case['m'], 2, case['off'])

    def side(a, b, c):
        return (b[..., 0] - a[..., 0]) * (c[..., 1] - a[..., 1]) - (b[..., 1] - a[..., 1]) * (c[..., 0] - a[..., 0])

    def crossings(p, q):
        a, b, c, d = p[:-1, None], p[1:, None], q[None, :-1], q[None, 1:]
        o = [side(a, b, c), side(a, b, d), side(c, d, a), side(c, d, b)]
        clear = np.all([np.abs(x) > 1e-7 for x in o], axis=0)
        return (o[0] * o[1] < 0) & (o[2] * o[3] < 0), clear
    hit, clear = crossings(p, q)
    got = {(r.segment1.idx, r.segment2.idx) for r in Curve(p).intersect(Curve(q))}
    wrong = [(i, j) for i, j in zip(*np.nonzero(clear)) if hit[i, j] != ((i, j) in got)]
    require(not wrong, 'wrong pairs {}', wrong[:5])
    hit, clear = crossings(p, p)
    got = {(r.segment1.idx, r.segment2.idx) for r in Curve(p).intersect()}
    wrong = [(i, j) for i, j in zip(*np.nonzero(clear)) if j - i >= 2 and hit[i, j] != ((i, j) in got)]
    require(not wrong and all(j - i >= 2 for i, j in got), 'self-intersection: wrong pairs {} of {}', wrong[:5], got)
    ev.nontrivial(bool(np.any(hit)))


@sub('C20', st.fixed_dictionaries({'p': pairs(), 'm': st.sampled_from(['exact', 'almost', None])}), quick=120)
def degenerate(case, ev):
    """empty and one-point curves intersect nothing; operands of different dimension raise ValueError"""
    v = case['p']
    c = curve(v, 'a')
    kw = {'method': case['m']} if case['m'] else {}
    nd = v['nd']
    seg = Segment(Point([0] * nd), Point([1] * nd))
    for n in (0, 1):
        e = Curve(np.zeros((n, nd)))
        for what, rs in ((f'{n}-point', e.intersect(c, **kw)), ('swapped', c.intersect(e, **kw)), ('itself', e.intersect(**kw)),
                         ('segment', e.intersect(seg, **kw)), ('by segment', seg.intersect(e, **kw))):
            require(isinstance(rs, list) and rs == [], '{} points, {}: {}', n, what, rs)
    big = Curve(np.zeros((3, nd + 1)))
    bigseg = Segment(Point([0] * (nd + 1)), Point([1] * (nd + 1)))
    raises(ValueError, lambda: c.intersect(big, **kw), 'curves of different dimension')
    raises(ValueError, lambda: big.intersect(c, **kw), 'curves of different dimension')
    raises(ValueError, lambda: c.intersect(bigseg, **kw), 'a segment of another dimension')
    raises(ValueError, lambda: bigseg.intersect(c, **kw), 'a segment of another dimension')
    for other in (5, v['b'], c.data, Point([0] * nd)):
        raises(TypeError, lambda: c.intersect(other, **kw), f'{type(other)} as operand')
    ev.label(str(case['m']))
    ev.nontrivial()

sub('C20', huge.zigzags(('exact',)), quick=16, name='huge')(huge.crossings)


@st.composite
def turned(draw):
    nd = draw(st.sampled_from([2, 2, 2, 3, 3, 4]))
    sing = draw(st.integers(0, 7)) == 0
    a, b = draw(points(nd, singular=sing)), draw(points(nd, singular=sing))
    if nd > 2 and draw(st.integers(0, 2)):
        z = [draw(st.integers(-2, 2)) for _ in range(nd - 2)]
        a, b = [q[:2] + z for q in a], [q[:2] + z for q in b]
    if a and b and draw(st.booleans()):
        i = draw(st.integers(0, len(a) - 1))
        part = a[i:i + draw(st.integers(1, 3))]
        b = b + (part[::-1] if draw(st.booleans()) else part)
    return {'a': a, 'b': b, 'nd': nd, 'noise': draw(st.sampled_from([None, None, 1, 2, 3])),
            'angles': draw(st.lists(st.sampled_from([0.0, 0.0, 0.1, 0.7, 1.0, 1.5, 2.2, -3.0, np.pi / 2]), min_size=nd - 1, max_size=nd - 1)),
            'shear': draw(st.sampled_from([0.0, 0.0, 0.3, -1.7])), 'size': draw(st.sampled_from([1.0, 0.1, 1 / 3, 700.3])),
            'off': draw(st.lists(st.sampled_from([0.0, 0.1, 12.3, -1000.7]), min_size=nd, max_size=nd))}


def turn(case):
    """A well-conditioned linear map and a translation."""
    nd = case['nd']
    m = np.eye(nd)
    for k, phi in enumerate(case['angles']):
        r = np.eye(nd)
        r[k, k] = r[k + 1, k + 1] = np.cos(phi)
        r[k, k + 1], r[k + 1, k] = -np.sin(phi), np.sin(phi)
        m = r @ m
    m[0] += case['shear'] * m[1]
    m *= case['size']
    off = np.array(case['off'])
    return lambda p: np.asarray(p, dtype=float).reshape(-1, nd) @ m.T + off


def noisy(f, p, seed):
    """The moved points; with a seed their coordinates differ by a few units in the last place (equal points equally)."""
    x = f(p)
    if seed is None:
        return x
    rs, seen = np.random.RandomState(seed), {}
    for q in p:
        if tuple(q) not in seen:
            seen[tuple(q)] = 1 + rs.randint(-2, 3, x.shape[1]) * 2.0 ** -52
    return x * np.array([seen[tuple(q)] for q in p])


@sub('C20', turned(), quick=500)
def rounded(case, ev):
    """rotated, sheared, scaled and translated in floating point, the curves intersect in the same pairs of segments, in
    the transformed points and parts"""
    f, nd = turn(case), case['nd']
    a, b = case['a'], case['b']
    c1, c2 = Curve(noisy(f, a, case['noise'])) if a else Curve([], ndmin=nd), Curve(noisy(f, b, case['noise'] and case['noise'] + 9)) if b else Curve([], ndmin=nd)
    size = float(np.max(np.abs(f(a + b)), initial=1.0))

    def check(rs, ref, what):
        got = {(r.segment1.idx, r.segment2.idx): r for r in rs}
        require(len(got) == len(rs) and set(got) == {(i, j) for i, j, _ in ref}, '{}: pairs {} instead of {}', what, sorted(got), [(i, j) for i, j, _ in ref])
        for i, j, x in ref:
            r = got[i, j]
            want = 'EXACT' if x[0] == 'point' else 'OVERLAP'
            require(r.intersect_type.name == want, '{}: pair {} is {} instead of {}', what, (i, j), r.intersect_type, want)
            if x[0] == 'point':
                close(r.intersect_point.data, f([flo(x[1])])[0], f'{what}: point of pair {i, j}', rtol=0, atol=1e-7 * size)
            else:
                e, d = f([flo(x[1]), flo(x[2])]), r.intersect_segment.data
                require(min(np.max(np.abs(d - e)), np.max(np.abs(d[::-1] - e))) <= 1e-7 * size, '{}: part of pair {} is {} instead of {}', what, (i, j), d, e)

    ref = reference(a, b)
    check(c1.intersect(c2), ref, 'intersections')
    check(c2.intersect(c1), swap(ref), 'intersections of swapped curves')
    own = [(i, j, x) for i, j, x in reference(a, a) if j - i >= 2]
    check(c1.intersect(), own, 'self-intersections')
    for k, s in enumerate(list(c2.segments)[:2]):
        check(s.to_curve().intersect(c1), [(0, i, x) for i, j, x in ref if j == k], 'intersections of a segment')
    ev.label(f'{nd}-d', f'{min(len(ref), 3)} hits', *sorted({x[0] for _, _, x in ref + own}))
    ev.nontrivial(bool(ref))
