"""C21: almost-intersection reports exactly the pairs closer than the tolerance."""
import copy
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

from vf import huge, oracle
from vf.core import close, require, same, sub
from vf.props.c19 import extent, flo
from vf.props.c20 import points
from skcurve import Curve, IntersectionType, Point, Segment

TOLS = st.sampled_from([1e-5, 1e-3, 0.1, 0.3, 0.6, 0.9, 1.2, 1.6, 2.3, 3.1, 5.3])


@st.composite
def pairs(draw, lo=2, hi=6, dims=(2, 3, 3, 4)):
    nd = draw(st.sampled_from(dims))
    sing = draw(st.integers(0, 4)) == 0
    a, b = draw(points(nd, lo=lo, hi=hi, singular=sing)), draw(points(nd, lo=lo, hi=hi, singular=sing))
    if draw(st.booleans()) and len(a) > 1 and b:
        # a piece of b follows a at a small distance
        d = draw(st.lists(st.sampled_from([0, 0, 0.25, -0.5]), min_size=nd, max_size=nd))
        b = b + [[x + y for x, y in zip(q, d)] for q in a[:3]]
    ints = draw(st.booleans()) and all(float(x).is_integer() for p in (a, b) for q in p for x in q)
    dt = draw(st.sampled_from(['int64', 'int32'])) if ints else 'float64'
    sc = draw(st.sampled_from([1, 1, 1, 2.0 ** -10, 2.0 ** 10])) if not ints else 1
    f = lambda p: [[x * sc for x in q] for q in p]      # noqa: E731
    return {'a': f(a), 'b': f(b), 'nd': nd, 'dt': dt, 'tol': draw(TOLS) * sc}


def curve(case, k):
    return Curve(np.array(case[k], dtype=case['dt']).reshape(-1, case['nd']))


def distances(p, q, tol):
    """Exact distances of all pairs of segments; None if one of them is too close to the tolerance to call."""
    d = {}
    for i in range(len(p) - 1):
        for j in range(len(q) - 1):
            d[i, j] = oracle.sqrt_f(oracle.dist2_segments(p[i], p[i + 1], q[j], q[j + 1]))
            if abs(d[i, j] - tol) < 1e-6 * tol:
                return None
    return d


def check_almost(r, d, ext, what):
    require(r.intersect_type is IntersectionType.ALMOST and bool(r), '{}: {}', what, r.intersect_type)
    s = r.intersect_segment
    require(isinstance(s, Segment) and r.intersect_info.data is s, '{}: segment {}', what, s)
    close(s.seglen, d, what + ': length of the connecting segment', rtol=0, atol=1e-9 * ext)
    for p, seg in ((s.p1, r.segment1), (s.p2, r.segment2)):
        off = oracle.sqrt_f(oracle.dist2_point_segment(flo(p.data), flo(seg.p1.data), flo(seg.p2.data)))
        require(off <= 1e-9 * ext, '{}: an end of the connecting segment is {} away from its segment', what, off)
    close(r.intersect_point.data, (s.p1.data + s.p2.data) / 2, what + ': point', rtol=0, atol=1e-9 * ext)


@sub('C21', pairs(hi=3), quick=900)
def segment_pairs(case, ev):
    """two segments intersect almost exactly when their distance is below dist_tol, in both operand orders"""
    p, q, tol = case['a'][:2], case['b'][:2], case['tol']
    d = distances(p, q, tol)
    if d is None:
        return
    d = d[0, 0]
    ext = extent(p + q + [[1e-300]])
    dt = case['dt']
    s1, s2 = Segment(Point(p[0], dtype=dt), Point(p[1], dtype=dt)), Segment(Point(q[0], dtype=dt), Point(q[1], dtype=dt))
    for what, x, y in (('almost', s1, s2), ('almost (swapped)', s2, s1), ('almost (reversed)', s1.reverse(), s2)):
        r = x.intersect(y, method='almost', dist_tol=tol)
        require(r.segment1 is x and r.segment2 is y, '{}: other segments', what)
        require(bool(r) is (d < tol), '{}: {} at the distance {}, tolerance {}', what, r.intersect_type, d, tol)
        if d < tol:
            check_almost(r, d, ext, what)
        else:
            require(r.intersect_type is IntersectionType.NONE and r.intersect_point is None, '{}: {}', what, r)
    if abs(d - 1e-5) > 1e-9:
        require(bool(s1.intersect(s2, method='almost')) is (d < 1e-5), 'default tolerance: {} at the distance {}', s1.intersect(s2, method='almost'), d)
    c1 = Curve(np.array(p, dtype=dt))
    rs = s2.intersect(c1, method='almost', dist_tol=tol)
    require(len(rs) == (d < tol), 'segment with curve: {}', rs)
    if rs:
        require(rs[0].segment1 is s2 and rs[0].segment2.curve is c1, 'segment with curve: segments {}', rs)
        check_almost(rs[0], d, ext, 'segment with curve')
    ev.label('hit' if d < tol else 'miss', 'contact' if d == 0 else 'apart', case['dt'])
    ev.nontrivial(d > 0 and p[0] != p[1] and q[0] != q[1])


@st.composite
def axis_pairs(draw):
    nd = draw(st.sampled_from([2, 2, 3]))
    segs = []
    for _ in range(2):
        p = draw(st.lists(st.integers(-6, 6), min_size=nd, max_size=nd))
        k, step = draw(st.integers(0, nd - 1)), draw(st.sampled_from([1, 2, 4, 8, -1, -4]))
        segs.append([p, [x + step * (i == k) for i, x in enumerate(p)]])
    return {'s': segs, 'sc': draw(st.sampled_from([1, 0.25, 2.0 ** -20])), 'dt': draw(st.sampled_from(['float64', 'float64', 'int64']))}


@sub('C21', axis_pairs(), quick=500)
def boundary(case, ev):
    """segments exactly dist_tol apart do not intersect, those a little closer do"""
    dt, sc = case['dt'], case['sc'] if case['dt'] == 'float64' else 1
    p, q = [[[x * sc for x in e] for e in s] for s in case['s']]
    d2 = oracle.dist2_segments(p[0], p[1], q[0], q[1])
    d = oracle.sqrt_f(d2)
    if not d or Fraction(d) ** 2 != d2:
        return      # no representable distance
    s1, s2 = (Segment(Point(a, dtype=dt), Point(b, dtype=dt)) for a, b in (p, q))
    c1, c2 = s1.to_curve(), s2.to_curve()
    for what, tol, hit in (('at the distance', d, False), ('beyond the distance', d * (1 - 2.0 ** -20), False), ('within the distance', d * (1 + 2.0 ** -20), True)):
        for x, y in ((s1, s2), (s2, s1)):
            require(bool(x.intersect(y, method='almost', dist_tol=tol)) is hit, 'segments {} apart, tolerance {} {}', d, tol, what)
        for x, y in ((c1, c2), (c2, c1), (s1, c2)):
            require(len(x.intersect(y, method='almost', dist_tol=tol)) == hit, 'curves {} apart, tolerance {} {}', d, tol, what)
    ev.nontrivial(True)


def check_pairs(rs, c1, c2, d, tol, ext, what, single):
    want = sorted(k for k, v in d.items() if v < tol)
    got = [(r.segment1.idx, r.segment2.idx) for r in rs]
    require(got == want, '{}: pairs {} instead of {}', what, got, want)
    for r, (i, j) in zip(rs, want):
        here = f'{what}, pair {(i, j)}'
        require(r.segment1.curve is c1 and r.segment2.curve is c2, '{}: segments of other curves', here)
        check_almost(r, d[i, j], ext, here)
        if single:
            s = c1.segments[i].intersect(c2.segments[j], method='almost', dist_tol=tol)
            close(r.intersect_segment.data, s.intersect_segment.data, here + ': connecting segment of the single pair', rtol=0, atol=1e-9 * ext)


@sub('C21', pairs(lo=0), quick=500)
def curves(case, ev):
    """curves report exactly the pairs closer than dist_tol, each with the result of the single pair"""
    p, q, tol = case['a'], case['b'], case['tol']
    d = distances(p, q, tol)
    if d is None:
        return
    c1, c2 = curve(case, 'a'), curve(case, 'b')
    ext = extent(p + q + [[1e-300]])
    check_pairs(c1.intersect(c2, method='almost', dist_tol=tol), c1, c2, d, tol, ext, 'almost', True)
    check_pairs(c2.intersect(c1, method='almost', dist_tol=tol), c2, c1, {(j, i): v for (i, j), v in d.items()}, tol, ext, 'almost (swapped)', False)
    ev.label(case['dt'], f'{case["nd"]}-d')
    ev.nontrivial(0 < sum(v < tol for v in d.values()) < len(d))


@sub('C21', pairs(), quick=350)
def self_intersection(case, ev):
    """a curve with itself reports the non-adjacent pairs i < j closer than dist_tol; with a copy all pairs"""
    p, tol = case['a'] + case['b'][:3], case['tol']
    d = distances(p, p, tol)
    if d is None:
        return
    c = curve(dict(case, a=p), 'a')
    ext = extent(p)
    own = {(i, j): v for (i, j), v in d.items() if j - i >= 2}
    check_pairs(c.intersect(method='almost', dist_tol=tol), c, c, own, tol, ext, 'self-intersection', True)
    c2 = copy.copy(c)
    check_pairs(c.intersect(c2, method='almost', dist_tol=tol), c, c2, d, tol, ext, 'with a copy', False)
    ev.nontrivial(any(v < tol for v in own.values()))


def clusters(points, tol):
    """Components of the graph which links points closer than tol; None if a distance is too close to call."""
    n = len(points)
    parent = list(range(n))

    def find(i):
        while parent[i] != i:
            i = parent[i]
        return i
    for i in range(n):
        for j in range(i):
            dist = float(np.linalg.norm(points[i] - points[j]))
            if abs(dist - tol) < 1e-6 * tol:
                return None
            if dist < tol:
                parent[find(i)] = find(j)
    out = {}
    for i in range(n):
        out.setdefault(find(i), []).append(i)
    return list(out.values())


@st.composite
def extra_cases(draw):
    case = draw(pairs(hi=8, dims=(2, 3, 3)))
    case['extra'] = case['tol'] * draw(st.sampled_from([0.07, 0.31, 0.77, 1.13, 2.3, 5.1]))
    case['overlap'] = draw(st.booleans())
    case['self'] = draw(st.integers(0, 3)) == 0
    return case


@sub('C21', extra_cases(), quick=700)
def remove_extra(case, ev):
    """one intersection survives per cluster of near intersection points, one with the shortest connecting segment"""
    tol, extra = case['tol'], case['extra']
    c1 = curve(case, 'a')
    c2 = c1 if case['self'] else curve(case, 'b')
    every = c1.intersect(c2, method='almost', dist_tol=tol)
    groups = clusters([r.intersect_point.data for r in every], extra)
    if groups is None:
        return
    rs = c1.intersect(c2, method='almost', dist_tol=tol, remove_extra=True, extra_tol=extra)
    key = lambda r: (r.segment1.idx, r.segment2.idx)    # noqa: E731
    got = [key(r) for r in rs]
    require(got == sorted(set(got)), 'the survivors {} are not in row order', got)
    by_key = {key(r): r for r in every}
    require(all(k in by_key for k in got), 'survivors {} of {}', got, sorted(by_key))
    for g in groups:
        keys = [key(every[i]) for i in g]
        alive = [k for k in got if k in keys]
        require(len(alive) == 1, '{} survivors of the cluster {}', len(alive), keys)
        lens = {k: by_key[k].intersect_segment.seglen for k in keys}
        require(lens[alive[0]] <= min(lens.values()) + 1e-9 * tol, 'survivor {} is not the shortest of {}', alive[0], lens)
    for r in rs:
        same(r.intersect_segment.data, by_key[key(r)].intersect_segment.data, f'data of the survivor {key(r)}')
        require(r.intersect_type is IntersectionType.ALMOST, 'type {}', r.intersect_type)
    if case['overlap']:
        both = c1.intersect(c2, method='almost', dist_tol=tol, remove_extra=True, extra_tol=extra, correct_overlap=True)
        require([key(r) for r in both] == got, 'with correct_overlap the survivors are {} instead of {}', [key(r) for r in both], got)
        corrected(both, by_key, ev)
    ev.label('self' if case['self'] else 'two curves', f'largest cluster {min(max(map(len, groups), default=0), 4)}')
    ev.nontrivial(any(len(g) > 1 for g in groups) and len(groups) > 1)


def corrected(rs, by_key, ev):
    """The overlaps among results with correct_overlap are those of collinear segments with a common part."""
    for r in rs:
        k = (r.segment1.idx, r.segment2.idx)
        p = [flo(x) for x in (*r.segment1.data, *r.segment2.data)]
        if p[0] == p[1] or p[2] == p[3]:
            continue                # a point has no direction
        if oracle.is_collinear(p):
            ref = oracle.overlap(*p)
            if ref is not None:
                require(r.intersect_type is IntersectionType.OVERLAP, 'pair {} of overlapping segments is {}', k, r.intersect_type)
                s = r.intersect_segment
                got = sorted([tuple(flo(s.p1.data)), tuple(flo(s.p2.data))])
                require(got == sorted(tuple(flo(e)) for e in ref), 'pair {}: overlap {} instead of {}', k, got, ref)
                ev.label('overlap')
                continue
            ev.label('collinear, disjoint')
        elif oracle.is_parallel(*p):
            # close parallel segments: the library's notion of a common part is not claimed
            ev.label('parallel')
            continue
        require(r.intersect_type is IntersectionType.ALMOST, 'pair {} is {}', k, r.intersect_type)
        same(r.intersect_segment.data, by_key[k].intersect_segment.data, f'pair {k}: the connecting segment changes')


@sub('C21', pairs(), quick=400)
def correct_overlap(case, ev):
    """with correct_overlap overlapping pairs become overlaps, all others stay as they were"""
    c1, c2 = curve(case, 'a'), curve(case, 'b')
    tol = case['tol']
    every = c1.intersect(c2, method='almost', dist_tol=tol)
    rs = c1.intersect(c2, method='almost', dist_tol=tol, correct_overlap=True)
    keys = [(r.segment1.idx, r.segment2.idx) for r in every]
    require([(r.segment1.idx, r.segment2.idx) for r in rs] == keys, 'other pairs with correct_overlap: {}', rs)
    corrected(rs, dict(zip(keys, every)), ev)
    for r in rs:
        s = r.segment1.intersect(r.segment2, method='almost', dist_tol=tol, correct_overlap=True)
        require(s.intersect_type is r.intersect_type, 'a single pair gives {} instead of {}', s.intersect_type, r.intersect_type)
    ev.nontrivial(any(r.intersect_type is IntersectionType.OVERLAP for r in rs))


@st.composite
def nearly_parallel(draw):
    nd = draw(st.sampled_from([2, 3]))
    ax = draw(st.integers(0, nd - 1))
    ot = (ax + draw(st.integers(1, nd - 1))) % nd
    return {'nd': nd, 'ax': ax, 'ot': ot, 'len': draw(st.integers(8, 64)), 'rise': draw(st.sampled_from([0.5, 1, 2, 4])),
            'ptol': draw(st.sampled_from([None, 1e-6, 1e-4, 1e-3, 1e-2, 0.1])), 'swap': draw(st.booleans())}


@sub('C21', nearly_parallel(), quick=200)
def parallel_tol(case, ev):
    """parallel_tol decides from which angle on segments count as parallel"""
    a, b, c, d = (np.zeros(case['nd']) for _ in range(4))
    b[case['ax']] = 2 * case['len']
    c[case['ax']] = case['len'] / 2
    d[case['ax']] = 3 * case['len'] / 2
    d[case['ot']] = case['rise']
    s1, s2 = Segment(Point(a), Point(b)), Segment(Point(c), Point(d))
    if case['swap']:
        s1, s2 = s2, s1
    sine2 = case['rise'] ** 2 / (case['rise'] ** 2 + case['len'] ** 2)
    ptol = case['ptol']
    if ptol is not None and abs(sine2 - ptol) < 1e-6 * ptol:
        return
    kw = {} if ptol is None else {'parallel_tol': ptol}
    want = IntersectionType.OVERLAP if ptol is not None and sine2 < ptol else IntersectionType.ALMOST
    r = s1.intersect(s2, method='almost', correct_overlap=True, **kw)
    require(r.intersect_type is want, 'sine^2 {}, parallel_tol {}: {}', sine2, ptol, r.intersect_type)
    rs = s1.to_curve().intersect(s2.to_curve(), method='almost', correct_overlap=True, **kw)
    require(len(rs) == 1 and rs[0].intersect_type is want, 'curves, sine^2 {}, parallel_tol {}: {}', sine2, ptol, rs)
    require(s1.intersect(s2, method='almost', **kw).intersect_type is IntersectionType.ALMOST, 'corrected without correct_overlap')
    ev.label(want.name)
    ev.nontrivial(ptol is not None)

sub('C21', huge.zigzags(('almost',)), quick=16, name='huge')(huge.crossings)
