"""C19: exact segment intersection agrees with exact rational geometry."""
import numpy as np
from hypothesis import strategies as st

from vf import oracle
from vf.core import close, raises, recorded, require, same, sub
from skcurve import Curve, IntersectionType, Point, Segment, get_intersect_method
from skcurve._intersect import IntersectionInfo, IntersectionWarning, SegmentsIntersection, intersect


@st.composite
def pairs(draw, dims=(2, 2, 3, 3, 4)):
    """Two non-singular segments with small integer coordinates; contacts of every kind are frequent."""
    nd = draw(st.sampled_from(dims))

    def v(k=9):
        return draw(st.lists(st.integers(-k, k), min_size=nd, max_size=nd))

    def w(k=9):
        x = v(k)
        if not any(x):
            x[draw(st.integers(0, nd - 1))] = draw(st.sampled_from([1, -1, 3]))
        return x
    kind = draw(st.sampled_from(['generic', 'tiny', 'tiny', 'crossing', 'crossing', 'shared', 'touch', 'miss', 'parallel', 'collinear', 'axis', 'skew', 'near', 'near', 'near parallel']))
    a, u, c, e = v(), w(), v(), w()
    if kind == 'tiny':
        a, u, c, e = v(1), w(1), v(1), w(1)
    elif kind in ('crossing', 'touch', 'miss', 'skew'):
        i = draw(st.sampled_from([0.25, 0.5, 0.75] if kind in ('crossing', 'skew') else [0, 1, 0.5, -0.25, 1.125, 1.5]))
        j = draw(st.sampled_from([0.25, 0.5, 0.75, 0, 1] if kind != 'miss' else [-0.125, 1.25, 2, 0.5]))
        c = [x + i * y - j * z for x, y, z in zip(a, u, e)]
        if kind == 'skew' and nd > 2:
            c[draw(st.integers(0, nd - 1))] += draw(st.sampled_from([1, -1, 0.25]))
    elif kind == 'near':
        # just inside or just outside of an end, or just out of the common plane
        i = draw(st.sampled_from([0.5, 0, 1, 2.0 ** -10, -2.0 ** -10, 1 + 2.0 ** -10, 1 - 2.0 ** -10, -2.0 ** -20, 2.0 ** -20, 1 + 2.0 ** -16, 1 - 2.0 ** -20]))
        j = draw(st.sampled_from([0.5, 0.5, 0, 1, -2.0 ** -12, 2.0 ** -12, 1 + 2.0 ** -12, 1 - 2.0 ** -12, -2.0 ** -20, 1 + 2.0 ** -16]))
        c = [x + i * y - j * z for x, y, z in zip(a, u, e)]
        if nd > 2 and draw(st.integers(0, 3)) == 0:
            c[draw(st.integers(0, nd - 1))] += draw(st.sampled_from([1, -1])) * 2.0 ** -draw(st.sampled_from([8, 16]))
    elif kind == 'near parallel':
        e = [draw(st.sampled_from([1, -1, 2])) * x for x in u] if draw(st.booleans()) else list(u)
        e[draw(st.integers(0, nd - 1))] += draw(st.sampled_from([1, -1])) * 2.0 ** -draw(st.sampled_from([6, 9, 12]))
        if draw(st.booleans()):
            i, j = draw(st.sampled_from([0.25, 0.5, 0, 1, 1.25])), draw(st.sampled_from([0.25, 0.5, 0, 1, -0.5]))
            c = [x + i * y - j * z for x, y, z in zip(a, u, e)]
        elif draw(st.booleans()):
            c = [x + draw(st.sampled_from([1, -1, 0])) * 2.0 ** -10 for x in a]
    elif kind == 'shared':
        c = draw(st.sampled_from([a, [x + y for x, y in zip(a, u)]]))
    elif kind in ('parallel', 'collinear'):
        k = draw(st.sampled_from([1, -1, 2, -3, 0.5]))
        e = [k * x for x in u]
        if kind == 'collinear':
            m = draw(st.sampled_from([-4, -2, -1, -0.5, 0, 0.5, 1, 2, 3]))
            c = [x + m * y for x, y in zip(a, u)]
    elif kind == 'axis':
        i, j = draw(st.integers(0, nd - 1)), draw(st.integers(0, nd - 1))
        u = [y if k == i else 0 for k, y in enumerate(u)]
        e = [y if k == j else 0 for k, y in enumerate(e)]
        if not any(u):
            u[i] = 4
        if not any(e):
            e[j] = -3
    uu, ee, ue = (sum(x * y for x, y in zip(f, g)) for f, g in ((u, u), (e, e), (u, e)))
    if uu * ee - ue * ue > 0.1 * uu * ee and draw(st.integers(0, 7)) == 0:
        # very different lengths, directions not close to parallel: the parameter of a point on the short segment is
        # known up to eps * (ratio of the lengths) / sine only
        k = 2 ** draw(st.sampled_from([8, 12, 16, 19]))
        c0 = [x + 0 for x in c]
        m, j = draw(st.sampled_from([0, 1, -1, 3])), draw(st.sampled_from([0, 0.25, 0.5, 1]))
        at = [x + j * y for x, y in zip(c0, e)]
        # the long segment goes through (or ends at) a point of the short one, or just past it
        a = [x - m * y * (k // 4) for x, y in zip(at, u)]
        if draw(st.booleans()):
            a[draw(st.integers(0, nd - 1))] += draw(st.sampled_from([0, 0.5, -2]))
        u = [y * k for y in u]
        kind = 'uneven'
    sc = draw(st.sampled_from([1, 1, 1, 0.25, 64, 2.0 ** -10, 2.0 ** 20, 2.0 ** 30, 2.0 ** 45]))
    off = draw(st.sampled_from([0, 0, 0, 128, -1000, 2 ** 21]))
    pts = [[(x + off) * sc for x in p] for p in (a, [x + y for x, y in zip(a, u)], c, [x + y for x, y in zip(c, e)])]
    if draw(st.booleans()):
        pts[2], pts[3] = pts[3], pts[2]
    if draw(st.booleans()):
        pts = pts[2:] + pts[:2]
    return {'p': pts, 'nd': nd, 'kind': kind, 'form': draw(st.sampled_from(['plain', 'curve', 'int']))}


def segments(case):
    p = case['p']
    if case['form'] == 'curve':
        return Curve(np.array(p[:2], dtype=float)).segments[0], Curve(np.array(p[2:], dtype=float)).segments[0]
    if case['form'] == 'int' and all(float(x).is_integer() and abs(x) < 2 ** 53 for q in p for x in q):
        q = [Point([int(x) for x in r], dtype=np.int64) for r in p]
        return Segment(q[0], q[1]), Segment(q[2], q[3])
    return Segment(Point(p[0]), Point(p[1])), Segment(Point(p[2]), Point(p[3]))


def extent(pts):
    return max(abs(x) for p in pts for x in p) + 1e-300


def flo(p):
    return [float(x) for x in p]


def check_result(r, s1, s2, ref, ext, what):
    """The result object r of the segments s1 and s2 against the exact answer."""
    require(type(r) is SegmentsIntersection, '{} gives {}', what, r)
    require(r.segment1 is s1 and r.segment2 is s2, '{} does not name its segments', what)
    require(r.intersect_info.type is r.intersect_type, '{}: type {} and info {}', what, r.intersect_type, r.intersect_info)
    want = {'none': IntersectionType.NONE, 'point': IntersectionType.EXACT, 'overlap': IntersectionType.OVERLAP}[ref[0]]
    require(r.intersect_type is want, '{}: {} instead of {}', what, r.intersect_type, want)
    require(bool(r) is (want is not IntersectionType.NONE), '{}: truth value {}', what, bool(r))
    p, s, data = r.intersect_point, r.intersect_segment, r.intersect_info.data
    if want is IntersectionType.NONE:
        require(p is None and s is None and data is None, '{}: no intersection, but {}, {}, {}', what, p, s, data)
        return
    require(isinstance(p, Point) and isinstance(s, Segment), '{}: point {}, segment {}', what, p, s)
    if want is IntersectionType.EXACT:
        require(isinstance(data, Point), '{}: data {}', what, data)
        close(p.data, flo(ref[1]), what + ': the intersection point', rtol=0, atol=1e-9 * ext)
        same(data.data, p.data, what + ': data')
        same(s.p1.data, p.data, what + ': beginning of the segment of a point')
        same(s.p2.data, p.data, what + ': end of the segment of a point')
        for seg in (s1, s2):
            d2 = oracle.dist2_point_segment(flo(p.data), flo(seg.p1.data), flo(seg.p2.data))
            require(oracle.sqrt_f(d2) <= 1e-9 * ext, '{}: the point {} is not on {}', what, p, seg)
    else:
        require(isinstance(data, Segment), '{}: data {}', what, data)
        got = sorted([tuple(flo(data.p1.data)), tuple(flo(data.p2.data))])
        require(got == sorted([tuple(flo(ref[1])), tuple(flo(ref[2]))]), '{}: overlap between {} instead of {}', what, got, ref[1:])
        same(s.data, data.data, what + ': segment of an overlap')
        close(p.data, (data.p1.data + data.p2.data) / 2, what + ': point of an overlap', rtol=0, atol=1e-12 * ext)


@sub('C19', pairs(), quick=2500)
def exact(case, ev):
    """kind and place of the intersection of two segments against exact rational geometry, in every operand order"""
    a, b, c, d = case['p']
    s1, s2 = segments(case)
    ref = oracle.intersect(a, b, c, d)
    ext = extent(case['p'])
    r1, r2 = s1.reverse(), s2.reverse()
    for what, x, y in (('intersect', s1, s2), ('intersect (swapped)', s2, s1), ('intersect (first reversed)', r1, s2),
                       ('intersect (swapped, both reversed)', r2, r1)):
        with recorded() as w:
            r = x.intersect(y)
        check_result(r, x, y, ref, ext, what)
        w = [m for m in w if issubclass(m.category, IntersectionWarning)]
        require(not w, '{} warns {}', what, [str(m.message) for m in w])
    for what, fn in (('method="exact"', lambda: s1.intersect(s2, method='exact')), ('intersect()', lambda: intersect(s1, s2)),
                     ('a method object', lambda: s1.intersect(s2, method=get_intersect_method('exact')))):
        check_result(fn(), s1, s2, ref, ext, what)
    for s in (s1, s2):
        p = (flo(s.p1.data), flo(s.p2.data))
        check_result(s.intersect(s), s, s, ('overlap',) + p, ext, 'intersection with itself')
    ev.label(case['kind'], f'{case["nd"]}-d', ref[0])
    if ref[0] == 'point':
        ev.label('at an end' if ref[2] in (0, 1) or ref[3] in (0, 1) else 'inside')
    ev.nontrivial(ref[0] != 'none' or case['kind'] in ('miss', 'skew', 'parallel', 'collinear', 'tiny', 'touch', 'near', 'near parallel'))


@st.composite
def fine(draw):
    """Segments in general position with three decimals, with a clear answer."""
    nd = draw(st.sampled_from([2, 2, 3, 3, 4]))
    f = st.integers(-9000, 9000).map(lambda k: k / 1000)
    v = lambda: draw(st.lists(f, min_size=nd, max_size=nd))     # noqa: E731
    a, u, e = v(), v(), v()
    off = draw(st.sampled_from([0, 0, 0, 100, -5000, 10.0 ** 6]))
    a = [x + off for x in a]
    i = draw(st.integers(-500, 1500)) / 1000
    j = draw(st.integers(-500, 1500)) / 1000
    return {'a': a, 'u': u, 'e': e, 'i': i, 'j': j, 'nd': nd, 'off': off, 'lift': draw(st.sampled_from([0, 0, 0.125, -1])) if nd > 2 else 0}


@sub('C19', fine(), quick=800)
def general(case, ev):
    """segments with decimal coordinates which cross (or clearly miss) at chosen parameters"""
    a, u, e = (np.array(case[k]) for k in 'aue')
    i, j = case['i'], case['j']
    nu, ne = np.linalg.norm(u), np.linalg.norm(e)
    if nu < 0.05 or ne < 0.05:
        return
    # a direction perpendicular to both segments
    w = e - (e @ u) / nu ** 2 * u
    sine = np.linalg.norm(w) / ne
    if sine < 1e-3 or min(abs(i), abs(i - 1), abs(j), abs(j - 1)) < 2e-3:
        return
    c = a + i * u - j * e
    if case['lift']:
        # a segment lifted along a common normal: the lines miss each other by |lift|
        c = c + case['lift'] * np.linalg.svd(np.array([u, w / np.linalg.norm(w)]))[2][-1]
    s1, s2 = Segment(Point(a), Point(a + u)), Segment(Point(c), Point(c + e))
    hit = 0 < i < 1 and 0 < j < 1 and not case['lift']
    for x, y in ((s1, s2), (s2, s1), (s1.reverse(), s2), (s1, s2.reverse())):
        with recorded() as warned:
            r = x.intersect(y)
        require(bool(r) is bool(hit), 'intersection is {}, expected {}', r, hit)
        if hit:
            close(r.intersect_point.data, a + i * u, 'intersection point', rtol=0, atol=1e-9 + 2e-12 * abs(case['off']))
            require(not warned, 'an intersection with a warning: {}', [str(m.message) for m in warned])
        require(bool(x.coplanar(y)) is not bool(case['lift']), 'coplanar is {}', x.coplanar(y))
        require(not x.parallel(y) and not x.collinear(y), 'crossing segments are parallel or collinear')
    if case['nd'] > 2:
        c1, c2 = Curve(np.array([a - e, a, a + u])), Curve(np.array([c, c + e, c + e + u]))
        require(bool(c1.intersect(c2)) >= hit, 'the curves do not intersect')
    ev.label('hit' if hit else 'miss', f'{case["nd"]}-d')
    ev.nontrivial()


DATA = st.sampled_from(['none', 'none', 'point', 'point', 'segment', 'segment', 'singular', 'list', 'array', 'curve', 'number'])


@sub('C19', st.fixed_dictionaries({'type': st.sampled_from(['NONE', 'EXACT', 'OVERLAP', 'ALMOST']), 'data': DATA,
                                   'p': pairs(dims=(2, 3))}), quick=300)
def pairing(case, ev):
    """an intersection type can be paired only with the data it admits, and the result object shows that data"""
    s1, s2 = segments(case['p'])
    p = case['p']['p'][0]
    data = {'none': None, 'point': Point(p), 'segment': s1, 'singular': Segment(Point(p), Point(p)), 'list': list(p),
            'array': np.array(p), 'curve': Curve([p, p]), 'number': 5.0}[case['data']]
    t = IntersectionType[case['type']]
    admitted = {'NONE': ('none',), 'EXACT': ('point',), 'OVERLAP': ('segment', 'singular'), 'ALMOST': ('segment', 'singular')}
    if case['data'] not in admitted[case['type']]:
        raises(ValueError, lambda: t(data), f'{t} with {case["data"]}')
        ev.label('refused')
        ev.nontrivial()
        return
    info = t(data)
    require(isinstance(info, IntersectionInfo) and info.type is t and info.data is data, '{}({}) is {}', t, data, info)
    r = SegmentsIntersection(s1, s2, info)
    require(bool(r) is (t is not IntersectionType.NONE), 'truth value {}', bool(r))
    require(r.intersect_type is t and r.intersect_info is info, 'type {} info {}', r.intersect_type, r.intersect_info)
    if t is IntersectionType.NONE:
        require(t() == info, 'NONE() is {}', t())
        require(r.intersect_point is None and r.intersect_segment is None, 'data of no intersection')
    elif t is IntersectionType.EXACT:
        require(r.intersect_point is data, 'point {}', r.intersect_point)
        same(r.intersect_segment.data, [p, p], 'segment of a point')
    else:
        require(r.intersect_segment is data, 'segment {}', r.intersect_segment)
        close(r.intersect_point.data, (data.p1.data + data.p2.data) / 2, 'point of a segment', rtol=1e-12)
    require(isinstance(repr(r), str) and case['type'] in repr(r), 'repr {}', repr(r))
    ev.label(case['type'])
    ev.nontrivial()


@sub('C19', st.fixed_dictionaries({'p': pairs(dims=(2, 3)), 'bad': st.sampled_from(['dim', 'none method', 'unknown', 'int method', 'params', 'operand'])}), quick=120)
def rejects(case, ev):
    """operands of another dimension, unknown methods and parameters are refused"""
    s1, s2 = segments(case['p'])
    bad = case['bad']
    if bad == 'dim':
        other = Segment(Point(list(s2.p1.data) + [0]), Point(list(s2.p2.data) + [0]))
        raises(ValueError, lambda: s1.intersect(other), 'segments of different dimension')
        raises(ValueError, lambda: other.intersect(s1), 'segments of different dimension')
        raises(ValueError, lambda: s1.intersect(other, method='almost'), 'segments of different dimension')
    elif bad == 'unknown':
        raises(NameError, lambda: s1.intersect(s2, method='no such method'), 'an unknown method')
    elif bad == 'int method':
        raises(ValueError, lambda: s1.intersect(s2, method=5), 'a number as method')
    elif bad == 'params':
        raises(TypeError, lambda: s1.intersect(s2, method='exact', no_such_parameter=1), 'an unknown parameter')
    elif bad == 'operand':
        for other in (s2.p1, None, 5, case['p']['p'], np.array(case['p']['p'])):
            raises(TypeError, lambda: s1.intersect(other), f'{type(other)} as operand')
            raises(TypeError, lambda: s1.intersect(other, method='almost'), f'{type(other)} as operand')
    ev.nontrivial()
