"""C31: results depend on the points only, not on how they are stored or how the curve was made."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import close, quiet, raises, require, same, sub
from skcurve import Curve, Point, Segment

STORE = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float64', 'float64', 'float64']
ROUTES = ['fortran', 'axis1', 'columns', 'strided', 'backwards', 'big_endian', 'slice', 'concat', 'insert', 'append', 'delete', 'copy', 'deepcopy',
          'curve', 'double_reverse', 'fancy', 'dims', 'drop', 'ndmin', 'pickle', 'plain']


def build(a, route, k):
    """A curve of the points of the array, stored or made in another way."""
    n, nd = a.shape
    if route == 'fortran':
        return Curve(np.asfortranarray(a))
    if route == 'axis1':
        return Curve(np.ascontiguousarray(a.T), axis=1)
    if route == 'columns':
        return Curve([c for c in a.T], dtype=a.dtype)
    if route == 'strided':
        b = np.zeros((2 * n, 3 * nd), dtype=a.dtype)
        b[::2, ::3] = a
        return Curve(b[::2, ::3])
    if route == 'backwards':
        return Curve(np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1])
    if route == 'big_endian':
        return Curve(a.astype(a.dtype.newbyteorder('>')))
    c = Curve(a)
    one = np.ones((1, nd), dtype=a.dtype)
    k = k % (n + 1)
    if route == 'slice':
        return Curve(np.vstack([one, a, one, one]))[1:n + 1]
    if route == 'concat':
        return Curve(a[:k]) + Curve(a[k:])
    if route == 'insert':
        i, j = sorted((k, (3 * k + 1) % (n + 1)))
        return Curve(np.vstack([a[:i], a[j:]])).insert(i, Curve(a[i:j]))
    if route == 'append':
        return Curve(a[:k]).append(Curve(a[k:]))
    if route == 'delete':
        return Curve(np.vstack([a[:k], one, one, a[k:]])).delete(slice(k, k + 2))
    if route == 'copy':
        return copy.copy(c)
    if route == 'deepcopy':
        return copy.deepcopy(c)
    if route == 'pickle':
        return pickle.loads(pickle.dumps(c))
    if route == 'curve':
        return Curve(c)
    if route == 'double_reverse':
        return c.reverse().reverse()
    if route == 'fancy':
        order = np.roll(np.arange(n), k)
        return Curve(a[order])[np.argsort(order)] if n else c[[i for i in range(0)] or slice(0, 0)]
    if route == 'dims':
        return c.insertdim(k % (nd + 1), np.arange(n)).deletedim(k % (nd + 1))
    if route == 'drop':
        return Curve(np.vstack([a[:k], one, a[k:]])).drop(lambda d: np.arange(n + 1) == k)
    if route == 'ndmin':
        return Curve(a, ndmin=nd, dtype=a.dtype)
    return c


@st.composite
def stored(draw, lo=0, hi=8, ndims=(2, 3, 4), walk=False, span=100):
    nd, dt = draw(st.sampled_from(ndims)), draw(st.sampled_from(STORE))
    n, seed = draw(st.integers(lo, hi)), draw(st.integers(0, 2 ** 32 - 1))
    rs = np.random.RandomState(seed)
    a, b = gen.DTYPE_RANGE.get(dt, (-span, span))
    r = draw(st.sampled_from([3, span]))
    p = rs.randint(max(a, -r), min(b, r) + 1, (n, nd))
    if walk and n:
        step = rs.randint(0 if a == 0 else -3, 4, (n, nd))
        step[~step.any(axis=1), 0] = 1
        p = step.cumsum(axis=0)
        if a == 0:
            p = p[:, :] + rs.randint(0, 20, nd)
    return {'p': p.tolist(), 'nd': nd, 'dt': dt, 't': None, 'route': draw(st.sampled_from(ROUTES)), 'k': draw(st.integers(0, 50))}


def pair(case):
    """The curve as stored, and the plain float64 curve of the same points."""
    a = gen.array(case)
    c = build(a, case['route'], case['k'])
    same(c.data, a, f'points made by {case["route"]}')
    require(c.dtype.newbyteorder('=') == a.dtype, 'made by {}: dtype {} instead of {}', case['route'], c.dtype, a.dtype)
    return c, Curve(a.astype(np.float64))


def tag(case, ev):
    ev.label(case['route'], case['dt'])
    ev.nontrivial(case['route'] != 'plain' or not case['dt'].startswith('float'))


def kind(case):
    return f'{case["dt"]} curve made by {case["route"]}'


@sub('C31', st.one_of(stored(0, 8), stored(2, 10, walk=True), stored(40, 120, walk=True)), quick=600)
def derived(case, ev):
    """every derived quantity of the stored curve is that of the plain float64 curve of the same points"""
    with quiet():
        c, f = pair(case)
        size = float(np.max(np.abs(f.data), initial=0.0))
        for name in ('chordlen', 'cumarclen', 't', 'firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'speed', 'normal'):
            close(getattr(c, name), getattr(f, name), f'{name} of a {kind(case)}', rtol=1e-10, atol=1e-10 * size)
        close(c.arclen, f.arclen, f'arclen of a {kind(case)}')
        for name in ('frenet1', 'frenet2', 'frenet3', 'binormal', 'curvature', 'torsion'):
            x, y = getattr(c, name), getattr(f, name)
            if name in ('curvature', 'torsion', 'binormal'):
                ok = np.isfinite(y)
                require(np.array_equal(ok, np.isfinite(x)), '{} of a {} is {} instead of {}', name, kind(case), x, y)
                x, y = np.where(ok, x, 0), np.where(ok, y, 0)
            close(x, y, f'{name} of a {kind(case)}', rtol=1e-7, atol=1e-7 * max(1.0, size if name == 'binormal' else 1.0))
        require(bool(c.isplane) == bool(f.isplane), 'isplane of a {}', kind(case))
        require((c.is2d, c.is3d, c.isspatial, c.isparametric) == (f.is2d, f.is3d, f.isspatial, False), 'kind of a {}', kind(case))
        for ax in ((0, 1), (1, 0), (0, f.ndim - 1)):
            same(c.coorientplane(*ax).data, f.coorientplane(*ax).data, f'coorientplane{ax} of a {kind(case)}')
        same(c.unique().data, f.unique().data, f'unique of a {kind(case)}')
        same(c.nonsingular().data, f.nonsingular().data, f'nonsingular of a {kind(case)}')
        require(len(c.segments) == max(f.size - 1, 0), 'number of segments of a {}', kind(case))
        for s, r in zip(c.segments, f.segments):
            same(s.data, r.data, f'segment of a {kind(case)}')
            close(s.seglen, r.seglen, f'segment length in a {kind(case)}')
            require(s.singular == r.singular, 'singular segment {} of a {}', s, kind(case))
        require(c == f and f == c and f in c and c in f, 'a {} does not equal the plain curve', kind(case))
    tag(case, ev)


@sub('C31', st.fixed_dictionaries({'c': st.one_of(stored(4, 9, walk=True), stored(40, 90, walk=True)), 'n': st.integers(2, 12)}), quick=400)
def made_curves(case, ev):
    """interpolation and smoothing of the stored curve give the curve of the plain one (in the stored type)"""
    n = case['n']
    case = case['c']
    with quiet():
        c, f = pair(case)
        size = 1 + float(np.max(np.abs(f.data)))

        for method in ('linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps'):
            x, y = c.interpolate(n, method), f.interpolate(n, method)
            require(x.dtype == c.dtype, '{} interpolation of a {} is {}', method, kind(case), x.dtype)
            if case['dt'] == 'float64':
                close(x.data, y.data, f'{method} interpolation of a {kind(case)}', rtol=0, atol=1e-9 * size)
            elif np.all((y.data > gen.DTYPE_RANGE[case['dt']][0] + 1) & (y.data < gen.DTYPE_RANGE[case['dt']][1] - 1)):
                whole = np.abs(y.data - np.round(y.data)) < 1e-6      # rounding may fall on either side of a whole number
                got = x.data.astype(float)
                close(np.where(whole, 0, got), np.where(whole, 0, np.trunc(y.data)), f'{method} interpolation of a {kind(case)}', rtol=0, atol=1e-9)
                require(np.all(np.abs(got - y.data) <= 1 + 1e-6), '{} interpolation of a {}: {} instead of {}', method, kind(case), got, y.data)
        for method, kw in (('window', {'window_size': 3}), ('window', {'window_size': 4, 'window_type': 'hamming', 'mode': 'wrap'}), ('savgol', {'window_length': 3, 'polyorder': 1})):
            x, y = c.smooth(method, **kw), f.smooth(method, **kw)
            require(x.dtype == np.float64, '{} smoothing of a {} is {}', method, kind(case), x.dtype)
            close(x.data, y.data, f'{method} smoothing of a {kind(case)}', rtol=0, atol=1e-10 * size)
    tag(case, ev)



@st.composite
def stored_pairs(draw):
    nd = draw(st.sampled_from([2, 2, 3]))
    a, b = draw(stored(0, 5, ndims=(nd,), span=4)), draw(stored(0, 5, ndims=(nd,), span=4))
    return {'a': a, 'b': b, 'tol': draw(st.sampled_from([0.7311, 1e-3]))}


def hits(x, y, **kw):
    return [(r.segment1.idx, r.segment2.idx, r.intersect_type.name, r.intersect_point.data.tolist(), r.intersect_segment.seglen) for r in x.intersect(y, **kw)]


@sub('C31', stored_pairs(), quick=300)
def intersections(case, ev):
    """intersections, distances and predicates of stored curves are those of the plain ones, in any mixture of types"""
    with quiet():
        a, fa = pair(case['a'])
        b, fb = pair(case['b'])
        what = f'a {kind(case["a"])} and a {kind(case["b"])}'
        found = 0
        for x, y, u, v in ((a, b, fa, fb), (a, fb, fa, fb), (fa, b, fa, fb), (a, None, fa, None)):
            for kw in ({}, {'method': 'almost', 'dist_tol': case['tol']}, {'method': 'almost', 'dist_tol': case['tol'], 'correct_overlap': True}):
                got, ref = hits(x, y, **kw), hits(u, v, **kw)
                require([r[:3] for r in got] == [r[:3] for r in ref], 'intersections {} of {}: {} instead of {}', kw, what, [r[:3] for r in got], [r[:3] for r in ref])
                found += len(ref)
                close([r[4] for r in got], [r[4] for r in ref], f'lengths of the intersections {kw} of {what}', rtol=0, atol=1e-9)
                close([r[3] for r in got], [r[3] for r in ref], f'intersection points {kw} of {what}', rtol=0, atol=1e-9)
        for i in range(min(len(a) - 1, 3)):
            for j in range(min(len(b) - 1, 3)):
                s, r, fs, fr = a.segments[i], b.segments[j], fa.segments[i], fb.segments[j]
                for name in ('parallel', 'collinear', 'coplanar', 'overlap'):
                    if name == 'overlap' and not fs.collinear(fr):
                        continue
                    p, q = getattr(s, name)(r), getattr(fs, name)(fr)
                    require(p == q, '{} of segments of {}: {} instead of {}', name, what, p, q)
                close(s.distance(r), fs.distance(fr), f'distance of segments of {what}', rtol=0, atol=1e-9)
                close(s.angle(r), fs.angle(fr), f'angle of segments of {what}', rtol=0, atol=1e-12)
                close(s.p1.distance(r.p2), fs.p1.distance(fr.p2), f'distance of points of {what}')
                p = Point(gen.array(case['b'])[j], dtype=case['b']['dt'])
                close(s.distance(p), fs.distance(fr.p1), f'distance to a point of {what}', rtol=0, atol=1e-9)
                close(Segment(p, Point(p) + 1).distance(s), Segment(fr.p1, fr.p1 + 1).distance(fs), f'distance of a segment of typed points in {what}', rtol=0, atol=1e-9)
        for q in list(b)[:3] + list(fb)[:3]:
            require((q in a) == (q in fa), 'membership in {}', what)
            require(a.count(q) == fa.count(q), 'count in {}', what)
    tag(case['a'], ev)
    ev.label('hits' if found else 'no hits')
    ev.nontrivial(bool(found))


@st.composite
def integer_segments(draw):
    nd = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    dts = [draw(st.sampled_from(sorted(gen.DTYPE_RANGE)))] * 5 if draw(st.booleans()) else [draw(st.sampled_from(sorted(gen.DTYPE_RANGE) + ['float64'])) for _ in range(5)]
    lim = [gen.DTYPE_RANGE.get(d, (-1000, 1000)) for d in dts]
    wide = draw(st.booleans())
    lo, hi = max(x[0] for x in lim), min(x[1] for x in lim)
    if not wide:
        lo, hi = max(lo, -9), min(hi, 9)
    hi = min(hi, 2 ** 32)
    lo = max(lo, -2 ** 32)
    vec = st.lists(st.one_of(st.integers(lo, hi), st.sampled_from([lo, hi, 0, 1])), min_size=nd, max_size=nd)
    p = [draw(vec) for _ in range(5)]
    kind = draw(st.sampled_from(['any', 'line', 'line', 'shared', 'parallel']))
    if kind == 'line':
        # points of one line inside of the range
        d = [draw(st.integers(-3, 3)) for _ in range(nd)]
        m = max(1, (hi - lo) // 64)
        reach = (hi - lo) // 2 // m
        if reach < 30:
            d = [max(-1, min(1, x)) for x in d]
        base = [(lo + hi) // 2] * nd
        p = [[x + m * k * y for x, y in zip(base, d)] for k in draw(st.lists(st.integers(-min(reach, 10), min(reach, 10)), min_size=5, max_size=5))]
    elif kind == 'shared':
        p[2] = list(p[draw(st.integers(0, 1))])
    elif kind == 'parallel':
        q = [x - a + b for x, a, b in zip(p[2], p[0], p[1])]
        if all(lo <= x <= hi for x in q):
            p[3] = q
    return {'p': p, 'd': dts, 'nd': nd, 'kind': kind}


@sub('C31', integer_segments(), quick=700)
def segments(case, ev):
    """segments between points of integer types: attributes, predicates, distances, overlaps and intersections are those of float64 points"""
    x = [Point(p, dtype=d) for p, d in zip(case['p'], case['d'])]
    y = [Point(p) for p in case['p']]
    what = f'between {[str(d) for d in case["d"][:4]]} points'
    size = 1.0 + max(abs(v) for p in case['p'] for v in p)
    tol = 1e-12 * size
    with quiet():
        (s, r), (a, b) = [(Segment(p[0], p[1]), Segment(p[2], p[3])) for p in (x, y)]
        for u, v in ((s, a), (r, b)):
            same(u.data, v.data, f'data of a segment {what}')
            same(u.direction.data, v.direction.data, f'direction of a segment {what}')
            close(u.seglen, v.seglen, f'length of a segment {what}', rtol=1e-12)
            close(u.dot, v.dot, f'dot of a segment {what}', rtol=1e-12, atol=1e-14 * size ** 2)
            require(u.singular == v.singular and u.ndim == v.ndim, 'singular of a segment {}', what)
            require(u == v and v == u, 'a segment {} does not equal the plain one', what)
            for t in (0, 1, 0.25, -2):
                close(u.point(t).data, v.point(t).data, f'point {t} of a segment {what}', rtol=0, atol=tol)
            close([p.data for p in u.point([0, 0.5])], [p.data for p in v.point([0, 0.5])], f'points of a segment {what}', rtol=0, atol=tol)
            if not v.singular:
                close(u.t(x[4]), v.t(y[4]), f'parameter of a point on a segment {what}', rtol=1e-9, atol=1e-9)
                close(u.t([x[4], x[0], x[2]]), v.t([y[4], y[0], y[2]]), f'parameters of points on a segment {what}', rtol=1e-9, atol=1e-9)
            for name in ('collinear', 'coplanar'):
                require(bool(getattr(u, name)(x[4])) == bool(getattr(v, name)(y[4])), '{} of a point with a segment {}', name, what)
            close(u.distance(x[4]), v.distance(y[4]), f'distance of a point from a segment {what}', rtol=1e-9, atol=tol)
            close(u.shortest_segment(x[4]).data, v.shortest_segment(y[4]).data, f'shortest segment from a point to a segment {what}', rtol=0, atol=1e-9 * size)
            if case['nd'] > 1:
                close(u.to_curve().arclen, v.seglen, f'curve of a segment {what}', rtol=1e-12)
        for name in ('parallel', 'collinear', 'coplanar'):
            require(bool(getattr(s, name)(r)) == bool(getattr(a, name)(b)), '{} of segments {} is {}', name, what, getattr(s, name)(r))
        close(s.angle(r), a.angle(b), f'angle of segments {what}', rtol=0, atol=1e-7)
        close(s.distance(r), a.distance(b), f'distance of segments {what}', rtol=1e-9, atol=1e-9 * size)
        for kw in ({}, {'check_collinear': True}):
            o, e = s.overlap(r, **kw), a.overlap(b, **kw)
            require((o is None) == (e is None), 'overlap of segments {}: {} instead of {}', what, o, e)
            if o is not None:
                same(o.data, e.data, f'overlap of segments {what}')
        for kw in ({}, {'method': 'almost', 'dist_tol': 0.5}):
            o, e = s.intersect(r, **kw), a.intersect(b, **kw)
            require(o.intersect_type == e.intersect_type, 'intersection of segments {} is {} instead of {}', what, o.intersect_type, e.intersect_type)
            if e:
                close(o.intersect_point.data, e.intersect_point.data, f'intersection point of segments {what}', rtol=0, atol=1e-9 * size)
    ev.label(case['kind'], *sorted(set(case['d'][:4])))
    ev.nontrivial(any(d != 'float64' for d in case['d']))


@sub('C31', st.fixed_dictionaries({'c': gen.curve(1, 7, dtypes=('int8', 'uint8', 'int16', 'int32', 'int64', 'uint64', 'float32')), 'i': st.integers(0, 6),
                                   'eps': st.sampled_from([0.0, 1e-12, -1e-12, 2.0 ** -40, 0.25, -0.5])}), quick=250)
def near_points(case, ev):
    """searches for and comparisons with points which are equal up to a rounding error find the same in a curve of integers and in one of floats"""
    c = gen.make(case['c'])
    f = Curve(c.data.astype('float64'))
    q = f.data.copy()
    q[case['i'] % len(q)] += case['eps']
    near, p = Curve(q), Point(q[case['i'] % len(q)])
    for what, g in (('contains the point', lambda x: bool(p in x)), ('count', lambda x: x.count(p)), ('equality', lambda x: x == near), ('equality of the other', lambda x: near == x),
                    ('contains the curve', lambda x: bool(near in x)), ('contained in the curve', lambda x: bool(x in near)), ('contains a part', lambda x: bool(near[1:] in x)),
                    ('points', lambda x: [a == b for a, b in zip(x, near)]), ('segments', lambda x: [a == b for a, b in zip(x.segments, near.segments)])):
        require(g(c) == g(f), '{} is {} for {} points and {} for the same points of floats', what, g(c), c.dtype, g(f))
    if f.count(p):
        require(c.index(p) == f.index(p), 'index {} and {}', c.index(p), f.index(p))
    else:
        raises(ValueError, lambda: c.index(p), f'index of a point which is not in the {c.dtype} curve')
    ev.label('equal' if near == f else 'different')
    ev.nontrivial(case['eps'] != 0)
