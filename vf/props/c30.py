"""C30: geometric results do not depend on the choice of coordinates."""
import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import close, quiet, require, same, sub
from skcurve import Curve, Point, Segment, UniformExtrapolationGrid, UniformInterpolationGrid


@st.composite
def moves(draw, nd, far=1000):
    """A signed axis permutation, an integer translation and a number of zero dimensions."""
    return {'perm': draw(st.permutations(list(range(nd)))), 'sign': draw(st.lists(st.sampled_from([1, -1]), min_size=nd, max_size=nd)),
            'shift': draw(st.lists(st.integers(-far, far), min_size=nd, max_size=nd)), 'pad': draw(st.sampled_from([0, 0, 1, 2])),
            'scale': draw(st.sampled_from([1, 1, 1, 2, 0.5, -4]))}


class Move:
    def __init__(self, m, nd, pad=True):
        self.m, self.nd = m, nd
        self.pad = m['pad'] if pad else 0
        self.scale = m['scale']
        self.k = abs(self.scale)
        q = np.zeros((nd, nd))
        for i, (j, s) in enumerate(zip(m['perm'], m['sign'])):
            q[i, j] = s
        self.q = q
        self.det = round(np.linalg.det(q)) * (1 if self.scale > 0 else (-1) ** nd)
        self.trivial = list(m['perm']) == list(range(nd)) and all(s == 1 for s in m['sign']) and not any(m['shift']) and not self.pad and self.scale == 1

    def widen(self, x):
        x = np.asarray(x, dtype=float)
        return np.concatenate([x, np.zeros(x.shape[:-1] + (self.pad,))], axis=-1)

    def vectors(self, v, power=1):
        """Free vectors, scaling with the given power of the scale."""
        return self.widen(np.asarray(v, dtype=float) @ self.q.T * np.sign(self.scale) * self.k ** power)

    def points(self, p):
        p = np.asarray(p, dtype=float)
        return self.widen(p @ self.q.T * self.scale + np.array(self.m['shift'], dtype=float))

    def describe(self):
        return f'permuted {self.m["perm"]} with signs {self.m["sign"]}, scaled by {self.scale}, shifted by {self.m["shift"]}, padded by {self.pad}'


def tag(ev, mv):
    ev.label('padded' if mv.pad else 'unpadded', 'mirrored' if mv.det < 0 else 'rotated', 'scaled' if mv.scale != 1 else 'same size')


@st.composite
def curve_moves(draw, lo=3, hi=9, ndims=(2, 3, 4)):
    c = draw(gen.walk(lo=lo, hi=hi, ndims=ndims))
    return {'c': c, 'm': draw(moves(c['nd']))}


@sub('C30', curve_moves(), quick=600)
def derived(case, ev):
    """lengths, derivatives, frames, curvature and torsion of the moved curve are the moved quantities"""
    nd = case['c']['nd']
    mv = Move(case['m'], nd)
    c = gen.make(case['c'])
    with quiet():
        d = Curve(mv.points(c.data), tdata=case['c']['t'])
        k = mv.k
        what = mv.describe()
        close(d.chordlen, c.chordlen * k, f'chord lengths, {what}')
        close(d.arclen, c.arclen * k, f'arc length, {what}')
        close(d.cumarclen, c.cumarclen * k, f'cumulative length, {what}')
        if case['c']['t'] is None:
            close(d.t, c.t * k, f'parameters, {what}')
        for name in ('firstderiv', 'secondderiv', 'thirdderiv', 'tangent'):
            close(getattr(d, name), mv.vectors(getattr(c, name)), f'{name}, {what}', rtol=1e-11, atol=1e-9)
        close(d.speed, c.speed * k, f'speed, {what}')
        require(bool(d.isplane) == bool(c.isplane), 'isplane becomes {}, {}', d.isplane, what)
        for name in ('frenet1', 'frenet2'):
            close(getattr(d, name), mv.vectors(getattr(c, name), 0), f'{name}, {what}', rtol=0, atol=1e-8)
        if nd >= 3:
            close(d.frenet3, mv.vectors(c.frenet3, 0), f'frenet3, {what}', rtol=0, atol=1e-8)
            close(d.curvature * k, c.curvature, f'curvature, {what}', rtol=1e-8, atol=1e-9)
            close(d.torsion * k, c.torsion, f'torsion, {what}', rtol=1e-7, atol=1e-7)
        elif not mv.pad:
            close(d.curvature * k, c.curvature * mv.det, f'signed curvature, {what}', rtol=1e-9, atol=1e-10)
        for i in (0, len(c) // 2, -1):
            close(d[i].data, mv.points(c[i].data), f'point {i}, {what}')
        close([s.seglen for s in d.segments], [s.seglen * k for s in c.segments], f'segment lengths, {what}')
    tag(ev, mv)
    ev.nontrivial(not mv.trivial)


@sub('C30', gen.walk(lo=3, hi=9, ndims=(2, 3, 4)), quick=400)
def reversal(case, ev):
    """everything computed from the reversed curve is the reversed quantity"""
    c = gen.make(dict(case, t=None))
    with quiet():
        r = c.reverse()
        sign = {'firstderiv': -1, 'secondderiv': 1, 'thirdderiv': -1, 'frenet1': -1}
        for name, s in sign.items():
            close(getattr(r, name), s * getattr(c, name)[::-1], f'{name} of the reversed curve', rtol=1e-11, atol=1e-9)
        close(r.chordlen, c.chordlen[::-1], 'chord lengths of the reversed curve')
        close(r.t, c.arclen - c.t[::-1], 'parameters of the reversed curve', rtol=1e-10, atol=1e-10)
        close(r.frenet2, c.frenet2[::-1], 'frenet2 of the reversed curve', rtol=0, atol=1e-8)
        if case['nd'] == 2:
            close(r.curvature, -c.curvature[::-1], 'signed curvature of the reversed curve', rtol=1e-9, atol=1e-10)
        else:
            close(r.curvature, c.curvature[::-1], 'curvature of the reversed curve', rtol=1e-8, atol=1e-9)
            close(np.abs(r.torsion), np.abs(c.torsion[::-1]), 'torsion of the reversed curve', rtol=1e-7, atol=1e-7)
    ev.label(f'{case["nd"]}-d')
    ev.nontrivial(len(c) > 3)


METHODS = [['linear', {}], ['cubic', {}], ['cubic', {'bc_type': 'not-a-knot'}], ['cubic', {'bc_type': 'clamped'}], ['hermite', {}], ['akima', {}], ['pchip', {}],
           ['spline', {'k': 3}], ['spline', {'k': 1}], ['spline', {'k': 2}], ['csaps', {}], ['csaps', {'smooth': 0.7}], ['csaps', {'smooth': None}]]


@st.composite
def interp_moves(draw):
    c = draw(gen.walk(lo=5, hi=9, ndims=(2, 3, 4)))
    return {'c': c, 'm': draw(moves(c['nd'], far=50)), 'k': draw(st.integers(0, len(METHODS) - 1)), 'n': draw(st.integers(2, 15)), 'ext': draw(st.integers(0, 2))}


@sub('C30', interp_moves(), quick=600)
def interpolation(case, ev):
    """interpolation and smoothing commute with moving and with reversing the curve"""
    nd = case['c']['nd']
    # the csaps smoothing parameter and Hermite unit tangents are not scale free
    m = dict(case['m'], scale=np.sign(case['m']['scale']) * 1.0)
    mv = Move(m, nd)
    name, params = METHODS[case['k']]
    c = gen.make(case['c'])
    d = Curve(mv.points(c.data), tdata=case['c']['t'])
    n = case['n']
    what = f'{name} {params}, {mv.describe()}'
    size = 1 + float(np.max(np.abs(d.data)))
    a, b = c.interpolate(n, name, **params), d.interpolate(n, name, **params)
    wild = 10 * (1 + float(np.max(np.abs(a.data))))
    tol = 1e-8 * (size + wild)
    close(b.data, mv.points(a.data), what, rtol=0, atol=tol)
    if name != 'akima' and case['ext']:
        grid = UniformExtrapolationGrid(UniformInterpolationGrid(max(n, 4)), case['ext'], 1)
        ea, eb = c.interpolate(grid, name, **params), d.interpolate(grid, name, **params)
        close(eb.data, mv.points(ea.data), f'extrapolation by {what}', rtol=0, atol=1e-8 * (size + 10 * float(np.max(np.abs(ea.data)))))
    if case['c']['t'] is None:
        back = c.reverse().interpolate(n, name, **params)
        close(back.data, a.data[::-1], f'{name} {params} of the reversed curve', rtol=0, atol=tol)
    else:
        t = np.array(case['c']['t'])
        back = Curve(c.data[::-1], tdata=-t[::-1]).interpolate(n, name, **params)
        close(back.data, a.data[::-1], f'{name} {params} of the reversed parametric curve', rtol=0, atol=tol)
    for sm, sp in (('window', {'window_size': 3}), ('savgol', {'window_length': 5, 'polyorder': 2})):
        sa, sb = c.smooth(sm, **sp), d.smooth(sm, **sp)
        close(sb.data, mv.points(sa.data), f'{sm}, {mv.describe()}', rtol=0, atol=1e-10 * size)
        close(c.reverse().smooth(sm, **sp).data, sa.data[::-1], f'{sm} of the reversed curve', rtol=0, atol=1e-10 * size)
    tag(ev, mv)
    ev.label(name)
    ev.nontrivial(not mv.trivial)


SMALLISH = st.integers(-4, 4)


@st.composite
def pair_moves(draw):
    nd = draw(st.sampled_from([2, 2, 3, 4]))
    pts = st.lists(SMALLISH, min_size=nd, max_size=nd)

    def chain(lo, hi):
        out = [draw(pts)]
        for _ in range(draw(st.integers(lo, hi)) - 1):
            s = draw(pts)
            out.append(s if s != out[-1] else [s[0] + 1] + s[1:])
        return out
    return {'a': chain(2, 6), 'b': chain(2, 6), 'nd': nd, 'm': draw(moves(nd)), 'method': draw(st.sampled_from(['exact', 'exact', 'almost']))}


def hits(a, b, method, k=1.0):
    """Intersections as (segment ends, type, data), by segment indices."""
    kw = {'method': 'almost', 'dist_tol': 0.7311 * k} if method == 'almost' else {'method': 'exact'}
    pos = {}
    for r in a.intersect(b, **kw):
        i, j = r.segment1.idx, r.segment2.idx
        require((i, j) not in pos, 'the pair {} is reported twice', (i, j))
        pos[i, j] = (r.intersect_type.name, r.intersect_point.data, r.intersect_segment.data, r.intersect_segment.seglen)
    return pos


def same_segment(x, y, tol):
    return np.max(np.abs(x - y)) <= tol or np.max(np.abs(x[::-1] - y)) <= tol


@sub('C30', pair_moves(), quick=900)
def intersections(case, ev):
    """moving both curves moves their intersections; swapping or reversing the curves renumbers them"""
    nd = case['nd']
    mv = Move(case['m'], nd)
    a, b = Curve(np.array(case['a'], dtype=float)), Curve(np.array(case['b'], dtype=float))
    if mv.scale == -4:
        mv.scale, mv.k = -2, 2
    ma, mb = Curve(mv.points(a.data)), Curve(mv.points(b.data))
    na, nb = len(a) - 1, len(b) - 1
    method = case['method']
    ref = hits(a, b, method)
    top = 1 + float(np.max(np.abs(ma.data))) + float(np.max(np.abs(mb.data)))

    def compare(got, expect, what, point=lambda p: p, k=1.0, size=10.0):
        require(set(got) == set(expect), '{}: pairs {} instead of {}', what, sorted(got), sorted(expect))
        for ij, (kind, p, s, length) in expect.items():
            g = got[ij]
            require(g[0] == kind, '{}: pair {} is {} instead of {}', what, ij, g[0], kind)
            if method == 'exact':
                close(g[1], point(p), f'{what}: point of pair {ij}', rtol=0, atol=1e-9 * size)
                require(same_segment(g[2], point(s), 1e-9 * size), '{}: segment of pair {} is {} instead of {}', what, ij, g[2], point(s))
            close(g[3], length * k, f'{what}: length for pair {ij}', rtol=0, atol=1e-9 * size)

    compare(hits(ma, mb, method, mv.k), ref, mv.describe(), mv.points, mv.k, top)
    compare(hits(b, a, method), {(j, i): v for (i, j), v in ref.items()}, 'swapped curves')
    compare(hits(a.reverse(), b, method), {(na - 1 - i, j): v for (i, j), v in ref.items()}, 'first curve reversed')
    compare(hits(a, b.reverse(), method), {(i, nb - 1 - j): v for (i, j), v in ref.items()}, 'second curve reversed')
    compare(hits(a.reverse(), b.reverse(), method), {(na - 1 - i, nb - 1 - j): v for (i, j), v in ref.items()}, 'both curves reversed')
    own, moved = hits(a, None, method), hits(ma, None, method, mv.k)
    compare(moved, own, 'self-intersection ' + mv.describe(), mv.points, mv.k, top)
    tag(ev, mv)
    ev.label(method, f'{nd}-d', f'{min(len(ref), 3)} hits')
    ev.nontrivial(bool(ref) and not mv.trivial)


@st.composite
def segment_moves(draw, far=100):
    nd = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    elem = draw(st.sampled_from([st.integers(-2, 2), st.integers(-9, 9), gen.DYADIC]))
    pts = [draw(st.lists(elem, min_size=nd, max_size=nd)) for _ in range(4)]
    kind = draw(st.sampled_from(['any', 'any', 'collinear', 'parallel']))
    if kind != 'any':
        d = [b - a for a, b in zip(pts[0], pts[1])]
        k1, k2 = draw(st.integers(-2, 3)), draw(st.integers(-2, 3))
        base = pts[0] if kind == 'collinear' else pts[2]
        pts[2], pts[3] = [a + k1 * x for a, x in zip(base, d)], [a + k2 * x for a, x in zip(base, d)]
    return {'pts': pts, 'nd': nd, 'm': draw(moves(nd, far=far)), 'kind': kind}


@sub('C30', segment_moves(), quick=900)
def segments(case, ev):
    """predicates, angles, distances, overlaps and parameters of moved, swapped and reversed segments"""
    nd, pts = case['nd'], np.array(case['pts'], dtype=float)
    if np.all(pts[0] == pts[1]) or np.all(pts[2] == pts[3]):
        return
    mv = Move(case['m'], nd)
    p = [Point(x) for x in pts]
    q = [Point(x) for x in mv.points(pts)]
    s, r = Segment(p[0], p[1]), Segment(p[2], p[3])
    ms, mr = Segment(q[0], q[1]), Segment(q[2], q[3])
    k, what = mv.k, mv.describe()
    size = 1 + float(np.max(np.abs(mv.points(pts)))) + float(np.max(np.abs(pts)))
    tol = 1e-9 * size
    col = s.collinear(r)
    for x, y in ((s, ms), (r, mr)):
        require(not x.singular and not y.singular, 'a segment is singular, {}', what)
        close(y.seglen, x.seglen * k, f'segment length, {what}', rtol=1e-12)
        same(y.direction.data, mv.vectors(x.direction.data), f'direction, {what}')
    for a, b, label, scale in ((s, r, 'as given', 1), (ms, mr, what, k), (r, s, 'swapped', 1), (s.reverse(), r, 'first reversed', 1), (s, r.reverse(), 'second reversed', 1)):
        for name in ('parallel', 'collinear', 'coplanar'):
            require(bool(getattr(a, name)(b)) == bool(getattr(s, name)(r)), '{} becomes {}: {}', name, getattr(a, name)(b), label)
        close(a.distance(b), s.distance(r) * scale, f'distance, {label}', rtol=0, atol=tol * scale)
        close(a.shortest_segment(b).seglen, s.distance(r) * scale, f'shortest segment, {label}', rtol=0, atol=tol * scale)
        ang, ref = a.angle(b), s.angle(r)
        if label.endswith('reversed'):
            ref = np.pi - ref
        close(ang, ref, f'angle, {label}', rtol=0, atol=1e-7)
        if col:
            o, e = a.overlap(b), s.overlap(r)
            require((o is None) == (e is None), 'overlap is {} instead of {}: {}', o, e, label)
            if o is not None:
                expected = mv.points(e.data) if a is ms else e.data
                require(same_segment(o.data, expected, tol), 'overlap is {} instead of {}: {}', o.data, expected, label)
        x, e = a.intersect(b), s.intersect(r)
        require(x.intersect_type == e.intersect_type, 'intersection is {} instead of {}: {}', x.intersect_type, e.intersect_type, label)
        if e and not np.isnan(e.intersect_point.data).any():
            close(x.intersect_point.data, mv.points(e.intersect_point.data) if a is ms else e.intersect_point.data, f'intersection point, {label}', rtol=0, atol=tol)
    for t in (0.0, 0.25, 1.0, -2.0):
        close(ms.point(t).data, mv.points(s.point(t).data), f'point at {t}, {what}', rtol=0, atol=tol * 4)
        close(s.reverse().point(1 - t).data, s.point(t).data, f'point at {t} of the reversed segment', rtol=0, atol=tol * 4)
    for i in (2, 3):
        close(ms.distance(q[i]), s.distance(p[i]) * k, f'distance to a point, {what}', rtol=0, atol=tol * k)
        require(bool(ms.collinear(q[i])) == bool(s.collinear(p[i])), 'collinear with a point: {}', what)
        with quiet():
            t1, t2 = s.t(p[i]), ms.t(q[i])
        close(t2, t1, f'parameter of a point, {what}', rtol=1e-8, atol=1e-8)
        close(ms.p1.distance(q[i]), s.p1.distance(p[i]) * k, f'distance of points, {what}', rtol=1e-12)
    tag(ev, mv)
    ev.label(case['kind'], f'{nd}-d')
    ev.nontrivial(not mv.trivial)


sub('C30', segment_moves(far=2 ** 30), quick=400, name='far_segments')(segments)


@st.composite
def list_moves(draw):
    nd = draw(st.sampled_from([2, 3, 4]))
    p = draw(st.lists(st.lists(st.integers(-2, 2), min_size=nd, max_size=nd), min_size=1, max_size=10))
    return {'p': p, 'nd': nd, 'm': draw(moves(nd, far=20)), 'q': draw(st.lists(st.integers(-2, 2), min_size=nd, max_size=nd))}


@sub('C30', list_moves(), quick=400)
def selection(case, ev):
    """search, equality and cleaning select the same points after moving"""
    nd = case['nd']
    mv = Move(case['m'], nd)
    c = Curve(np.array(case['p'], dtype=float).reshape(-1, nd))
    d = Curve(mv.points(c.data))
    q, mq = Point(np.array(case['q'], dtype=float)), Point(mv.points(case['q']))
    what = mv.describe()
    same(d.unique().data, mv.points(c.unique().data), f'unique, {what}')
    same(d.nonsingular().data, mv.points(c.nonsingular().data), f'nonsingular, {what}')
    require((mq in d) == (q in c), 'membership, {}', what)
    require(d.count(mq) == c.count(q), 'count is {} instead of {}, {}', d.count(mq), c.count(q), what)
    if q in c:
        require(d.index(mq) == c.index(q), 'index is {} instead of {}, {}', d.index(mq), c.index(q), what)
    require((d == Curve(mv.points(c.data[::-1]))) == (c == c.reverse()), 'equality with the reverse, {}', what)
    same(d.reverse().data, mv.points(c.reverse().data), f'reverse, {what}')
    tag(ev, mv)
    ev.nontrivial(len(c) > 1 and not mv.trivial)


@st.composite
def long_moves(draw):
    c = draw(gen.long_curve(40, 120, spread=(200,), parametric=None))
    if c['t']:
        c['t'] = sorted(c['t'])
    return {'c': c, 'm': draw(moves(c['nd']))}


sub('C30', long_moves(), quick=30, name='derived_long')(derived)


@st.composite
def scaled(draw):
    k = draw(st.sampled_from([-100, -60, -40, -30, -20, -10, 10, 20, 30, 40, 60, 100]))
    c = draw(st.one_of(gen.walk(lo=3, hi=12, ndims=(2, 3, 4)), gen.long_walk(9, 40, ndims=(2, 3, 4))))
    return {'c': c, 'k': k, 'm': draw(st.integers(0, len(METHODS) - 1)), 'n': draw(st.integers(2, 15)), 'ext': draw(st.integers(0, 2))}


@sub('C30', scaled(), quick=500)
def units(case, ev):
    """the unit of length does not matter: a curve in other units (by a power of two) has the same shape"""
    c = gen.make(dict(case['c'], dt='float64'))
    k = 2.0 ** case['k']
    d = Curve(c.data * k, tdata=c.t if c.isparametric else None)
    n = len(c)
    what = f'scaled by 2**{case["k"]}'
    with quiet():
        for name, power in (('chordlen', 1), ('arclen', 1), ('cumarclen', 1), ('firstderiv', 1), ('secondderiv', 1), ('thirdderiv', 1), ('tangent', 1), ('normal', 1),
                            ('binormal', 1), ('speed', 1), ('frenet1', 0), ('frenet2', 0), ('frenet3', 0), ('curvature', -1), ('torsion', -1)):
            if name in ('binormal', 'frenet3', 'torsion') and c.ndim < 3:
                continue
            x, y = getattr(c, name), getattr(d, name)
            ok = np.isfinite(x)
            size = float(np.max(np.abs(np.asarray(x)[ok]), initial=0.0))
            close(np.asarray(y)[ok] * 2.0 ** (-power * case['k']), np.asarray(x)[ok], f'{name}, {what}', rtol=0, atol=1e-12 * (size + (case['k'] != 0)))
            require(bool(np.all(~np.isfinite(np.asarray(y)[~ok]))), '{} where it is not defined: {}, {}', name, y, what)
        if not c.isparametric:
            close(d.t / k, c.t, f'parameters, {what}', rtol=1e-14)
        for i in (0, n // 2, n - 1):
            close(d[i].frenet1, c[i].frenet1, f'frenet1 of point {i}, {what}', rtol=0, atol=1e-12)
            close(d[i].speed / k, c[i].speed, f'speed at point {i}, {what}', rtol=1e-12)
        size = float(np.max(np.abs(c.data)))
        for sm, sp in (('window', {'window_size': 3}), ('savgol', {'window_length': 5, 'polyorder': 2})):
            if n >= 6:
                close(d.smooth(sm, **sp).data / k, c.smooth(sm, **sp).data, f'{sm} smoothing, {what}', rtol=0, atol=1e-11 * size)
        name, params = METHODS[case['m']]
        if n < 5 or name == 'hermite' or (not c.isparametric and (name == 'csaps' or name == 'cubic' and abs(case['k']) > 10)):
            # unit tangents and the smoothing parameter are not scale free; scipy solves the cubic spline in rows of different scales
            ev.label('not interpolated')
        else:
            tol = 1e-7 if c.isparametric or name != 'cubic' else 1e-5
            a, b = c.interpolate(case['n'], name, **params), d.interpolate(case['n'], name, **params)
            close(b.data / k, a.data, f'{name} {params}, {what}', rtol=0, atol=tol * (size + float(np.max(np.abs(a.data)))))
            close(b.t if c.isparametric else b.t / k, a.t, f'parameters of {name} {params}, {what}', rtol=tol)
            if case['ext'] and name != 'akima':
                grid = UniformExtrapolationGrid(UniformInterpolationGrid(max(case['n'], 4)), case['ext'], 1)
                a, b = c.interpolate(grid, name, **params), d.interpolate(grid, name, **params)
                close(b.data / k, a.data, f'extrapolation by {name} {params}, {what}', rtol=0, atol=10 * tol * (size + 10 * float(np.max(np.abs(a.data)))))
            ev.label(name)
    ev.label('parametric' if c.isparametric else 'natural', 'larger' if case['k'] > 0 else 'smaller')
    ev.nontrivial()


@st.composite
def turns(draw):
    c = draw(st.one_of(gen.walk(lo=3, hi=10, ndims=(2, 3, 4)), gen.walk(lo=9, hi=30, ndims=(2, 3))))
    nd = c['nd']
    return {'c': c, 'angles': draw(st.lists(st.sampled_from([0.0, 0.1, 0.7, 1.0, 1.5, 2.2, -3.0]), min_size=nd - 1, max_size=nd - 1)),
            'size': draw(st.sampled_from([1.0, 1.0, 0.1, 1 / 3, 700.3, 1e-5])), 'mirror': draw(st.booleans()),
            'off': draw(st.lists(st.sampled_from([0.0, 0.1, 12.3, -100.7]), min_size=nd, max_size=nd)), 'm': draw(st.integers(0, len(METHODS) - 1)), 'n': draw(st.integers(2, 15))}


@sub('C30', turns(), quick=500)
def rotation(case, ev):
    """rotations by any angle, mirroring and scaling by any factor turn vectors and keep lengths, curvature and torsion"""
    nd = case['c']['nd']
    q = np.eye(nd)
    for k, phi in enumerate(case['angles']):
        r = np.eye(nd)
        r[k, k] = r[k + 1, k + 1] = np.cos(phi)
        r[k, k + 1], r[k + 1, k] = -np.sin(phi), np.sin(phi)
        q = r @ q
    if case['mirror']:
        q[0] = -q[0]
    det = -1 if case['mirror'] else 1
    size, off = case['size'], np.array(case['off']) * case['size']
    c = gen.make(dict(case['c'], dt='float64'))
    t = c.t if c.isparametric else None
    d = Curve(size * (c.data @ q.T) + off, tdata=t)
    what = f'rotated by {case["angles"]}, {"mirrored, " if case["mirror"] else ""}scaled by {size}, shifted by {off.tolist()}'
    with quiet():
        top = float(np.max(np.abs(d.data))) / size
        tol = 1e-11 * top
        close(d.chordlen / size, c.chordlen, f'chord lengths, {what}', rtol=0, atol=tol)
        close(d.cumarclen / size, c.cumarclen, f'cumulative lengths, {what}', rtol=0, atol=tol * len(c))
        for name in ('firstderiv', 'secondderiv', 'thirdderiv', 'normal', 'binormal'):
            if name == 'binormal' and nd < 3:
                continue
            close(getattr(d, name) / size, getattr(c, name) @ q.T, f'{name}, {what}', rtol=0, atol=10 * tol)
        close(d.speed / size, c.speed, f'speed, {what}', rtol=0, atol=tol)
        # well defined everywhere (or nowhere): no vector is too short for the rounding errors
        for name, v in (('frenet1', 'tangent'), ('frenet2', 'normal'), ('frenet3', 'binormal')):
            if nd > 2 or name != 'frenet3':
                norm = np.linalg.norm(getattr(c, v), axis=1)
                ok = (norm > 1e-3) | ((norm < 1e-12 * top) & np.all(getattr(c, name) == 0, axis=1))
                close(getattr(d, name)[ok], (getattr(c, name) @ q.T)[ok], f'{name}, {what}', rtol=0, atol=1e-7 * (1 + top / 100))
        speed = np.min(c.speed)
        if speed > 1e-3:
            if nd == 2:
                close(d.curvature * size, c.curvature * det, f'signed curvature, {what}', rtol=0, atol=1e-8 * (1 + top) / speed ** 2)
            else:
                close(d.curvature * size, c.curvature, f'curvature, {what}', rtol=0, atol=1e-8 * (1 + top) / speed ** 2)
                flat = np.linalg.norm(c.normal, axis=1) < 1e-3
                ok = ~np.convolve(flat, [1, 1, 1], 'same').astype(bool)
                ok[:2] = ok[-2:] = ok[:3].all() and ok[-3:].all()
                low = float(np.min(np.linalg.norm(c.normal, axis=1)[ok], initial=1.0))
                close((d.torsion * size)[ok], c.torsion[ok], f'torsion, {what}', rtol=0, atol=1e-7 * (1 + top) / (speed * low) ** 2)
        require(bool(d.isplane) == bool(c.isplane), 'isplane becomes {}, {}', d.isplane, what)
        for sm, sp in (('window', {'window_size': 3}), ('savgol', {'window_length': 5, 'polyorder': 2})):
            if len(c) >= 6:
                close(d.smooth(sm, **sp).data, size * (c.smooth(sm, **sp).data @ q.T) + off, f'{sm} smoothing, {what}', rtol=0, atol=10 * tol * size)
        name, params = METHODS[case['m']]
        # slopes which are zero only up to rounding matter to PCHIP and Akima, which act on every coordinate alone
        if len(c) >= 5 and name not in ('pchip', 'akima') and (c.isparametric or name not in ('csaps', 'hermite')) and not (name == 'hermite' and size != 1):
            a, b = c.interpolate(case['n'], name, **params), d.interpolate(case['n'], name, **params)
            wild = float(np.max(np.abs(a.data))) + top
            close(b.data, size * (a.data @ q.T) + off, f'{name} {params}, {what}', rtol=0, atol=1e-7 * wild * size)
            ev.label(name)
    ev.label(f'{nd}-d')
    ev.nontrivial()
