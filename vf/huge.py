"""Curves of thousands of points: the same guarantees where block-wise or size-dependent code would show."""
import numpy as np
from hypothesis import strategies as st

from vf.core import close, quiet, require, same
from skcurve import Curve, Point, Segment

# number of points at each end of the part which may differ from the whole curve
REACH = [('firstderiv', 1), ('tangent', 1), ('speed', 1), ('frenet1', 1), ('secondderiv', 2), ('normal', 2), ('frenet2', 2), ('thirdderiv', 3),
         ('binormal', 3), ('frenet3', 3), ('curvature', 2), ('torsion', 3)]
LOOSE = ('curvature', 'torsion', 'frenet3', 'binormal', 'frenet2', 'normal')
SIZES = [255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2049, 4097]


@st.composite
def curves(draw, lo=300, hi=6000, dtypes=('float64', 'float64', 'int32'), ndims=(2, 2, 3, 4)):
    """A curve of hundreds to thousands of points (from a seed) and a part of it."""
    n, nd = draw(st.one_of(st.integers(lo, hi), st.sampled_from(SIZES))), draw(st.sampled_from(ndims))
    m = draw(st.integers(40, min(n, 250)))
    a = draw(st.one_of(st.integers(0, n - m), st.just(0), st.just(n - m)))
    return {'n': n, 'nd': nd, 'seed': draw(st.integers(0, 2 ** 32 - 1)), 'a': a, 'm': m, 'dt': draw(st.sampled_from(dtypes))}


def build(case):
    n, nd = case['n'], case['nd']
    rs = np.random.RandomState(case['seed'])
    step = rs.randint(-6, 7, (n, nd))
    step[~step.any(axis=1), rs.randint(nd)] = 1
    t = (rs.randint(1, 65, n).cumsum()) / 16
    return step.cumsum(axis=0).astype(case['dt']), t, rs


def mark(case, ev):
    ev.label(f'{case["nd"]}-d', 'large' if case['n'] > 1024 else 'medium')
    ev.nontrivial(case['m'] < case['n'])


def parts_of(case, names):
    p, t, rs = build(case)
    n, a, b = case['n'], case['a'], case['a'] + case['m']
    c = Curve(p, tdata=t) if case['seed'] % 2 else Curve(p)
    d = c[a:b]
    same(c.data, p, 'data')
    for name, k in REACH:
        if name not in names:
            continue
        whole, part = getattr(c, name), getattr(d, name)
        require(len(whole) == n, '{} has {} rows for {} points', name, len(whole), n)
        ref = whole[a + k:b - k]
        ok = np.isfinite(ref).all(axis=tuple(range(1, ref.ndim)))
        size = 1 + float(np.max(np.abs(ref[ok]), initial=0.0))
        close(part[k:len(part) - k][ok], ref[ok], f'{name} of the part {a}:{b} of {n} points', rtol=0, atol=(1e-6 if name in LOOSE else 1e-10) * size)


def lengths(case, ev):
    """chord lengths and cumulative lengths of a curve of thousands of points"""
    p, t, rs = build(case)
    with quiet():
        c = Curve(p, tdata=t) if case['seed'] % 2 else Curve(p)
        ref = np.sqrt((np.diff(p.astype(float), axis=0) ** 2).sum(axis=1))
        close(c.chordlen, ref, 'chord lengths', rtol=0, atol=1e-10)
        close(c.cumarclen, np.hstack([0, ref.cumsum()]), 'cumulative length', rtol=1e-11)
        close(c.arclen, ref.sum(), 'length', rtol=1e-11)
        if not c.isparametric:
            same(c.t, c.cumarclen, 'natural parameters')
    mark(case, ev)


def differences(case, ev):
    """derivatives, tangents and speed of a curve of thousands of points: central differences, and those of its parts"""
    with quiet():
        p = build(case)[0]
        f = p.astype(float)
        mid = (f[2:] - f[:-2]) / 2
        d1 = np.vstack([(4 * f[1] - 3 * f[0] - f[2]) / 2, mid, (3 * f[-1] - 4 * f[-2] + f[-3]) / 2])
        c = Curve(p)
        close(c.firstderiv, d1, 'first derivative', rtol=0, atol=1e-10)
        close(c.tangent, d1, 'tangent', rtol=0, atol=1e-10)
        close(c.speed, np.sqrt((d1 ** 2).sum(axis=1)), 'speed', rtol=0, atol=1e-10)
        parts_of(case, ('firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'speed'))
    mark(case, ev)


def frames(case, ev):
    """frames and normals of a curve of thousands of points are those of its parts"""
    with quiet():
        parts_of(case, ('frenet1', 'frenet2', 'frenet3', 'normal', 'binormal'))
    mark(case, ev)


def curvatures(case, ev):
    """curvature and torsion of a curve of thousands of points are those of its parts"""
    with quiet():
        parts_of(case, ('curvature', 'torsion'))
    mark(case, ev)


def derived(case, ev):
    """derived quantities of a curve of thousands of points are those of its parts"""
    with quiet():
        parts_of(case, [name for name, _ in REACH])
    mark(case, ev)


def cleaning(case, ev):
    """unique, drop and nonsingular of a curve of thousands of points, with parameters"""
    p, t, rs = build(case)
    n = case['n']
    with quiet():
        rep = np.sort(rs.randint(0, n, n))
        dup = Curve(p[rep], tdata=t)
        keep = np.hstack([True, (np.diff(p[rep].astype(float), axis=0) != 0).any(axis=1)])
        same(dup.nonsingular().data, p[rep][keep], 'nonsingular')
        same(dup.nonsingular().t, t[keep], 'parameters of nonsingular')
        seen = {}
        for i, q in enumerate(p[rep].tolist()):
            seen.setdefault(tuple(q), i)
        first = sorted(seen.values())
        same(dup.unique().data, p[rep][first], 'unique')
        same(dup.unique().t, t[first], 'parameters of unique')
        bad = rs.rand(n) < 0.3
        kept = dup.drop(lambda x: bad)
        same(kept.data, p[rep][~bad], 'drop')
        same(kept.t, t[~bad], 'parameters after the drop')
    mark(case, ev)


def search(case, ev):
    """index, count, membership and equality in a curve of thousands of points"""
    p, t, rs = build(case)
    a, b = case['a'], case['a'] + case['m']
    with quiet():
        c = Curve(p)
        for i in (0, a, b - 1, case['n'] - 1):
            x = Point(p[i], dtype=case['dt'])
            where = np.flatnonzero((p == p[i]).all(axis=1))
            require(c.index(x) == where[0] and c.count(x) == where.size and x in c, 'index {} and count {} of a point instead of {}', c.index(x), c.count(x), where)
            if where[-1] > 0:
                require(c.index(x, int(where[-1])) == where[-1], 'index from {} on is {}', where[-1], c.index(x, int(where[-1])))
        x = Point(p[a] + 10 ** 6, dtype=case['dt'])
        require(x not in c and c.count(x) == 0, 'a point far away is in the curve')
        require(c[a:b] in c and Curve(p) == c, 'the curve does not contain its part')
        wrong = p.copy()
        wrong[b - 1] += 1
        wrong = Curve(wrong)
        require(not wrong == c and wrong != c, 'a curve equals another one which differs in point {}', b - 1)
        far = p[a:b].copy()
        far[-1] += 10 ** 6
        require(Curve(far) not in c, 'the curve contains a part with a wrong last point')
    mark(case, ev)


def edits(case, ev):
    """deleting, inserting, appending, concatenating and reversing thousands of points"""
    p, t, rs = build(case)
    a, b = case['a'], case['a'] + case['m']
    with quiet():
        c = Curve(p)
        d = c[a:b]
        same(c.delete(slice(a, b)).data, np.vstack([p[:a], p[b:]]), 'delete')
        same(c.delete(slice(a, b)).insert(a, d).data, p, 'insert of the deleted part')
        same((c + d).data, np.vstack([p, p[a:b]]), 'concatenation')
        same(d.append(c).data, np.vstack([p[a:b], p]), 'append')
        same(c.reverse().data, p[::-1], 'reverse')
        idx = rs.randint(0, case['n'], case['n'] // 3)
        same(c.delete(idx).data, np.delete(p, idx, axis=0), 'delete of a third of the points')
        mask = np.zeros(case['n'], dtype=bool)
        mask[idx] = True
        same(c.delete(mask).data, p[~mask], 'delete of a mask')
    mark(case, ev)


def selection(case, ev):
    """search, cleaning and edits of a curve of thousands of points"""
    cleaning(case, ev)
    search(case, ev)
    edits(case, ev)


def indexing(case, ev):
    """slices, lists and masks of a curve of thousands of points"""
    p, t, rs = build(case)
    n, a, b = case['n'], case['a'], case['a'] + case['m']
    with quiet():
        c = Curve(p)
        for s in (slice(a, b), slice(a - n, None, 3), slice(None, None, -1), slice(b, a, -2), slice(-1, -n - 1, -7)):
            same(c[s].data, p[s], f'slice {s}')
        idx = rs.randint(-n, n, n + 5)
        same(c[idx].data, p[idx], 'array of indices')
        same(c[idx.tolist()].data, p[idx], 'list of indices')
        mask = rs.rand(n) < 0.5
        same(c[mask].data, p[mask], 'mask')
        for i in (a, b - 1, -1, -n):
            same(c[i].data, p[i], f'point {i}')
            require(c[i].idx == i % n, 'index of point {} is {}', i, c[i].idx)
        same([q.data for q in c], p, 'iteration')
    mark(case, ev)


def parameters(case, ev):
    """the parameters follow thousands of points"""
    p, t, rs = build(case)
    n, a, b = case['n'], case['a'], case['a'] + case['m']
    with quiet():
        c = Curve(p, tdata=t)
        idx = rs.randint(0, n, n)
        mask = rs.rand(n) < 0.5
        for what, d, q, u in (('slice', c[a:b], p[a:b], t[a:b]), ('indices', c[idx], p[idx], t[idx]), ('mask', c[mask], p[mask], t[mask]), ('reverse', c.reverse(), p[::-1], t[::-1]),
                              ('delete', c.delete(slice(a, b)), np.delete(p, slice(a, b), axis=0), np.delete(t, slice(a, b))), ('copy', Curve(c), p, t),
                              ('delete list', c.delete(idx[:n // 4]), np.delete(p, idx[:n // 4], axis=0), np.delete(t, idx[:n // 4])),
                              ('concatenation', c + c[a:b], np.vstack([p, p[a:b]]), np.hstack([t, t[a:b]]))):
            require(d.isparametric, '{} is not parametric', what)
            same(d.data, q, what)
            same(d.t, u, f'parameters of {what}')
    mark(case, ev)
    cleaning(case, ev)


def dimensions(case, ev):
    """dimension edits of thousands of points"""
    p, t, rs = build(case)
    v = rs.randint(-9, 10, case['n']).astype(case['dt'])
    with quiet():
        c = Curve(p)
        for k in range(case['nd'] + 1):
            d = c.insertdim(k, v)
            same(d.data, np.insert(p, k, v, axis=1), f'insertdim {k}')
            same(d.deletedim(k).data, p, f'deletedim {k}')
            same(d.values(k), v, f'values {k}')
        same(c.appenddim(v).data, np.column_stack([p, v]), 'appenddim')
        same(c.appenddim().data, np.column_stack([p, 0 * v]), 'appenddim of zeros')
    mark(case, ev)


def interpolation(case, ev):
    """interpolation of a curve of thousands of points: its points, its parts, and thousands of new points"""
    case = dict(case, dt='float64')
    p, t, rs = build(case)
    n, a, b = case['n'], case['a'], case['a'] + case['m']
    with quiet():
        c = Curve(p, tdata=t)
        d = c[a:b]
        size = 1 + float(np.max(np.abs(p)))
        for name, k in (('linear', 0), ('pchip', 1), ('akima', 2), ('hermite', 1)):
            inner = t[a + k:b - k]
            grid = np.sort(np.hstack([inner, inner[:-1] + np.diff(inner) / 3]))
            close(d.interpolate(grid, name).data, c.interpolate(grid, name).data, f'{name} interpolation of the part {a}:{b} of {n}', rtol=0, atol=1e-9 * size)
        for name in ('linear', 'cubic', 'pchip', 'akima', 'hermite', 'spline'):
            close(c.interpolate(t, name).data, p, f'{name} interpolation of {n} points at their parameters', rtol=0, atol=1e-7 * size)
    grids(case, ev)


def grids(case, ev):
    """uniform grids of thousands of points are equally spaced and end at the ends"""
    p, t, rs = build(dict(case, dt='float64'))
    c = Curve(p, tdata=t)
    size = 1 + float(np.max(np.abs(p)))
    k = 2 + case['seed'] % 5000
    with quiet():
        r = c.interpolate(k, 'linear')
        require(r.size == k, '{} points instead of {}', r.size, k)
        u = np.linspace(t[0], t[-1], k)
        close(r.t, u, f'parameters of {k} points', rtol=0, atol=1e-9 * t[-1])
        close(r.data, np.stack([np.interp(u, t, x) for x in p.T], axis=1), f'linear interpolation at {k} points', rtol=0, atol=1e-9 * size)
    mark(case, ev)


def smoothing(case, ev):
    """smoothing of a curve of thousands of points is that of its parts"""
    p, t, rs = build(case)
    n, a, b = case['n'], case['a'], case['a'] + case['m']
    m = b - a
    size = 1 + float(np.max(np.abs(p)))
    with quiet():
        c = Curve(p, tdata=t)
        d = c[a:b]
        w = 2 + case['seed'] % 30
        h = w // 2 + 1
        r = c.smooth('window', window_size=w, window_type='boxcar')
        require(r.size == n, 'window: {} points instead of {}', r.size, n)
        if m > 2 * h:
            close(d.smooth('window', window_size=w, window_type='boxcar').data[h:m - h], r.data[a + h:b - h], f'window of {w} inside of the part', rtol=0, atol=1e-9 * size)
        f = p.astype(float)
        i = np.arange(h, n - h)
        ref = sum(f[i + k] for k in range(-(w // 2), w - w // 2)) / w
        ref2 = sum(f[i + k] for k in range(-((w - 1) // 2), w - (w - 1) // 2)) / w     # an even window may lean to either side
        if not np.allclose(r.data[i], ref2, rtol=0, atol=1e-9 * size):
            close(r.data[i], ref, f'moving average of {w} points', rtol=0, atol=1e-9 * size)
        kw = {'window_length': 2 * (w // 2) + 1, 'polyorder': min(2, w // 2)}
        h = w // 2
        r = c.smooth('savgol', **kw)
        require(r.size == n, 'savgol: {} points instead of {}', r.size, n)
        if m > 2 * h:
            close(d.smooth('savgol', **kw).data[h:m - h], r.data[a + h:b - h], f'savgol {kw} inside of the part', rtol=0, atol=1e-8 * size)
    mark(case, ev)


def planes(case, ev):
    """one point of thousands decides whether a curve is plane; orientation of long curves"""
    p, t, rs = build(dict(case, dt='float64'))
    n, nd, a = case['n'], case['nd'], case['a']
    with quiet():
        require(Curve(p[:, :2]).isplane is True or Curve(p[:, :2]).isplane == True, 'a 2-d curve is not plane')      # noqa: E712
        u = rs.randint(-3, 4, (2, max(nd, 3)))
        q = p[:, :2] @ u
        require(bool(Curve(q).isplane), 'a plane curve of {} points is not', n)
        if np.linalg.matrix_rank(u) == 2:
            size = float(np.max(np.abs(q)))
            out = np.linalg.svd(u)[2][2] * (1 + size)
            q = q.astype(float)
            q[a] += out
            require(not Curve(q).isplane, 'a curve of {} points with point {} off the plane is plane', n, a)
        c = Curve(p)
        det = p[0, 0] * p[-1, 1] - p[-1, 0] * p[0, 1]
        if det:
            same(c.coorientplane().data, p if det > 0 else p[::-1], 'coorientplane')
    mark(case, ev)


def views(case, ev):
    """points, segments and sub-curves of a curve of thousands of points"""
    p, t, rs = build(case)
    n, a, b = case['n'], case['a'], case['a'] + case['m']
    with quiet():
        c = Curve(p, tdata=t)
        segments = c.segments
        require(len(segments) == n - 1, '{} segments of {} points', len(segments), n)
        for i in (0, a, b - 2, n - 2):
            s = segments[i]
            require(s.idx == i and s.curve is c, 'segment {}: index {}', i, s.idx)
            same(s.p1.data, p[i], f'first point of segment {i}')
            same(s.p2.data, p[i + 1], f'second point of segment {i}')
            close(s.chordlen, c.chordlen[i], f'chord length of segment {i}')
            x = c[i]
            require(x.t == t[i], 't of point {} is {}', i, x.t)
            for name in ('cumarclen', 'firstderiv', 'speed', 'curvature', 'frenet1', 'torsion'):
                same(getattr(x, name), getattr(c, name)[i], f'{name} of point {i}')
        same(c[a].subcurve(c[b - 1]).data, p[a:b], 'subcurve')
        same(c[a].subcurve(c[b - 1], endpoint=False).t, t[a:b - 1], 'parameters of the subcurve')
    mark(case, ev)


@st.composite
def zigzags(draw, methods=('exact', 'almost')):
    return {'n': draw(st.integers(40, 700)), 'm': draw(st.integers(1, 40)), 'seed': draw(st.integers(0, 2 ** 32 - 1)), 'swap': draw(st.booleans()), 'method': draw(st.sampled_from(methods))}


def crossings(case, ev):
    """a zigzag crossed by a line of few pieces is hit once at every one of its hundreds of crossing segments"""
    n, m = case['n'], case['m']
    rs = np.random.RandomState(case['seed'])
    up = rs.randint(0, 3, n) > 0                                 # some vertices stay on the other side: no crossing there
    y = np.where(up == (np.arange(n) % 2 == 0), 4.0, -4.0) * rs.choice([1, 0.5, 0.25], n)
    z = np.stack([np.arange(n, dtype=float), y], axis=1)
    ends = np.unique(np.hstack([[-1], rs.randint(0, n - 1, m - 1) + 0.28125, [n]]))       # no corner of the line at a crossing: those are at multiples of 1/6, 1/5, 1/3, 1/2
    line = np.stack([ends, np.zeros(len(ends))], axis=1)
    want, where = [], []
    for i in range(n - 1):
        if (y[i] > 0) != (y[i + 1] > 0):
            x = i + y[i] / (y[i] - y[i + 1])
            j = int(np.searchsorted(ends, x)) - 1
            want.append((i, j))
            where.append([x, 0.0])
    a, b = Curve(z), Curve(line)
    if case['swap']:
        a, b, want_ = b, a, [(j, i) for i, j in want]
    else:
        want_ = want
    order = sorted(range(len(want_)), key=lambda k: want_[k])
    kw = {'method': 'almost', 'dist_tol': 1e-6} if case['method'] == 'almost' else {}
    with quiet():
        rs_ = a.intersect(b, **kw)
        got = [(r.segment1.idx, r.segment2.idx) for r in rs_]
        require(got == [want_[k] for k in order], '{} intersections instead of {}: first difference {}', len(got), len(want_),
                next(((g, w) for g, w in zip(got, [want_[k] for k in order]) if g != w), None))
        if got:
            close([r.intersect_point.data for r in rs_], [where[k] for k in order], 'places of the intersections', rtol=0, atol=1e-7 * n)
    ev.label(case['method'])
    ev.nontrivial(len(want) > 10)
