"""C32: local results depend on the neighbouring points only."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, huge
from vf.core import close, quiet, require, same, sub
from skcurve import Curve, Point


@st.composite
def parts(draw, lo=12, hi=200, ndims=(2, 3, 4), parametric=None):
    """A curve and the bounds of one part of it."""
    c = draw(st.one_of(gen.long_walk(lo, 30, ndims=ndims, parametric=parametric), gen.long_walk(30, hi, ndims=ndims, parametric=parametric)))
    n = len(c['p'])
    k = draw(st.sampled_from([0, 0, 0, -40, -20, 30]))
    if k:
        c = dict(c, p=[[x * 2.0 ** k for x in q] for q in c['p']])
    m = draw(st.integers(9, n))
    a = draw(st.integers(0, n - m))
    return {'c': c, 'a': a, 'b': a + m, 'k': k}


@sub('C32', parts(), quick=500)
def derived(case, ev):
    """derived quantities of a part are those of the whole curve wherever only points of the part matter"""
    with quiet():
        c = gen.make(case['c'])
        a, b, n = case['a'], case['b'], c.size
        d = c[a:b]
        data = c.data.copy()
        # another curve which agrees with the first one on the part only
        step = 2.0 ** case.get('k', 0)
        data[:a] = data[:a][::-1] * 2 + step
        data[b:] = data[b:][::-1] - 3 * step
        e = Curve(data)
        # ... and is of another order of magnitude elsewhere
        for f in (2.0 ** 40, 2.0 ** -40):
            data = c.data.copy()
            data[:a] *= f
            data[b:] *= f
            g = Curve(data)
            for name, k in (('firstderiv', 1), ('secondderiv', 2), ('thirdderiv', 3), ('tangent', 1), ('speed', 1)):
                ref = getattr(d, name)
                close(getattr(g, name)[a + k:b - k], ref[k:len(ref) - k], f'{name} in {a}:{b} with the other points scaled by {f}', rtol=1e-12, atol=0)
            same(g.chordlen[a:b - 1], d.chordlen, 'chord lengths with the other points scaled')
        hole = np.where(((np.arange(n) < a) | (np.arange(n) >= b))[:, np.newaxis], np.nan, c.data)
        hole = Curve(hole)
        same(hole.chordlen[a:b - 1], d.chordlen, 'chord lengths with undefined points outside of the part')
        same(c.chordlen[a:b - 1], d.chordlen, 'chord lengths of the part')
        close(np.diff(c.cumarclen[a:b]), d.chordlen, 'increments of the cumulative length', atol=1e-9 * c.arclen)
        close(c[:a + 1].arclen + d.arclen + c[b - 1:].arclen, c.arclen, 'sum of the lengths of the parts')
        unit = float(np.max(c.chordlen))
        for name, k in huge.REACH:
            whole, part, other, undefined = getattr(c, name), getattr(d, name), getattr(e, name), getattr(hole, name)
            ref = whole[a + k:b - k]
            ok = np.isfinite(ref).all(axis=tuple(range(1, ref.ndim)))
            size = float(np.max(np.abs(ref[ok]), initial=0.0))
            size += {'curvature': 8 / unit, 'torsion': 8 / unit, 'frenet1': 1, 'frenet2': 1, 'frenet3': 1}.get(name, unit)
            loose = 1e-6 if name in ('curvature', 'torsion', 'frenet3', 'binormal', 'frenet2', 'normal') else 1e-10
            close(part[k:len(part) - k][ok], ref[ok], f'{name} of the part {a}:{b} of {n} points', rtol=0, atol=loose * size)
            close(undefined[a + k:b - k][ok], ref[ok], f'{name} with undefined points outside of {a}:{b}', rtol=0, atol=loose * size)
            close(other[a + k:b - k][ok], ref[ok], f'{name} after changing the points outside of {a}:{b}', rtol=0, atol=loose * size)
        for i in (a, (a + b) // 2, b - 1):
            same(c[i].data, d[i - a].data, f'point {i} as a point of the part')
            if i < b - 1:
                same(c.segments[i].data, d.segments[i - a].data, f'segment {i} as a segment of the part')
                require(c.segments[i] == d.segments[i - a], 'segment {} is another one in the part', i)
    ev.label('whole' if b - a == n else 'part', f'{c.ndim}-d')
    ev.nontrivial(b - a < n)


@sub('C32', st.fixed_dictionaries({'x': parts(parametric=True), 'w': st.integers(3, 7), 'odd': st.integers(1, 3), 'poly': st.integers(0, 2)}), quick=400)
def made_curves(case, ev):
    """linear, PCHIP and Akima interpolation and smoothing inside of a part are those of the whole curve"""
    with quiet():
        x = case['x']
        c, a, b = gen.make(x['c']), x['a'], x['b']
        d = c[a:b]
        t = c.t
        size = float(np.max(np.abs(c.data)))
        for name, k in (('linear', 0), ('pchip', 1), ('akima', 2)):
            # all points between the k-th point from both ends, and a third of every interval
            inner = t[a + k:b - k]
            grid = np.sort(np.hstack([inner, inner[:-1] + np.diff(inner) / 3]))
            close(d.interpolate(grid, name).data, c.interpolate(grid, name).data, f'{name} interpolation of the part {a}:{b}', rtol=0, atol=1e-9 * size)
            for i in (a + k, b - 1 - k):
                close(c.interpolate([t[i], t[i] + 1e-3], name).data[0], c.data[i], f'{name} interpolation at point {i}', rtol=0, atol=1e-9 * size)
        w, odd = case['w'], 2 * case['odd'] + 1
        h = w // 2 + 1
        m = b - a
        if m > 2 * h:
            close(d.smooth('window', window_size=w).data[h:m - h], c.smooth('window', window_size=w).data[a + h:b - h], f'window of {w} inside of the part', rtol=0, atol=1e-10 * size)
        if m >= odd and case['poly'] < odd:
            kw = {'window_length': odd, 'polyorder': case['poly']}
            h = odd // 2
            close(d.smooth('savgol', **kw).data[h:m - h], c.smooth('savgol', **kw).data[a + h:b - h], f'savgol {kw} inside of the part', rtol=0, atol=1e-9 * size)
        # the same with undefined points outside of the part
        data = c.data.copy()
        rs = np.random.RandomState(a * 1000 + b)
        for lo, hi in ((0, a), (b, c.size)):
            bad = np.flatnonzero(rs.rand(hi - lo) < 0.2) + lo
            data[bad, rs.randint(0, c.ndim, bad.size)] = rs.choice([np.nan, np.inf, -np.inf], bad.size)
        hole = Curve(data, tdata=t)
        h = w // 2 + 1
        if m > 2 * h:
            close(hole.smooth('window', window_size=w).data[a + h:b - h], c.smooth('window', window_size=w).data[a + h:b - h], f'window of {w} with undefined points outside of {a}:{b}', rtol=0, atol=1e-10 * size)
        h = odd // 2
        if m >= odd and case['poly'] < odd and m > 2 * h:
            kw = {'window_length': odd, 'polyorder': case['poly'], 'mode': 'nearest'}
            close(hole.smooth('savgol', **kw).data[a + h:b - h], c.smooth('savgol', **kw).data[a + h:b - h], f'savgol {kw} with undefined points outside of {a}:{b}', rtol=0, atol=1e-9 * size)
        grid = np.sort(np.hstack([t[a:b], t[a:b - 1] + np.diff(t[a:b]) / 3]))
        close(hole.interpolate(grid, 'linear').data[1:-1], c.interpolate(grid, 'linear').data[1:-1], f'linear interpolation with undefined points outside of {a}:{b}', rtol=0, atol=1e-9 * size)
    ev.nontrivial(b - a < c.size)


@st.composite
def split_pairs(draw):
    nd = draw(st.sampled_from([2, 2, 3]))
    spread = (3,) if nd == 3 else (4, 30)
    a, b = draw(gen.long_curve(3, 15, nd=nd, spread=spread, parametric=False)), draw(gen.long_curve(3, 30, nd=nd, spread=spread, parametric=False))
    n = len(a['p'])
    i = draw(st.integers(0, n - 2))
    return {'a': a, 'b': b, 'i': i, 'j': draw(st.integers(i + 2, n)), 'method': draw(st.sampled_from(['exact', 'almost']))}


def hits(x, y, method):
    kw = {'method': 'almost', 'dist_tol': 0.2718} if method == 'almost' else {}
    return [((r.segment1.idx, r.segment2.idx), (r.intersect_type.name, r.intersect_segment.data.tolist())) for r in x.intersect(y, **kw)]


@sub('C32', split_pairs(), quick=150)
def intersections(case, ev):
    """the intersections of a part are those of the whole curve which lie on the part, in the same order"""
    with quiet():
        a, b, i, j, method = gen.make(case['a']), gen.make(case['b']), case['i'], case['j'], case['method']
        part = a[i:j]
        whole = hits(a, b, method)
        same_pairs(hits(part, b, method), [((p - i, q), v) for (p, q), v in whole if i <= p < j - 1], f'{method} intersections of the part {i}:{j}')
        same_pairs(sorted(hits(b, part, method)), sorted([((p, q - i), v) for (p, q), v in hits(b, a, method) if i <= q < j - 1]), f'{method} intersections with the part {i}:{j}')
        own = hits(a, None, method)
        same_pairs(hits(part, None, method), [((p - i, q - i), v) for (p, q), v in own if i <= p and q < j - 1], f'{method} self-intersections of the part {i}:{j}')
        for k in range(i, min(j - 1, i + 3)):
            s = a.segments[k]
            single = [(r.segment2.idx, (r.intersect_type.name, r.intersect_segment.data.tolist()))
                      for r in b and s.to_curve().intersect(b, **({'method': 'almost', 'dist_tol': 0.2718} if method == 'almost' else {}))]
            same_pairs(single, [(q, v) for (p, q), v in whole if p == k], f'{method} intersections of segment {k} alone')
    ev.label(method, 'hits' if whole else 'no hits')
    ev.nontrivial(bool(whole) and (i, j) != (0, a.size))


def same_pairs(got, ref, what):
    require([g[0] for g in got] == [r[0] for r in ref], '{}: {} instead of {}', what, [g[0] for g in got], [r[0] for r in ref])
    for (ij, g), (_, r) in zip(got, ref):
        require(g[0] == r[0], '{}: {} is {} instead of {}', what, ij, g[0], r[0])
        close(g[1], r[1], f'{what}: {ij}', rtol=0, atol=1e-9)


@sub('C32', st.fixed_dictionaries({'c': gen.long_curve(3, 60, spread=(1, 2), dtypes=('float64', 'int32')), 'i': st.integers(0, 60), 'seed': st.integers(0, 10 ** 6)}), quick=250)
def selection(case, ev):
    """counts, searches and cleaning of two halves add up to those of the whole curve"""
    c = gen.make(case['c'])
    i = case['i'] % (c.size + 1)
    x, y = c[:i], c[i:]
    rs = np.random.RandomState(case['seed'])
    for q in (c[rs.randint(c.size)], Point(rs.randint(-2, 3, c.ndim))):
        require(c.count(q) == x.count(q) + y.count(q), 'count of {}: {} and {} and {}', q, c.count(q), x.count(q), y.count(q))
        require(bool(q in c) == bool(q in x or q in y), 'membership of {}', q)
        if q in c:
            first = x.index(q) if q in x else y.index(q) + i
            require(c.index(q) == first, 'index of {} is {} instead of {}', q, c.index(q), first)
    bad = rs.rand(c.size) < 0.4
    f = lambda part: lambda d: part   # noqa: E731
    if c.size:
        whole, a, b = c.drop(f(bad)), x.drop(f(bad[:i])), y.drop(f(bad[i:]))
        same(whole.data, np.vstack([a.data, b.data]), 'drop of the halves')
        if c.isparametric:
            same(whole.t, np.hstack([a.t, b.t]), 'parameters after the drop of the halves')
    u, v = c.unique(), (x.unique() + y.unique()).unique()
    same(u.data, v.data, 'unique of the halves')
    same(c.reverse().data, (y.reverse() + x.reverse()).data, 'reverse of the halves')
    same((x + y).data, c.data, 'concatenation of the halves')
    ev.nontrivial(0 < i < c.size)


sub('C32', huge.curves(), quick=40, name='huge_derived')(huge.derived)
sub('C32', huge.curves(), quick=30, name='huge_selection')(huge.selection)
sub('C32', huge.curves(300, 3000), quick=30, name='huge_interpolation')(huge.interpolation)
sub('C32', huge.curves(300, 3000), quick=30, name='huge_smoothing')(huge.smoothing)
sub('C32', huge.zigzags(), quick=24, name='huge_intersections')(huge.crossings)
