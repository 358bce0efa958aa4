"""C23: interpolation grids have the requested points and invalid ones are refused."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, huge, oracle
from vf.core import close, raises, recorded, require, same, sub
from skcurve import (Curve, InterpolationGrid, InterpolationWarning, PreservedSpeedInterpolationGrid, UniformExtrapolationGrid,
                     UniformInterpolationGrid)


@st.composite
def curves(draw, lo=2, hi=9, parametric=None):
    c = draw(gen.walk(lo=lo, hi=hi, parametric=parametric))
    if c['t'] is not None and draw(st.integers(0, 5)) == 0:
        c['t'] = draw(gen.length_like(c['p']))
    return c


def span(c):
    return float(c['t'][0]), float(c['t'][-1])


def ends(case):
    """First and last parameter of a curve case, computed from the case alone."""
    if case['t'] is not None:
        return float(case['t'][0]), float(case['t'][-1])
    return 0.0, float(sum(oracle.chord_lengths(case['p'])))


def arclen(case):
    return float(sum(oracle.chord_lengths(case['p'])))


def uniform(a, b, n):
    return np.array([a + (b - a) * i / (n - 1) for i in range(n)]) if n > 1 else np.array([a])


def near(x):
    """Whether x rounds the same way whatever the last digits."""
    return abs(x - np.floor(x) - 0.5) > 1e-6


@sub('C23', st.fixed_dictionaries({'c': curves(), 'n': st.integers(2, 40), 'm': st.sampled_from(['linear', 'pchip', 'csaps'])}), quick=500)
def point_count(case, ev):
    """a count n gives n uniform parameters from the first to the last, by a number and by the grid object"""
    c, n = gen.make(case['c']), case['n']
    a, b = ends(case['c'])
    ref = uniform(a, b, n)
    tol = 1e-12 * (abs(a) + abs(b))
    for what, g in (('UniformInterpolationGrid', UniformInterpolationGrid(n)), ('kind="point"', UniformInterpolationGrid(fill=n, kind='point'))):
        require(isinstance(g, InterpolationGrid), 'type {}', type(g))
        got = g(c)
        close(got, ref, what, rtol=0, atol=tol)
        require(got[0] == c.t[0] and got[-1] == c.t[-1], '{} runs from {} to {} instead of {} to {}', what, got[0], got[-1], c.t[0], c.t[-1])
    r1, r2, r3 = c.interpolate(n, case['m']), c.interpolate(UniformInterpolationGrid(n), case['m']), c.interpolate(UniformInterpolationGrid(n)(c), case['m'])
    require(len(r1) == n, '{} points instead of {}', len(r1), n)
    same(r1.data, r2.data, 'interpolation by a number and by a grid object')
    same(r1.data, r3.data, 'interpolation by a number and by grid values')
    if case['c']['t'] is not None:
        close(r1.t, ref, 'parameters of the interpolated curve', rtol=0, atol=tol)
    close(r1.data[0], c.data[0], 'first point', rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(c.data))))
    close(r1.data[-1], c.data[-1], 'last point', rtol=1e-9, atol=1e-9 * (1 + np.max(np.abs(c.data))))
    ev.label('parametric' if case['c']['t'] else 'arc length')
    ev.nontrivial(n > 2)


@sub('C23', st.fixed_dictionaries({'c': curves(), 'k': st.integers(1, 200), 'isint': st.booleans()}), quick=400)
def by_length(case, ev):
    """a length gives round(arclen/length)+1 uniform parameters"""
    c = gen.make(case['c'])
    a, b = ends(case['c'])
    total = arclen(case['c'])
    fill = total * case['k'] / 64
    if case['isint']:
        fill = int(round(fill))
        if fill < 1:
            return
    if not near(total / fill):
        return
    n = int(np.floor(total / fill + 0.5)) + 1
    got = UniformInterpolationGrid(fill, kind='length')(c)
    close(got, uniform(a, b, n), f'grid by length {fill} of a curve of length {total}', rtol=0, atol=1e-12 * (abs(a) + abs(b)))
    if n >= 2:
        r = c.interpolate(UniformInterpolationGrid(fill, kind='length'), 'linear')
        require(len(r) == n, '{} points instead of {}', len(r), n)
    ev.label(f'{min(n, 5)} points')
    ev.nontrivial(n > 2)


@sub('C23', st.fixed_dictionaries({'c': curves(), 'n': st.integers(2, 20), 'before': st.integers(0, 9), 'after': st.integers(0, 9),
                                   'kind': st.sampled_from(['point', 'point', 'length', 'default']), 'frac': st.sampled_from([0, 0.25, -0.25, 0.49, -0.49, 0.4999, -0.4999])}), quick=600)
def extrapolation(case, ev):
    """UniformExtrapolationGrid adds the requested points (or length) before and after with the same spacing"""
    c, n = gen.make(case['c']), case['n']
    a, b = ends(case['c'])
    step = (b - a) / (n - 1)
    before, after = case['before'], case['after']
    grid = UniformInterpolationGrid(n)
    if case['kind'] == 'length':
        lb, la = max(0.0, (before + case['frac']) * step), max(0.0, (after - case['frac']) * step)
        ext = UniformExtrapolationGrid(grid, before=lb, after=la, kind='length')
    elif case['kind'] == 'point':
        ext = UniformExtrapolationGrid(grid, before, after, kind='point')
    else:
        ext = UniformExtrapolationGrid(grid, before=before, after=after)
    got = ext(c)
    ref = np.concatenate(([a - step * i for i in range(before, 0, -1)], uniform(a, b, n), [b + step * i for i in range(1, after + 1)]))
    close(got, ref, f'{before} points before and {after} after', rtol=0, atol=1e-11 * (abs(a) + abs(b) + 10 * step))
    same(got[before:before + n], grid(c), 'the inner part of the grid')
    if len(got) > 1:
        r = c.interpolate(ext, 'linear')
        require(len(r) == n + before + after, '{} points', len(r))
    same(UniformExtrapolationGrid(grid)(c), grid(c), 'no extrapolation')
    ev.label(case['kind'], 'both' if before and after else 'before' if before else 'after' if after else 'none')
    ev.nontrivial(before + after > 0)


@sub('C23', st.fixed_dictionaries({'c': curves(hi=12), 'n': st.integers(2, 40), 'kind': st.sampled_from([None, 'linear', 'quadratic', 'cubic'])}), quick=600)
def preserved_speed(case, ev):
    """PreservedSpeedInterpolationGrid: pcount increasing parameters from start to end which follow the point spacing"""
    c, n, kind = gen.make(case['c']), case['n'], case['kind']
    a, b = ends(case['c'])
    m = len(c)
    if kind in ('quadratic', 'cubic'):
        if m < 5:
            return
        grid = PreservedSpeedInterpolationGrid(n, interp_kind=kind)
    else:
        grid = PreservedSpeedInterpolationGrid(n) if kind is None else PreservedSpeedInterpolationGrid(pcount=n, interp_kind=kind)
    got = grid(c)
    tol = 1e-11 * (abs(a) + abs(b))
    require(got.shape == (n,), 'shape {}', got.shape)
    if case['c']['t'] is not None:
        close(got, uniform(a, b, n), 'grid of a parametric curve', rtol=0, atol=tol)
        ev.label('parametric')
    elif kind in ('quadratic', 'cubic'):
        # a spline may overshoot, so only what it must pass through is known
        if n == m:
            lens = np.concatenate(([0], np.cumsum(oracle.chord_lengths(case['c']['p']))))
            close(got, lens, f'{kind} grid with as many points as the curve', rtol=0, atol=1e-8 * b)
        ev.label(kind)
    else:
        lens = np.concatenate(([0], np.cumsum(oracle.chord_lengths(case['c']['p']))))
        ref = []
        for i in range(n):
            num = i * (m - 1)
            q, rest = divmod(num, n - 1)
            ref.append(lens[q] if rest == 0 else lens[q] + (lens[q + 1] - lens[q]) * rest / (n - 1))
        close(got, ref, 'grid following the point spacing', rtol=0, atol=tol)
        require(np.all(np.diff(got) > 0), 'not increasing: {}', got)
        require(got[0] == 0 and abs(got[-1] - b) <= tol, 'runs from {} to {}', got[0], got[-1])
        if n == m:
            close(c.interpolate(grid, 'linear').data, c.data, 'interpolation with as many points', rtol=0, atol=1e-9 * (1 + np.max(np.abs(c.data))))
        ev.label('as many points' if n == m else 'other count')
    ev.nontrivial(m > 2 and n > 2)


@sub('C23', st.fixed_dictionaries({'m': st.integers(5, 12), 'a': st.integers(0, 9), 'b': st.integers(1, 20), 'n': st.integers(2, 40),
                                   'kind': st.sampled_from(['quadratic', 'cubic']), 'dir': st.sampled_from([[1, 0], [0, -1], [3, 4], [2, -1, 2]])}), quick=200)
def preserved_speed_kinds(case, ev):
    """a quadratic or cubic PreservedSpeedInterpolationGrid reproduces lengths growing like a quadratic polynomial"""
    u = np.array(case['dir'], dtype=float)
    u /= np.linalg.norm(u)

    def length(i):
        return (case['a'] * i * i + case['b'] * i) / 8

    m, n = case['m'], case['n']
    c = Curve(np.outer(length(np.arange(m)), u))
    x = np.array([i * (m - 1) / (n - 1) for i in range(n)])
    got = PreservedSpeedInterpolationGrid(n, interp_kind=case['kind'])(c)
    close(got, length(x), f'{case["kind"]} grid of {n} points for {m} points', rtol=0, atol=1e-9 * length(m - 1))
    ev.label(case['kind'])
    ev.nontrivial(case['a'] > 0 and n > 2)


@st.composite
def explicit_cases(draw):
    c = draw(curves())
    g = sorted(draw(st.lists(st.integers(-64, 192), min_size=1, max_size=9, unique=True)))
    if draw(st.booleans()):
        # covers the whole range exactly or more
        g = sorted(set(g) | {draw(st.sampled_from([0, 0, -5])), draw(st.sampled_from([128, 128, 150]))})
    return {'c': c, 'g': g, 'form': draw(st.sampled_from(['list', 'tuple', 'array', 'float32', 'grid object', 'int']))}


@sub('C23', st.fixed_dictionaries({'p': gen.walk(lo=3, hi=7, parametric=False), 'off': st.sampled_from([0, 2.0 ** 20, -2.0 ** 24, 1e6, -12345.0, 2.0 ** 30]),
                                   'dt': st.lists(st.sampled_from([2.0 ** -10, 2.0 ** -4, 1, 3, 40]), min_size=6, max_size=6),
                                   'g': st.lists(st.sampled_from([2.0 ** -20, 2.0 ** -16, 2.0 ** -8, 0.25, 1, 7]), min_size=1, max_size=8),
                                   'n': st.integers(2, 50), 'grid': st.booleans(), 'unit': st.sampled_from([0, 0, 0, -30, -60, 20])}), quick=500)
def far_parameters(case, ev):
    """grids which are fine compared with the parameter values are used as given, wherever the parameters begin and in every unit"""
    p = gen.array(case['p'])
    unit = 2.0 ** case['unit']
    t = unit * (case['off'] + np.concatenate(([0.0], np.cumsum(case['dt'])))[:len(p)])
    c = Curve(p, tdata=t)
    n = case['n']
    if not case['grid']:
        got = c.interpolate(n, 'linear')
        require(len(got) == n, '{} points', len(got))
        close(got.t, uniform(t[0], t[-1], n), 'uniform parameters', rtol=0, atol=4e-16 * np.max(np.abs(t)))
        close(got.t[[0, -1]], t[[0, -1]], 'ends', rtol=0, atol=0)
        ev.label('count')
        ev.nontrivial(n > 2)
        return
    g = t[0] + unit * np.concatenate(([0.0], np.cumsum(case['g'])))
    if np.any(np.diff(g) < unit * 2.0 ** -21):
        return
    r = c.interpolate(g, 'linear')
    same(r.t, g, 'parameters')
    ref = oracle.linear((t - t[0]) / unit, p.astype(float), (g - t[0]) / unit)
    close(r.data, ref, 'values at the given grid', rtol=1e-9, atol=1e-6 * (1 + np.max(np.abs(ref))))
    for k in range(len(g) - 1):
        bad = g.copy()
        bad[k + 1] = bad[k]
        raises(ValueError, lambda: c.interpolate(bad, 'linear'), f'a grid with equal values {k}')
        bad[k + 1] = bad[k] - unit * 2.0 ** -16
        raises(ValueError, lambda: c.interpolate(bad, 'linear'), f'a grid decreasing at {k}')
    ev.label('grid', 'close values' if min(case['g']) < 1e-4 else 'wide', f'unit 2**{case["unit"]}')
    ev.nontrivial()


class Fixed(InterpolationGrid):
    def __init__(self, values):
        self.values, self.curves = values, []

    def __call__(self, curve):
        self.curves.append(curve)
        return self.values


@sub('C23', explicit_cases(), quick=700)
def explicit(case, ev):
    """an explicit grid is used as given; a warning tells when it does not cover the parameter range"""
    c = gen.make(case['c'])
    t0, t1 = float(c.t[0]), float(c.t[-1])
    g = np.array([t1 if k == 128 else t0 + (t1 - t0) * k / 128 for k in case['g']])
    form = case['form']
    if form == 'int':
        g = np.unique(np.floor(g))
        spec = [int(x) for x in g]
    elif form == 'float32':
        spec = g.astype(np.float32)
        g = spec.astype(np.float64)
    elif form == 'grid object':
        spec = Fixed(g.copy())
    else:
        spec = {'list': g.tolist(), 'tuple': tuple(g.tolist()), 'array': g.copy()}[form]
    if np.any(np.diff(g) < 1e-6):
        return
    with recorded() as w:
        r = c.interpolate(spec, 'linear')
    w = [x for x in w if issubclass(x.category, InterpolationWarning)]
    covered = g[0] <= t0 and g[-1] >= t1
    require(bool(w) is (not covered), 'grid {}..{}, parameters {}..{}: {} warnings', g[0], g[-1], t0, t1, len(w))
    require(len(r) == len(g), '{} points', len(r))
    if case['c']['t'] is not None:
        same(r.t, g, 'parameters')
    close(r.data, oracle.linear(np.array(c.t), np.array(c.data), g), 'values at the given grid', rtol=1e-9, atol=1e-9)
    if form == 'grid object':
        require(len(spec.curves) == 1 and spec.curves[0] is c, 'the grid object is called with {}', spec.curves)
        same(spec.values, g, 'the values of the grid object')
    elif form == 'array':
        same(spec, g, 'the given grid')
    ev.label(form, 'covered' if covered else 'not covered')
    ev.nontrivial(len(g) > 1)


@st.composite
def bad_cases(draw):
    c = draw(curves())
    kind = draw(st.sampled_from(['equal', 'decreasing', 'swapped', 'reversed', 'matrix', 'column', 'scalar array', 'string', 'none', 'float', 'object', 'nan order', 'count 1', 'count 0',
                                 'negative count', 'strings']))
    g = draw(gen.increasing(draw(st.integers(3, 7)), lo=2))
    return {'c': c, 'kind': kind, 'g': g, 'i': draw(st.integers(0, len(g) - 2)), 'form': draw(st.sampled_from(['list', 'array', 'grid object'])),
            'm': draw(st.sampled_from(['linear', 'csaps', 'pchip']))}


@sub('C23', bad_cases(), quick=500)
def invalid_grids(case, ev):
    """grids which are not one-dimensional and strictly increasing are refused, as are counts below two"""
    c = gen.make(case['c'])
    g, i, kind = list(case['g']), case['i'], case['kind']
    if kind == 'equal':
        g[i + 1] = g[i]
    elif kind == 'decreasing':
        g[i + 1] = g[i] - 0.125
    elif kind == 'swapped':
        g[i], g[i + 1] = g[i + 1], g[i]
    elif kind == 'reversed':
        g = g[::-1]
    elif kind == 'matrix':
        g = [g, [x + 1 for x in g]]
    elif kind == 'column':
        g = [[x] for x in g]
    spec = np.array(g) if case['form'] == 'array' else Fixed(np.array(g)) if case['form'] == 'grid object' else g
    if kind == 'scalar array':
        spec = np.array(5.0)
    elif kind in ('string', 'none', 'float', 'object'):
        spec = {'string': 'uniform', 'none': None, 'float': 5.5, 'object': object()}[kind]
    elif kind == 'strings':
        spec = ['a', 'b']
    elif kind in ('count 1', 'count 0', 'negative count'):
        spec = {'count 1': 1, 'count 0': 0, 'negative count': -3}[kind]
    elif kind == 'nan order':
        spec = [float('nan')] * 3
        ev.label('nan, not claimed')
        return
    raises(ValueError, lambda: c.interpolate(spec, case['m']), f'interpolation on the grid {spec} ({kind})')
    ev.label(kind)
    ev.nontrivial()


@sub('C23', st.fixed_dictionaries({'kind': st.sampled_from(['points', 'Point', '', None, 5, 'len']), 'n': st.integers(-5, 1),
                                   'x': st.sampled_from([2.5, 10.0, '5', None, [5]]), 'y': st.sampled_from(['5', None, [5], 'abc']),
                                   'c': curves(hi=4)}), quick=300)
def invalid_specifications(case, ev):
    """counts below two, unknown kinds and fill values of another type are refused"""
    k = case['kind']
    raises(ValueError, lambda: UniformInterpolationGrid(10, kind=k), f'kind {k!r}')
    raises(ValueError, lambda: UniformInterpolationGrid(case['n']), f'{case["n"]} points')
    raises(ValueError, lambda: UniformInterpolationGrid(case['n'], kind='point'), f'{case["n"]} points')
    raises(TypeError, lambda: UniformInterpolationGrid(case['x']), f'{case["x"]!r} points')
    raises(TypeError, lambda: UniformInterpolationGrid(case['y'], kind='length'), f'length {case["y"]!r}')
    g = UniformInterpolationGrid(5)
    raises(ValueError, lambda: UniformExtrapolationGrid(g, 1, 1, kind=k), f'kind {k!r}')
    for kw in ({'before': case['x']}, {'after': case['x']}, {'before': case['x'], 'after': 1}, {'before': 1, 'after': case['x']}):
        raises(TypeError, lambda: UniformExtrapolationGrid(g, **kw), f'{kw}')
    for kw in ({'before': case['y']}, {'after': case['y']}):
        raises(TypeError, lambda: UniformExtrapolationGrid(g, kind='length', **kw), f'{kw}')
    c = gen.make(case['c'])
    for n in (0, 1):
        raises(ValueError, lambda: g(c[:n]), f'a grid for {n} points')
    require(len(UniformInterpolationGrid(2)(c)) == 2, 'two points')
    ev.nontrivial()


sub('C23', st.fixed_dictionaries({'c': gen.long_walk(), 'n': st.integers(2, 400), 'm': st.sampled_from(['linear', 'pchip', 'csaps'])}), quick=40, name='point_count_long')(point_count)
sub('C23', st.fixed_dictionaries({'c': gen.long_walk(), 'k': st.integers(1, 200), 'isint': st.booleans()}), quick=30, name='by_length_long')(by_length)
sub('C23', st.fixed_dictionaries({'c': gen.long_walk(), 'n': st.integers(2, 400), 'kind': st.sampled_from([None, 'linear', 'quadratic', 'cubic'])}), quick=60,
    name='preserved_speed_long')(preserved_speed)

sub('C23', huge.curves(), quick=20, name='huge')(huge.grids)
