"""C22: every interpolation method computes the curve it names."""
import numpy as np
import scipy.interpolate as interp
from hypothesis import strategies as st

from vf import gen, huge, oracle
from vf.core import close, quiet, raises, recorded, require, same, sub
from skcurve import Curve, InterpolationError, InterpolatorBase, get_interpolator


@st.composite
def cases(draw, lo=2, hi=10, outside=True, dts=('float64', 'float64', 'float64', 'float32'), parametric=None):
    """A curve without zero-length segments and a strictly increasing grid given by fractions of the parameter range."""
    nd = draw(st.sampled_from([2, 2, 3, 4]))
    if lo >= 40:
        c = draw(gen.long_walk(lo, hi, nd=nd, parametric=parametric))
        c.update(dt=draw(st.sampled_from(dts)), g=sorted(draw(st.lists(st.integers(-24, 88), min_size=2, max_size=30, unique=True))),
                 form=draw(st.sampled_from(['array', 'list', 'tuple', 'object'])))
        return c
    n = draw(st.integers(lo, hi))
    c = {'p': [draw(st.lists(st.integers(-20, 20), min_size=nd, max_size=nd))], 'nd': nd}
    for _ in range(n - 1):
        step = draw(st.lists(st.integers(-6, 6), min_size=nd, max_size=nd))
        if not any(step):
            step[draw(st.integers(0, nd - 1))] = 2
        c['p'].append([a + b for a, b in zip(c['p'][-1], step)])
    sc = draw(st.sampled_from([1, 1, 0.125, 16]))
    c['p'] = [[x * sc for x in q] for q in c['p']]
    c['dt'] = draw(st.sampled_from(dts))
    par = draw(st.booleans()) if parametric is None else parametric
    c['t'] = draw(gen.either(8, gen.increasing(n, lo=4), gen.length_like(c['p']))) if par else None
    lo_k, hi_k = (-24, 88) if outside and draw(st.booleans()) else (0, 64)
    g = draw(st.lists(st.integers(lo_k, hi_k), min_size=2, max_size=10, unique=True))
    c['g'] = sorted(g)
    c['form'] = draw(st.sampled_from(['array', 'list', 'tuple', 'object']))
    return c


def grid_of(case, t):
    return np.array([t[0] + (t[-1] - t[0]) * k / 64 for k in case['g']])


def run(case, method, **kw):
    """(curve, knots, data, grid, result) of the interpolation; also checks what holds for every method."""
    c = gen.make(case)
    t, y = np.array(c.t, dtype=float), np.array(c.data, dtype=float)
    g = grid_of(case, t)
    if np.any(np.diff(g) <= 1e-7):
        return None
    spec = {'array': g, 'list': g.tolist(), 'tuple': tuple(g.tolist()), 'object': g}[case['form']]
    if case['form'] == 'object':
        obj = get_interpolator(method, c, **kw)
        require(isinstance(obj, InterpolatorBase) and obj.curve is c, 'get_interpolator gives {} for {}', obj, c)
        r = obj(spec)
    else:
        r = c.interpolate(spec, method, **kw)
    require(type(r) is Curve and r.ndim == c.ndim and len(r) == len(g), '{}: {} points of dimension {}', method, len(r), r.ndim)
    require(r.dtype == c.dtype, '{}: dtype {} instead of {}', method, r.dtype, c.dtype)
    require(r.isparametric is c.isparametric, '{}: isparametric {}', method, r.isparametric)
    if c.isparametric:
        same(r.t, g, method + ': parameters of the interpolated curve')
    same(c.data, np.array(case['p'], dtype=case['dt']), method + ': the data of the curve')
    return c, t, y, g, r


def periodic(case, r, ref, what, y):
    ok = ~np.isnan(ref).any(axis=1)
    scale = float(np.max(np.abs(y))) + float(np.max(np.abs(ref[ok]), initial=0.0)) + 1e-300
    close(r.data[ok], ref[ok], what, rtol=0, atol=(1e-5 if case['dt'] == 'float32' else 1e-7) * scale)


def compare(case, r, ref, what, y, factor=1.0):
    tol = (2e-6 if case['dt'] == 'float32' else 1e-9) * factor
    scale = float(np.max(np.abs(y))) + float(np.max(np.abs(np.nan_to_num(ref)))) + 1e-300
    close(r.data, ref, what, rtol=0, atol=tol * scale)


def wrapped(t, y, s, g):
    """The periodic continuation at g; nan where the two ends of the period meet (rounding decides there)."""
    period = t[-1] - t[0]
    x = np.mod(g - t[0], period)
    ref = oracle.hermite(t, y, s, t[0] + x)
    ref[(x < 1e-9 * period) | (x > (1 - 1e-9) * period)] = np.nan
    return ref


def outside(t, g):
    return (g < t[0]) | (g > t[-1])


def blank(ref, t, g):
    ref = np.array(ref)
    ref[outside(t, g)] = np.nan
    return ref


def note(case, ev, t, g, need=2):
    ev.label(case['dt'], case['form'], 'parametric' if case['t'] else 'arc length', f'{case["nd"]}-d', 'outside' if np.any(outside(t, g)) else 'inside')
    ev.nontrivial(len(t) > need and len(g) > 2)


@sub('C22', cases(), quick=500)
def linear(case, ev):
    """linear: the chords, continued outside (refused outside with extrapolate=False)"""
    x = run(case, 'linear')
    if x is None:
        return
    c, t, y, g, r = x
    ref = oracle.linear(t, y, g)
    compare(case, r, ref, 'linear', y)
    compare(case, c.interpolate(g, 'linear', extrapolate=True), ref, 'linear, extrapolate=True', y)
    if np.any(outside(t, g)):
        raises(InterpolationError, lambda: c.interpolate(g, 'linear', extrapolate=False), 'linear outside with extrapolate=False')
    else:
        compare(case, c.interpolate(g, 'linear', extrapolate=False), ref, 'linear, extrapolate=False', y)
    note(case, ev, t, g)


@sub('C22', st.fixed_dictionaries({'c': cases(lo=2, hi=8, parametric=True), 'order': st.permutations(range(8)), 'ex': st.sampled_from([None, True]),
                                   'how': st.sampled_from(['reversed', 'any'])}), quick=200)
def linear_unordered(case, ev):
    """linear interpolation between neighbouring parameters, in whatever order the points of the curve come"""
    c = gen.make(case['c'])
    n = len(c)
    order = list(range(n))[::-1] if case['how'] == 'reversed' else [i for i in case['order'] if i < n]
    t, y = np.array(c.t, dtype=float), np.array(c.data, dtype=float)
    g = grid_of(case['c'], t)
    if np.any(np.diff(g) <= 1e-7):
        return
    d = Curve(y[order], tdata=t[order], dtype=c.dtype)
    with quiet():
        r = d.interpolate(g, 'linear', **({} if case['ex'] is None else {'extrapolate': case['ex']}))
    compare(case['c'], r, oracle.linear(t, y, g), f'linear, points in the order {order}', y)
    same(r.t, g, 'parameters')
    ev.label(case['how'])
    ev.nontrivial(order != list(range(n)))


BC = st.sampled_from(['default', 'natural', 'clamped', 'not-a-knot', 'tuple', 'derivatives'])


@sub('C22', st.fixed_dictionaries({'c': cases(lo=4), 'bc': BC, 'ex': st.sampled_from([None, None, True, False, 'periodic'])}), quick=650)
def cubic(case, ev):
    """cubic: the cubic spline with natural (default), clamped, not-a-knot and mixed boundary conditions, continued, periodic or undefined outside"""
    v, bc, ex = case['c'], case['bc'], case['ex']
    kw = {} if ex is None else {'extrapolate': ex}
    nd = v['nd']
    d0, d1 = np.arange(nd) - 1.0, np.arange(nd) * -2.0
    if bc == 'tuple':
        kw['bc_type'] = ('natural', 'clamped')
    elif bc == 'derivatives':
        kw['bc_type'] = ((1, d0), (1, d1))
    elif bc != 'default':
        kw['bc_type'] = bc
    x = run(v, 'cubic', **kw)
    if x is None:
        return
    c, t, y, g, r = x
    if bc == 'tuple':
        # by linearity of the slopes in the boundary conditions: natural at the beginning, clamped at the end
        s = mixed_slopes(t, y)
    elif bc == 'derivatives':
        s = clamped_slopes(t, y, d0, d1)
    else:
        s = oracle.cubic_slopes(t, y, 'natural' if bc == 'default' else bc)
    ref = oracle.hermite(t, y, s, g)
    if ex == 'periodic':
        periodic(v, r, wrapped(t, y, s, g), f'periodic cubic {bc}', y)
    else:
        compare(v, r, blank(ref, t, g) if ex is False else ref, f'cubic {bc}', y, 100)
    note(v, ev, t, g)
    ev.label(bc, f'extrapolate {ex}')


def tri(t, y):
    n = len(t)
    h = np.diff(t)
    d = np.diff(y, axis=0) / h[:, None]
    a, b = np.zeros((n, n)), np.zeros((n, y.shape[1]))
    for i in range(1, n - 1):
        a[i, i - 1], a[i, i], a[i, i + 1] = h[i], 2 * (h[i - 1] + h[i]), h[i - 1]
        b[i] = 3 * (h[i] * d[i - 1] + h[i - 1] * d[i])
    a[0, 0] = a[-1, -1] = 1
    return a, b, d


def mixed_slopes(t, y):
    a, b, d = tri(t, y)
    a[0, 0], a[0, 1], b[0] = 2, 1, 3 * d[0]
    return np.linalg.solve(a, b)


def clamped_slopes(t, y, d0, d1):
    a, b, _ = tri(t, y)
    b[0], b[-1] = d0, d1
    return np.linalg.solve(a, b)


@sub('C22', st.fixed_dictionaries({'c': cases(lo=3), 'ex': st.sampled_from([None, None, True, False, 'periodic'])}), quick=550)
def hermite(case, ev):
    """hermite: cubic pieces with the data points and the unit tangents (of the finite differences) at the knots"""
    v, ex = case['c'], case['ex']
    kw = {} if ex is None else {'extrapolate': ex}
    x = run(v, 'hermite', **kw)
    if x is None:
        return
    c, t, y, g, r = x
    d = oracle.grad(y)
    norm = np.sqrt(np.sum(d * d, axis=1))
    if np.any((norm > 0) & (norm < 1e-6 * np.max(norm))):
        return
    u = np.divide(d, norm[:, None], out=np.zeros_like(d), where=norm[:, None] > 0)
    ref = oracle.hermite(t, y, u, g)
    if ex == 'periodic':
        periodic(v, r, wrapped(t, y, u, g), 'periodic hermite', y)
    else:
        compare(v, r, blank(ref, t, g) if ex is False else ref, 'hermite', y, 10)
    note(v, ev, t, g)
    ev.label(f'extrapolate {ex}')


@sub('C22', cases(lo=3), quick=500)
def akima(case, ev):
    """akima: Akima's slopes; nothing outside of the knots"""
    x = run(case, 'akima')
    if x is None:
        return
    c, t, y, g, r = x
    sl = [oracle.akima_slopes(t, y[:, k]) for k in range(y.shape[1])]
    ref = blank(oracle.hermite(t, y, np.stack([s for s, _ in sl], axis=1), g), t, g)
    got = np.array(r.data, dtype=float)
    # intervals next to a knot where Akima's weights nearly vanish are ill-conditioned: not claimed there
    for k, (_, clear) in enumerate(sl):
        for m, x0 in enumerate(g):
            i = oracle.locate(t, x0)
            if not (clear[i] and clear[i + 1]) and not np.isnan(ref[m, k]):
                got[m, k] = ref[m, k]
                ev.label('ill-conditioned')
    tol = 2e-6 if case['dt'] == 'float32' else 1e-8
    close(got, ref, 'akima', rtol=0, atol=tol * float(np.max(np.abs(y)) + 1))
    note(case, ev, t, g)


@sub('C22', st.fixed_dictionaries({'c': cases(lo=3), 'ex': st.sampled_from([None, None, True, False])}), quick=500)
def pchip(case, ev):
    """pchip: the monotone slopes, hence no overshoot between two knots"""
    v, ex = case['c'], case['ex']
    kw = {} if ex is None else {'extrapolate': ex}
    x = run(v, 'pchip', **kw)
    if x is None:
        return
    c, t, y, g, r = x
    s = np.stack([oracle.pchip_slopes(t, y[:, k]) for k in range(y.shape[1])], axis=1)
    ref = oracle.hermite(t, y, s, g)
    compare(v, r, blank(ref, t, g) if ex is False else ref, 'pchip', y, 10)
    for m, x0 in enumerate(g):
        if t[0] <= x0 <= t[-1]:
            i = oracle.locate(t, x0)
            lo, hi = np.minimum(y[i], y[i + 1]), np.maximum(y[i], y[i + 1])
            tol = 1e-5 if v['dt'] == 'float32' else 1e-9
            tol *= float(np.max(np.abs(y)) + 1)
            require(np.all((r.data[m] >= lo - tol) & (r.data[m] <= hi + tol)), 'pchip overshoots at {}', x0)
    note(v, ev, t, g)
    ev.label(f'extrapolate {ex}')


@sub('C22', st.fixed_dictionaries({'c': cases(lo=3, hi=12), 'k': st.integers(1, 5), 'dk': st.booleans(), 'ex': st.sampled_from([None, None, 0, 1, 3, 'zeros', 'const', 2]),
                                   'w': st.lists(st.sampled_from([0.5, 1, 2, 3]), min_size=12, max_size=12), 'usew': st.booleans()}), quick=700)
def spline(case, ev):
    """spline of order k (3 by default): interpolates, equals chords for k = 1 and the not-a-knot spline for k = 3"""
    v, k, ex = case['c'], case['k'], case['ex']
    if case['dk'] and len(v['p']) > 3:
        k = 3
    if len(v['p']) <= k:
        c = gen.make(v)
        raises(InterpolationError, lambda: c.interpolate(5, 'spline', k=k), 'too few points')
        ev.label('too few points')
        return
    kw = {} if case['dk'] and k == 3 else {'k': k}
    if case['usew']:
        kw['weights'] = np.array(case['w'][:len(v['p'])], dtype=float)     # irrelevant for interpolation
    if ex is not None:
        kw['extrapolate'] = ex
    c = gen.make(v)
    t, y = np.array(c.t, dtype=float), np.array(c.data, dtype=float)
    g = grid_of(v, t)
    if ex == 2 and np.any(outside(t, g)):
        raises(InterpolationError, lambda: c.interpolate(g, 'spline', **kw), 'spline outside with extrapolate=2')
        ev.label('refused outside')
        return
    x = run(v, 'spline', **kw)
    if x is None:
        return
    c, t, y, g, r = x
    if k == 1:
        f = lambda z: oracle.linear(t, y, z)    # noqa: E731
    elif k == 3:
        s = oracle.cubic_slopes(t, y, 'not-a-knot')
        f = lambda z: oracle.hermite(t, y, s, z)    # noqa: E731
    else:
        # FITPACK's interpolating knots
        h = k // 2 + 1
        if k % 2:
            inner = t[h:-h]
        else:
            inner = ((t[1:] + t[:-1]) / 2)[h - 1:len(t) - h]
        knots = np.concatenate(([t[0]] * (k + 1), inner, [t[-1]] * (k + 1)))
        b = interp.make_interp_spline(t, y, k=k, t=knots, axis=0)
        f = lambda z: b(z)      # noqa: E731
    ref = f(g)
    out = outside(t, g)
    if ex in (1, 'zeros'):
        ref[out] = 0.0
    elif ex in (3, 'const'):
        ref[g < t[0]], ref[g > t[-1]] = y[0], y[-1]
    inside = np.array(r.data, dtype=float)
    if ex in (None, 0) and k > 3:
        inside[out], ref[out] = 0, 0     # high orders amplify rounding far outside
    tol = 1e-4 if v['dt'] == 'float32' else 1e-6
    close(inside, ref, f'spline of order {k}', rtol=0, atol=tol * (float(np.max(np.abs(y))) + float(np.max(np.abs(ref))) + 1e-300))
    note(v, ev, t, g)
    ev.label(f'k={k}', f'extrapolate {ex}')


@st.composite
def smoothing_cases(draw):
    c = draw(cases(lo=8, hi=40, outside=False, dts=('float64',)))
    return {'c': c, 'k': draw(st.integers(1, 5)), 's': draw(st.sampled_from([1.0, 10.0, 100.0, 1000.0, 1e4, 1e5])),
            'w': draw(st.lists(st.sampled_from([0.25, 0.5, 1, 2]), min_size=len(c['p']), max_size=len(c['p']))), 'usew': draw(st.booleans())}


@sub('C22', smoothing_cases(), quick=500)
def smoothing_spline(case, ev):
    """spline with smoothing: each coordinate is FITPACK's fit with these weights, within the residual bound smooth"""
    v, k, s = case['c'], case['k'], case['s']
    c = gen.make(v)
    t, y = np.array(c.t, dtype=float), np.array(c.data, dtype=float)
    g = grid_of(v, t)
    if np.any(np.diff(g) <= 1e-7):
        return
    w = np.array(case['w'], dtype=float) if case['usew'] else None
    # scipy's own memory handling is not safe on PyPy when a fit needs more knots than it first provides for
    fits = [interp.splrep(t, y[:, i], w=w, k=k, s=s) for i in range(y.shape[1])]
    if any(len(f[0]) > max(len(t) // 2 - 1, 2 * k + 2) for f in fits):
        ev.label('many knots, skipped')
        return
    kw = {} if w is None else {'weights': w}
    r = c.interpolate(t, 'spline', k=k, smooth=s, **kw)
    w1 = np.ones(len(t)) if w is None else w
    res = np.sum((w1[:, None] * (r.data - y)) ** 2, axis=0)
    require(np.all(res <= s * 1.01 + 1e-9), 'squared residuals {} above the smoothing factor {}', res, s)
    r = c.interpolate(g, 'spline', k=k, smooth=s, **kw)
    for i, tck in enumerate(fits):
        close(r.data[:, i], interp.splev(g, tck), f'coordinate {i}', rtol=0, atol=1e-7 * float(np.max(np.abs(y)) + 1))
    ev.label(f'k={k}', 'weights' if w is not None else 'equal weights', 'smoothed' if np.any(res > 1e-6) else 'interpolated',
             'inner knots' if any(len(f[0]) > 2 * k + 2 for f in fits) else 'one polynomial')
    ev.nontrivial(bool(np.any(res > 1e-6)))


@sub('C22', st.fixed_dictionaries({'c': cases(lo=2, hi=10), 'p': st.sampled_from([None, 1.0, 0.0, 0.01, 0.1, 0.5, 0.9, 0.99, 'auto']),
                                   'w': st.lists(st.sampled_from([0.5, 1, 2, 5]), min_size=10, max_size=10), 'usew': st.booleans()}), quick=600)
def csaps(case, ev):
    """csaps: the minimiser of the weighted smoothing functional (natural interpolation by default, p=1)"""
    v, p = case['c'], case['p']
    kw = {}
    if p is not None:
        kw['smooth'] = None if p == 'auto' else p
    n = len(v['p'])
    w = np.ones(n)
    if case['usew']:
        w = np.array(case['w'][:n], dtype=float)
        kw['weights'] = w if case['p'] != 0.5 else w.tolist()
    x = run(v, 'csaps', **kw)
    if x is None:
        return
    c, t, y, g, r = x
    if n == 2:
        ref = oracle.linear(t, y, g)
    else:
        if p == 'auto':
            h = np.diff(t)
            q2 = sum((1 / h[j]) ** 2 / w[j] + (1 / h[j] + 1 / h[j + 1]) ** 2 / w[j + 1] + (1 / h[j + 1]) ** 2 / w[j + 2] for j in range(n - 2))
            p = 1 / (1 + np.sum((h[:-1] + h[1:]) / 3) / q2)
        if p == 0:
            # the weighted least-squares line
            a = np.stack((np.ones(n), t), axis=1) * np.sqrt(w)[:, None]
            coef = np.linalg.lstsq(a, y * np.sqrt(w)[:, None], rcond=None)[0]
            ref = coef[0] + np.outer(g, coef[1])
        else:
            f = y if p in (None, 1.0) else oracle.smoothing_values(t, y, w, p)
            ref = oracle.hermite(t, f, oracle.cubic_slopes(t, f, 'natural'), g)
    compare(v, r, ref, f'csaps, smooth={case["p"]}', y, 1e4)
    note(v, ev, t, g)
    ev.label(f'smooth={case["p"]}', 'weights' if case['usew'] else 'equal weights')


METHODS = ['linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps']


@sub('C22', st.fixed_dictionaries({'c': cases(lo=4, dts=('float64',)), 'm': st.sampled_from(METHODS)}), quick=500)
def reproduces_data(case, ev):
    """on the knots every interpolating scheme gives the data points, and any part of a grid gives the same points"""
    v = case['c']
    c = gen.make(v)
    t = np.array(c.t)
    scale = float(np.max(np.abs(c.data)) + 1)
    r = c.interpolate(c.t, case['m'])
    close(r.data, c.data, case['m'] + ' on the knots', rtol=0, atol=1e-8 * scale)
    g = grid_of(v, t)
    g = g[(g >= t[0]) & (g <= t[-1])]
    mid = np.array([(a + b) / 2 for a, b in zip(t, t[1:])])
    every = np.unique(np.concatenate((t, g, mid)))
    keep = np.concatenate(([True], np.diff(every) > 1e-6))
    every = every[keep]
    whole = c.interpolate(every, case['m'])
    some = c.interpolate(every[1::2], case['m'])
    close(some.data, whole.data[1::2], case['m'] + ' on a part of the grid', rtol=0, atol=1e-9 * scale)
    for i in range(c.ndim - 1):
        # coordinate by coordinate (hermite needs the tangents of the whole curve)
        if case['m'] == 'hermite':
            break
        part = Curve(np.array(c.data[:, i:i + 2]), tdata=t).interpolate(every, case['m'])
        close(part.data, whole.data[:, i:i + 2], case['m'] + f' of the coordinates {i}, {i + 1} alone', rtol=0, atol=1e-8 * scale)
    ev.label(case['m'])
    ev.nontrivial()


@st.composite
def polynomials(draw):
    m, deg = draw(st.sampled_from([('linear', 1), ('cubic', 1), ('cubic not-a-knot', 3), ('akima', 1), ('pchip', 1), ('csaps', 1), ('csaps 0.3', 1),
                                   ('spline', 3), ('spline 1', 1), ('spline 2', 2), ('spline 4', 4), ('spline 5', 5), ('hermite line', 1)]))
    nd = draw(st.sampled_from([2, 3]))
    n = draw(st.integers(7, 11))
    coef = draw(st.lists(st.lists(st.integers(-5, 5), min_size=deg + 1, max_size=deg + 1), min_size=nd, max_size=nd))
    return {'m': m, 'coef': coef, 't': [k / 4 for k in sorted(draw(st.lists(st.integers(-16, 16), min_size=n, max_size=n, unique=True)))],
            'g': draw(st.lists(st.integers(1, 63), min_size=2, max_size=6, unique=True))}


@sub('C22', polynomials(), quick=300)
def polynomial(case, ev):
    """polynomials within the order of the scheme are reproduced"""
    t = np.array(case['t'])
    if case['m'] == 'hermite line':
        t = t[0] + np.arange(len(t)) / 4        # unequal steps may turn the finite difference at an end around
    f = lambda z: np.stack([np.polyval(c[::-1], z) for c in case['coef']], axis=1)      # noqa: E731
    y = f(t)
    m = case['m'].split()
    g = np.array(sorted(t[0] + (t[-1] - t[0]) * k / 64 for k in case['g']))
    kw = {}
    if m[0] == 'spline' and len(m) > 1:
        kw['k'] = int(m[1])
    elif m[0] == 'cubic' and len(m) > 1:
        kw['bc_type'] = m[1]
    elif m[0] == 'csaps' and len(m) > 1:
        kw['smooth'] = float(m[1])
    if m[0] == 'hermite':
        # a straight line by its arc length
        d = np.array([c[1] for c in case['coef']], dtype=float)
        if not np.any(d):
            return
        c = Curve(y)
        s = np.linalg.norm(d)
        gg = (g - t[0]) * s
        r = c.interpolate(gg, 'hermite')
    else:
        r = Curve(y, tdata=t).interpolate(g, m[0], **kw)
    close(r.data, f(g), f'{case["m"]} of a polynomial', rtol=0, atol=1e-8 * (float(np.max(np.abs(y))) + 1))
    ev.label(case['m'])
    ev.nontrivial(any(any(c[1:]) for c in case['coef']))


@sub('C22', st.fixed_dictionaries({'p': st.lists(st.lists(st.integers(-9, 9), min_size=2, max_size=2), min_size=4, max_size=8), 'm': st.sampled_from(METHODS),
                                   'dt': st.sampled_from(['int32', 'int64', 'int16', 'float32']), 'n': st.integers(2, 12)}), quick=200)
def numeric_type(case, ev):
    """the interpolated curve keeps the numeric type; integer curves get the values without their fractions"""
    p = case['p']
    if any(a == b for a, b in zip(p, p[1:])):
        return
    c, ref = Curve(np.array(p, dtype=case['dt'])), Curve(np.array(p, dtype=float))
    r, f = c.interpolate(case['n'], case['m']), ref.interpolate(case['n'], case['m'])
    require(r.dtype == np.dtype(case['dt']), 'dtype {} instead of {}', r.dtype, case['dt'])
    require(len(r) == case['n'], '{} points', len(r))
    d = np.abs(r.data.astype(float) - f.data)
    if r.dtype.kind == 'i':
        other = Curve(np.array(p, dtype='int64' if case['dt'] == 'int32' else 'int32')).interpolate(case['n'], case['m'])
        same(r.data.astype(float), other.data.astype(float), f'values of a curve of {case["dt"]} and of {other.dtype}')
    require(np.all(d < (1 + 1e-6 if r.dtype.kind == 'i' else 1e-4 * (1 + np.max(np.abs(f.data))))), 'values {} instead of {}', r.data, f.data)
    ev.label(case['dt'], case['m'])
    ev.nontrivial()


LONG = cases(lo=40, hi=100)
EX = st.sampled_from([None, None, True, False])
sub('C22', LONG, quick=30, name='linear_long')(linear)
sub('C22', st.fixed_dictionaries({'c': LONG, 'bc': BC, 'ex': EX}), quick=40, name='cubic_long')(cubic)
sub('C22', st.fixed_dictionaries({'c': LONG, 'ex': EX}), quick=30, name='hermite_long')(hermite)
sub('C22', LONG, quick=30, name='akima_long')(akima)
sub('C22', st.fixed_dictionaries({'c': LONG, 'ex': EX}), quick=30, name='pchip_long')(pchip)
sub('C22', st.fixed_dictionaries({'c': cases(lo=40, hi=80, dts=('float64',)), 'm': st.sampled_from(METHODS)}), quick=40, name='reproduces_data_long')(reproduces_data)

sub('C22', huge.curves(300, 3000), quick=15, name='huge')(huge.interpolation)
