"""C25: well-known curves satisfy their defining equations."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import close, raises, require, same, sub
from skcurve import Curve
from skcurve import curves

REAL = st.one_of(st.integers(-64, 64).map(lambda k: k / 8), st.integers(-3000, 3000).map(lambda k: k / 1000))
FREQ = st.one_of(st.integers(-6, 6).map(float), st.integers(-24, 24).map(lambda k: k / 8))
COUNT = st.one_of(st.integers(3, 60), st.integers(2, 20), st.integers(0, 4))


def params(**extra):
    d = {'t0': REAL, 't1': REAL, 'n': COUNT}
    d.update(extra)
    return st.fixed_dictionaries(d)


def linspace(a, b, n):
    return np.array([a + (b - a) * i / (n - 1) for i in range(n)]) if n > 1 else np.full(n, float(a))


def common(c, case, nd, what, t=None):
    """Points, dimension, type and parametrization; returns the coordinate columns."""
    t = linspace(case['t0'], case['t1'], case['n']) if t is None else t
    require(type(c) is Curve, '{} returned {}', what, type(c).__name__)
    require(len(c) == len(t) and c.ndim == nd, '{}: {} points of dimension {} instead of {} and {}', what, len(c), c.ndim, len(t), nd)
    require(c.dtype == np.float64, '{}: type {}', what, c.dtype)
    require(c.isparametric, '{} is not parametric', what)
    close(c.t, t, f'parameters of {what}', rtol=1e-14, atol=1e-13)
    if len(t):
        require(c.t[0] == t[0] and (len(t) < 2 or c.t[-1] == case['t1']), '{} runs from {} to {}', what, c.t[0], c.t[-1])
    return [c.data[:, i] for i in range(nd)], np.array(c.t)


def count(case, ev, *kinds):
    ev.label(*kinds)
    ev.label('reversed' if case['t1'] < case['t0'] else 'forward', f'{min(case["n"], 3)} points')
    ev.nontrivial(case['n'] > 2 and case['t0'] != case['t1'])


@sub('C25', params(r=REAL, c=REAL), quick=300)
def arc(case, ev):
    """arc: x = r cos t + c, y = r sin t + c; every point at distance |r| from (c, c)"""
    r, k = case['r'], case['c']
    (x, y), t = common(curves.arc(case['t0'], case['t1'], case['n'], r, k), case, 2, 'arc')
    tol = 1e-13 * (abs(r) + abs(k) + 1)
    close(x, [r * math.cos(v) + k for v in t], 'x', rtol=0, atol=tol)
    close(y, [r * math.sin(v) + k for v in t], 'y', rtol=0, atol=tol)
    close(np.hypot(x - k, y - k), np.full(len(t), abs(r)), 'distance from the centre', rtol=0, atol=4 * tol)
    named = curves.arc(t_start=case['t0'], t_stop=case['t1'], p_count=case['n'], r=r, c=k)
    same(named.data, np.stack([x, y], axis=1), 'arc by keywords')
    count(case, ev)


@sub('C25', params(c=REAL), quick=300)
def lemniscate(case, ev):
    """lemniscate of Bernoulli: (x^2+y^2)^2 = 2 c^2 (x^2-y^2), at the parametric points"""
    k = case['c']
    (x, y), t = common(curves.lemniscate_of_bernoulli(case['t0'], case['t1'], case['n'], k), case, 2, 'lemniscate')
    tol = 1e-13 * (1 + k * k) ** 2
    close((x * x + y * y) ** 2, 2 * k * k * (x * x - y * y), 'lemniscate equation', rtol=0, atol=20 * tol)
    close(x, [k * math.sqrt(2) * math.cos(v) / (math.sin(v) ** 2 + 1) for v in t], 'x', rtol=0, atol=tol)
    close(y, [k * math.sqrt(2) * math.cos(v) * math.sin(v) / (math.sin(v) ** 2 + 1) for v in t], 'y', rtol=0, atol=tol)
    same(curves.lemniscate_of_bernoulli(t_start=case['t0'], t_stop=case['t1'], p_count=case['n'], c=k).data, np.stack([x, y], axis=1), 'by keywords')
    count(case, ev)


@sub('C25', params(a=REAL, b=REAL), quick=300)
def archimedean(case, ev):
    """Archimedean spiral: at angle t the point lies at (signed) radius a + b t"""
    a, b = case['a'], case['b']
    (x, y), t = common(curves.archimedean_spiral(case['t0'], case['t1'], case['n'], a, b), case, 2, 'spiral')
    tol = 1e-12 * (1 + abs(a) + 8 * abs(b))
    close(x, [(a + b * v) * math.cos(v) for v in t], 'x', rtol=0, atol=tol)
    close(y, [(a + b * v) * math.sin(v) for v in t], 'y', rtol=0, atol=tol)
    close(np.hypot(x, y), np.abs(a + b * t), 'radius', rtol=0, atol=tol)
    close(x * np.sin(t) - y * np.cos(t), np.zeros(len(t)), 'angle', rtol=0, atol=tol)
    same(curves.archimedean_spiral(t_start=case['t0'], t_stop=case['t1'], p_count=case['n'], a=a, b=b).data, np.stack([x, y], axis=1), 'by keywords')
    count(case, ev)


def fresnel_quad(v):
    """C(v), S(v) by composite Gauss quadrature of the definition."""
    g, w = np.polynomial.legendre.leggauss(20)
    m = max(1, int(math.ceil(2 * v * v)))
    h = v / m
    c = s = 0.0
    for i in range(m):
        u = h * (i + (g + 1) / 2)
        c += h / 2 * np.sum(w * np.cos(np.pi * u * u / 2))
        s += h / 2 * np.sum(w * np.sin(np.pi * u * u / 2))
    return c, s


@sub('C25', params(), quick=200)
def euler(case, ev):
    """Euler spiral: the Fresnel integrals of t, odd in t"""
    n = min(case['n'], 25)
    case = dict(case, n=n)
    (x, y), t = common(curves.euler_spiral(case['t0'], case['t1'], n), case, 2, 'Euler spiral')
    ref = np.array([fresnel_quad(v) for v in t]).reshape(len(t), 2)
    close(x, ref[:, 0], 'x = C(t)', rtol=0, atol=1e-11)
    close(y, ref[:, 1], 'y = S(t)', rtol=0, atol=1e-11)
    back = curves.euler_spiral(-case['t0'], -case['t1'], n)
    close(back.data, -np.stack([x, y], axis=1), 'Euler spiral of -t', rtol=0, atol=1e-13)
    same(curves.euler_spiral(t_start=case['t0'], t_stop=case['t1'], p_count=n).data, np.stack([x, y], axis=1), 'by keywords')
    count(case, ev)


@sub('C25', params(aa=REAL, ba=REAL, a=FREQ, b=FREQ, d=REAL), quick=300)
def lissajous(case, ev):
    """Lissajous: x = A sin(a t + d), y = B sin(b t)"""
    A, B, a, b, d = (case[k] for k in ('aa', 'ba', 'a', 'b', 'd'))
    (x, y), t = common(curves.lissajous(case['t0'], case['t1'], case['n'], A, B, a, b, d), case, 2, 'Lissajous curve')
    tol = 1e-12 * (1 + abs(A) + abs(B))
    close(x, [A * math.sin(a * v + d) for v in t], 'x', rtol=0, atol=tol)
    close(y, [B * math.sin(b * v) for v in t], 'y', rtol=0, atol=tol)
    named = curves.lissajous(t_start=case['t0'], t_stop=case['t1'], p_count=case['n'], a_ampl=A, b_ampl=B, a=a, b=b, d=d)
    same(named.data, np.stack([x, y], axis=1), 'by keywords')
    count(case, ev)


@sub('C25', params(a=REAL, b=REAL), quick=300)
def helix(case, ev):
    """helix: on the cylinder of radius |a| around the z axis with z = b t"""
    a, b = case['a'], case['b']
    (x, y, z), t = common(curves.helix(case['t0'], case['t1'], case['n'], a, b), case, 3, 'helix')
    tol = 1e-12 * (1 + abs(a) + abs(b))
    close(x, [a * math.sin(v) for v in t], 'x', rtol=0, atol=tol)
    close(y, [a * math.cos(v) for v in t], 'y', rtol=0, atol=tol)
    close(z, b * t, 'z', rtol=0, atol=tol)
    close(np.hypot(x, y), np.full(len(t), abs(a)), 'distance from the axis', rtol=0, atol=tol)
    same(curves.helix(t_start=case['t0'], t_stop=case['t1'], p_count=case['n'], a=a, b=b).data, np.stack([x, y, z], axis=1), 'by keywords')
    count(case, ev)


@sub('C25', params(z0=REAL, z1=REAL), quick=300)
def irregular_helix(case, ev):
    """irregular helix: on the surface x^2 + y^2 = (z^2 + 1)^2 with z evenly spaced"""
    c = curves.irregular_helix(case['t0'], case['t1'], case['z0'], case['z1'], case['n'])
    (x, y, z), t = common(c, case, 3, 'irregular helix')
    zz = linspace(case['z0'], case['z1'], case['n'])
    r = zz * zz + 1
    tol = 1e-12 * (1 + np.max(r, initial=0))
    close(z, zz, 'z', rtol=0, atol=tol)
    close(x, r * np.sin(t), 'x', rtol=0, atol=tol)
    close(y, r * np.cos(t), 'y', rtol=0, atol=tol)
    close(np.hypot(x, y), r, 'distance from the axis', rtol=0, atol=tol)
    named = curves.irregular_helix(t_start=case['t0'], t_stop=case['t1'], z_start=case['z0'], z_stop=case['z1'], p_count=case['n'])
    same(named.data, c.data, 'by keywords')
    count(case, ev)


SHAPES = {'arc': {'r': 1, 'c': 0}, 'lemniscate_of_bernoulli': {'c': 1}, 'archimedean_spiral': {'a': 1.5, 'b': -2.4}, 'euler_spiral': {},
          'lissajous': {'a_ampl': 1, 'b_ampl': 1, 'a': 3, 'b': 2, 'd': 0}, 'helix': {'a': 1, 'b': 1}, 'irregular_helix': {'z_start': -2, 'z_stop': 2}}
GENERATORS = {
    'arc': (curves.arc, 0, 2 * math.pi, 49), 'lemniscate_of_bernoulli': (curves.lemniscate_of_bernoulli, 0, 2 * math.pi, 101),
    'archimedean_spiral': (curves.archimedean_spiral, 0, 5 * math.pi, 200), 'euler_spiral': (curves.euler_spiral, -1.5 * math.pi, 1.5 * math.pi, 1000),
    'lissajous': (curves.lissajous, 0, 2 * math.pi, 101), 'helix': (curves.helix, -3 * math.pi, 3 * math.pi, 100),
    'irregular_helix': (curves.irregular_helix, -4 * math.pi, 4 * math.pi, 100)}


@sub('C25', st.fixed_dictionaries({'g': st.sampled_from(sorted(GENERATORS)), 'n': st.sampled_from([None, 0, 1, 2, 3, 7, 50]),
                                   'kw': st.lists(st.sampled_from(['t_start', 't_stop']), unique=True), 'v': REAL, 'neg': st.integers(-5, -1)}), quick=300)
def defaults(case, ev):
    """omitted parameters take the documented defaults; a prefix of the same parameter range samples the same curve; a
    negative count is refused"""
    fn, a, b, n = GENERATORS[case['g']]
    kw = {}
    if case['n'] is not None:
        kw['p_count'] = n = case['n']
    if 't_start' in case['kw']:
        kw['t_start'] = a = case['v']
    if 't_stop' in case['kw']:
        kw['t_stop'] = b = case['v'] + 1
    c = fn(**kw)
    require(len(c) == n and c.isparametric, '{}({}) has {} points', case['g'], kw, len(c))
    close(c.t, linspace(a, b, n), f'parameters of {case["g"]}({kw})', rtol=1e-14, atol=1e-13)
    same(fn(**dict(kw, **SHAPES[case['g']])).data, c.data, f'{case["g"]} with the default shape')
    if n > 1 and case['g'] != 'irregular_helix':
        fine = fn(**dict(kw, p_count=2 * n - 1))
        close(fine.data[::2], c.data, f'every second point of the finer {case["g"]}', rtol=0, atol=1e-10 * (1 + np.max(np.abs(c.data))))
    raises(ValueError, lambda: fn(p_count=case['neg']), f'{case["g"]} with {case["neg"]} points')
    if case['n'] is None:
        require(c.ndim == (3 if 'helix' in case['g'] else 2), 'dimension {}', c.ndim)
        full = fn()
        if case['g'] == 'arc':
            close(np.hypot(full.x if hasattr(full, 'x') else full.data[:, 0], full.data[:, 1]), np.ones(49), 'default circle')
        if case['g'] in ('arc', 'lemniscate_of_bernoulli', 'lissajous'):
            close(full.data[0], full.data[-1], f'the default {case["g"]} is closed', rtol=0, atol=1e-12)
        if case['g'] == 'irregular_helix':
            close(full.data[:, 2], linspace(-2, 2, 100), 'default z', rtol=0, atol=1e-13)
    ev.label(case['g'])
    ev.nontrivial(n > 1)
