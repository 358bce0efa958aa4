"""C12: curvature and torsion are the geometric quantities of the sampled curve."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import gen, huge, oracle
from vf.core import close, require, same, sub
from skcurve import Curve


def unit_rows(v):
    n = np.linalg.norm(v, axis=1)
    return v / np.where(n == 0, 1, n)[:, None]


def dots(a, b):
    return np.sum(a * b, axis=1)


@sub('C12', gen.scaled(gen.walk(3, 10, parametric=None)), quick=1000)
def formulas(case, ev):
    """curvature and torsion against the documented formulas evaluated on reference finite differences"""
    c = gen.make(case)
    a = gen.array(case).astype(float)
    n, nd = a.shape
    scale = np.max(np.abs(a))
    d1 = oracle.grad(a)
    d2 = oracle.grad(d1)
    d3 = oracle.grad(d2)
    sp = np.linalg.norm(d1, axis=1)
    k, tau = c.curvature, c.torsion
    same(np.shape(k), (n,), 'shape of curvature')
    same(np.shape(tau), (n,), 'shape of torsion')
    e1 = unit_rows(d1)
    if nd == 2:
        ok = sp > 1e-3 * scale
        ref = (d2[:, 1] * d1[:, 0] - d2[:, 0] * d1[:, 1])[ok] / sp[ok] ** 3
        close(k[ok] * sp[ok], ref * sp[ok], 'signed curvature (times speed)', atol=1e-9)
        ev.label('plane')
        ev.nontrivial(bool(np.any(ref)))
        return
    if np.all(sp > 1e-3 * scale):
        ref = np.linalg.norm(oracle.grad(e1), axis=1) / sp
        close(k * scale, ref * scale, 'curvature (times scale)', atol=1e-8)
        require(np.all(k >= 0), 'curvature of a spatial curve is negative')
        ev.label('curvature')
        ev.nontrivial(bool(np.any(ref)))
        r2 = d2 - dots(d2, e1)[:, None] * e1
        if np.all(np.linalg.norm(r2, axis=1) > 1e-2 * scale):
            e2 = unit_rows(r2)
            r3 = d3 - dots(d3, e1)[:, None] * e1 - dots(d3, e2)[:, None] * e2
            ok3 = np.linalg.norm(r3, axis=1) > 1e-2 * scale
            ref = dots(oracle.grad(e2), unit_rows(r3)) / sp
            close(tau[ok3] * scale, ref[ok3] * scale, 'torsion (times scale)', atol=1e-7)
            ev.label('torsion' if np.any(ok3) else 'no torsion')


@st.composite
def analytic_cases(draw):
    return {'kind': draw(st.sampled_from(['circle', 'circle', 'helix', 'helix', 'parabola', 'line', 'ellipse'])),
            'n': draw(st.integers(60, 600)), 'r': draw(st.sampled_from([1.0, 1e-4, 2.5, 300.0, 1e5, 1e-9, 1e12])), 'b': draw(st.integers(2, 10)) / 4,
            'off': [draw(st.integers(-4, 4)) for _ in range(4)], 'm': draw(st.integers(0, 10 ** 6)), 'nd': draw(st.sampled_from([2, 3, 4])),
            'ccw': draw(st.booleans()), 'par': draw(st.booleans()), 'start': draw(st.integers(-6, 6)), 'arc': draw(st.integers(4, 12)) / 2}


def rotation(nd, m, proper):
    q, _ = np.linalg.qr(np.random.RandomState(m).randn(nd, nd))
    if proper and np.linalg.det(q) < 0:
        q[:, 0] = -q[:, 0]
    return q


@sub('C12', analytic_cases(), quick=500)
def analytic(case, ev):
    """circles, ellipses, helices, parabolas and lines of any radius, offset, orientation and density converge to the analytic values"""
    kind, n, r, nd = case['kind'], case['n'], case['r'], case['nd']
    if kind == 'helix':
        nd = max(nd, 3)
    s = case['start'] + np.linspace(0, case['arc'], n)
    h = s[1] - s[0]
    p = np.zeros((n, nd))
    b = case['b'] if kind == 'helix' else 0.0
    tau = np.zeros(n)
    if kind == 'line':
        p[:] = s[:, None] * np.array([1.0, -2.0, 0.5, 3.0][:nd])
        kappa = np.zeros(n)
    elif kind == 'parabola':
        x = np.linspace(-1, 1, n)
        h = x[1] - x[0]
        p[:, 0], p[:, 1] = x, x * x
        kappa = 2 / (1 + 4 * x * x) ** 1.5
    elif kind == 'ellipse':
        p[:, 0], p[:, 1] = 2 * np.cos(s), np.sin(s)
        kappa = 2 / (4 * np.sin(s) ** 2 + np.cos(s) ** 2) ** 1.5
    else:
        p[:, 0], p[:, 1] = np.cos(s), np.sin(s)
        if b:
            p[:, 2] = b * s
        kappa = np.full(n, 1 / (1 + b * b))
        tau = np.full(n, b / (1 + b * b))
    if not case['ccw']:
        p = p[::-1]
        kappa, tau = kappa[::-1], tau[::-1]
    sign = (1 if case['ccw'] else -1) if nd == 2 else 1
    p = r * (p + np.array(case['off'][:nd])) @ rotation(nd, case['m'], True)
    c = Curve(p, tdata=s if case['par'] else None)
    tol = 8 * h * h * max(1, np.max(kappa)) ** 4 + 1e-6
    close(c.curvature[1:-1] * r, sign * kappa[1:-1], f'curvature of a {kind} (times its size)', rtol=0, atol=tol)
    close(c.curvature * r, sign * kappa, f'curvature of a {kind} including the ends', rtol=0, atol=20 * tol + 2 * h)
    if nd > 2 and kind == 'helix':
        close(c.torsion[4:-4] * r, tau[4:-4], 'torsion of a helix (times its size)', rtol=0, atol=10 * h * h + 1e-5)
    ev.label(kind, f'{nd}-d')
    ev.nontrivial()


@st.composite
def generic_cases(draw):
    """Smooth generic curves: low-degree trigonometric polynomials with a dominating linear part."""
    nd = draw(st.sampled_from([2, 3, 3, 4]))
    return {'nd': nd, 'n': draw(st.integers(8, 40)), 'a': [[draw(st.integers(-4, 4)) for _ in range(4)] for _ in range(nd)],
            'm': draw(st.integers(0, 10 ** 6)), 'off': [draw(st.integers(-5, 5)) for _ in range(nd)], 's': draw(st.sampled_from([2.0, 0.5, 7.0, 1e-3, 1e4, 1e-9, 1e9])),
            'par': draw(st.booleans())}


@sub('C12', generic_cases(), quick=500)
def invariance(case, ev):
    """translation, rotation, scaling, reversal and mirroring of generic smooth curves"""
    nd, n = case['nd'], case['n']
    x = np.linspace(0, 3, n)
    p = np.stack([q[0] * np.sin(x + k) + q[1] * np.cos(1.5 * x) + q[2] * 0.3 * np.sin(2 * x) + (q[3] + 5 * (k == 0)) * x
                  for k, q in enumerate(case['a'])], axis=1)
    c = Curve(p, tdata=x if case['par'] else None)
    scale = np.max(np.abs(p))
    sp = np.linalg.norm(oracle.grad(p), axis=1)
    if np.min(sp) < 1e-2 * scale / n:
        ev.label('slow')
        return
    k, tau = c.curvature, c.torsion
    e1 = unit_rows(oracle.grad(p))
    d2 = oracle.grad(oracle.grad(p))
    d3 = oracle.grad(d2)
    r2 = d2 - dots(d2, e1)[:, None] * e1
    e2 = unit_rows(r2)
    r3 = d3 - dots(d3, e1)[:, None] * e1 - dots(d3, e2)[:, None] * e2
    twisted = nd > 2 and np.min(np.linalg.norm(r2, axis=1)) > 1e-5 * scale and np.min(np.linalg.norm(r3, axis=1)) > 1e-5 * scale
    off = np.array(case['off'], dtype=float)
    q = rotation(nd, case['m'], True)
    mirror = np.ones(nd)
    mirror[case['m'] % nd] = -1
    odd = -1 if nd == 2 else 1
    for what, d, f, order in [('translation', p + off, 1, 1), ('rotation', p @ q, 1, 1), ('scaling', p * case['s'], 1 / case['s'], 1),
                              ('reversal', p[::-1], odd, -1), ('mirroring', p * mirror, odd, 1), ('rigid motion', p @ q + off, 1, 1)]:
        d = Curve(d)
        u = scale / abs(f) if what == 'scaling' else scale
        close(d.curvature * u, (f * k)[::order] * u, f'curvature after {what}', atol=1e-6)
        if twisted:
            g = abs(f)
            close(d.torsion * u, (g * tau)[::order] * u, f'torsion after {what}', atol=1e-4)
    ev.label('twisted' if twisted else 'flat', f'{nd}-d')
    ev.nontrivial(float(np.max(np.abs(k))) * scale > 1e-3)


@st.composite
def plane_cases(draw):
    c = draw(gen.walk(4, 12, nd=2, parametric=False))
    return {'p': c['p'], 'nd': draw(st.integers(3, 5)), 'at': draw(st.integers(0, 4)), 'c': draw(st.sampled_from([0, 0, 5, -3])),
            'smooth': draw(st.integers(0, 200)), 'r': draw(st.sampled_from([1.0, 1e-3, 1e3, 1e-10]))}


@sub('C12', plane_cases(), quick=400)
def plane(case, ev):
    """a curve in a coordinate plane of a higher space has zero torsion and the absolute plane curvature"""
    nd = case['nd']
    a = np.array(case['p'], dtype=float)
    if case['smooth'] > 40:
        x = np.linspace(0, 5, case['smooth'])
        a = np.stack([2 * np.cos(x), np.sin(x)], axis=1)
    a = a * case['r']
    ax = case['at'] % nd
    bx = (ax + 1 + case['at'] // nd) % nd
    p = np.full((len(a), nd), case['c'] * case['r'])
    p[:, ax], p[:, bx] = a[:, 0], a[:, 1]
    c = Curve(p)
    d1 = oracle.grad(a)
    d2 = oracle.grad(d1)
    sp = np.linalg.norm(d1, axis=1)
    scale = np.max(np.abs(p))
    if np.min(sp) < (1e-3 if case['smooth'] <= 40 else 1e-4) * scale:
        ev.label('slow')
        return
    tau = c.torsion
    require(np.all(np.abs(tau) * scale < 1e-5), 'torsion of a plane curve is {}', tau)
    if case['smooth'] > 60:
        k2 = Curve(a).curvature
        close(c.curvature[2:-2] * scale, np.abs(k2)[2:-2] * scale, 'curvature in space and in the plane', atol=60 * (5 / case['smooth']) ** 2)
    ev.label('smooth' if case['smooth'] > 40 else 'walk')
    ev.nontrivial()


sub('C12', gen.long_curve(20, 70, spread=(200,)), quick=80, name='formulas_long')(formulas)

sub('C12', huge.curves(), quick=20, name='huge')(huge.curvatures)
