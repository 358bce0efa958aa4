"""C09: lengths are the Euclidean lengths of the chords."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import gen, huge, oracle
from vf.core import close, require, same, sub
from skcurve import Curve

DT = ('float64', 'float64', 'float32', 'int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64')


@sub('C09', st.one_of(gen.curve(0, 10, ndims=(2, 3, 4, 6), dtypes=DT, wide='full'), gen.curve(0, 3, ndims=(2, 3), dtypes=DT),
                      gen.curve(2, 12, kinds=('fine', 'tiny'))), quick=1200)
def lengths(case, ev):
    """chordlen, arclen and cumarclen against exact arithmetic, for every numeric type and size"""
    c = gen.make(case)
    n = c.size
    pts = [[x.item() for x in row] for row in c.data]
    ref = oracle.chord_lengths(pts)
    tol = 2e-6 if case['dt'] == 'float32' else 1e-12
    # integers beyond 2**53 are rounded once, when they are converted to float64
    big = max((abs(x) for q in pts for x in q), default=0) if case['dt'] in ('int64', 'uint64') else 0
    big = 2.0 ** -51 * big * c.ndim if big > 2 ** 53 else 0.0
    same(np.shape(c.chordlen), (max(n - 1, 0),), 'number of chord lengths')
    for i, l in enumerate(ref):
        close(c.chordlen[i], l, f'chordlen[{i}]', rtol=tol, atol=big)
    require(isinstance(c.arclen, float), 'arclen is {}', type(c.arclen))
    close(c.arclen, math.fsum(ref), 'arclen', rtol=tol * max(n, 1), atol=n * big)
    same(np.shape(c.cumarclen), (n,), 'number of cumulative lengths')
    cum = [0.0]
    for l in ref:
        cum.append(cum[-1] + l)
    close(c.cumarclen, cum[:n], 'cumarclen', rtol=tol * max(n, 1), atol=n * big)
    if n:
        require(c.cumarclen[0] == 0, 'cumarclen starts at {}', c.cumarclen[0])
        require(np.all(np.diff(c.cumarclen) >= 0), 'cumarclen decreases: {}', c.cumarclen)
        close(c.cumarclen[-1], c.arclen, 'cumarclen ends at arclen', rtol=tol * n, atol=0)
    require(len(c.segments) == max(n - 1, 0), '{} segments', len(c.segments))
    for i, s in enumerate(c.segments):
        require(s.chordlen == c.chordlen[i], 'segment {}: chordlen {} of {}', i, s.chordlen, c.chordlen[i])
        if case['dt'] in ('float64', 'float32') or case['dt'].startswith('int') and case['dt'] != 'int8':
            pass
        if case['dt'] == 'float64':
            close(s.seglen, ref[i], f'seglen of segment {i}', rtol=1e-12, atol=0)
    for i in range(n):
        require(c[i].cumarclen == c.cumarclen[i], 'cumarclen of point {}', i)
    ev.label(case['dt'], 'empty' if n == 0 else 'single' if n == 1 else 'many')
    ev.nontrivial(n > 1 and any(ref))


@sub('C09', st.fixed_dictionaries({'c': gen.curve(2, 10, parametric=False), 'k': st.sampled_from([0, 1, -1, 2, -3, 0.5, 16]),
                                   'shift': st.lists(st.integers(-40, 40), min_size=4, max_size=4), 'cut': st.integers(0, 9),
                                   'm': st.integers(0, 1000)}), quick=600)
def relations(case, ev):
    """reversal, translation, signed axis permutation (rigid), rotation, padding, scaling and cutting"""
    a = gen.array(case['c'])
    c = gen.make(case['c'])
    n, nd = a.shape
    same(c.reverse().chordlen, c.chordlen[::-1], 'chordlen of the reversed curve')
    close(c.reverse().arclen, c.arclen, 'arclen of the reversed curve')
    close(Curve(a + np.array(case['shift'][:nd])).chordlen, c.chordlen, 'chordlen of the translated curve')
    rng = np.random.RandomState(case['m'])
    perm, sign = rng.permutation(nd), rng.choice([-1, 1], nd)
    close(Curve(a[:, perm] * sign).chordlen, c.chordlen, 'chordlen after axis permutation and mirroring')
    q, _ = np.linalg.qr(rng.randn(nd, nd))
    close(Curve(a @ q).chordlen, c.chordlen, 'chordlen of the rotated curve', atol=1e-10)
    same(c.appenddim().chordlen, c.chordlen, 'chordlen of the padded curve')
    close(c.insertdim(0).chordlen, c.chordlen, 'chordlen of the curve with a zero column in front')
    close(Curve(a * case['k']).chordlen, abs(case['k']) * c.chordlen, 'chordlen of the scaled curve')
    k = case['cut'] % n
    close(c[:k + 1].arclen + c[k:].arclen, c.arclen, f'arclen of the pieces cut at {k}')
    same(c[:k + 1].chordlen, c.chordlen[:k], 'chordlen of the first piece')
    same(c[k:].chordlen, c.chordlen[k:], 'chordlen of the second piece')
    require(c.arclen >= math.dist(a[0], a[-1]) * (1 - 1e-12), 'arclen {} is below the end-point distance', c.arclen)
    if n > 2:
        close((c + c).arclen, 2 * c.arclen + math.dist(a[-1], a[0]), 'arclen of the concatenation')
    ev.nontrivial(c.arclen > 0)


@sub('C09', st.fixed_dictionaries({'c': gen.walk(2, 8), 'f': st.sampled_from([-140, -60, -20, 20, 60, 140])}), quick=200)
def scales(case, ev):
    """lengths of very small and very large curves are relatively accurate"""
    a = gen.array(case['c']) * 2.0 ** case['f']
    c = Curve(a)
    ref = np.array(oracle.chord_lengths(case['c']['p'])) * 2.0 ** case['f']
    for i, l in enumerate(ref):
        close(c.chordlen[i] / l, 1.0, f'relative chordlen[{i}]', rtol=1e-12)
        close(c.segments[i].seglen / l, 1.0, f'relative seglen of segment {i}', rtol=1e-12)
    close(c.arclen / ref.sum(), 1.0, 'relative arclen', rtol=1e-12)
    ev.nontrivial()


@sub('C09', st.fixed_dictionaries({'c': gen.walk(2, 8), 'shift': st.lists(st.integers(-2 ** 40, 2 ** 40), min_size=4, max_size=4)}), quick=200)
def far(case, ev):
    """lengths of a curve far away from the origin (the coordinates and their differences are exact) are those of the curve"""
    a = gen.array(case['c'])
    s = np.array(case['shift'][:a.shape[1]], dtype=float)
    c, d = Curve(a), Curve(a + s)
    same(d.data - s, a, 'moved points')
    close(d.chordlen, c.chordlen, f'chordlen of the curve moved by {s}', rtol=1e-14)
    close(d.cumarclen, c.cumarclen, f'cumarclen of the curve moved by {s}', rtol=1e-14)
    for s1, s2 in zip(c.segments, d.segments):
        close(s2.seglen, s1.seglen, 'seglen of a moved segment', rtol=1e-14)
    ev.nontrivial(np.abs(s).max() > 2 ** 30)


sub('C09', gen.long_curve(40, 120, dtypes=DT), quick=60, name='lengths_long')(lengths)

sub('C09', huge.curves(), quick=20, name='huge')(huge.lengths)
