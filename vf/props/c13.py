"""C13: curve points and curve segments are faithful views of their curve."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf import gen, huge
from vf.core import close, raises, require, same, sub
from skcurve import Curve, CurvePoint, CurveSegment, Point, Segment

DT = ('float64', 'float64', 'float64', 'float32', 'int32', 'uint8')
VALUES = ('cumarclen', 'firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'speed', 'normal', 'binormal', 'frenet1',
          'frenet2', 'frenet3', 'curvature', 'torsion', 't')


@sub('C13', st.fixed_dictionaries({'c': st.one_of(gen.walk(1, 9), gen.curve(1, 8, dtypes=DT)), 'i': st.integers(0, 1000),
                                   'how': st.sampled_from(['index', 'negative', 'iteration', 'constructor', 'segment', 'copy', 'deepcopy', 'numpy']),
                                   'order': st.permutations(list(range(len(VALUES)))), 'late': st.booleans()}), quick=900)
def points(case, ev):
    """a curve point reports the index, coordinates, parameter and every differential-geometry value of its row"""
    c = gen.make(case['c'])
    ref = gen.make(case['c'])
    n = c.size
    i = case['i'] % n
    how = case['how']
    if how == 'index':
        p = c[i]
    elif how == 'negative':
        p = c[i - n]
    elif how == 'numpy':
        p = c[np.int32(i)]
    elif how == 'iteration':
        p = list(c)[i]
    elif how == 'constructor':
        p = CurvePoint(c, i - n if case['late'] else i)
    elif how == 'segment' and n > 1:
        p = c.segments[i - 1].p2 if i else c.segments[0].p1
    elif how == 'copy':
        p = copy.copy(c[i])
    else:
        p = copy.deepcopy(c[i])
    require(isinstance(p, CurvePoint) and p.curve is c, 'not a point of the curve: {}', p)
    require(p.idx == i, 'index {} instead of {}', p.idx, i)
    same(p.data, np.asarray(case['c']['p'][i], dtype=np.float64), 'coordinates')
    require(p.ndim == c.ndim and len(p) == c.ndim, 'dimension {}', p.ndim)
    require(p == Point(case['c']['p'][i]) and p == c[i], 'equality of the point')
    for k in case['order']:
        name = VALUES[k]
        if case['late']:
            getattr(c, name)
        v = getattr(p, name)
        same(v, getattr(ref, name)[i], f'{name} of point {i}')
        same(v, getattr(c, name)[i], f'{name} of point {i} and the curve')
    ev.label(how)
    ev.nontrivial(n > 2)


@sub('C13', st.fixed_dictionaries({'c': st.one_of(gen.walk(2, 9), gen.curve(0, 8, dtypes=DT)), 'k': st.integers(-12, 12)}), quick=700)
def segments(case, ev):
    """the segments array has size-1 entries in order; segment i runs from point i to i+1; bad indices are refused"""
    c = gen.make(case['c'])
    n, k = c.size, case['k']
    pts = case['c']['p']
    segs = c.segments
    require(len(segs) == max(n - 1, 0), '{} segments of {} points', len(segs), n)
    for i, s in enumerate(segs):
        require(isinstance(s, CurveSegment) and isinstance(s, Segment), 'segment {} is {}', i, type(s))
        require(s.idx == i and s.curve is c, 'segment {} reports index {}', i, s.idx)
        require(s.p1.idx == i and s.p2.idx == i + 1, 'segment {} runs from {} to {}', i, s.p1.idx, s.p2.idx)
        same(s.data, np.array([pts[i], pts[i + 1]], dtype=float), f'data of segment {i}')
        same(s.p1.data, pts[i], f'p1 of segment {i}')
        same(s.p2.data, pts[i + 1], f'p2 of segment {i}')
        same(s.chordlen, c.chordlen[i], f'chordlen of segment {i}')
        close(s.seglen, np.linalg.norm(np.subtract(pts[i + 1], pts[i], dtype=float)), f'seglen of segment {i}', rtol=1e-12)
        require(s.ndim == c.ndim, 'dimension of segment {}', i)
        require(s == Segment(Point(pts[i]), Point(pts[i + 1])), 'equality of segment {}', i)
    if -(n - 1) <= k < n - 1:
        s = CurveSegment(c, k)
        require(s.idx == k % (n - 1), 'CurveSegment({}) of {} segments has index {}', k, n - 1, s.idx)
        same(s.data, np.array([pts[k % (n - 1)], pts[k % (n - 1) + 1]], dtype=float), f'CurveSegment({k})')
        same(s.chordlen, c.chordlen[k], 'chordlen')
        ev.label('inside')
    else:
        raises((ValueError, IndexError), lambda: CurveSegment(c, k), f'CurveSegment({k}) of {n} points')
        ev.label('outside')
    if not -n <= k < n:
        raises(IndexError, lambda: CurvePoint(c, k), f'CurvePoint({k}) of {n} points')
    ev.nontrivial(n > 1)


@sub('C13', st.fixed_dictionaries({'c': st.one_of(gen.curve(1, 9, dtypes=DT), gen.odd_curve(1, 7)), 'a': st.integers(-99, 99), 'b': st.integers(-99, 99), 'end': st.sampled_from([True, False, None])}), quick=600)
def subcurve(case, ev):
    """subcurve is the slice between the two indices, end included or not as asked"""
    c = gen.make(case['c'])
    n = c.size
    i, j = case['a'] % n, case['b'] % n
    p, q = c[i], c[j - n]
    s = p.subcurve(q) if case['end'] is None else p.subcurve(q, endpoint=case['end'])
    rows = list(range(n))[i:j + (1 if case['end'] in (True, None) else 0)]
    same(s.data, c.data[rows] if rows else np.zeros((0, c.ndim)), f'subcurve({i}, {j})')
    require(s.dtype == c.dtype, 'dtype {}', s.dtype)
    require(s.isparametric == c.isparametric, 'isparametric {}', s.isparametric)
    if c.isparametric:
        same(s.t, [case['c']['t'][r] for r in rows], 'parameters of the sub-curve')
    other = gen.make(case['c'])
    raises(ValueError, lambda: p.subcurve(other[j]), 'subcurve to a point of an equal but different curve')
    raises(TypeError, lambda: p.subcurve(Point(q)), 'subcurve to a plain point')
    raises(TypeError, lambda: p.subcurve(j), 'subcurve to an index')
    ev.label('forward' if i < j else 'backward' if i > j else 'same')
    ev.nontrivial(len(rows) > 1)


@sub('C13', st.fixed_dictionaries({'c': gen.odd_curve(1, 7, ndims=(2, 3, 4, 5)), 'i': st.integers(0, 1000)}), quick=200)
def odd_values(case, ev):
    """the views keep undefined, infinite and extreme coordinates, whatever the element type of the curve"""
    c = gen.make(case['c'])
    f = gen.array(case['c']).astype('float64')
    i = case['i'] % c.size
    for p in (c[i], c[i - c.size], copy.copy(c[i]), copy.deepcopy(c[i]), CurvePoint(c, i)):
        same(p.data, f[i], f'point {i}')
        same([p[k] for k in range(c.ndim)], f[i], f'coordinates of point {i}')
        same(p.t, c.t[i], f't of point {i}')
    for k, s in enumerate(c.segments):
        same(s.p1.data, f[k], f'p1 of segment {k}')
        same(s.p2.data, f[k + 1], f'p2 of segment {k}')
        same(s.data, f[k:k + 2], f'data of segment {k}')
        same(s.chordlen, c.chordlen[k], f'chordlen of segment {k}')
    ev.label(case['c']['dt'])
    ev.nontrivial(c.size > 1)


sub('C13', st.fixed_dictionaries({'c': gen.long_walk(), 'i': st.integers(0, 1000),
                                  'how': st.sampled_from(['index', 'negative', 'iteration', 'constructor', 'segment', 'copy', 'deepcopy', 'numpy']),
                                  'order': st.permutations(list(range(len(VALUES)))), 'late': st.booleans()}), quick=60, name='points_long')(points)
sub('C13', st.fixed_dictionaries({'c': gen.long_curve(dtypes=DT), 'k': st.integers(-170, 170)}), quick=40, name='segments_long')(segments)
sub('C13', st.fixed_dictionaries({'c': gen.long_curve(dtypes=DT), 'a': st.integers(-999, 999), 'b': st.integers(-999, 999), 'end': st.sampled_from([True, False, None])}),
    quick=60, name='subcurve_long')(subcurve)

sub('C13', huge.curves(300, 3000), quick=15, name='huge')(huge.views)


@sub('C13', st.fixed_dictionaries({'n': st.sampled_from([200, 300, 33000, 66000]), 'at': st.lists(st.integers(-66000, 65999), min_size=3, max_size=8),
                                   'par': st.booleans()}), quick=16)
def huge_curves(case, ev):
    """points of curves with more points than small integer types can count are the points at their index"""
    n = case['n']
    x = np.arange(float(n))
    t = x * 0.5 - 7 if case['par'] else None
    c = Curve([x, -2 * x], tdata=t)
    for i in case['at'] + [-1, n - 1, n // 2]:
        if not -n <= i < n:
            i %= n
        k = i % n
        p = c[i]
        require(p.idx == k and p.curve is c, 'the index of point {} of {} is {}', i, n, p.idx)
        same(p.data, np.array([k, -2.0 * k]), f'point {i} of {n}')
        close(np.float64(p.cumarclen), k * 5 ** 0.5, f'arc length up to point {i} of {n}', rtol=1e-9)
        close(np.float64(p.t), t[k] if case['par'] else k * 5 ** 0.5, f'parameter of point {i} of {n}', rtol=1e-9)
        same(p.tangent, c.tangent[k], f'tangent at point {i} of {n}')
        if k + 1 < n:
            s = p.subcurve(c[-1]) if n < 1000 else None
            if s is not None:
                same(s.data, c.data[k:], f'part from point {i}')
    ev.nontrivial(n > 256)
