"""C03: indexing selects exactly the points a sequence index would select."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, huge
from vf.core import raises, require, same, sub
from skcurve import Axis, Curve, Point
from skcurve import CurvePoint

DT = tuple(['float64'] * 4 + ['float32', 'int32', 'uint8', 'int64'])
CURVES = st.one_of(gen.curve(0, 3, ndims=(2, 3, 4, 5), dtypes=DT), gen.curve(4, 10, ndims=(2, 3, 4, 5), dtypes=DT),
                   gen.curve(5, 10, ndims=(2, 3, 4, 5), dtypes=DT), gen.odd_curve(0, 7, ndims=(2, 3, 4, 5)))


def check_sub(r, case, rows, what):
    a = gen.array(case)
    require(type(r) is Curve, '{} gives {}', what, type(r))
    same(r.data, a[np.array(rows, dtype=int)] if rows else np.zeros((0, a.shape[1])), what)
    require(r.dtype == a.dtype, '{}: dtype {} instead of {}', what, r.dtype, a.dtype)
    require(r.ndim == a.shape[1], '{}: ndim {}', what, r.ndim)
    require(r.isparametric is (case['t'] is not None), '{}: isparametric {}', what, r.isparametric)
    if case['t'] is not None:
        same(r.t, np.array([case['t'][i] for i in rows], dtype='float64'), f'parameters of {what}')


@sub('C03', st.fixed_dictionaries({'c': CURVES, 'i': st.integers(-14, 14), 'np': st.sampled_from(['int', 'int64', 'int32', 'uint8', 'bool'])}),
     quick=800)
def integer(case, ev):
    """integer indices: the point, its index and parameter; IndexError outside"""
    c = gen.make(case['c'])
    pts, n, i = case['c']['p'], len(case['c']['p']), case['i']
    idx = i
    if case['np'] in ('int64', 'int32') or (case['np'] == 'uint8' and i >= 0):
        idx = getattr(np, case['np'])(i)
    if -n <= i < n:
        p = c[idx]
        require(isinstance(p, CurvePoint) and isinstance(p, Point), 'curve[{}] is {}', i, type(p))
        same(p.data, pts[i], f'curve[{i}]')
        require(p.idx == i % n, 'index of curve[{}] is {}', i, p.idx)
        require(p.curve is c, 'curve of the point')
        if case['c']['t'] is not None:
            same(p.t, case['c']['t'][i], f't of curve[{i}]')
        ev.label('negative' if i < 0 else 'positive')
        ev.nontrivial()
    else:
        raises(IndexError, lambda: c[idx], f'curve[{i}] of a curve with {n} points')
        ev.label('outside')
        ev.nontrivial(n > 0)


bound = st.one_of(st.none(), st.integers(-13, 13), st.integers(-6, 6))


@sub('C03', st.fixed_dictionaries({'c': CURVES, 's': st.tuples(bound, bound, st.one_of(st.none(), st.integers(-4, 4).filter(bool))).map(list)}),
     quick=1000)
def slices(case, ev):
    """slices with any start, stop and step"""
    c = gen.make(case['c'])
    s = slice(*case['s'])
    rows = list(range(len(case['c']['p'])))[s]
    check_sub(c[s], case['c'], rows, f'curve[{s}]')
    ev.label('step<0' if (s.step or 1) < 0 else 'step>0', 'empty' if not rows else 'some')
    ev.nontrivial(0 < len(rows) < c.size)


@st.composite
def list_cases(draw, long=False):
    c = draw(gen.long_curve(dtypes=DT) if long else CURVES)
    n = len(c['p'])
    if long:
        rs = np.random.RandomState(draw(st.integers(0, 2 ** 32 - 1)))
        if draw(st.booleans()):
            return {'c': c, 'mask': (rs.rand(n) < draw(st.sampled_from([0.1, 0.5, 0.9]))).tolist(), 'form': 'array'}
        form = draw(st.sampled_from(['list', 'array', 'int16', 'uint8', 'uint16', 'uint32', 'uint64']))
        lo = 0 if form[0] == 'u' else -n
        return {'c': c, 'idx': rs.randint(lo, n, rs.randint(1, 300)).tolist(), 'form': form}
    if draw(st.integers(0, 3)) == 0:
        return {'c': c, 'mask': draw(st.lists(st.booleans(), min_size=n, max_size=n)), 'form': draw(st.sampled_from(['list', 'array', 'tuple']))}
    lo, hi = (-n, n - 1) if draw(st.integers(0, 4)) else (-n - 3, n + 2)
    idx = draw(st.lists(st.integers(lo, hi), max_size=8)) if hi >= lo else []
    return {'c': c, 'idx': idx, 'form': draw(st.sampled_from(['list', 'tuple', 'array', 'int32']))}


@sub('C03', list_cases(), quick=1000)
def lists(case, ev):
    """integer lists/arrays (repeats, negatives) and boolean masks"""
    c = gen.make(case['c'])
    n = len(case['c']['p'])
    if 'mask' in case:
        rows = [i for i, m in enumerate(case['mask']) if m]
        m = np.array(case['mask'], dtype=bool)
        if case['form'] == 'list' and n:
            m = list(case['mask'])
        elif case['form'] == 'tuple' and n:
            m = tuple(case['mask'])
        check_sub(c[m], case['c'], rows, f'curve[{m}]')
        ev.label('mask')
        ev.nontrivial(0 < len(rows) < n)
        return
    idx = case['idx']
    form = {'list': list, 'tuple': tuple, 'array': lambda v: np.array(v, dtype='int64')}.get(case['form']) or (lambda v: np.array(v, dtype=case['form']))
    if not idx and case['form'] in ('list', 'tuple'):
        idx_obj = np.array([], dtype=int)
    else:
        idx_obj = form(idx)
    if all(-n <= i < n for i in idx):
        check_sub(c[idx_obj], case['c'], [i % n for i in idx], f'curve[{idx}]')
        ev.label('repeats' if len(set(i % n for i in idx)) < len(idx) else 'distinct')
        ev.nontrivial(len(idx) > 1)
    else:
        raises(IndexError, lambda: c[idx_obj], f'curve[{idx}] of a curve with {n} points')
        ev.label('outside')


@sub('C03', st.fixed_dictionaries({'c': CURVES}), quick=400)
def sequence(case, ev):
    """len, truth value, iteration and reversed agree with the list of points"""
    c = gen.make(case['c'])
    pts = case['c']['p']
    n = len(pts)
    require((len(c), c.size, bool(c)) == (n, n, n > 0), 'len/size/bool {}', (len(c), c.size, bool(c)))
    its = list(c)
    require(len(its) == n, 'iteration gives {} points of {}', len(its), n)
    for i, p in enumerate(its):
        require(isinstance(p, CurvePoint) and p.idx == i, 'item {} of the iteration has index {}', i, p.idx)
        same(p.data, pts[i], f'item {i} of the iteration')
    same([p.data for p in reversed(c)] if n else [], pts[::-1] if n else [], 'reversed()')
    ev.nontrivial(n > 1)


@sub('C03', st.fixed_dictionaries({'p': st.one_of(st.lists(gen.odd_elem('float64'), max_size=5), st.lists(gen.DYADIC, min_size=0, max_size=3), st.lists(gen.DYADIC, min_size=4, max_size=6)), 'i': st.integers(-8, 8),
                                   's': st.tuples(bound, bound, st.one_of(st.none(), st.integers(-3, 3).filter(bool))).map(list),
                                   'curvepoint': st.booleans()}),
     quick=500)
def point_coords(case, ev):
    """coordinates of a point index like a sequence; a slice of a point is a point"""
    v, i = case['p'], case['i']
    p = Point(v)
    if case['curvepoint'] and len(v) > 1:
        p = Curve(np.array([v, v]))[1]
    s = slice(*case['s'])
    if -len(v) <= i < len(v):
        same(p[i], v[i], f'point[{i}]')
        require(np.ndim(p[i]) == 0, 'coordinate is not a number')
    else:
        raises(IndexError, lambda: p[i], f'point[{i}]')
    r = p[s]
    require(isinstance(r, Point), 'slice of a point is {}', type(r))
    same(r.data, v[s], f'point[{s}]')
    if len(v):
        same(p[0], v[Axis.X], 'axis index')
    ev.nontrivial(0 < len(v[s]) < len(v))


@sub('C03', st.fixed_dictionaries({'c': CURVES, 'bad': st.sampled_from(['float', 'None', 'object', '2d', 'str_list', 'dict', 'ellipsis',
                                                                        'float_list', 'mask_size', 'nested'])}), quick=300)
def bad_index(case, ev):
    """mis-typed and multi-dimensional indices raise TypeError or IndexError"""
    c = gen.make(case['c'])
    n = c.size
    bad = {'float': 1.0, 'None': None, 'object': object(), '2d': np.zeros((1, 1), dtype=int), 'str_list': ['a'], 'dict': {0: 1},
           'ellipsis': Ellipsis, 'float_list': [0.5], 'mask_size': np.ones(n + 1, dtype=bool), 'nested': [[0], [0]]}[case['bad']]
    raises((TypeError, IndexError), lambda: c[bad], f'curve[{case["bad"]}]')
    ev.label(case['bad'])
    ev.nontrivial()


LONG = gen.long_curve(ndims=(2, 3, 4, 5), dtypes=DT)
far = st.one_of(st.none(), st.integers(-170, 170))
sub('C03', st.fixed_dictionaries({'c': LONG, 'i': st.integers(-170, 170), 'np': st.sampled_from(['int', 'int64'])}), quick=80, name='integer_long')(integer)
sub('C03', st.fixed_dictionaries({'c': LONG, 's': st.tuples(far, far, st.one_of(st.none(), st.integers(-40, 40).filter(bool))).map(list)}),
    quick=120, name='slices_long')(slices)
sub('C03', list_cases(long=True), quick=120, name='lists_long')(lists)
sub('C03', st.fixed_dictionaries({'c': LONG}), quick=40, name='sequence_long')(sequence)

sub('C03', huge.curves(300, 3000), quick=25, name='huge')(huge.indexing)
