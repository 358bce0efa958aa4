"""C01: a constructed curve holds exactly the points it was given."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import fail, raises, recorded, require, same, sub
from skcurve import Curve, Point

LAYOUTS = ['lists', 'tuples', 'arrays', 'array', 'array_axis0', 'array_axis1', 'array_axis-1', 'array_axis-2',
           'points_axis0', 'points_axis-2', 'fortran', 'curve', 'Points_axis0', 'CurvePoints_axis0']


@st.composite
def layout_cases(draw, long=False):
    nd = draw(st.integers(2, 6))
    src = draw(st.sampled_from(gen.INT_DTYPES + gen.FLOAT_DTYPES))
    n = 1 if long else draw(st.integers(1, 8))
    elem = gen.elem_for(src, wide='full')
    p = draw(st.lists(st.lists(elem, min_size=nd, max_size=nd), min_size=n, max_size=n))
    target = draw(st.sampled_from([None, None, None, 'float64', 'float32', 'int64', 'int16', 'complex128']))
    if target is not None:
        small = st.integers(0, 60)
        p = draw(st.lists(st.lists(small, min_size=nd, max_size=nd), min_size=n, max_size=n))
    t = draw(st.one_of(st.none(), st.lists(gen.DYADIC, min_size=n, max_size=n)))
    if long:
        c = draw(gen.long_curve(nd=nd, dtypes=(src if target is None else 'uint8',), parametric=True, spread=(60,)))
        p, t = c['p'], draw(st.sampled_from([None, c['t']]))
    return {'p': p, 'nd': nd, 'src': src, 'dtype': target, 'layout': draw(st.sampled_from(LAYOUTS)),
            'ndmin': draw(st.one_of(st.none(), st.integers(2, 8))), 't': t, 'tform': draw(st.sampled_from(['list', 'array', 'int']))}


@sub('C01', layout_cases(), quick=1600)
def layouts(case, ev):
    """every accepted layout of the same points gives the same curve; types, ndmin padding, tdata"""
    p, nd, n = case['p'], case['nd'], len(case['p'])
    base = np.array(p, dtype=case['src']).reshape(n, nd)
    lay = case['layout']
    vectors = [[q[k] for q in p] for k in range(nd)]
    axis = None
    if lay == 'lists':
        data, default = vectors, 'float64'
    elif lay == 'tuples':
        data, default = tuple(tuple(v) for v in vectors), 'float64'
    elif lay == 'arrays':
        data, default = [np.array(v, dtype=case['src']) for v in vectors], 'float64'
    elif lay == 'array':
        data, default = base, case['src']
    elif lay == 'array_axis0':
        data, default, axis = base, case['src'], 0
    elif lay == 'array_axis1':
        data, default, axis = np.ascontiguousarray(base.T), case['src'], 1
    elif lay == 'array_axis-1':
        data, default, axis = base.T, case['src'], -1
    elif lay == 'array_axis-2':
        data, default, axis = base, case['src'], -2
    elif lay == 'points_axis0':
        data, default, axis = [list(q) for q in p], 'float64', 0
    elif lay == 'points_axis-2':
        data, default, axis = [list(q) for q in p], 'float64', -2
    elif lay == 'Points_axis0':
        data, default, axis = [Point(q) for q in p], 'float64', 0
    elif lay == 'CurvePoints_axis0':        # points of different curves
        c1, c2 = Curve(base), Curve(np.vstack([base[::-1], base]))
        data, default, axis = tuple((c1[i] if (i + nd) % 2 else c2[i - n]) for i in range(n)), 'float64', 0
    elif lay == 'fortran':
        data, default = np.asfortranarray(base), case['src']
    else:
        data, default = Curve(base), case['src']
    t = case['t']
    kw = {}
    if t is not None and lay != 'curve':
        kw['tdata'] = np.array(t) if case['tform'] == 'array' else list(t)
        if case['tform'] == 'int':
            t = [int(v) for v in t]
            kw['tdata'] = t
    if axis is not None:
        kw['axis'] = axis
    if case['ndmin'] is not None:
        kw['ndmin'] = case['ndmin']
    if case['dtype'] is not None:
        kw['dtype'] = np.dtype(case['dtype']) if n % 2 else getattr(np, case['dtype'])
    c = Curve(data, **kw)
    expected_nd = max(nd, case['ndmin'] or 2)
    dtype = np.dtype(case['dtype'] or default)
    expected = np.array([list(q) + [0] * (expected_nd - nd) for q in p], dtype=dtype)
    same(c.data, expected, f'data of a curve from {lay}', dtype=True)
    require(c.dtype == dtype, 'dtype property {}', c.dtype)
    require((c.size, len(c), c.ndim) == (n, n, expected_nd), 'size/len/ndim {}', (c.size, len(c), c.ndim))
    require(c.isparametric is ('tdata' in kw), 'isparametric {}', c.isparametric)
    if 'tdata' in kw:
        same(c.t, np.array(t, dtype='float64'), 'parametrization', dtype=True)
    ev.label(lay)
    ev.nontrivial(n > 1)


@st.composite
def nd_cases(draw):
    shape = draw(st.lists(st.integers(1, 4), min_size=2, max_size=4))
    axis = draw(st.integers(-len(shape), len(shape) - 1))
    return {'shape': shape, 'axis': axis, 'start': draw(st.integers(-50, 50)), 'step': draw(st.integers(1, 7)),
            'as_list': draw(st.booleans())}


@sub('C01', nd_cases(), quick=600)
def nd_arrays(case, ev):
    """an array of any shape with an axis: point i is the flattened i-th slice along that axis"""
    shape = case['shape']
    total = int(np.prod(shape))
    a = (case['start'] + case['step'] * np.arange(total)).astype('float64').reshape(shape)
    ax = case['axis'] % len(shape)
    points = []
    for i in range(shape[ax]):
        idx = [slice(None)] * len(shape)
        idx[ax] = i
        points.append([float(v) for v in a[tuple(idx)].ravel()])
    data = a.tolist() if case['as_list'] else a
    if len(points[0]) < 2:
        raises(ValueError, lambda: Curve(data, axis=case['axis']), 'one-dimensional points')
        return
    c = Curve(data, axis=case['axis'])
    same(c.data, points, f'curve from shape {shape} along axis {case["axis"]}')
    ev.label(f'{len(shape)}-d')
    ev.nontrivial(len(shape) > 2 or ax != 0)


@st.composite
def empty_cases(draw):
    return {'form': draw(st.sampled_from(['list', 'lists', 'axis', 'array1', 'array', 'curve'])),
            'k': draw(st.integers(2, 6)), 'ndmin': draw(st.one_of(st.none(), st.integers(2, 6))),
            'dt': draw(st.sampled_from(['float64', 'float32', 'int32', 'uint8'])), 'par': draw(st.booleans()),
            'copies': draw(st.integers(0, 3))}


@sub('C01', empty_cases(), quick=300)
def empties(case, ev):
    """empty curves: dimension, type, parametrization, through copies and sub-curves"""
    k, ndmin, dt = case['k'], case['ndmin'], case['dt']
    kw = {} if ndmin is None else {'ndmin': ndmin}
    if case['par']:
        kw['tdata'] = []
    form = case['form']
    if form == 'list':
        c, nd, dtype = Curve([], **kw), ndmin or 2, 'float64'
    elif form == 'lists':
        c, nd, dtype = Curve([[] for _ in range(k)], **kw), max(k, ndmin or 2), 'float64'
    elif form == 'axis':
        c, nd, dtype = Curve(np.zeros((k, 0), dtype=dt), axis=-1 if case['par'] else 1, **kw), max(k, ndmin or 2), dt
    elif form == 'array1':
        c, nd, dtype = Curve(np.array([], dtype=dt), **kw), ndmin or 2, dt
    elif form == 'array':
        c, nd, dtype = Curve(np.zeros((0, k), dtype=dt), **kw), max(k, ndmin or 2), dt
    else:
        kw.pop('tdata', None)
        base = Curve(np.ones((3, k), dtype=dt), tdata=[1, 2, 3] if case['par'] else None)
        c, nd, dtype = Curve(base[:0], **kw), max(k, ndmin or 2), dt
    for i in range(case['copies'] + 1):
        require(c.data.shape == (0, nd), 'empty curve of shape {} instead of {}', c.data.shape, (0, nd))
        require(c.dtype == np.dtype(dtype), 'empty curve of dtype {} instead of {}', c.dtype, dtype)
        require(c.isparametric is case['par'], 'empty curve isparametric {}', c.isparametric)
        require(not c and len(c) == 0 and c.size == 0, 'empty curve is not empty')
        same(c.t, np.zeros(0), 't of an empty curve')
        c = [Curve, copy.copy, copy.deepcopy, lambda x: x[0:]][i % 4](c)
    ev.label(form)
    ev.nontrivial(nd > 2 or case['par'])


@sub('C01', st.fixed_dictionaries({
    'c': gen.curve(0, 8, ndims=(2, 3, 4, 5), dtypes=tuple(gen.INT_DTYPES + gen.FLOAT_DTYPES), wide='full'),
    'ndmin': st.one_of(st.none(), st.integers(2, 7)),
    'dtype': st.sampled_from([None, None, 'float64', 'float32', 'int64']),
    'how': st.sampled_from(['Curve', 'copy', 'deepcopy', 'ignored']), 'ignored': st.sampled_from(['tdata', 'axis', 'both']), 'more': st.sampled_from([0, 0, 1]),
}), quick=700)
def copies(case, ev):
    """copies keep data, type, dimension and parametrization"""
    src = gen.make(case['c'])
    a = gen.array(case['c'])
    how = case['how']
    dtype, nd = a.dtype, a.shape[1]
    if how == 'Curve':
        kw = {}
        if case['ndmin']:
            kw['ndmin'] = case['ndmin']
            nd = max(nd, case['ndmin'])
        if case['dtype'] and np.all(a.astype(case['dtype']) == a):
            kw['dtype'] = dtype = np.dtype(case['dtype'])
        c = Curve(src, **kw)
    elif how == 'copy':
        c = copy.copy(src)
    elif how == 'deepcopy':
        c = copy.deepcopy(src)
    else:
        with recorded() as w:
            given = {k: v for k, v in (('tdata', np.arange(len(a) + case['more'], dtype=float) * 3), ('axis', 1)) if case['ignored'] in (k, 'both')}
            c = Curve(src, **given)
        require(len(w) >= 1, 'no warning about the ignored {}', ' and '.join(given))
    expected = np.hstack([a, np.zeros((a.shape[0], nd - a.shape[1]), dtype=a.dtype)]).astype(dtype)
    require(type(c) is Curve and c is not src, 'copy is {}', type(c))
    same(c.data, expected, f'copy by {how}', dtype=True)
    require(c.isparametric is (case['c']['t'] is not None), 'copy isparametric {}', c.isparametric)
    if c.isparametric:
        same(c.t, np.array(case['c']['t'], dtype='float64'), 'parametrization of the copy', dtype=True)
    same(src.data, a, 'source', dtype=True)
    ev.label(how)
    ev.nontrivial(len(a) > 0)


@sub('C01', st.fixed_dictionaries({
    'p': st.lists(st.integers(0, 100), min_size=0, max_size=6),
    'src': st.sampled_from(gen.INT_DTYPES + gen.FLOAT_DTYPES),
    'dtype': st.sampled_from([None, 'float64', 'float32', 'int64', 'uint8']),
    'form': st.sampled_from(['list', 'tuple', 'array', 'Point', 'CurvePoint', 'copy', 'deepcopy']),
}), quick=500)
def points(case, ev):
    """points hold exactly their coordinates in the requested type (float64 by default)"""
    v, form = case['p'], case['form']
    kw = {} if case['dtype'] is None else {'dtype': case['dtype']}
    dtype = np.dtype(case['dtype'] or 'float64')
    a = np.array(v, dtype=case['src'])
    if form == 'list':
        p = Point(v, **kw)
    elif form == 'tuple':
        p = Point(tuple(v), **kw)
    elif form == 'array':
        p = Point(a, **kw)
    elif form == 'CurvePoint' and len(v) >= 2:
        p = Point(Curve(np.vstack([a * 0, a]))[1], **kw)
    elif form == 'copy':
        p = copy.copy(Point(v, **kw))
        dtype = p.dtype
    elif form == 'deepcopy':
        p = copy.deepcopy(Point(v, **kw))
        dtype = p.dtype
    else:
        p = Point(Point(a), **kw)
    same(p.data, np.array(v, dtype='float64').astype(dtype), f'point from {form}', dtype=True)
    require((p.ndim, len(p), bool(p)) == (len(v), len(v), len(v) > 0), 'ndim/len/bool {}', (p.ndim, len(p), bool(p)))
    same(list(p), v, 'coordinates of the point')
    require(p.dtype == dtype, 'dtype {}', p.dtype)
    ev.label(form)
    ev.nontrivial(len(v) > 1)


@st.composite
def reject_cases(draw):
    return {'what': draw(st.sampled_from(['1d_list', '1d_array', 'one_vector', 'm_by_1', 'axis', 'ndmin', 'dtype',
                                          'array_dtype', 't2d', 't_size', 't_empty', 'ragged', 'point2d', 'point_dtype',
                                          't_scalar'])),
            'n': draw(st.integers(1, 6)), 'nd': draw(st.integers(2, 4)), 'k': draw(st.integers(0, 5)),
            'neg': draw(st.booleans()), 'bad': draw(st.sampled_from(['bool', 'object', 'str', 'datetime64[s]'])),
            'as_list': draw(st.booleans())}


@sub('C01', reject_cases(), quick=500)
def rejects(case, ev):
    """malformed construction arguments are rejected with ValueError"""
    what, n, nd, k = case['what'], case['n'], case['nd'], case['k']
    a = np.arange(n * nd, dtype='float64').reshape(n, nd)
    bad = {'bool': bool, 'object': object, 'str': str}.get(case['bad'], case['bad'])
    good = a.T.tolist() if case['as_list'] else a
    if what == '1d_list':
        f = lambda: Curve(list(range(1, n + 1)))
    elif what == '1d_array':
        f = lambda: Curve(np.arange(1.0, n + 1))
    elif what == 'one_vector':
        f = lambda: Curve([list(range(n))])
    elif what == 'm_by_1':
        f = lambda: Curve(np.zeros((n, 1)), **({'ndmin': 2 + k} if case['neg'] else {}))
    elif what == 'axis':
        f = lambda: Curve(good, axis=-3 - k if case['neg'] else 2 + k)
    elif what == 'ndmin':
        f = lambda: Curve(good, ndmin=1 - k)
    elif what == 'dtype':
        f = lambda: Curve(good, dtype=bad)
    elif what == 'array_dtype':
        f = lambda: Curve(a.astype(bool if case['neg'] else object))
    elif what == 't2d':
        f = lambda: Curve(good, tdata=np.zeros((n, 1)))
    elif what == 't_size':
        f = lambda: Curve(good, tdata=[float(i) for i in range(n + 1 + k if case['neg'] else max(n - 1 - k, 0))])
    elif what == 't_empty':
        f = lambda: Curve([], tdata=[0.0] * (k + 1))
    elif what == 't_scalar':
        f = lambda: Curve(good, tdata=3.0)
    elif what == 'ragged':
        f = lambda: Curve([list(range(n)), list(range(n + 1 + k))])
    elif what == 'point2d':
        f = lambda: Point(a)
    else:
        f = lambda: Point([1.0] * n, dtype=bad)
    raises(ValueError, f, f'invalid construction ({what})')
    if what not in ('point2d', 'point_dtype', '1d_list', '1d_array', 'one_vector', 'm_by_1', 'ragged', 'array_dtype'):
        if Curve(good).size != n:
            fail('valid construction next to the invalid one fails')
    ev.label(what)
    ev.nontrivial()


sub('C01', layout_cases(long=True), quick=150, name='layouts_long')(layouts)
