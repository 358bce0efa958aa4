"""C28: invalid requests fail with the documented error and change nothing."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import close, fail, quiet, raises, require, same, sub
from skcurve import (Axis, Curve, CurvePoint, CurveSegment, InterpolationError, InterpolationGrid, InterpolatorBase, IntersectionType,
                     Point, PreservedSpeedInterpolationGrid, Segment, SmoothingError, UniformExtrapolationGrid,
                     UniformInterpolationGrid, default_intersect_method, get_metric, interp_methods, intersect_methods,
                     register_interpolator, register_intersect_method, register_smooth_method, set_default_intersect_method,
                     smooth_methods)
from skcurve._intersect import AlmostIntersectionMethod, ExactIntersectionMethod, IntersectionError, IntersectionMethodBase, intersect

T, V, I, N = TypeError, ValueError, IndexError, NameError


class World:
    """The objects a request may use, and everything observable about them."""

    def __init__(self, case):
        self.c, self.d = gen.make(case['c']), gen.make(case['d'])          # same dimension
        nd = case['c']['nd']
        self.nd, self.n = nd, len(self.c)
        self.o = Curve(np.arange(5.0 * (nd + 1)).reshape(5, nd + 1))       # another dimension
        self.p, self.q, self.op = Point(self.c.data[0]), self.c[1], Point(self.o.data[0])
        self.s, self.r, self.os = Segment(Point(self.c.data[0]), Point(self.c.data[1])), self.c.segments[-1], self.o.segments[0]
        self.pick = case['pick']

    def view(self):
        c, out = self.c, []
        for x in (self.c, self.d, self.o):
            out += [x.data, x.t, np.array(x.isparametric), x.chordlen, x.firstderiv, x.frenet1]
        for x in (self.p, self.q, self.op, self.s, self.r, self.os):
            out.append(x.data)
        out += [np.array([self.q.idx, self.r.idx, c.size, c.ndim, len(c.segments)])]
        return [np.array(x) for x in out], [interp_methods(), smooth_methods(), intersect_methods(), default_intersect_method()]


class Nasty(Exception):
    pass


def boom(*args, **kwargs):
    raise Nasty('callback failed')


class BadGrid(InterpolationGrid):
    def __call__(self, curve):
        raise Nasty('grid failed')


class RawGrid(InterpolationGrid):
    def __init__(self, v):
        self.v = v

    def __call__(self, curve):
        return np.array(self.v)


class BadIntersect(IntersectionMethodBase):
    def _intersect_segments(self, segment1, segment2):
        raise Nasty('segments')

    def _intersect_curves(self, curve1, curve2):
        raise Nasty('curves')


_ids = itertools.count()


def registered(kind, obj):
    name = f'c28-{kind}-{next(_ids)}'
    {'i': register_interpolator, 's': register_smooth_method, 'x': register_intersect_method}[kind](name)(obj)
    return name


class BadInit(InterpolatorBase):
    def __init__(self, curve, **kw):
        raise Nasty('init')


class BadInterp(InterpolatorBase):
    def __init__(self, curve, **kw):
        super().__init__(curve)

    def _interpolate(self, grid):
        raise Nasty('interpolate')


def bad_smooth(exc):
    def method(curve, **kw):
        raise exc('smooth')
    return method


# what, request, accepted exceptions
REQ = []


def req(what, exc, fn):
    REQ.append((what, exc, fn))


# construction
req('1-d data', V, lambda w: Curve([1, 2, 3]))
req('one vector', V, lambda w: Curve([[1, 2, 3]]))
req('scalar data', V, lambda w: Curve(5))
req('axis too big', V, lambda w: Curve(w.c.data, axis=2))
req('axis too small', V, lambda w: Curve(w.c.data, axis=-3))
req('ndmin 1', V, lambda w: Curve(w.c.data, ndmin=1))
req('ndmin 0', V, lambda w: Curve(w.c, ndmin=0))
req('text dtype', V, lambda w: Curve(w.c.data, dtype='U4'))
req('object dtype', V, lambda w: Curve(w.c.data, dtype=object))
req('bool dtype', V, lambda w: Curve(w.c.data, dtype=bool))
req('short tdata', V, lambda w: Curve(w.c.data, tdata=[0.0] * (w.n - 1)))
req('long tdata', V, lambda w: Curve(w.c.data, tdata=np.zeros(w.n + 1)))
req('2-d tdata', V, lambda w: Curve(w.c.data, tdata=np.zeros((w.n, 1))))
req('2-d point', V, lambda w: Point([[1, 2], [3, 4]]))
req('text point', V, lambda w: Point(['a', 'b']))
req('point text dtype', V, lambda w: Point([1, 2], dtype='U3'))
req('segment of numbers', T, lambda w: Segment([1, 2], [3, 4]))
req('segment of a point and None', T, lambda w: Segment(w.p, None))
req('segment of a point and a curve', T, lambda w: Segment(w.p, w.c))
req('segment of other dimensions', V, lambda w: Segment(w.p, w.op))
req('segment of empty points', V, lambda w: Segment(Point([]), Point([])))
req('curve point outside', I, lambda w: CurvePoint(w.c, w.n + w.pick))
req('curve point below', I, lambda w: CurvePoint(w.c, -w.n - 1 - w.pick))
req('curve segment outside', V, lambda w: CurveSegment(w.c, w.n - 1 + w.pick))
# indexing
req('index outside', I, lambda w: w.c[w.n + w.pick])
req('index below', I, lambda w: w.c[-w.n - 1 - w.pick])
req('index float', T, lambda w: w.c[1.0])
req('index None', T, lambda w: w.c[None])
req('index text', (T, I), lambda w: w.c['x'])
req('index 2-d', (T, I), lambda w: w.c[np.zeros((2, 2), dtype=int)])
req('index list outside', I, lambda w: w.c[[0, w.n]])
req('short mask', I, lambda w: w.c[np.ones(w.n - 1, dtype=bool)])
req('index float array', (T, I), lambda w: w.c[np.array([0.0, 1.0])])
req('slice of floats', T, lambda w: w.c[0.5:2])
req('slice step 0', V, lambda w: w.c[::0])
req('point index outside', I, lambda w: w.p[w.nd + w.pick])
req('segments outside', I, lambda w: w.c.segments[w.n])
# search
req('index of an absent point', V, lambda w: w.c.index(Point(w.c.data.max(axis=0) + 100)))
req('index of another dimension', V, lambda w: w.c.index(w.op))
req('count of another dimension', V, lambda w: w.c.count(w.op))
req('index in an empty range', V, lambda w: w.c.index(w.p, w.n))
req('index with a text bound', T, lambda w: w.c.index(w.p, 'a'))
# edits
req('insert another dimension', V, lambda w: w.c.insert(0, w.op))
req('insert a curve of another dimension', V, lambda w: w.c.insert(0, w.o))
req('insert outside', I, lambda w: w.c.insert(w.n + 1 + w.pick, w.p))
req('insert below', I, lambda w: w.c.insert(-w.n - 1 - w.pick, w.p))
req('insert a list', T, lambda w: w.c.insert(0, [1, 2]))
req('insert None', T, lambda w: w.c.insert(0, None))
req('insert a segment', T, lambda w: w.c.insert(0, w.s))
req('insert at several outside', I, lambda w: w.c.insert([0, w.n + 5], w.d[:2]))
req('append another dimension', V, lambda w: w.c.append(w.op))
req('append a number', T, lambda w: w.c.append(3))
req('add another dimension', V, lambda w: w.c + w.o)
req('add a point', T, lambda w: w.c + w.p)
req('add a number', T, lambda w: w.c + 1)
req('add a list', T, lambda w: w.c + [[1, 2]])
req('add None', T, lambda w: None + w.c)
req('delete outside', I, lambda w: w.c.delete(w.n + w.pick))
req('delete below', I, lambda w: w.c.delete(-w.n - 1 - w.pick))
req('delete several outside', I, lambda w: w.c.delete([0, w.n]))
req('delete text', I, lambda w: w.c.delete('x'))
req('del item', (T, AttributeError), lambda w: w.c.__delitem__(0))
req('set item', (T, AttributeError), lambda w: w.c.__setitem__(0, w.p))
# dimensions
req('values axis outside', V, lambda w: w.c.values(w.nd))
req('values axis below', V, lambda w: w.c.values(-w.nd - 1))
req('values axis float', V, lambda w: w.c.values(0.0))
req('values axis text', V, lambda w: w.c.values('x'))
req('insertdim outside', I, lambda w: w.c.insertdim(w.nd + 1 + w.pick))
req('insertdim below', I, lambda w: w.c.insertdim(-w.nd - 2 - w.pick))
req('insertdim wrong size', V, lambda w: w.c.insertdim(0, np.zeros(w.n + 1)))
req('appenddim wrong size', V, lambda w: w.c.appenddim(np.zeros(w.n + 2)))
req('appenddim text', V, lambda w: w.c.appenddim('abc'))
req('deletedim of a plane curve', V, lambda w: Curve(w.c.data[:, :2]).deletedim(0))
req('deletedim outside', I, lambda w: w.o.deletedim(w.nd + 1 + w.pick))
req('deletedim below', I, lambda w: w.o.deletedim(-w.nd - 2))
req('coorientplane outside', I, lambda w: w.c.coorientplane(0, w.nd + w.pick))
# drop
req('drop not callable', T, lambda w: w.c.drop(np.zeros(w.n, dtype=bool)))
req('drop None', T, lambda w: w.c.drop(None))
req('drop number matrix', V, lambda w: w.c.drop(lambda c: np.zeros(c.data.shape)))
req('drop index outside', I, lambda w: w.c.drop(lambda c: [w.n]))
req('drop checker fails', Nasty, lambda w: w.c.drop(boom))
# points
req('point of another dimension', V, lambda w: w.p + w.op)
req('point times another dimension', V, lambda w: w.p * w.op)
req('point plus text', T, lambda w: w.p + 'x')
req('point minus None', T, lambda w: w.p - None)
req('None minus point', T, lambda w: None - w.p)
req('point times list', T, lambda w: w.p * [1, 2])
req('point @ number', T, lambda w: w.p @ 3)
req('point @ another dimension', V, lambda w: w.p @ w.op)
req('unknown metric', N, lambda w: w.p.distance(w.q, 'no metric'))
req('metric not callable', T, lambda w: w.p.distance(w.q, 3))
req('metric None', T, lambda w: w.p.distance(w.q, None))
req('metric fails', Nasty, lambda w: w.p.distance(w.q, boom))
req('metric of other dimensions', V, lambda w: w.p.distance(w.op))
req('metric unknown parameter', T, lambda w: w.p.distance(w.q, 'euclidean', no_such=1))
req('get_metric unknown', N, lambda w: get_metric('Euclidean distance'))
req('subcurve of a number', T, lambda w: w.q.subcurve(2))
req('subcurve of a plain point', T, lambda w: w.q.subcurve(w.p))
req('subcurve of another curve', V, lambda w: w.q.subcurve(w.d[0]))
req('subcurve of an equal curve', V, lambda w: w.q.subcurve(Curve(w.c.data + 1)[0]))
# segments
for _name in ('angle', 'parallel', 'collinear', 'coplanar', 'overlap', 'distance', 'shortest_segment', 'intersect'):
    for _label, _bad in (('None', None), ('text', 'x'), ('number', 3.5), ('list', [1, 2])):
        req(f'{_name} with {_label}', T, lambda w, name=_name, bad=_bad: getattr(w.s, name)(bad))
    req(f'{_name} with a segment of another dimension', V, lambda w, name=_name: getattr(w.s, name)(w.os))
for _name in ('angle', 'parallel', 'overlap', 'intersect'):
    req(f'{_name} with a point', T, lambda w, name=_name: getattr(w.s, name)(w.p))
req('segment parameter matrix', V, lambda w: w.s.point(np.zeros((2, 2))))
req('segment parameter text', T, lambda w: w.s.point('x'))
req('t of a point of another dimension', V, lambda w: w.s.t(w.op))
req('t of a number', T, lambda w: w.s.t(3))
# interpolation
for _m in ('linear', 'cubic', 'hermite', 'akima', 'pchip', 'csaps'):
    req(f'{_m} decreasing grid', V, lambda w, m=_m: w.c.interpolate(w.c.t[::-1], m))
    req(f'{_m} repeated grid value', V, lambda w, m=_m: w.c.interpolate([w.c.t[0], w.c.t[0], w.c.t[-1]], m))
    req(f'{_m} grid matrix', V, lambda w, m=_m: w.c.interpolate(np.zeros((2, 2)), m))
    req(f'{_m} one point', V, lambda w, m=_m: w.c.interpolate(1, m))
    req(f'{_m} no points', V, lambda w, m=_m: w.c.interpolate(0, m))
    req(f'{_m} grid None', V, lambda w, m=_m: w.c.interpolate(None, m))
    req(f'{_m} grid float', V, lambda w, m=_m: w.c.interpolate(5.0, m))
    req(f'{_m} unknown parameter', InterpolationError, lambda w, m=_m: w.c.interpolate(5, m, no_such=1))
    req(f'{_m} grid fails', Nasty, lambda w, m=_m: w.c.interpolate(BadGrid(), m))
    req(f'{_m} grid object out of order', V, lambda w, m=_m: w.c.interpolate(RawGrid([0.0, 2.0, 1.0]), m))
req('interpolation method unknown', N, lambda w: w.c.interpolate(5, 'no method'))
req('interpolation method None', N, lambda w: w.c.interpolate(5, None))
req('interpolator cannot be built', InterpolationError, lambda w: w.c.interpolate(5, registered('i', BadInit)))
req('interpolator fails', InterpolationError, lambda w: w.c.interpolate(5, registered('i', BadInterp)))
req('interpolator without implementation', InterpolationError, lambda w: w.c.interpolate(5, registered('i', type('Bare', (InterpolatorBase,), {}))))
req('cubic unknown boundary condition', InterpolationError, lambda w: w.c.interpolate(5, 'cubic', bc_type='no such'))
req('linear outside without extrapolation', InterpolationError, lambda w: w.c.interpolate([w.c.t[0] - 1.0, w.c.t[-1] + 1.0], 'linear', extrapolate=False))
req('spline degree 0', InterpolationError, lambda w: w.c.interpolate(5, 'spline', k=0))
req('spline degree 6', InterpolationError, lambda w: w.c.interpolate(5, 'spline', k=6))
req('spline weights size', InterpolationError, lambda w: w.c.interpolate(5, 'spline', weights=np.ones(w.n + 1)))
req('csaps weights size', InterpolationError, lambda w: w.c.interpolate(5, 'csaps', weights=np.ones(w.n + 1)))
req('one-point interpolation', (V, InterpolationError), lambda w: w.c[:1].interpolate(5, 'linear'))
req('grid kind', V, lambda w: UniformInterpolationGrid(5, kind='no such'))
req('grid float count', T, lambda w: UniformInterpolationGrid(5.0))
req('grid count 1', V, lambda w: UniformInterpolationGrid(1))
req('grid count -3', V, lambda w: UniformInterpolationGrid(-3))
req('grid text length', T, lambda w: UniformInterpolationGrid('1', kind='length'))
req('extrapolation kind', V, lambda w: UniformExtrapolationGrid(UniformInterpolationGrid(5), kind='no such'))
req('extrapolation float count', T, lambda w: UniformExtrapolationGrid(UniformInterpolationGrid(5), before=1.5))
req('extrapolation text', T, lambda w: UniformExtrapolationGrid(UniformInterpolationGrid(5), after='1', kind='length'))
req('grid of a one-point curve', V, lambda w: UniformInterpolationGrid(5)(w.c[:1]))
# smoothing
req('smoothing method unknown', N, lambda w: w.c.smooth('no method'))
req('smoothing method None', N, lambda w: w.c.smooth(None))
req('smoothing without parameters', T, lambda w: w.c.smooth('window'))
req('smoothing unknown parameter', T, lambda w: w.c.smooth('window', window_size=3, no_such=1))
req('window size -1', V, lambda w: w.c.smooth('window', window_size=-1))
req('window size 0', SmoothingError, lambda w: w.c.smooth('window', window_size=0))
req('window unknown', V, lambda w: w.c.smooth('window', window_size=3, window_type='no such'))
req('window mode unknown', SmoothingError, lambda w: w.c.smooth('window', window_size=3, mode='no such'))
req('window callback fails', V, lambda w: w.c.smooth('window', window_size=3, window_type=boom))
req('savgol even window', V, lambda w: w.c.smooth('savgol', window_length=2, polyorder=1))
req('savgol order too big', V, lambda w: w.c.smooth('savgol', window_length=3, polyorder=3))
req('savgol mode unknown', V, lambda w: w.c.smooth('savgol', window_length=3, polyorder=1, mode='no such'))
req('smoothing fails with ValueError', V, lambda w: w.c.smooth(registered('s', bad_smooth(ValueError))))
req('smoothing fails with TypeError', T, lambda w: w.c.smooth(registered('s', bad_smooth(TypeError))))
req('smoothing fails with RuntimeError', SmoothingError, lambda w: w.c.smooth(registered('s', bad_smooth(RuntimeError))))
req('smoothing fails with KeyError', SmoothingError, lambda w: w.c.smooth(registered('s', bad_smooth(KeyError)), x=1))
# intersection
req('intersect another dimension', V, lambda w: w.c.intersect(w.o))
req('intersect a segment of another dimension', V, lambda w: w.c.intersect(w.os))
req('intersect swapped dimensions', V, lambda w: intersect(w.os, w.c))
req('intersect a point', T, lambda w: w.c.intersect(w.p))
req('intersect text', T, lambda w: w.c.intersect('x'))
req('intersect a list', T, lambda w: intersect([1, 2], w.c))
req('intersection method unknown', N, lambda w: w.c.intersect(w.d, method='no method'))
req('intersection method number', V, lambda w: w.c.intersect(w.d, method=3))
req('intersection method class', V, lambda w: w.c.intersect(w.d, method=ExactIntersectionMethod))
req('intersection parameter unknown', T, lambda w: w.c.intersect(w.d, method='exact', no_such=1))
req('intersection method fails on curves', IntersectionError, lambda w: w.c.intersect(w.d, method=BadIntersect()))
req('intersection method fails on segments', IntersectionError, lambda w: w.s.intersect(w.r, method=BadIntersect()))
req('registered intersection method fails', IntersectionError, lambda w: w.s.intersect(w.r, method=registered('x', BadIntersect)))
req('intersection method without implementation', T, lambda w: w.s.intersect(w.r, method=registered('x', type('Bare', (IntersectionMethodBase,), {}))))
req('method object with a point', T, lambda w: ExactIntersectionMethod()(w.s, w.p))
req('method object with another dimension', V, lambda w: AlmostIntersectionMethod()(w.c, w.o))
req('unknown default', N, lambda w: set_default_intersect_method('no method'))
req('NONE with data', V, lambda w: IntersectionType.NONE(w.p))
req('EXACT without data', V, lambda w: IntersectionType.EXACT())
req('EXACT with a segment', V, lambda w: IntersectionType.EXACT(w.s))
req('OVERLAP with a point', V, lambda w: IntersectionType.OVERLAP(w.p))
req('ALMOST with a point', V, lambda w: IntersectionType.ALMOST(w.p))
req('ALMOST without data', V, lambda w: IntersectionType.ALMOST(None))
# registries
req('taken interpolator name', V, lambda w: register_interpolator('linear')(BadInterp))
req('taken smoothing name', V, lambda w: register_smooth_method('window')(boom))
req('taken intersection name', V, lambda w: register_intersect_method('almost', default=True)(BadIntersect))
req('wrong interpolator class', T, lambda w: register_interpolator('c28-wrong')(BadIntersect))
req('wrong intersection class', T, lambda w: register_intersect_method('c28-wrong', default=True)(BadInterp))
# attributes
for _name in ('data', 'size', 'ndim', 'isparametric', 'is2d'):
    req(f'assigning {_name}', AttributeError, lambda w, name=_name: setattr(w.c, name, 1))
req('assigning point data', AttributeError, lambda w: setattr(w.p, 'data', np.zeros(w.nd)))
req('writing curve data', V, lambda w: w.c.data.__setitem__(0, 5))


@st.composite
def worlds(draw):
    c = draw(gen.walk(lo=4, hi=7))
    d = draw(gen.walk(lo=2, hi=5, nd=c['nd']))
    return {'c': c, 'd': d, 'pick': draw(st.sampled_from([0, 1, 7])), 'warm': draw(st.booleans()),
            'k': draw(st.lists(st.integers(0, len(REQ) - 1), min_size=1, max_size=8))}


def attempt(w, k):
    what, exc, fn = REQ[k]
    raises(exc, lambda: fn(w), what)


def run_world(case, ks, ev):
    w = World(case)
    ref = World(case)
    if case['warm']:
        with quiet():
            w.view()
    before = [interp_methods(), smooth_methods(), intersect_methods(), default_intersect_method()]
    for k in ks:
        attempt(w, k)
    arrays, regs = w.view()
    for a, b in zip(arrays, ref.view()[0]):
        same(a, b, f'an operand after the failed requests {[REQ[k][0] for k in ks]}', dtype=True)
    custom = [x for lst in regs[:3] for x in lst if x.startswith('c28-') and x.endswith('wrong')]
    require(not custom, 'refused registrations are listed: {}', custom)
    for a, b, what in zip(regs, before, ('interpolators', 'smoothing methods', 'intersection methods')):
        require([x for x in a if not x.startswith('c28-')] == [x for x in b if not x.startswith('c28-')], '{} became {}', what, a)
    require(regs[3] == before[3], 'the default intersection method became {}', regs[3])
    # everything still works
    r = w.c.interpolate(5, 'linear')
    close(r.data, ref.c.interpolate(5, 'linear').data, 'interpolation after failed requests')
    close(w.c.smooth('window', window_size=3).data, ref.c.smooth('window', window_size=3).data, 'smoothing after failed requests')
    require(len(w.c.intersect(w.d)) == len(ref.c.intersect(ref.d)), 'intersection after failed requests')
    same(w.c.insert(0, w.p).data, np.concatenate([w.c.data[:1], w.c.data]), 'insertion after failed requests')
    ev.label('parametric' if case['c']['t'] else 'plain')


@sub('C28', worlds(), quick=700, thorough=12000)
def requests(case, ev):
    """sequences of invalid requests raise the documented errors and leave operands, caches and registries as they were"""
    run_world(case, case['k'], ev)
    ev.nontrivial()


@sub('C28', worlds(), quick=40, thorough=400)
def all_requests(case, ev):
    """every invalid request of the table, one after the other, on the same objects"""
    ks = list(range(len(REQ)))
    off = case['k'][0]
    run_world(case, ks[off:] + ks[:off], ev)
    ev.nontrivial()


# -------------------------------------------------------------------------- arguments of entirely wrong types

def junk(w):
    return {'None': None, 'text': 'no such thing', 'object': object(), 'dict': {}, 'type': dict, 'function': boom, 'complex': 1j,
            'nan': float('nan'), 'float': 1.5, 'matrix': np.zeros((2, 2, 2)), 'point': w.op, 'segment': w.os, 'curve': w.o, 'list': ['a', 'b'], 'bytes': b'xy'}


ANY = (TypeError, ValueError, IndexError, NameError, AttributeError, InterpolationError, SmoothingError, IntersectionError, NotImplementedError)

# operation with one argument replaced -> the junk which is not a mistake there
WRONG = {
    'insert position': (lambda w, b: w.c.insert(b, w.p), {'point'}),
    'insert object': (lambda w, b: w.c.insert(1, b), ()),
    'append': (lambda w, b: w.c.append(b), ()),
    'delete': (lambda w, b: w.c.delete(b), ()),
    'add': (lambda w, b: w.c + b, ()),
    'getitem': (lambda w, b: w.c[b], ()),
    'index': (lambda w, b: w.c.index(b), ()),
    'count': (lambda w, b: w.c.count(b), ()),
    'values': (lambda w, b: w.c.values(b), {'None'}),
    'insertdim axis': (lambda w, b: w.c.insertdim(b), {'point'}),
    'insertdim values': (lambda w, b: w.c.insertdim(0, b), {'None', 'nan', 'float', 'point'}),
    'deletedim': (lambda w, b: w.o.deletedim(b), ()),
    'drop': (lambda w, b: w.c.drop(b), {'type', 'function'}),
    'interpolation grid': (lambda w, b: w.c.interpolate(b, 'linear'), {'point'}),
    'interpolation method': (lambda w, b: w.c.interpolate(5, b), ()),
    'smoothing method': (lambda w, b: w.c.smooth(b), ()),
    'window mode': (lambda w, b: w.c.smooth('window', window_size=3, mode=b), ()),
    'window size': (lambda w, b: w.c.smooth('window', window_size=b), ()),
    'intersect': (lambda w, b: w.c.intersect(b), {'None'}),
    'intersect method': (lambda w, b: w.c.intersect(w.d, method=b), {'None'}),
    'intersect first': (lambda w, b: intersect(b, w.s), ()),
    'coorientplane': (lambda w, b: w.c.coorientplane(b, 0), ()),
    'tdata': (lambda w, b: Curve(w.c.data, tdata=b), {'None', 'point'}),
    'Segment': (lambda w, b: Segment(w.p, b), ()),
    'segment t': (lambda w, b: w.s.t(b), ()),
    'angle': (lambda w, b: w.s.angle(b), ()),
    'parallel': (lambda w, b: w.s.parallel(b), ()),
    'collinear': (lambda w, b: w.s.collinear(b), ()),
    'coplanar': (lambda w, b: w.s.coplanar(b), ()),
    'overlap': (lambda w, b: w.s.overlap(b), ()),
    'segment distance': (lambda w, b: w.s.distance(b), ()),
    'shortest_segment': (lambda w, b: w.s.shortest_segment(b), ()),
    'point distance': (lambda w, b: w.p.distance(b), ()),
    'metric': (lambda w, b: w.p.distance(w.q, b), {'function', 'type'}),
    'point +': (lambda w, b: w.p + b, {'nan', 'float', 'complex'}),
    'point *': (lambda w, b: w.p * b, {'nan', 'float', 'complex'}),
    'point @': (lambda w, b: w.p @ b, {'matrix'}),
    'subcurve': (lambda w, b: w.q.subcurve(b), ()),
    'EXACT': (lambda w, b: IntersectionType.EXACT(b), {'point'}),
    'OVERLAP': (lambda w, b: IntersectionType.OVERLAP(b), {'segment'}),
    'NONE': (lambda w, b: IntersectionType.NONE(b), {'None'}),
    'default method': (lambda w, b: set_default_intersect_method(b), ()),
    'grid kind': (lambda w, b: UniformInterpolationGrid(5, b), ()),
    'grid count': (lambda w, b: UniformInterpolationGrid(b), ()),
    'register interpolator': (lambda w, b: register_interpolator('c28-wrong')(b), ()),
    'register intersection': (lambda w, b: register_intersect_method('c28-wrong')(b), ()),
}


@sub('C28', st.fixed_dictionaries({'c': gen.walk(lo=4, hi=6), 'd': gen.walk(lo=2, hi=4, nd=2), 'op': st.sampled_from(sorted(WRONG)), 'pick': st.just(0),
                                   'warm': st.booleans(), 'junk': st.lists(st.integers(0, 14), min_size=1, max_size=6, unique=True)}), quick=600, thorough=8000)
def wrong_arguments(case, ev):
    """an argument of an entirely wrong type or dimension is refused by every operation, with nothing changed"""
    nd = case['c']['nd']
    d = dict(case['d'], nd=nd, p=[q + [0] * (nd - 2) for q in case['d']['p']])
    case = dict(case, d=d)
    w = World(case)
    kinds = junk(w)
    fn, valid = WRONG[case['op']]
    for k in case['junk']:
        name = sorted(kinds)[k]
        if name in valid:
            continue
        raises(ANY, lambda: fn(w, kinds[name]), f'{case["op"]} with {name}')
        ev.nontrivial()
    run_world(case, [], ev)
    arrays, _ = w.view()
    for a, b in zip(arrays, World(case).view()[0]):
        same(a, b, f'an operand after {case["op"]} with wrong arguments', dtype=True)
    ev.label(case['op'])
