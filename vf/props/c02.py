"""C02: objects never change, and derived values do not depend on access history."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import fail, require, same, sub
from skcurve import Curve, Point, Segment, UniformInterpolationGrid, PreservedSpeedInterpolationGrid

DERIVED = ['chordlen', 'arclen', 'cumarclen', 't', 'firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'speed',
           'normal', 'binormal', 'frenet1', 'frenet2', 'frenet3', 'curvature', 'torsion', 'isplane', 'segments']
POINT_DERIVED = ['cumarclen', 't', 'firstderiv', 'secondderiv', 'thirdderiv', 'tangent', 'speed', 'normal',
                 'binormal', 'frenet1', 'frenet2', 'frenet3', 'curvature', 'torsion']


def derived(c, name):
    if name == 'isplane' and not np.isfinite(c.data).all():
        # Repeated points make the interpolation undefined (nan), and whether nan points are coplanar is not specified.
        return np.zeros(0)
    v = getattr(c, name)
    if name == 'segments':
        return [s.data for s in v] if len(v) else np.zeros((0, 2, c.ndim))
    return np.array(v, copy=True)


class Pool:
    """The objects made so far with a snapshot of each."""

    def __init__(self):
        self.curves, self.others, self.arrays = [], [], []

    def curve(self, c):
        if isinstance(c, Curve) and c.size <= 200 and len(self.curves) < 10:
            self.curves.append((c, c.data.copy(), c.dtype,
                                np.array(c.t, copy=True) if c.isparametric else None))

    def other(self, o):
        if isinstance(o, Point):
            self.others.append((o, o.data.copy()))
        elif isinstance(o, Segment):
            self.others.append((o, o.data.copy()))

    def array(self, a):
        """An array handed to the library by the caller: the library must not write to it."""
        self.arrays.append((a, a.copy()))
        return a

    def verify(self, op):
        for c, data, dtype, t in self.curves:
            same(c.data, data, f'data of a curve after {op}')
            require(c.data.dtype == dtype and c.dtype == dtype, 'dtype changed after {}', op)
            require(c.isparametric is (t is not None), 'isparametric changed after {}', op)
            if t is not None:
                same(c.t, t, f'parametrization after {op}')
            require(not c.data.flags.writeable, 'curve data writeable after {}', op)
            if t is not None:
                require(not c.t.flags.writeable, 'parametrization writeable after {}', op)
        for o, data in self.others:
            same(o.data, data, f'{type(o).__name__} data after {op}')
            if isinstance(o, Point):
                require(not o.data.flags.writeable, 'point data writeable after {}', op)
        for a, before in self.arrays:
            same(a, before, f'array passed by the caller after {op}')


OPS = ['read', 'read', 'point', 'slice', 'delete', 'insert_point', 'insert_curve', 'append', 'concat', 'reverse', 'unique',
       'drop', 'nonsingular', 'coorient', 'insertdim', 'appenddim', 'deletedim', 'interpolate', 'interpolate_grid',
       'smooth', 'savgol', 'intersect', 'self_intersect', 'almost', 'segment_ops', 'search', 'copy', 'show', 'values',
       'weights', 'point_ops', 'segments', 'index_list', 'mask']


@st.composite
def histories(draw, long=False):
    base = draw(gen.long_walk(20, 70, ndims=(2, 3)) if long else st.one_of(gen.walk(2, 9, ndims=(2, 3)), gen.curve(0, 8, ndims=(2, 3), dtypes=('float64', 'float32', 'int32')),
                          gen.walk(4, 9, ndims=(2, 3))))
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 9), st.integers(0, 40), st.integers(-6, 12)),
                        min_size=1, max_size=14))
    return {'c': base, 'ops': [list(o) for o in ops]}


METHODS = ['linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps']


def apply(pool, op, who, a, b):
    c = pool.curves[who % len(pool.curves)][0]
    d = pool.curves[a % len(pool.curves)][0]
    n = c.size
    if op == 'read':
        derived(c, DERIVED[a % len(DERIVED)])
    elif op == 'point' and n:
        p = c[a % n]
        pool.other(p)
        for name in (POINT_DERIVED[b % len(POINT_DERIVED)], 't', 'idx'):
            getattr(p, name)
        pool.curve(p.subcurve(c[-1]))
    elif op == 'slice':
        start, stop = [b, None, a % 3][a % 3], [None, a, None, -1 - a % 2][a % 4]
        pool.curve(c[start:stop:[None, 1, 2, -1, 3][(a + b) % 5]])
    elif op == 'index_list' and n:
        idx = pool.array(np.array([a % n, b % n, 0]))
        pool.curve(c[idx])
    elif op == 'mask':
        m = pool.array(np.arange(n) % 2 == a % 2)
        pool.curve(c[m])
    elif op == 'delete' and n:
        idx = pool.array(np.array([a % n]))
        pool.curve(c.delete(idx))
    elif op == 'insert_point':
        p = Point(np.full(c.ndim, float(b)))
        pool.other(p)
        pool.curve(c.insert(a % (n + 1), p))
    elif op == 'insert_curve':
        pool.curve(c.insert(a % (n + 1), d))
    elif op == 'append':
        pool.curve(c.append(d))
    elif op == 'concat':
        pool.curve(c + d)
    elif op == 'reverse':
        pool.curve(c.reverse())
    elif op == 'unique':
        pool.curve(c.unique())
    elif op == 'drop':
        m = pool.array(np.arange(n) % 3 == a % 3)
        pool.curve(c.drop(lambda x: m))
        pool.curve(c.drop(lambda x: x > b))
    elif op == 'nonsingular':
        pool.curve(c.nonsingular())
    elif op == 'coorient':
        pool.curve(c.coorientplane(0, 1))
    elif op == 'insertdim':
        v = pool.array(np.arange(n, dtype='float64'))
        pool.curve(c.insertdim(a % (c.ndim + 1), v))
    elif op == 'appenddim':
        pool.curve(c.appenddim())
    elif op == 'deletedim' and c.ndim > 2:
        pool.curve(c.deletedim(a % c.ndim))
    elif op == 'interpolate':
        pool.curve(c.interpolate(3 + a % 8, METHODS[b % len(METHODS)]))
    elif op == 'interpolate_grid' and n > 1:
        g = pool.array(np.linspace(c.t[0], c.t[-1], 3 + a % 8))
        r = c.interpolate(g, METHODS[b % len(METHODS)])
        pool.curve(r)
        c.interpolate(UniformInterpolationGrid(4), 'linear')
        c.interpolate(PreservedSpeedInterpolationGrid(4), 'linear')
    elif op == 'weights' and n > 3:
        w = pool.array(1.0 + np.arange(n) % 3)
        pool.curve(c.interpolate(5, 'csaps', weights=w, smooth=0.5))
        pool.curve(c.interpolate(5, 'spline', weights=w))
    elif op == 'smooth':
        win = pool.array(np.array([1.0, 2.0, 1.0]))
        pool.curve(c.smooth('window', window_size=3, window_type=lambda size: win))
        pool.curve(c.smooth('window', window_size=3 + a % 4, mode='nearest'))
    elif op == 'savgol':
        pool.curve(c.smooth('savgol', window_length=3, polyorder=1))
    elif op == 'intersect':
        for i in c.intersect(d)[:2]:
            pool.other(i.intersect_point)
            pool.other(i.intersect_segment)
            pool.other(i.segment1)
    elif op == 'self_intersect':
        c.intersect()
        c.intersect(method='almost')
    elif op == 'almost':
        for i in c.intersect(d, method='almost', dist_tol=float(a), remove_extra=b > 0, correct_overlap=b % 2 == 0)[:2]:
            pool.other(i.intersect_segment)
    elif op == 'segment_ops' and n > 1:
        s = c.segments[a % (n - 1)]
        q = c.segments[b % (n - 1)]
        pool.other(s)
        for f in (lambda: s.point(0.5), lambda: s.point(np.array([0.25, 0.5])), lambda: s.t(s.p1),
                  lambda: s.angle(q), lambda: s.parallel(q), lambda: s.collinear(q), lambda: s.coplanar(q),
                  lambda: s.overlap(q), lambda: s.distance(q), lambda: s.shortest_segment(q.p1), s.reverse,
                  s.to_curve, lambda: s.direction, lambda: s.intersect(q), lambda: s.seglen, lambda: s.singular):
            r = f()
            pool.other(r)
            pool.curve(r)
    elif op == 'segments' and n > 1:
        s = c.segments
        pool.other(s[a % (n - 1)])
        pool.other(s[a % (n - 1)].p1)
        s[a % (n - 1)].chordlen
    elif op == 'search' and n:
        p = c[a % n]
        p in c, c.index(p), c.count(p), c == d, d in c, p == c[0]
    elif op == 'copy':
        pool.curve([copy.copy, copy.deepcopy, Curve][a % 3](c))
    elif op == 'show':
        repr(c)
        if n:
            repr(c[0])
        if n > 1:
            repr(c.segments[0])
    elif op == 'values':
        for v in c.values():
            v.sum()
        c.values(0)
    elif op == 'point_ops' and n:
        p, q = c[a % n], c[b % n]
        pool.other(p)
        for f in (lambda: p + q, lambda: p - 1, lambda: 2 * p, lambda: p / 4, lambda: p @ q, lambda: p.distance(q),
                  lambda: p.norm(), lambda: Point(p), lambda: p.distance(q, 'cityblock'), lambda: p[:1],
                  lambda: copy.copy(p)):
            pool.other(f())


def try_writes(c):
    """No public array of the curve can be written."""
    if c.size:
        for name, a in (('data', c.data), ('values', c.values(0)), ('point', c[0].data)) + \
                ((('t', c.t),) if c.isparametric else ()):
            try:
                a.flat[0] = 77
            except ValueError:
                continue
            fail(f'{name} of a curve can be written')


@sub('C02', histories(), quick=1600)
def history(case, ev):
    """after any sequence of operations every object made on the way is unchanged, and derived values are those of a
    fresh identical curve"""
    source = gen.array(case['c'])
    tsource = None if case['c']['t'] is None else np.array(case['c']['t'], dtype='float64')
    pool = Pool()
    c = Curve(source, tdata=tsource)
    pool.curve(c)
    source += 1
    if tsource is not None:
        tsource -= 3
    pool.verify('writing to the source arrays')
    done = 0
    for op, who, a, b in case['ops']:
        try:
            apply(pool, op, who, a, b)
            done += 1
        except Exception as err:
            # Only what the operation leaves behind matters here; results and errors are decided by other properties.
            ev.label('raised ' + type(err).__name__)
        pool.verify(op)
    for c, data, dtype, t in pool.curves:
        try_writes(c)
        for k, name in enumerate(DERIVED[::-1]):
            fresh = Curve(data, tdata=t)
            same(derived(c, name), derived(fresh, name), f'{name} after the history, compared with a fresh curve')
    pool.verify('reading everything')
    for op, *_ in case['ops']:
        ev.label(op)
    ev.nontrivial(done >= 3 and len(pool.curves) >= 2)


@sub('C02', st.fixed_dictionaries({
    'c': st.one_of(gen.walk(1, 9, ndims=(2, 3, 4)), gen.curve(0, 7, ndims=(2, 3), dtypes=('float64', 'float32', 'int64'))),
    'order': st.lists(st.tuples(st.integers(0, len(DERIVED) - 1), st.integers(-1, 8)).map(list), min_size=2, max_size=20),
}), quick=800)
def access_order(case, ev):
    """every derived quantity has the value of a fresh curve whatever was asked for before, of the curve or a point"""
    c = gen.make(case['c'])
    data, t = gen.array(case['c']), case['c']['t']
    seen = set()
    for k, i in case['order']:
        name = DERIVED[k]
        if i >= 0 and name in POINT_DERIVED and c.size:
            i %= c.size
            got, exp = getattr(c[i], name), getattr(Curve(data, tdata=t), name)[i]
            same(got, exp, f'{name} of point {i} after {sorted(seen)}')
        else:
            first = derived(c, name)
            same(first, derived(Curve(data, tdata=t), name), f'{name} after {sorted(seen)}')
            same(derived(c, name), first, f'{name} read again')
        seen.add(name)
    ev.nontrivial(len(seen) > 2 and c.size > 2)


@sub('C02', st.fixed_dictionaries({
    'c': gen.curve(1, 6, ndims=(2, 3), dtypes=tuple(gen.INT_DTYPES + gen.FLOAT_DTYPES)),
    'form': st.sampled_from(['array', 'axis1', 'axis0', 'list_of_arrays', 'point', 'dtype', 'noncontig', 'transposed_view']),
}), quick=400)
def sources(case, ev):
    """later writes to the arrays an object was made from do not show through"""
    a = gen.array(case['c'])
    keep = a.copy()
    form = case['form']
    if form == 'array':
        src, obj = a, Curve(a)
    elif form == 'axis0':
        src, obj = a, Curve(a, axis=0, dtype=a.dtype)
    elif form == 'axis1':
        src = np.ascontiguousarray(a.T)
        obj = Curve(src, axis=1)
    elif form == 'transposed_view':
        src = a
        obj = Curve(a.T, axis=1)
    elif form == 'list_of_arrays':
        src = [np.array(col) for col in a.T]
        obj = Curve(src)
    elif form == 'dtype':
        src, obj = a, Curve(a, dtype='float64')
    elif form == 'noncontig':
        src = np.repeat(a, 2, axis=0)
        obj = Curve(src[::2])
    else:
        src, obj, keep = a[0], Point(a[0], dtype=a.dtype), keep[0]
    t = np.arange(len(a), dtype='float64')
    par = Curve(keep if keep.ndim == 2 else a, tdata=t)
    for s in src if isinstance(src, list) else [src]:
        s += 1
    t += 5
    same(obj.data, keep, f'object made from {form} after writing to its source')
    same(par.t, np.arange(len(a)), 'parametrization after writing to its source')
    ev.label(form)
    ev.nontrivial()


MAKERS = ['slice', 'slice', 'slice', 'index_list', 'mask', 'delete', 'insert_point', 'insert_curve', 'append', 'concat', 'reverse', 'unique', 'drop',
          'nonsingular', 'coorient', 'insertdim', 'appenddim', 'deletedim', 'interpolate', 'smooth', 'copy', 'point']


@st.composite
def made_cases(draw):
    base = draw(st.one_of(gen.walk(3, 9, ndims=(2, 3)), gen.curve(1, 8, ndims=(2, 3), dtypes=('float64', 'int32'))))
    bound = st.one_of(st.none(), st.integers(-7, 8))
    return {'c': base, 'd': draw(gen.walk(1, 6, ndims=(base['nd'],))) if draw(st.booleans()) else None,
            'op': draw(st.sampled_from(MAKERS)), 'a': draw(st.integers(0, 40)), 'b': draw(st.integers(-6, 12)),
            'slice': [draw(bound), draw(bound), draw(st.sampled_from([None, None, 1, 2, 2, 3, -1, -2]))],
            'read': draw(st.one_of(st.just(list(range(len(DERIVED)))), st.lists(st.integers(0, len(DERIVED) - 1), min_size=1, max_size=6)))}


@sub('C02', made_cases(), quick=900)
def made_from_read(case, ev):
    """a curve made from a curve the derived values of which are known has the derived values of a fresh curve"""
    pool = Pool()
    c = gen.make(case['c'])
    pool.curve(c)
    if case['d'] is not None:
        pool.curve(gen.make(case['d']))
    given = list(pool.curves)
    for x, *_ in given:
        for k in case['read']:
            derived(x, DERIVED[k])
        list(x.segments)
    try:
        if case['op'] == 'slice':
            pool.curve(c[slice(*case['slice'])])
        else:
            apply(pool, case['op'], 0, case['a'], case['b'])
    except Exception as err:
        ev.label('raised ' + type(err).__name__)
        return
    made = pool.curves[len(given):]
    for x, data, _, t in made:
        for k, name in enumerate(DERIVED):
            same(derived(x, name), derived(Curve(data, tdata=t), name), f'{name} of the curve made by {case["op"]}, compared with a fresh curve')
    pool.verify(case['op'])
    ev.label(case['op'])
    ev.nontrivial(any(x.size > 1 for x, *_ in made))


sub('C02', histories(long=True), quick=60, name='history_long')(history)
