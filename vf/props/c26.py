"""C26: method registries behave like name-to-method maps."""
import itertools

import numpy as np
from hypothesis import strategies as st

from vf import gen
from vf.core import close, raises, recorded, require, same, sub
from skcurve import (Curve, InterpolatorBase, IntersectionType, NOT_INTERSECTED, Point, Segment, SegmentsIntersection,
                     default_intersect_method, get_interpolator, get_intersect_method, get_smooth_method, interp_methods,
                     intersect_methods, register_interpolator, register_intersect_method, register_smooth_method,
                     set_default_intersect_method, smooth_methods)
from skcurve._intersect import ExactIntersectionMethod, IntersectionMethodBase, IntersectionWarning, intersect
from skcurve._interpolate import interpolate
from skcurve._smooth import smooth

RUN = itertools.count()
KINDS = ['interp', 'smooth', 'intersect']
LIST = {'interp': interp_methods, 'smooth': smooth_methods, 'intersect': intersect_methods}
BUILTIN = {'interp': ['linear', 'cubic', 'hermite', 'akima', 'pchip', 'spline', 'csaps'], 'smooth': ['savgol', 'window'],
           'intersect': ['exact', 'almost']}


def interpolator(tag, log):
    class Custom(InterpolatorBase):
        def __init__(self, curve, *, shift=0.0):
            super().__init__(curve)
            self.shift = shift

        def _interpolate(self, grid):
            log.append(('interp', tag, self.shift))
            return np.full((grid.size, self.curve.ndim), float(tag))
    return Custom


def smoother(tag, log):
    def custom(curve, shift=0.0):
        log.append(('smooth', tag, shift))
        return np.full(curve.data.shape, float(tag))
    return custom


def intersector(tag, log):
    class Custom(IntersectionMethodBase):
        def __init__(self, shift=0.0):
            self.shift = shift

        def _intersect_segments(self, segment1, segment2):
            log.append(('intersect', tag, self.shift))
            return IntersectionType.EXACT(Point([float(tag)] * segment1.ndim))

        def _intersect_curves(self, curve1, curve2):
            log.append(('intersect', tag, self.shift))
            return [SegmentsIntersection(curve1.segments[0], curve2.segments[0], NOT_INTERSECTED)]
    return Custom


MAKE = {'interp': interpolator, 'smooth': smoother, 'intersect': intersector}


def register(kind, name, obj, default=False):
    if kind == 'interp':
        return register_interpolator(name)(obj)
    if kind == 'smooth':
        return register_smooth_method(name)(obj)
    if default:
        return register_intersect_method(name, default=True)(obj)
    return register_intersect_method(name)(obj)


def curve():
    return Curve([[0.0, 1, 2, 4], [0, 1, 0, 2.0]])


def crossing():
    return Segment(Point([0.0, 0.0]), Point([2.0, 2.0])), Segment(Point([0.0, 2.0]), Point([2.0, 0.0]))


def op():
    name = st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4])
    kind = st.sampled_from(KINDS)
    return st.one_of(
        st.tuples(st.just('register'), kind, name, st.booleans()),
        st.tuples(st.just('register'), kind, name, st.booleans()),
        st.tuples(st.just('register_builtin'), kind, st.integers(0, 6), st.booleans()),
        st.tuples(st.just('register_wrong'), st.sampled_from(['interp', 'intersect']), name, st.sampled_from(['plain class', 'other kind', 'function', 'instance', 'none', 'default'])),
        st.tuples(st.just('use'), kind, name, st.sampled_from([None, 2.5])),
        st.tuples(st.just('use'), kind, name, st.sampled_from([None, 2.5])),
        st.tuples(st.just('default'), st.just('intersect'), st.integers(-2, 4), st.none()),
        st.tuples(st.just('use_default'), st.just('intersect'), st.integers(0, 2), st.none()),
        st.tuples(st.just('instance'), st.just('intersect'), st.integers(0, 1), st.booleans()),
        st.tuples(st.just('builtin_ok'), kind, st.integers(0, 6), st.none()),
        st.tuples(st.just('mutate_list'), kind, name, st.none()),
    )


def use_interp(name, params, way):
    CURVE = curve()
    if way % 3 == 0:
        return CURVE.interpolate(5, name, **params)
    if way % 3 == 1:
        return interpolate(CURVE, 5, name, **params)
    return get_interpolator(name, CURVE, **params)(5)


def use_smooth(name, params, way):
    CURVE = curve()
    if way % 3 == 0:
        return CURVE.smooth(name, **params)
    if way % 3 == 1:
        return smooth(CURVE, name, **params)
    return Curve(get_smooth_method(name)(CURVE, **params))


def use_intersect(name, params, way):
    SEG1, SEG2 = crossing()
    if way % 3 == 0:
        return SEG1.intersect(SEG2, method=name, **params)
    if way % 3 == 1:
        return intersect(SEG1, SEG2, name, **params)
    return get_intersect_method(name, **params)(SEG1, SEG2)


USE = {'interp': use_interp, 'smooth': use_smooth, 'intersect': use_intersect}


@sub('C26', st.lists(op(), min_size=4, max_size=16), quick=800, thorough=7000)
def histories(case, ev):
    """any sequence of register, look-up, use and set-default operations, against a dictionary per registry"""
    start = default_intersect_method()
    try:
        set_default_intersect_method('exact')
        _histories(case, ev)
    finally:
        set_default_intersect_method(start)


def _histories(case, ev):
    run = next(RUN)
    log = []
    CURVE, (SEG1, SEG2) = curve(), crossing()
    # names which differ in case, in a space or by being longer are different names
    names = [f'custom-{run}', f'Custom-{run}', f'custom-{run} ', f'custom-{run}-1', f'CUSTOM-{run}']
    model = {k: {} for k in KINDS}
    listed = {k: LIST[k]() for k in KINDS}
    default = 'exact'
    ok = reg = 0
    for step, (what, kind, i, arg) in enumerate(case):
        log.clear()
        tag = run * 100 + step
        name = names[i] if 0 <= i < 5 else None
        if what == 'register':
            obj = MAKE[kind](tag, log)
            if name in model[kind]:
                raises(ValueError, lambda: register(kind, name, obj, arg), f'registering the taken name {name}')
            else:
                require(register(kind, name, obj, arg) is obj, 'the decorator does not return the registered object')
                model[kind][name] = (obj, tag)
                if arg and kind == 'intersect':
                    default = name
                reg += 1
        elif what == 'register_builtin':
            b = BUILTIN[kind][i % len(BUILTIN[kind])]
            raises(ValueError, lambda: register(kind, b, MAKE[kind](tag, log), arg), f'registering the taken name {b}')
        elif what == 'register_wrong':
            free = f'wrong-{run}-{step}'
            wrong = {'plain class': dict, 'other kind': MAKE['intersect' if kind == 'interp' else 'interp'](tag, log), 'function': len,
                     'instance': object(), 'none': None, 'default': int}[arg]
            raises(TypeError, lambda: register(kind, free, wrong, arg == 'default'), f'registering {wrong!r}')
            raises(NameError, lambda: USE[kind](free, {}, step), f'use of the refused name {free}')
        elif what == 'use':
            params = {} if arg is None else {'shift': arg}
            if name not in model[kind]:
                raises(NameError, lambda: USE[kind](name, params, step), f'use of the unknown name {name}')
                require(not log, 'a method ran for an unknown name')
            else:
                obj, tag0 = model[kind][name]
                r = USE[kind](name, params, step)
                require(log == [(kind, tag0, arg or 0.0)], 'using {} ran {} instead of {}', name, log, (kind, tag0, arg or 0.0))
                if kind == 'intersect':
                    close(r.intersect_point.data, [tag0, tag0], 'the point reported by the registered method')
                    require(isinstance(get_intersect_method(name), obj), 'get_intersect_method gives {}', get_intersect_method(name))
                else:
                    close(r.data, np.full(r.data.shape, float(tag0)), 'the data computed by the registered method')
                    if kind == 'smooth':
                        require(get_smooth_method(name) is obj, 'get_smooth_method gives {}', get_smooth_method(name))
                    else:
                        require(type(get_interpolator(name, CURVE)) is obj, 'get_interpolator gives {}', get_interpolator(name, CURVE))
                ok += 1
        elif what == 'default':
            target = {-1: 'exact', -2: 'almost'}.get(i, name)
            if target in ('exact', 'almost') or target in model['intersect']:
                set_default_intersect_method(target)
                default = target
            else:
                raises(NameError, lambda: set_default_intersect_method(target), f'unknown default {target}')
        elif what == 'use_default':
            r = SEG1.intersect(SEG2) if i == 0 else intersect(SEG1, SEG2) if i == 1 else CURVE.intersect(CURVE)
            if default in ('exact', 'almost'):
                require(not log, 'the default {} ran {}', default, log)
                if i < 2:
                    close(r.intersect_point.data, [1, 1], f'intersection by the default {default}', rtol=0, atol=1e-12)
                    require(r.intersect_type.name == default.upper(), 'the default {} gives type {}', default, r.intersect_type)
            else:
                require(log == [('intersect', model['intersect'][default][1], 0.0)], 'the default {} ran {}', default, log)
                ok += 1
        elif what == 'instance':
            obj = MAKE['intersect'](tag, log)(shift=7) if i else ExactIntersectionMethod()
            with recorded() as w:
                r = SEG1.intersect(SEG2, method=obj, **({'dist_tol': 3} if arg else {}))
            hits = [x for x in w if issubclass(x.category, IntersectionWarning)]
            require(len(hits) == (1 if arg else 0), '{} warnings for an instance with params={}', len(hits), arg)
            require(log == ([('intersect', tag, 7)] if i else []), 'the given instance ran {}', log)
            close(r.intersect_point.data, [tag, tag] if i else [1, 1], 'result of the given instance')
        elif what == 'builtin_ok':
            b = BUILTIN[kind][i % len(BUILTIN[kind])]
            params = {'savgol': {'window_length': 3, 'polyorder': 1}, 'window': {'window_size': 3}, 'akima': {}}.get(b, {})
            r = USE[kind](b, params, step)
            require(not log, 'the built-in {} ran {}', b, log)
            if kind == 'intersect':
                close(r.intersect_point.data, [1, 1], f'intersection by {b}', rtol=0, atol=1e-12)
            elif kind == 'interp':
                close(r.data[[0, -1]], CURVE.data[[0, -1]], f'ends of the interpolation by {b}', atol=1e-9)
        else:
            lst = LIST[kind]()
            lst.append('intruder')
            lst.remove(BUILTIN[kind][0])
            raises(NameError, lambda: USE[kind]('intruder', {}, step), 'a name added to the listed names')
        for k in KINDS:
            now = LIST[k]()
            want = set(listed[k]) | set(model[k])
            require(len(now) == len(want) and set(now) == want, 'after {}: {} methods are {} more and {} less than registered',
                    (what, kind, name), k, sorted(set(now) - want), sorted(want - set(now)))
        require(default_intersect_method() == default, 'the default method is {} instead of {}', default_intersect_method(), default)
    ev.label(f'{min(reg, 4)} registered', f'{min(ok, 4)} used')
    ev.nontrivial(reg > 0 and ok > 0)


NAMES = st.one_of(st.text(max_size=8), st.sampled_from(['Exact', 'EXACT', 'exact ', ' linear', 'Linear', 'cubic_spline', 'window ', 'savgol_filter', 'none', 'None']))


@sub('C26', st.fixed_dictionaries({'name': NAMES, 'c': gen.walk(lo=3, hi=5, parametric=False), 'params': st.booleans()}), quick=300)
def unknown_names(case, ev):
    """a name which is not registered raises NameError everywhere, with and without parameters"""
    name = case['name']
    c = gen.make(case['c'])
    p = {'a_parameter': 1} if case['params'] else {}
    before = default_intersect_method()
    if name not in interp_methods():
        raises(NameError, lambda: c.interpolate(4, name, **p), f'interpolate by {name!r}')
        raises(NameError, lambda: interpolate(c, 4, name, **p), f'interpolate by {name!r}')
        raises(NameError, lambda: get_interpolator(name, c, **p), f'get_interpolator({name!r})')
        raises(NameError, lambda: Curve([]).interpolate(4, name, **p), f'interpolate an empty curve by {name!r}')
    if name not in smooth_methods():
        raises(NameError, lambda: c.smooth(name, **p), f'smooth by {name!r}')
        raises(NameError, lambda: get_smooth_method(name), f'get_smooth_method({name!r})')
    if name not in intersect_methods():
        raises(NameError, lambda: c.intersect(method=name, **p), f'self-intersection by {name!r}')
        raises(NameError, lambda: c.intersect(c, method=name, **p), f'curve intersection by {name!r}')
        raises(NameError, lambda: c.segments[0].intersect(c.segments[1], method=name, **p), f'segment intersection by {name!r}')
        raises(NameError, lambda: get_intersect_method(name, **p), f'get_intersect_method({name!r})')
        raises(NameError, lambda: set_default_intersect_method(name), f'set_default_intersect_method({name!r})')
    require(default_intersect_method() == before, 'the default method became {}', default_intersect_method())
    for bad in (3, 2.5, ['exact'], object(), ExactIntersectionMethod):
        raises((ValueError, TypeError), lambda: c.intersect(method=bad), f'method={bad!r}')
    ev.label('similar to a known name' if name.strip().lower() in ('exact', 'linear', 'window') else 'other')
    ev.nontrivial(len(name) > 0)


@sub('C26', st.fixed_dictionaries({'c': gen.walk(lo=3, hi=8, nd=2), 'd': gen.walk(lo=2, hi=6, nd=2), 'order': st.permutations(['exact', 'almost', None])}), quick=120)
def default_method(case, ev):
    """intersect without a method, for curves, segments and both orders, is intersect by the current default"""
    c, d = gen.make(case['c']), gen.make(case['d'])
    start = default_intersect_method()

    def results(**kw):
        return [(r.intersect_type.name, r.segment1.data.tolist(), r.segment2.data.tolist(), None if r.intersect_segment is None else r.intersect_segment.data.tolist())
                for r in c.intersect(d, **kw) + d.intersect(c, **kw) + c.intersect(**kw) + c.intersect(d.segments[0], **kw) + [c.segments[0].intersect(d.segments[-1], **kw)]]
    try:
        for name in case['order']:
            if name is not None:
                set_default_intersect_method(name)
            cur = default_intersect_method()
            a, b, e = results(), results(method=cur), results(method=get_intersect_method(cur))
            require(a == b == e, 'default {}: {} differs from {} or {}', cur, a, b, e)
            require(a == results(method=None), 'method=None gives {}', a)
    finally:
        set_default_intersect_method(start)
    ev.nontrivial(len(a) > 1)
