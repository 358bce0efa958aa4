"""C14: point arithmetic and metrics agree with vector arithmetic."""
import copy
import operator
import pickle
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st
from scipy.spatial import distance as sd

from vf import gen
from vf.core import close, raises, require, same, sub
from skcurve import Curve, CurvePoint, Point, Segment, known_metrics, get_metric

OPS = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'truediv': operator.truediv, 'floordiv': operator.floordiv}
NONZERO = st.integers(-200, 200).filter(bool).map(lambda k: k / 8)
NUM = st.one_of(NONZERO, st.integers(-9, 9).filter(bool), NONZERO.map(float))


@st.composite
def op_cases(draw):
    nd = draw(st.integers(1, 5))
    return {'a': draw(st.lists(NONZERO, min_size=nd, max_size=nd)), 'b': draw(st.lists(NONZERO, min_size=nd, max_size=nd)),
            'k': draw(NUM), 'num': draw(st.sampled_from(['py', 'py', 'float64', 'float32', 'int64', 'int32'])),
            'op': draw(st.sampled_from(sorted(OPS))), 'kind': draw(st.sampled_from(['point', 'number', 'rnumber'])),
            'wrap': draw(st.sampled_from(['point', 'curvepoint', 'int', 'float32']))}


def wrap(v, how):
    if how == 'curvepoint' and len(v) > 1:
        return Curve(np.array([v, v, v]))[1]
    if how == 'int':
        return Point([int(x) or 1 for x in v], dtype=int)
    if how == 'float32':
        return Point(v, dtype=np.float32)
    return Point(v)


def number(k, how):
    if how == 'py':
        return k
    k = k if not how.startswith('int') else (int(k) or 1)
    return getattr(np, how)(k)


@sub('C14', op_cases(), quick=1200)
def arithmetic(case, ev):
    """the five operators with points and numbers on either side, component by component"""
    f = OPS[case['op']]
    a, b = wrap(case['a'], case['wrap']), Point(case['b'])
    av, bv = [x.item() for x in a.data], case['b']
    k = number(case['k'], case['num'])
    kv = float(k)
    if case['kind'] == 'point':
        r, ref = f(a, b), [f(x, y) for x, y in zip(av, bv)]
    elif case['kind'] == 'number':
        r, ref = f(a, k), [f(x, kv) for x in av]
    else:
        r, ref = f(k, a), [f(kv, x) for x in av]
    require(isinstance(r, Point), '{} {} gives {}', case['kind'], case['op'], type(r))
    tol = 1e-6 if case['wrap'] == 'float32' and case['op'] != 'floordiv' else 1e-13
    close(r.data, [float(x) for x in ref], f'{case["op"]} of {av} and {bv if case["kind"] == "point" else k}', rtol=tol)
    same(a.data, np.array(av), 'left operand')
    same(b.data, np.array(bv), 'right operand')
    require(r.ndim == len(av), 'dimension {}', r.ndim)
    if case['kind'] == 'point':
        s = f(b, a)
        close(s.data, [float(f(y, x)) for x, y in zip(av, bv)], f'{case["op"]} with swapped operands', rtol=tol)
        if case['op'] == 'add':
            require(a + b == b + a, 'the sum is not commutative')
            require((a + b) - b == a, 'a + b - b is not a')
    ev.label(case['op'], case['kind'], case['num'] if case['kind'] != 'point' else 'points')
    ev.nontrivial()


@sub('C14', st.fixed_dictionaries({'a': st.lists(gen.DYADIC, min_size=1, max_size=6), 'b': st.lists(gen.DYADIC, min_size=6, max_size=6)}), quick=400)
def dot(case, ev):
    """dot product and norm"""
    a = Point(case['a'])
    b = Point(case['b'][:len(case['a'])])
    ref = sum(Fraction(x) * Fraction(y) for x, y in zip(case['a'], case['b']))
    same(a @ b, float(ref), 'dot product')
    same(b @ a, float(ref), 'dot product of swapped points')
    close(a.norm(), float(sum(Fraction(x) ** 2 for x in case['a'])) ** 0.5, 'norm', rtol=1e-14)
    require(np.ndim(a @ b) == 0 and np.ndim(a.norm()) == 0, 'dot product or norm is not a number')
    same((a - a).data, [0.0] * len(case['a']), 'a - a')
    same((a * 0).data, [0.0] * len(case['a']), 'a * 0')
    same((2 * a).data, (a + a).data, '2 a')
    close((a - b).norm(), a.distance(b), 'norm of the difference and distance', rtol=1e-13)
    ev.nontrivial(bool(ref))


INTS = sorted(gen.DTYPE_RANGE)


@st.composite
def integer_points(draw):
    nd = draw(st.integers(1, 4))
    d1, d2 = draw(st.sampled_from(INTS)), draw(st.sampled_from(INTS + ['float64']))
    if draw(st.booleans()):
        d2 = d1
    vec = lambda d: draw(st.lists(gen.elem_for(d, wide=True).map(int), min_size=nd, max_size=nd))     # noqa: E731
    a, b = vec(d1), vec(d2)
    return {'a': a, 'b': b, 'd1': d1, 'd2': d2, 'k': draw(gen.elem_for(draw(st.sampled_from(INTS)), wide=True)), 'num': draw(st.sampled_from(['int', 'np', 'float'])), 'op': draw(st.sampled_from(sorted(OPS)))}


@sub('C14', integer_points(), quick=500)
def integers(case, ev):
    """points of integer types (up to the ends of their ranges): the results are those of the numbers, not of the types"""
    a, b = Point(case['a'], dtype=case['d1']), Point(case['b'], dtype=case['d2'])
    av, bv = case['a'], case['b']
    f, op = OPS[case['op']], case['op']
    k = case['k']
    if case['num'] == 'np':
        k = np.min_scalar_type(k).type(k)
    elif case['num'] == 'float':
        k = float(k)
    kv = int(k)
    div = op in ('truediv', 'floordiv')

    def ref(x, y):
        x, y = Fraction(x), Fraction(y)
        if op == 'floordiv':
            # of the rounded numbers
            return float(np.floor_divide(float(x), float(y)))
        return float(f(x, y))
    if not (div and 0 in bv):
        close(f(a, b).data, [ref(x, y) for x, y in zip(av, bv)], f'{op} of {a.dtype} and {b.dtype} points', rtol=1e-14)
    if not (div and kv == 0):
        close(f(a, k).data, [ref(x, kv) for x in av], f'{op} of a {a.dtype} point and {k!r}', rtol=1e-14)
    if not (div and 0 in av):
        close(f(k, a).data, [ref(kv, x) for x in av], f'{op} of {k!r} and a {a.dtype} point', rtol=1e-14)
    n1 = sum(x * x for x in av)
    size = (n1 * sum(y * y for y in bv)) ** 0.5
    close(a @ b, float(sum(x * y for x, y in zip(av, bv))), f'dot product of {a.dtype} and {b.dtype} points', rtol=0, atol=1e-14 * size)
    close(a.norm(), n1 ** 0.5, f'norm of a {a.dtype} point', rtol=1e-14)
    d = [abs(x - y) for x, y in zip(av, bv)]
    for m, r in (('euclidean', sum(x * x for x in d) ** 0.5), ('cityblock', sum(d)), ('chebyshev', max(d)), ('sqeuclidean', sum(x * x for x in d))):
        close(a.distance(b, m), float(r), f'{m} distance of {a.dtype} and {b.dtype} points', rtol=1e-14)
        close(b.distance(a, m), float(r), f'{m} distance of {b.dtype} and {a.dtype} points', rtol=1e-14)
    close(a.distance(b), a.distance(b, 'euclidean'), 'default distance')
    same(a.data, av, 'operand')
    same(b.data, bv, 'operand')
    require(a.dtype == case['d1'], 'operand of {}', a.dtype)
    ev.label(case['d1'], case['d2'], op)
    ev.nontrivial()


@st.composite
def odd_points(draw):
    dt = draw(st.sampled_from(gen.ALL_DTYPES))
    return {'dt': dt, 'p': draw(st.lists(gen.odd_elem(dt), min_size=1, max_size=5)), 'q': draw(st.lists(gen.odd_elem(dt), min_size=5, max_size=5)),
            's': draw(st.tuples(*[st.one_of(st.none(), st.integers(-5, 5))] * 2, st.sampled_from([None, 1, 2, -1])).map(list))}


@sub('C14', odd_points(), quick=300)
def copies(case, ev):
    """copies of a point and of a segment are equal to it and of its type, whatever the type and the values; so are slices"""
    a = np.array(case['p'], dtype=case['dt'])
    p, s = Point(case['p'], dtype=case['dt']), slice(*case['s'])
    seg = Segment(p, Point(case['q'][:len(a)], dtype=case['dt']))
    for name, r, v in (('copy', copy.copy(p), a), ('deepcopy', copy.deepcopy(p), a), ('pickle', pickle.loads(pickle.dumps(p)), a), ('full slice', p[:], a), (f'slice {s}', p[s], a[s]),
                       ('p1 of a copied segment', copy.deepcopy(seg).p1, a), ('p2 of a copied segment', copy.copy(seg).p2, np.array(case['q'][:len(a)], dtype=case['dt']))):
        require(type(r) is Point, '{} of a point is {}', name, type(r))
        same(r.data, v, f'{name} of a point', dtype=True)
        require(r.dtype == p.dtype, '{} has the type {}', name, r.dtype)
    if not np.isnan(a.astype('float64')).any():
        require(copy.copy(p) == p and copy.deepcopy(p) == p and p[:] == p, 'the copy of {} is not equal to it', p)
    ev.label(case['dt'])
    ev.nontrivial()


@sub('C14', st.fixed_dictionaries({'a': st.lists(gen.DYADIC, min_size=2, max_size=4), 'op': st.sampled_from(sorted(OPS)),
                                   'bad': st.sampled_from(['str', 'None', 'list', 'array', 'dict', 'curve', 'tuple'])}), quick=200)
def rejects(case, ev):
    """unsupported operand types raise TypeError and leave the point alone"""
    a = Point(case['a'])
    f = OPS[case['op']]
    v = case['a']
    bad = {'str': 'x', 'None': None, 'list': v, 'array': np.array(v), 'dict': {}, 'tuple': tuple(v), 'curve': Curve(np.array([v, v]))}[case['bad']]
    raises(TypeError, lambda: f(a, bad), f'point {case["op"]} {case["bad"]}')
    if case['bad'] not in ('array', 'curve'):
        raises(TypeError, lambda: f(bad, a), f'{case["bad"]} {case["op"]} point')
    raises(TypeError, lambda: a @ 2, 'point @ number')
    raises(TypeError, lambda: a @ None, 'point @ None')
    same(a.data, v, 'operand')
    ev.label(case['bad'])
    ev.nontrivial()


METRICS = {'braycurtis': sd.braycurtis, 'canberra': sd.canberra, 'chebyshev': sd.chebyshev, 'cityblock': sd.cityblock,
           'correlation': sd.correlation, 'cosine': sd.cosine, 'euclidean': sd.euclidean, 'minkowski': sd.minkowski,
           'sqeuclidean': sd.sqeuclidean, 'jensenshannon': sd.jensenshannon, 'mahalanobis': sd.mahalanobis,
           'seuclidean': sd.seuclidean, 'wminkowski': sd.wminkowski}


@st.composite
def metric_cases(draw):
    nd = draw(st.integers(2, 5))
    pos = st.integers(1, 200).map(lambda k: k / 8)
    v = draw(st.sampled_from([pos, NONZERO]))
    return {'a': draw(st.lists(v, min_size=nd, max_size=nd)), 'b': draw(st.lists(v, min_size=nd, max_size=nd)),
            'w': draw(st.lists(pos, min_size=nd, max_size=nd)), 'p': draw(st.sampled_from([1, 2, 3, 1.5])), 'm': draw(st.sampled_from(sorted(METRICS)))}


@sub('C14', metric_cases(), quick=700)
def metrics(case, ev):
    """distance(name, **kwargs) is the scipy metric of that name; independent formulas for the common ones"""
    m, av, bv, w, p = case['m'], np.array(case['a']), np.array(case['b']), np.array(case['w']), case['p']
    if m == 'jensenshannon':
        av, bv = abs(av), abs(bv)
    a, b = Point(av), Point(bv)
    kw = {'seuclidean': {'V': w}, 'mahalanobis': {'VI': np.diag(w)}, 'wminkowski': {'p': p, 'w': w}, 'minkowski': {'p': p},
          'jensenshannon': {'base': p + 1}, 'canberra': {'w': w}}.get(m, {})
    r = a.distance(b, m, **kw)
    same(r, METRICS[m](av, bv, **kw), f'distance by {m}')
    same(a.distance(b, metric=m, **kw), r, f'distance by {m} (keyword)')
    same(get_metric(m, **kw)(av, bv), r, f'get_metric({m})')
    d = abs(av - bv)
    own = {'cityblock': lambda: d.sum(), 'chebyshev': lambda: d.max(), 'euclidean': lambda: (d ** 2).sum() ** 0.5,
           'sqeuclidean': lambda: (d ** 2).sum(), 'minkowski': lambda: (d ** p).sum() ** (1 / p),
           'canberra': lambda: (w * d / (abs(av) + abs(bv))).sum(), 'seuclidean': lambda: (d ** 2 / w).sum() ** 0.5,
           'mahalanobis': lambda: (d ** 2 * w).sum() ** 0.5, 'wminkowski': lambda: ((w * d) ** p).sum() ** (1 / p),
           'braycurtis': lambda: d.sum() / abs(av + bv).sum(),
           'cosine': lambda: 1 - av @ bv / (av @ av * (bv @ bv)) ** 0.5}
    if m in own:
        close(r, own[m](), f'formula of {m}', rtol=1e-9, atol=1e-9)
    if kw and m in ('minkowski', 'canberra'):
        same(a.distance(b, m), METRICS[m](av, bv), f'{m} with defaults after keywords were used')
    same(a.distance(b), sd.euclidean(av, bv), 'default distance')
    require(sorted(known_metrics()) == sorted(METRICS), 'known metrics {}', known_metrics())
    same(a.data, av, 'receiver')
    ev.label(m)
    ev.nontrivial()


@sub('C14', st.fixed_dictionaries({'a': st.lists(gen.DYADIC, min_size=2, max_size=4), 'b': st.lists(gen.DYADIC, min_size=4, max_size=4),
                                   'k': st.integers(-9, 9), 'flag': st.booleans()}), quick=300)
def callables(case, ev):
    """a callable metric gets both coordinate vectors and the keyword arguments; bad metrics raise NameError/TypeError"""
    a, b = Point(case['a']), Point(case['b'][:len(case['a'])])
    seen = []

    def metric(u, v, scale=1, **kw):
        seen.append((np.array(u), np.array(v), scale, kw))
        return scale * float(np.sum(u - v))
    r = a.distance(b, metric, scale=case['k'], extra=case['flag']) if case['flag'] else a.distance(b, metric=metric)
    require(len(seen) == 1, 'the metric was called {} times', len(seen))
    u, v, k, kw = seen[0]
    same(u, case['a'], 'first vector')
    same(v, case['b'][:len(case['a'])], 'second vector')
    require((k, kw) == ((case['k'], {'extra': True}) if case['flag'] else (1, {})), 'keyword arguments {} {}', k, kw)
    close(r, (case['k'] if case['flag'] else 1) * (sum(case['a']) - sum(case['b'][:len(case['a'])])), 'distance', atol=1e-9)
    raises(NameError, lambda: a.distance(b, 'no such metric'), 'unknown metric')
    raises(NameError, lambda: a.distance(b, 'Euclidean', p=1), 'unknown metric with keywords')
    raises(NameError, lambda: get_metric(''), 'empty metric name')
    for bad in (None, 5, [1]):
        raises(TypeError, lambda: a.distance(b, bad), f'metric {bad}')
    ev.nontrivial()


@sub('C14', st.integers(1, 5).flatmap(lambda nd: st.fixed_dictionaries({
    'a': st.lists(gen.DYADIC, min_size=nd, max_size=nd), 'b': st.lists(gen.DYADIC, min_size=nd, max_size=nd),
    'k': st.one_of(st.integers(-400, 400), st.integers(490, 500))})), quick=300)
def magnitudes(case, ev):
    """norms, distances, dot products and sums scale with the unit from 2**-400 to 2**500"""
    u = 2.0 ** case['k']
    a, b = Point([x * u for x in case['a']]), Point([x * u for x in case['b']])
    d = [x - y for x, y in zip(case['a'], case['b'])]
    size = sum(abs(x * y) for x, y in zip(case['a'], case['b']))
    close(np.float64(a.norm()) / u, sum(x * x for x in case['a']) ** 0.5, f'norm in units of 2**{case["k"]}', rtol=1e-13)
    close(np.float64(a @ b) / u / u, sum(x * y for x, y in zip(case['a'], case['b'])), 'dot product', rtol=0, atol=1e-13 * size)
    for m, ref in (('euclidean', sum(x * x for x in d) ** 0.5), ('cityblock', sum(map(abs, d))), ('chebyshev', max(map(abs, d)))):
        close(np.float64(a.distance(b, m)) / u, ref, f'{m} distance in units of 2**{case["k"]}', rtol=1e-13)
    close((a - b).data / u, d, 'difference', rtol=0)
    close((a * 0.5).data / u, [x / 2 for x in case['a']], 'half', rtol=0)
    ev.nontrivial(len(d) > 1 and abs(case['k']) > 60 and any(d))
