"""C15: segment parametrization and basic attributes."""
import copy
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from vf import gen, oracle
from vf.core import close, quiet, raises, recorded, require, same, sub
from skcurve import Curve, GeometryAlgorithmsWarning, Point, Segment

TPAR = st.one_of(st.integers(-48, 48).map(lambda k: k / 16), st.sampled_from([0, 1, 0.5, 0.0, 1.0, 2, -1, 100.25, 2 ** 21 + 0.5, -2.0 ** 24]))


@st.composite
def segs(draw, nd=None, singular=False):
    nd = nd or draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5]))
    off = draw(st.sampled_from([0, 0, 0, 100, -4096, 2 ** 21]))
    sc = draw(st.sampled_from([1, 1, 1, 0.0625, 64, 2.0 ** -10, 2.0 ** 30, 2.0 ** 45]))
    a = draw(st.lists(st.integers(-9, 9), min_size=nd, max_size=nd))
    u = draw(st.lists(st.integers(-6, 6), min_size=nd, max_size=nd))
    if not any(u) and not singular:
        u[draw(st.integers(0, nd - 1))] = 1
    return {'a': [x * sc + off for x in a], 'b': [(x + y) * sc + off for x, y in zip(a, u)], 'nd': nd, 'sc': sc}


def make(s, kind='plain'):
    if kind == 'curve' and s['nd'] > 1:
        return Curve(np.array([s['a'], s['b']], dtype=float)).segments[0]
    if kind == 'int' and all(float(x).is_integer() and abs(x) < 2 ** 28 for x in s['a'] + s['b']):
        return Segment(Point([int(x) for x in s['a']], dtype=int), Point([int(x) for x in s['b']], dtype=int))
    return Segment(Point(s['a']), Point(s['b']))


KIND = st.sampled_from(['plain', 'plain', 'curve', 'int'])


def alike(p, q):
    """The closeness tolerance of the library's equality (numpy's isclose)."""
    return all(abs(x - y) <= 1e-8 + 1e-5 * abs(y) for x, y in zip(p, q))


def on_line(s, t):
    return [float(F(x) + F(t) * (F(y) - F(x))) for x, y in zip(s['a'], s['b'])]


@sub('C15', st.fixed_dictionaries({'s': segs(singular=True), 't': TPAR, 'ts': st.lists(TPAR, min_size=0, max_size=5), 'kind': KIND,
                                   'form': st.sampled_from(['list', 'tuple', 'array', 'curve t', 'int array'])}), quick=900)
def point(case, ev):
    """point(t) for a number and for a sequence of numbers"""
    s, v = make(case['s'], case['kind']), case['s']
    p = s.point(case['t'])
    require(isinstance(p, Point), 'point(t) is {}', type(p))
    close(p.data, on_line(v, case['t']), f'point({case["t"]})', rtol=1e-14)
    for t, end in ((0, 'a'), (1, 'b'), (0.0, 'a'), (1.0, 'b')):
        same(s.point(t).data, v[end], f'point({t})')
    ts = case['ts']
    if case['form'] == 'tuple':
        arg = tuple(ts)
    elif case['form'] == 'array':
        arg = np.array(ts, dtype=float)
    elif case['form'] == 'int array':
        ts = [int(t) for t in ts]
        arg = np.array(ts, dtype=int)
    else:
        arg = list(ts)
    r = s.point(arg)
    require(isinstance(r, list) and len(r) == len(ts), 'point of {} values gives {}', len(ts), r)
    for t, q in zip(ts, r):
        require(isinstance(q, Point), 'entry is {}', type(q))
        close(q.data, on_line(v, t), f'point({t}) in a sequence', rtol=1e-14)
    raises(ValueError, lambda: s.point(np.zeros((2, 2))), 'point of a matrix')
    ev.label(case['form'])
    ev.nontrivial(v['a'] != v['b'] and len(ts) > 1)


@st.composite
def t_cases(draw):
    s = draw(segs())
    pts = []
    for _ in range(draw(st.integers(1, 5))):
        t = draw(TPAR)
        p = on_line(s, t)
        off = False
        if s['nd'] > 1 and abs(t) < 1000 and draw(st.integers(0, 3)) == 0:
            d = draw(st.lists(st.integers(-3, 3), min_size=s['nd'], max_size=s['nd']))
            q = [x + y * max(1, s.get('sc', 1)) for x, y in zip(p, d)]
            if not oracle.is_collinear([s['a'], s['b'], q]):
                p, off = q, True
        pts.append([p, None if off else t])
    return {'s': s, 'pts': pts, 'kind': draw(KIND), 'dt': draw(st.sampled_from([None, None, 'int64', 'int32'])), 'form': draw(st.sampled_from(['list', 'tuple', 'curve']))}


@sub('C15', t_cases(), quick=1000)
def t(case, ev):
    """t(point) inverts point(t) on the line and is NaN with a warning exactly off the line, for points and sequences"""
    s, v = make(case['s'], case['kind']), case['s']
    whole = case.get('dt') and all(float(x).is_integer() and abs(x) < 2 ** 28 for p, _ in case['pts'] for x in p)

    def given(p):
        return Point([int(x) for x in p], dtype=case['dt']) if whole else Point(p)
    for p, t in case['pts']:
        with recorded() as w:
            r = s.t(given(p))
        w = [x for x in w if issubclass(x.category, GeometryAlgorithmsWarning)]
        require(np.ndim(r) == 0, 't of a point is {}', r)
        if t is None:
            require(np.isnan(r), 't of a point off the line is {}', r)
            require(w, 'no warning for a point off the line')
            ev.label('off')
        else:
            close(r, t, f't of the point at {t}', rtol=1e-9, atol=1e-9)
            require(not w, 'warning for a point on the line: {}', [str(x.message) for x in w])
    points = [given(p) for p, _ in case['pts']]
    if case['form'] == 'tuple':
        points = tuple(points)
    elif case['form'] == 'curve' and v['nd'] > 1:
        points = Curve(np.array([p for p, _ in case['pts']]))
    with recorded() as w:
        r = s.t(points)
    some_off = any(t is None for _, t in case['pts'])
    w = [x for x in w if issubclass(x.category, GeometryAlgorithmsWarning) and ('collinear' in str(x.message) or not some_off)]
    require(isinstance(r, np.ndarray) and r.shape == (len(case['pts']),), 't of {} points is {}', len(case['pts']), r)
    close(r, [np.nan if t is None else t for _, t in case['pts']], 't of a sequence of points', rtol=1e-9, atol=1e-9)
    require(bool(w) == some_off, 'warnings {} although some points are off the line: {}', len(w), some_off)
    ev.label('sequence of one' if len(case['pts']) == 1 else 'sequence')
    ev.nontrivial(len(case['pts']) > 1)


@sub('C15', st.fixed_dictionaries({'s': segs(singular=True), 'u': segs(singular=True), 'kind': KIND, 'eq': st.booleans()}), quick=600)
def attributes(case, ev):
    """direction, seglen, dot, data, ndim, singular, reverse, to_curve and equality are defined by the end points"""
    v = case['s']
    s = make(v, case['kind'])
    a, b = np.array(v['a'], dtype=float), np.array(v['b'], dtype=float)
    same(s.p1.data, a, 'p1')
    same(s.p2.data, b, 'p2')
    require(isinstance(s.direction, Point), 'direction is {}', type(s.direction))
    same(s.direction.data, b - a, 'direction')
    close(s.seglen, oracle.chord_lengths([v['a'], v['b']])[0], 'seglen', rtol=1e-14)
    close(s.dot, float(oracle.vdot(oracle.fv(v['a']), oracle.fv(v['b']))), 'dot', rtol=0, atol=4e-16 * v['nd'] * float(np.sum(np.abs(a * b))))
    same(s.data, np.array([a, b]), 'data')
    require(s.ndim == v['nd'], 'ndim {}', s.ndim)
    require(s.singular is (v['a'] == v['b']), 'singular {}', s.singular)
    r = s.reverse()
    require(type(r) is Segment, 'reverse gives {}', type(r))
    same(r.data, np.array([b, a]), 'reverse')
    require(r.reverse() == s, 'reverse of reverse')
    require((r == s) is (v['a'] == v['b'] if s.p1.dtype.kind == 'i' else alike(v['b'], v['a']) and alike(v['a'], v['b'])), 'a segment equals its reverse: {}', r == s)
    if v['nd'] > 1:
        c = s.to_curve()
        require(type(c) is Curve and not c.isparametric, 'to_curve gives {}', c)
        same(c.data, np.array([a, b]), 'to_curve')
    require(s == Segment(Point(a), Point(b)), 'equal ends, unequal segments')
    u = make(case['u'])
    require((s == u) is (v['nd'] == u.ndim and alike(v['a'], case['u']['a']) and alike(v['b'], case['u']['b'])), 'equality with another segment is {}', s == u)
    k = v['nd'] - 1
    d = b.copy()
    d[k] += max(0.5, abs(d[k]) / 1024)
    require(not s == Segment(Point(a), Point(d)) and s != Segment(Point(a), Point(d)), 'equal to a segment with another end')
    d = a.copy()
    d[k] += max(0.5, abs(d[k]) / 1024)
    require(not s == Segment(Point(d), Point(b)), 'equal to a segment with another beginning')
    require(not s == 5 and s != None, 'equal to something else')     # noqa: E711
    ev.label('singular' if s.singular else 'regular')
    ev.nontrivial()


@sub('C15', st.fixed_dictionaries({'a': st.lists(gen.SMALL, min_size=1, max_size=4), 'n': st.integers(1, 4)}), quick=100)
def rejects(case, ev):
    """segments with empty, differently dimensioned or mis-typed ends are refused"""
    p = Point(case['a'])
    q = Point(case['a'] + [0] * case['n'])
    raises(ValueError, lambda: Segment(p, q), 'ends of different dimension')
    raises(ValueError, lambda: Segment(q, p), 'ends of different dimension')
    raises(ValueError, lambda: Segment(Point([]), Point([])), 'empty ends')
    raises(ValueError, lambda: Segment(p, Point([])), 'an empty end')
    raises(ValueError, lambda: Segment(Point([]), p), 'an empty beginning')
    raises(TypeError, lambda: Segment(case['a'], p), 'a list as beginning')
    raises(TypeError, lambda: Segment(p, np.array(case['a'])), 'an array as end')
    raises(TypeError, lambda: Segment(p, None), 'None as end')
    ev.nontrivial()
