"""C05: search and equality agree with comparing the points one by one."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import gen, huge
from vf.core import raises, require, same, sub
from skcurve import Curve, Point, Segment

FUZZ = [0.0, 0.0, 0.0, 3e-9, -3e-9, 0.01, 1.0, -0.02]     # below and well above the closeness tolerance


def close_points(p, q, exact=False):
    """Equality of points, for data which keep clear of the tolerance band (|coordinates| <= 20)."""
    if len(p) != len(q):
        return False
    for a, b in zip(p, q):
        if math.isnan(a) or math.isnan(b):
            return False
        if exact:
            if a != b:
                return False
        elif math.isinf(a) or math.isinf(b):
            if a != b:
                return False
        elif abs(a - b) > 1e-8:
            return False
    return True


@st.composite
def search_cases(draw):
    nd = draw(st.integers(2, 4))
    dt = draw(st.sampled_from(['float64', 'float64', 'int64', 'int32', 'int']))
    elem = draw(st.sampled_from([st.integers(0, 1), gen.TINY, gen.SMALL, st.sampled_from([0, 1, -1, float('nan'), float('inf'), -0.0])]))
    isint = dt.startswith('int')
    if isint:
        elem = draw(st.sampled_from([st.integers(0, 1), gen.TINY, st.integers(10 ** 6, 10 ** 6 + 1)]))
    p = draw(st.lists(st.lists(elem, min_size=nd, max_size=nd), min_size=0, max_size=10))
    if p and draw(st.booleans()):
        k = draw(st.integers(0, len(p) - 1))
        q = list(p[k])
    else:
        q = draw(st.lists(elem, min_size=nd, max_size=nd))
    if not isint:
        fz = draw(st.lists(st.sampled_from(FUZZ), min_size=nd, max_size=nd))
        q = [a + b for a, b in zip(q, fz)]
    qint = isint
    if isint and max(map(abs, q), default=0) <= 20 and draw(st.integers(0, 3)) == 0:
        # a point of real coordinates is looked for among integer points
        q = [a + b for a, b in zip(q, draw(st.lists(st.sampled_from([0, 0, 0.5, -0.5, 0.25, 0.999]), min_size=nd, max_size=nd)))]
        qint = False
    bound = st.one_of(st.none(), st.integers(-13, 13))
    return {'p': p, 'nd': nd, 'dt': 'int64' if dt == 'int' else dt, 'q': q, 'start': draw(bound), 'end': draw(bound),
            'qint': qint}


def build(case):
    n, nd = len(case['p']), case['nd']
    c = Curve(np.array(case['p'], dtype=case['dt']).reshape(n, nd))
    q = Point(case['q'], dtype='int64') if case['qint'] else Point(case['q'])
    return c, q


@sub('C05', search_cases(), quick=1600)
def find_point(case, ev):
    """membership, count and index(point, start, end) against a plain loop"""
    c, q = build(case)
    hits = [i for i, r in enumerate(case['p']) if close_points(r, case['q'], case['qint'])]
    require((q in c) is bool(hits), 'membership of {} is {}, matches {}', case['q'], q in c, hits)
    require(c.count(q) == len(hits), 'count of {} is {}, matches {}', case['q'], c.count(q), hits)
    n = len(case['p'])
    inside = [i for i in range(n)[slice(case['start'], case['end'])] if i in hits]
    args = {}
    if case['start'] is not None:
        args['start'] = case['start']
    if case['end'] is not None:
        args['end'] = case['end']
    if inside:
        r = c.index(q, **args)
        require(int(r) == inside[0], 'index of {} in {}:{} is {}, matches {}', case['q'], case['start'], case['end'], r, hits)
        ev.label('found')
    else:
        raises(ValueError, lambda: c.index(q, **args), f'index of an absent point in {args}')
        ev.label('absent')
    if args and hits:
        ev.label('bounded')
    ev.nontrivial(bool(hits))


@st.composite
def subcurve_cases(draw):
    nd = draw(st.integers(2, 3))
    p = draw(st.lists(st.lists(st.integers(0, 1), min_size=nd, max_size=nd), min_size=0, max_size=9))
    mode = draw(st.sampled_from(['window', 'window', 'any', 'perturbed', 'scattered']))
    n = len(p)
    if mode == 'any' or n == 0:
        q = draw(st.lists(st.lists(st.integers(0, 1), min_size=nd, max_size=nd), min_size=0, max_size=9))
    else:
        i = draw(st.integers(0, n - 1))
        j = draw(st.integers(i, n))
        q = [list(r) for r in p[i:j]]
        if mode == 'perturbed' and q:
            k = draw(st.integers(0, len(q) - 1))
            q[k][draw(st.integers(0, nd - 1))] += draw(st.sampled_from([3e-9, 0.01, 1]))
        if mode == 'scattered':
            q = [list(r) for r in p[::2]]
    return {'p': p, 'q': q, 'nd': nd}


@sub('C05', subcurve_cases(), quick=1000)
def find_subcurve(case, ev):
    """membership of a contiguous sub-curve against a plain window search"""
    nd, p, q = case['nd'], case['p'], case['q']
    c = Curve(np.array(p, dtype='float64').reshape(len(p), nd))
    d = Curve(np.array(q, dtype='float64').reshape(len(q), nd))
    n, m = len(p), len(q)
    expected = any(all(close_points(a, b) for a, b in zip(p[i:i + m], q)) for i in range(n - m + 1))
    require((d in c) is expected, '{} in {} is {}', q, p, d in c)
    ev.label('contained' if expected else 'not contained')
    ev.nontrivial(m > 1)


@st.composite
def equality_cases(draw):
    nd = draw(st.integers(1, 4))
    p = draw(st.lists(st.lists(gen.TINY, min_size=nd, max_size=nd), min_size=0, max_size=5))
    mode = draw(st.sampled_from(['same', 'fuzz', 'size', 'ndim', 'order', 'nan', 'int', 'bigint', 'dtype']))
    q = [list(r) for r in p]
    if mode == 'fuzz' and p:
        q[draw(st.integers(0, len(p) - 1))][draw(st.integers(0, nd - 1))] += draw(st.sampled_from(FUZZ))
    return {'p': p, 'q': q, 'nd': nd, 'mode': mode, 'big': draw(st.integers(10 ** 6, 10 ** 9))}


@sub('C05', equality_cases(), quick=900)
def equality(case, ev):
    """equality of curves, points and segments: same size, dimension and points one by one"""
    p, q, nd, mode = case['p'], case['q'], case['nd'], case['mode']
    dt1 = dt2 = 'float64'
    if mode == 'size':
        q = q + [[0] * nd]
    elif mode == 'ndim':
        q = [r + [0] for r in q]
    elif mode == 'order':
        q = q[::-1]
    elif mode == 'nan' and p:
        q = q[:-1] + [[float('nan')] * nd]
        if case['big'] % 2:
            p = q
    elif mode == 'int':
        dt1 = dt2 = 'int64'
    elif mode == 'bigint' and p:
        dt1 = dt2 = 'int64'
        p = p[:-1] + [[case['big']] * nd]
        q = q[:-1] + [[case['big'] + case['big'] % 2] * nd]
    elif mode == 'dtype':
        dt2 = 'float32'
    nd2 = nd + 1 if mode == 'ndim' else nd
    expected = nd == nd2 and len(p) == len(q) and all(close_points(a, b, dt1 == 'int64') for a, b in zip(p, q))
    if nd >= 2:
        a = Curve(np.array(p, dtype=dt1).reshape(len(p), nd))
        b = Curve(np.array(q, dtype=dt2).reshape(len(q), nd2))
        require((a == b) is expected and (b == a) is expected, 'curves {} == {} is {}/{}', p, q, a == b, b == a)
        require((a != b) is (not expected), 'curves {} != {} is {}', p, q, a != b)
        require(not (a == p) and not (a == 5) and a != None, 'curve equal to something else')  # noqa: E711
    for r, s in zip(p, q):
        x, y = Point(r, dtype=dt1), Point(s, dtype=dt2)
        e = nd == nd2 and close_points(r, s, dt1 == 'int64')
        require((x == y) is e and (x != y) is (not e), 'points {} == {} is {}', r, s, x == y)
        require(not (x == list(r)) and x != 1.0, 'point equal to something else')
    if len(p) >= 2 and len(q) >= 2:
        s1 = Segment(Point(p[0], dtype=dt1), Point(p[1], dtype=dt1))
        s2 = Segment(Point(q[0], dtype=dt2), Point(q[1], dtype=dt2))
        e = nd == nd2 and all(close_points(a, b, dt1 == 'int64') for a, b in zip(p[:2], q[:2]))
        require((s1 == s2) is e and (s1 != s2) is (not e), 'segments {} == {} is {}', p[:2], q[:2], s1 == s2)
        require(s1 != s1.p1, 'segment equal to a point')
    ev.label(mode, 'equal' if expected else 'different')
    ev.nontrivial(len(p) > 0)


@sub('C05', st.fixed_dictionaries({'c': gen.curve(0, 5, ndims=(2, 3, 4)), 'nd': st.integers(1, 6), 'n': st.integers(0, 3),
                                   'start': st.one_of(st.none(), st.integers(-3, 3))}), quick=300)
def dimensions(case, ev):
    """objects of another dimension are never contained or equal; index and count refuse them"""
    c = gen.make(case['c'])
    nd = case['nd'] if case['nd'] != c.ndim else c.ndim + 1
    first = case['c']['p'][0] if case['c']['p'] else [0] * c.ndim
    q = Point((list(first) * 3)[:nd])
    require(q not in c, 'point of dimension {} in a curve of dimension {}', nd, c.ndim)
    raises(ValueError, lambda: c.index(q, case['start']), 'index of a point of another dimension')
    raises(ValueError, lambda: c.count(q), 'count of a point of another dimension')
    if nd >= 2:
        d = Curve(np.zeros((case['n'], nd)))
        require(d not in c and d != c, 'curve of another dimension contained or equal')
    require('x' not in c and 3 not in c and list(first) not in c, 'foreign object in the curve')
    ev.nontrivial(c.size > 0)


@sub('C05', st.fixed_dictionaries({'c': gen.long_curve(spread=(1, 2, 9)), 'i': st.integers(0, 10 ** 6), 'm': st.integers(0, 80), 'k': st.integers(0, 10 ** 6),
                                   'd': st.sampled_from([0, 0, 3e-9, 0.01])}), quick=150)
def long_search(case, ev):
    """membership, count, index and equality of long curves"""
    nd, p = case['c']['nd'], case['c']['p']
    n = len(p)
    c = Curve(gen.array(case['c']))
    i, k = case['i'] % n, case['k'] % n
    q = [x + case['d'] for x in p[i]]
    hits = [j for j, r in enumerate(p) if close_points(r, q)]
    require((Point(q) in c) is bool(hits) and c.count(Point(q)) == len(hits), 'membership {} and count {} instead of {}', Point(q) in c, c.count(Point(q)), len(hits))
    later = [j for j in hits if j >= k]
    if hits:
        require(c.index(Point(q)) == hits[0], 'index {} instead of {}', c.index(Point(q)), hits[0])
    if later:
        require(c.index(Point(q), k) == later[0], 'index from {}: {} instead of {}', k, c.index(Point(q), k), later[0])
    else:
        raises(ValueError, lambda: c.index(Point(q), k), f'index from {k} of a point at {hits}')
    w = [list(r) for r in p[i:i + case['m']]]
    if w:
        w[case['k'] % len(w)][case['k'] % nd] += case['d']
    w = [r for r in w]
    m = len(w)
    inside = any(all(close_points(a, b) for a, b in zip(p[j:j + m], w)) for j in range(n - m + 1))
    require((Curve(np.array(w, dtype=float).reshape(m, nd)) in c) is inside, 'membership of {} points from {}', m, i)
    other = gen.array(case['c']).copy()
    other[k, case['i'] % nd] += case['d']
    eq = abs(case['d']) < 1e-8
    require((Curve(other) == c) is eq and (Curve(other) != c) is (not eq), 'equality with a curve which differs by {} at point {}', case['d'], k)
    ev.label('equal' if eq else 'different')
    ev.nontrivial()


@sub('C05', st.fixed_dictionaries({'c': gen.near_integers(1, 6, parametric=False), 'k': st.lists(st.integers(-1, 1), min_size=3, max_size=3),
                                   'i': st.integers(0, 5), 'j': st.integers(1, 5)}), quick=300)
def big_integers(case, ev):
    """integers are compared exactly also where float64 cannot tell them apart"""
    dt, rows = case['c']['dt'], case['c']['p']
    c, nd, n = gen.make(case['c']), case['c']['nd'], len(case['c']['p'])
    q = [a + b for a, b in zip(rows[case['i'] % n], case['k'])]
    p = Point(q, dtype=dt)
    hits = [i for i, r in enumerate(rows) if r == q]
    require((p in c) == bool(hits), 'membership of {} in {}', q, rows)
    require(c.count(p) == len(hits), 'count of {} in {}: {}', q, rows, c.count(p))
    if hits:
        same(c.index(p), hits[0], 'index')
    else:
        raises(ValueError, lambda: c.index(p), 'index of an absent point')
    require((Point(rows[0], dtype=dt) == p) is (rows[0] == q), 'equality of {} and {}', rows[0], q)
    s1, s2 = Segment(Point(rows[0], dtype=dt), Point(rows[-1], dtype=dt)), Segment(Point(rows[0], dtype=dt), p)
    require((s1 == s2) is (rows[-1] == q), 'equality of segments')
    part = [list(r) for r in rows[case['i'] % n:case['i'] % n + case['j']]]
    part[-1] = [a + b for a, b in zip(part[-1], case['k'])]
    d = Curve(np.array(part, dtype=dt))
    ref = any(rows[i:i + len(part)] == part for i in range(n - len(part) + 1))
    require((d in c) == ref, 'membership of {} in {}', part, rows)
    require((c == d) is (rows == part), 'equality of {} and {}', part, rows)
    require((c != d) is (rows != part), 'inequality of {} and {}', part, rows)
    ev.label('exact' if not any(case['k']) else 'off by one')
    ev.nontrivial(any(case['k'][:nd]))

sub('C05', huge.curves(), quick=25, name='huge')(huge.search)
