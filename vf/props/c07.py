"""C07: unique, drop and nonsingular keep exactly the points they promise."""
import math

import numpy as np
from hypothesis import strategies as st

from vf import gen, huge
from vf.core import raises, require, same, sub
from skcurve import Curve

DT = ('float64', 'float64', 'float32', 'int32', 'uint8', 'int64')


def expect(c, d, keep, what):
    """d must be the curve c restricted to the indices `keep`."""
    same(d.data, c.data[keep] if keep else np.zeros((0, c.ndim)), what)
    require(d.dtype == c.dtype, '{}: dtype {} instead of {}', what, d.dtype, c.dtype)
    require(d.isparametric == c.isparametric, '{}: isparametric is {}', what, d.isparametric)
    if c.isparametric:
        same(d.t, [c.t[i] for i in keep], f'{what}: parametrization')


@st.composite
def nearly_equal(draw):
    """Points which differ by very little, and repeated ones."""
    nd = draw(st.sampled_from([2, 3]))
    x = draw(st.sampled_from([0.0, 1.0, -3.5, 1e6, 1e-300]))
    elem = st.sampled_from([x, x, np.nextafter(x, 1e9), x + 1e-13, x - 2e-13, x + 5e-324, x * (1 + 1e-12), x + 1e-9]).map(float)
    p = draw(st.lists(st.lists(elem, min_size=nd, max_size=nd), min_size=2, max_size=10))
    t = draw(st.one_of(st.none(), st.lists(st.integers(-9, 9), min_size=len(p), max_size=len(p))))
    return {'p': p, 'nd': nd, 'dt': 'float64', 't': t}


@sub('C07', st.one_of(nearly_equal(), gen.curve(0, 12, ndims=(2, 3), dtypes=DT, kinds=('tiny',)),
                      gen.curve(0, 10, ndims=(2, 3, 4), dtypes=DT),
                      gen.curve(2, 8, ndims=(2, 3), dtypes=('float64',), kinds=('zeros',)), gen.near_integers(dtypes=('int64', 'uint64')),
                      gen.curve(2, 10, ndims=(2,), dtypes=('int8', 'uint8', 'int64'), wide=True)), quick=800)
def unique(case, ev):
    """unique() keeps the first occurrence of each distinct point in the original order"""
    c = gen.make(case)
    seen, keep = set(), []
    for i, p in enumerate(case['p']):
        if tuple(p) not in seen:
            seen.add(tuple(p))
            keep.append(i)
    u = c.unique()
    require(type(u) is Curve, 'unique gives {}', type(u))
    expect(c, u, keep, 'unique')
    expect(u, u.unique(), list(range(u.size)), 'unique of unique')
    ev.label('duplicates' if len(keep) < c.size else 'distinct', 'parametric' if c.isparametric else 'plain')
    if keep and keep != list(range(len(keep))):
        ev.label('gap')
    ev.nontrivial(len(keep) < c.size)


@st.composite
def drop_cases(draw):
    case = draw(gen.curve(0, 10, ndims=(2, 3, 4), dtypes=DT))
    n = len(case['p'])
    kind = draw(st.sampled_from(['vector', 'matrix', 'index', 'index', 'nan', 'list', 'index_list', 'all', 'none', 'no_index']))
    flags = draw(st.lists(st.booleans(), min_size=n, max_size=n))
    mat = draw(st.lists(st.lists(st.sampled_from([False, False, True]), min_size=case['nd'], max_size=case['nd']),
                        min_size=n, max_size=n))
    idx = draw(st.lists(st.integers(-n, n - 1), max_size=6)) if n else []
    nans = []
    if case['dt'].startswith('float') and kind == 'nan':
        nans = draw(st.lists(st.tuples(st.integers(0, 9), st.integers(0, 3), st.sampled_from(['nan', 'inf', '-inf'])), max_size=4))
    return {'c': case, 'kind': kind, 'flags': flags, 'mat': mat, 'idx': idx, 'nans': [list(x) for x in nans]}


def make_with(case, nans):
    a = gen.array(case).copy()
    for i, k, v in nans:
        if len(a):
            a[i % len(a), k % case['nd']] = float(v)
    return Curve(a, tdata=case['t'])


@sub('C07', drop_cases(), quick=900)
def drop(case, ev):
    """drop removes exactly the points flagged by a boolean vector, boolean matrix (any column) or index vector"""
    c = make_with(case['c'], case['nans'])
    n, kind = c.size, case['kind']
    calls = []

    def checker(make):
        def isa(data):
            calls.append(np.array(data, copy=True))
            return make(data)
        return isa

    if kind in ('vector', 'list'):
        gone = {i for i, f in enumerate(case['flags']) if f}
        f = (lambda d: np.array(case['flags'], dtype=bool)) if kind == 'vector' else (lambda d: case['flags'])
        if kind == 'list' and n == 0:
            f = lambda d: np.zeros(0, dtype=bool)   # noqa: E731
    elif kind == 'matrix':
        gone = {i for i, r in enumerate(case['mat']) if any(r)}
        f = lambda d: np.array(case['mat'], dtype=bool).reshape(n, c.ndim)   # noqa: E731
    elif kind in ('index', 'index_list'):
        gone = {i % n for i in case['idx']} if n else set()
        idx = case['idx']
        f = (lambda d: np.array(idx, dtype=int)) if kind == 'index' else (lambda d: list(idx))
    elif kind == 'no_index':
        gone = set()
        f = lambda d: np.flatnonzero(np.zeros(n, dtype=bool))   # noqa: E731
    elif kind == 'nan':
        gone = {i for i in range(n) if not all(math.isfinite(float(x)) for x in c.data[i])}
        f = lambda d: np.isnan(d) | np.isinf(d)   # noqa: E731
    else:
        gone = set(range(n)) if kind == 'all' else set()
        f = lambda d: np.full(n, kind == 'all')   # noqa: E731
    keep = [i for i in range(n) if i not in gone]
    before = c.data.copy()
    d = c.drop(checker(f))
    require(type(d) is Curve, 'drop gives {}', type(d))
    expect(c, d, keep, f'drop by {kind}')
    require(len(calls) >= 1, 'the checker was not called')
    same(calls[0], before, 'data seen by the checker')
    same(c.data, before, 'receiver of drop')
    ev.label(kind, 'some' if 0 < len(gone) < n else 'all' if gone else 'none')
    ev.nontrivial(0 < len(gone) < n)


@st.composite
def singular_cases(draw):
    """A walk whose points are repeated exactly or within 1e-10, mixed with NaN/Inf points."""
    base = draw(gen.walk(1, 7, ndims=(2, 3, 4)))
    for k, p in enumerate(base['p']):
        base['p'][k] = [float(x) for x in p]
    dt = draw(st.sampled_from(['float64', 'float64', 'float64', 'float32', 'int32']))
    pts, role = [], []
    for i, p in enumerate(base['p']):
        reps = draw(st.integers(1, 3)) if draw(st.booleans()) else 1
        for r in range(reps):
            q = list(p)
            if r and dt == 'float64' and draw(st.booleans()):
                k = draw(st.integers(0, base['nd'] - 1))
                q[k] += draw(st.sampled_from([1e-10, -1e-10, 5e-11]))
            pts.append(q)
            role.append('first' if r == 0 else 'near')
            if dt != 'int32' and draw(st.integers(0, 4)) == 0:
                q = list(p) if draw(st.booleans()) else [draw(st.integers(-3, 3)) for _ in range(base['nd'])]
                q[draw(st.integers(0, base['nd'] - 1))] = draw(st.sampled_from(['nan', 'inf', '-inf']))
                pts.append(q)
                role.append('bad')
    if dt == 'int32':
        pts = [[int(x * 16) for x in q] for q in pts]
    elif dt == 'float64':
        # far from the origin the distances are still what counts, not the distances compared with the coordinates
        off = draw(st.sampled_from([0, 0, 0, 1000, 10 ** 6]))
        pts = [[x if isinstance(x, str) else x + off for x in q] for q in pts]
    par = draw(st.booleans())
    t = draw(gen.increasing(len(pts))) if par else None
    return {'p': pts, 'nd': base['nd'], 'dt': dt, 't': t, 'role': role}


@sub('C07', singular_cases(), quick=700)
def nonsingular(case, ev):
    """nonsingular removes exactly the NaN/Inf points and the points closing a (nearly) zero-length segment"""
    c = Curve(np.array([[float(x) for x in q] for q in case['p']]).astype(case['dt']).reshape(-1, case['nd']), tdata=case['t'])
    # distinct walk points are at least 1e-3 apart, repeated ones within 1e-9, so the expectation is unambiguous
    keep, last = [], None
    for i, q in enumerate(c.data):
        q = [float(x) for x in q]
        if not all(math.isfinite(x) for x in q):
            continue
        if last is not None and math.dist(q, last) < 1e-8:
            continue
        keep.append(i)
        last = q
    d = c.nonsingular()
    expect(c, d, keep, 'nonsingular')
    require(np.all(np.isfinite(d.data)), 'nonsingular keeps NaN/Inf')
    require(not np.any(np.isclose(d.chordlen, 0)), 'nonsingular keeps a zero-length segment: {}', d.chordlen)
    expect(d, d.nonsingular(), list(range(d.size)), 'nonsingular of nonsingular')
    bad = any(r == 'bad' for r in case['role'])
    near = any(r == 'near' for r in case['role'])
    ev.label('bad' if bad else 'finite', 'near' if near else 'apart')
    ev.nontrivial(bad or near)


@sub('C07', st.fixed_dictionaries({'nd': st.integers(2, 5), 'dt': st.sampled_from(DT), 'par': st.booleans()}), quick=60)
def empty(case, ev):
    """the cleaning operations work on empty curves and keep dimension and type"""
    c = Curve(np.zeros((0, case['nd']), dtype=case['dt']), tdata=[] if case['par'] else None)
    for name, d in [('unique', c.unique()), ('nonsingular', c.nonsingular()),
                    ('drop', c.drop(lambda x: np.zeros(0, dtype=bool))),
                    ('drop matrix', c.drop(lambda x: np.zeros(x.shape, dtype=bool))), ('drop isnan', c.drop(np.isnan))]:
        require(d.size == 0 and d.ndim == case['nd'], '{} of an empty curve: {}', name, d)
        expect(c, d, [], name)
    ev.nontrivial()


@sub('C07', gen.curve(1, 6, dtypes=('float64',)), quick=150)
def drop_rejects(case, ev):
    """a checker that is not callable or returns an unusable result is refused"""
    c = gen.make(case)
    raises(TypeError, lambda: c.drop(np.zeros(c.size, dtype=bool)), 'drop of an array')
    raises(TypeError, lambda: c.drop(None), 'drop of None')
    raises(ValueError, lambda: c.drop(lambda d: np.zeros(d.shape)), 'drop by a float matrix')
    raises(ValueError, lambda: c.drop(lambda d: np.zeros(d.shape, dtype=int)), 'drop by an integer matrix')
    raises(IndexError, lambda: c.drop(lambda d: np.array([0, c.size])), 'drop by an index out of range')
    raises(IndexError, lambda: c.drop(lambda d: np.zeros(c.size + 1, dtype=bool)), 'drop by a longer boolean vector')
    same(c.data, gen.array(case), 'receiver')
    ev.nontrivial()


sub('C07', st.one_of(gen.long_curve(dtypes=DT, spread=(1, 3, 9), repeats=True), gen.long_curve(dtypes=DT, spread=(1, 3, 9))), quick=120, name='unique_long')(unique)


@sub('C07', st.fixed_dictionaries({'c': gen.long_curve(spread=(2, 50), repeats=True, dtypes=('float64', 'float32')), 'seed': st.integers(0, 2 ** 32 - 1),
                                   'kind': st.sampled_from(['vector', 'matrix', 'index'])}), quick=120)
def long_curves(case, ev):
    """drop and nonsingular of long curves with many bad points"""
    a = gen.array(case['c']).copy()
    n, nd = a.shape
    rs = np.random.RandomState(case['seed'])
    bad = rs.rand(n) < rs.choice([0.05, 0.3, 0.9])
    a[bad, rs.randint(0, nd, bad.sum())] = rs.choice([np.nan, np.inf, -np.inf], bad.sum())
    c = Curve(a, tdata=case['c']['t'])
    f = {'vector': lambda d: bad, 'matrix': lambda d: ~np.isfinite(d), 'index': lambda d: rs.permutation(np.flatnonzero(bad))}[case['kind']]
    expect(c, c.drop(f), np.flatnonzero(~bad).tolist(), f'drop by {case["kind"]}')
    keep, last = [], None
    for i, q in enumerate(a.tolist()):
        if not bad[i] and q != last:
            keep.append(i)
            last = q
    expect(c, c.nonsingular(), keep, 'nonsingular')
    ev.nontrivial(bool(bad.any()))

sub('C07', huge.curves(), quick=25, name='huge')(huge.cleaning)
