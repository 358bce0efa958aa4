"""C08: the parametrization follows the points through every operation."""
import copy

import numpy as np
from hypothesis import strategies as st

from vf import gen, huge, oracle
from vf.core import close, require, same, sub, raises
from skcurve import Curve, Point

OPS = ['copy', 'slice', 'list', 'mask', 'delete', 'delete_list', 'reverse', 'unique', 'drop', 'nonsingular', 'coorient',
       'concat', 'concat', 'self_concat', 'dup', 'curve_of', 'nan_drop', 'delete_slice']
BREAKING = ['insert', 'insert_curve', 'append', 'insertdim', 'appenddim', 'deletedim', 'smooth', 'savgol', 'concat_plain',
            'concat_plain_left', 'append_curve']


@st.composite
def hist(draw, long=False):
    n = 0 if long else draw(st.one_of(st.integers(0, 3), st.integers(2, 8)))
    nd = draw(st.sampled_from([2, 3, 3, 4]))
    p = draw(st.lists(st.lists(st.integers(-3, 3), min_size=nd, max_size=nd), min_size=n, max_size=n))
    t = draw(st.lists(st.integers(-400, 400).map(lambda k: k / 8), min_size=n, max_size=n))
    if long:
        c = draw(gen.long_curve(nd=nd, spread=(3,), repeats=True, parametric=True, dtypes=('int64',)))
        p, t = c['p'], c['t']
    ops = draw(st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 63), st.integers(-9, 9), st.integers(-9, 9)), min_size=1, max_size=8))
    end = draw(st.one_of(st.none(), st.tuples(st.sampled_from(BREAKING), st.integers(0, 63))))
    return {'p': p, 'nd': nd, 't': t, 'dt': draw(st.sampled_from(['float64', 'float64', 'float32', 'int32'])),
            'ops': [list(o) for o in ops], 'end': list(end) if end else None}


def check(c, model, what):
    """the curve is parametric and carries exactly the model's (point, parameter) pairs in order"""
    require(c.isparametric is True, '{}: the curve is not parametric', what)
    same(c.data, [p for p, _ in model] if model else np.zeros((0, c.ndim)), f'{what}: points')
    same(c.t, [t for _, t in model], f'{what}: parametrization')
    require(c.t.dtype == np.float64, '{}: t dtype {}', what, c.t.dtype)
    for i in range(c.size):
        require(c[i].t == model[i][1], '{}: t of point {} is {} instead of {}', what, i, c[i].t, model[i][1])


def noise(k, n, nd):
    return [[float((k * 7 + i * 3 + j) % 5 - 2) for j in range(nd)] for i in range(n)]


@sub('C08', hist(), quick=1300)
def history(case, ev):
    """sequences of parametrization-keeping operations on (point, parameter) pairs, optionally ended by a breaking one"""
    nd, dt = case['nd'], case['dt']
    arr = lambda rows: np.array(rows, dtype=dt).reshape(len(rows), nd)   # noqa: E731
    c = Curve(arr(case['p']), tdata=case['t'])
    m = [(tuple(p), t) for p, t in zip(case['p'], case['t'])]
    check(c, m, 'new curve')
    for op, k, a, b in case['ops']:
        n = len(m)
        if op == 'copy':
            c = copy.copy(c) if k % 2 else copy.deepcopy(c)
        elif op == 'curve_of':
            c = Curve(c)
        elif op == 'slice':
            s = slice(a if k & 1 else None, b if k & 2 else None, [1, 2, -1, None][k // 4 % 4])
            c, m = c[s], m[s]
        elif op in ('list', 'dup') and n:
            idx = np.array([(a + i * b) % (2 * n) - n for i in range(k % 5)], dtype=int)
            if op == 'dup':
                idx = list(range(n)) + [a % n]
            c, m = c[idx], [m[i] for i in idx]
        elif op == 'mask':
            mask = [(k >> (i % 6)) & 1 == 1 for i in range(n)]
            if n:
                c, m = c[mask], [x for x, f in zip(m, mask) if f]
        elif op == 'delete' and n:
            i = a % (2 * n) - n
            c = c.delete(i)
            m = [x for j, x in enumerate(m) if j != i % n]
        elif op == 'delete_list' and n:
            idx = [a % n, b % n]
            form = k % 6
            if form == 4:
                idx = [j % n for j in range(a, a + 3)]
            elif form == 5:
                idx = [a % n, a % n, b % n - n]
            if form == 3:
                mask = np.zeros(n, dtype=bool)
                mask[idx] = True
                c = c.delete(mask)
            else:
                c = c.delete([list, None, list, None, np.array, list][form](idx) if form != 1 else np.array(idx, dtype=np.int16))
            idx = [j % n for j in idx]
            m = [x for j, x in enumerate(m) if j not in idx]
        elif op == 'delete_slice':
            s = slice(a if k & 1 else None, b if k & 2 else None, [1, 2, None][k // 4 % 3])
            c = c.delete(s)
            gone = set(range(*s.indices(n)))
            m = [x for j, x in enumerate(m) if j not in gone]
        elif op == 'reverse':
            c, m = c.reverse(), m[::-1]
        elif op == 'unique':
            c = c.unique()
            seen, out = set(), []
            for x in m:
                if x[0] not in seen:
                    seen.add(x[0])
                    out.append(x)
            m = out
        elif op == 'drop':
            c = c.drop(lambda d: d[:, 0] == a % 3)
            m = [x for x in m if x[0][0] != a % 3]
        elif op == 'nan_drop':
            c = c.drop(np.isnan)
        elif op == 'nonsingular':
            c = c.nonsingular()
            m = [x for j, x in enumerate(m) if j == 0 or x[0] != m[j - 1][0]]
        elif op == 'coorient':
            if n > 1:
                ax = (0, 1) if k % 2 else (nd - 1, 0)
                det = m[0][0][ax[0]] * m[-1][0][ax[1]] - m[-1][0][ax[0]] * m[0][0][ax[1]]
                if det <= 0:
                    m = m[::-1]
                c = c.coorientplane(*ax)
            else:
                c = c.coorientplane()
        elif op == 'concat':
            q = noise(k, k % 3, nd)
            t = [a + i * 0.5 for i in range(k % 3)]
            c = c + Curve(arr(q), tdata=t)
            m = m + [(tuple(x), y) for x, y in zip(q, t)]
        elif op == 'self_concat':
            c, m = c + c, m + m
        if len(m) > 400:
            c, m = c[:7], m[:7]
        m = [(tuple(p), t) for p, t in m]
        check(c, m, op)
        ev.label(op)
    ev.nontrivial(len(case['ops']) >= 2 and len(case['p']) > 1)
    if case['end']:
        op, k = case['end']
        n = len(m)
        p = Point(noise(k, 1, nd)[0])
        plain = Curve(arr(noise(k, 3, nd)))
        require(not plain.isparametric, 'a curve without tdata is parametric')
        if op == 'insert':
            d = c.insert(k % (n + 1), p)
        elif op == 'insert_curve':
            d = c.insert(k % (n + 1), Curve(arr(noise(k, 2, nd)), tdata=[1, 2]))
        elif op == 'append':
            d = c.append(p)
        elif op == 'append_curve':
            d = c.append(Curve(arr(noise(k, 2, nd)), tdata=[1, 2]))
        elif op == 'insertdim':
            d = c.insertdim(k % (nd + 1))
        elif op == 'appenddim':
            d = c.appenddim()
        elif op == 'deletedim':
            d = c.deletedim(k % nd) if nd > 2 else None
        elif op == 'smooth':
            d = c.smooth('window', window_size=3) if n else None
        elif op == 'savgol':
            d = c.smooth('savgol', window_length=3, polyorder=1) if n >= 3 else None
        elif op == 'concat_plain':
            d = c + plain
        else:
            d = plain + c
        if d is not None:
            require(d.isparametric is False, '{}: the result is parametric', op)
            same(d.t, d.cumarclen, f'{op}: t of a non-parametric curve')
            ev.label('end ' + op)
        check(c, m, f'receiver of {op}')


@sub('C08', st.one_of(gen.curve(0, 10, parametric=False, ndims=(2, 3, 4), dtypes=('float64', 'float32', 'int32', 'uint8')), gen.walk(2, 9, parametric=False)), quick=500)
def natural(case, ev):
    """without tdata t is the cumulative arc length; isparametric is False and stays False through every operation"""
    c = gen.make(case)
    require(c.isparametric is False, 'isparametric {}', c.isparametric)
    expected = [0.0] if case['p'] else []
    for l in oracle.chord_lengths(case['p']):
        expected.append(expected[-1] + l)
    tol = 1e-5 if case['dt'] == 'float32' else 1e-12
    close(c.t, expected, 't of a non-parametric curve', rtol=tol)
    for i in range(c.size):
        close(c[i].t, expected[i], f't of point {i}', rtol=tol, atol=tol * max(expected))
    for name, d in [('reverse', c.reverse()), ('slice', c[1:]), ('copy', copy.copy(c)), ('concat', c + c), ('unique', c.unique()),
                    ('drop', c.drop(np.isnan)), ('nonsingular', c.nonsingular()), ('delete', c.delete(slice(0, 1))),
                    ('coorient', c.coorientplane())]:
        require(d.isparametric is False, '{} of a non-parametric curve is parametric', name)
        same(d.t, d.cumarclen, f't after {name}')
    ev.nontrivial(c.size > 2)


@st.composite
def interp_cases(draw):
    c = draw(gen.walk(3, 9, parametric=None))
    return {'c': c, 'method': draw(st.sampled_from(['linear', 'cubic', 'hermite', 'akima', 'pchip', 'csaps'])),
            'n': draw(st.integers(2, 12)), 'grid': draw(st.booleans()), 'g': draw(gen.increasing(draw(st.integers(2, 9))))}


@sub('C08', interp_cases(), quick=500)
def interpolated(case, ev):
    """interpolation of a parametric curve yields the grid as parametrization, of a plain one a plain curve"""
    c = gen.make(case['c'])
    if case['grid']:
        g = np.array(case['g'])
        lo, hi = float(c.t[0]), float(c.t[-1])
        g = lo + (g - g[0]) / (g[-1] - g[0]) * (hi - lo)
        spec = g
    else:
        spec, g = case['n'], np.linspace(c.t[0], c.t[-1], case['n'])
    d = c.interpolate(spec, case['method'])
    require(d.isparametric == c.isparametric, 'isparametric {} after interpolation', d.isparametric)
    require(d.size == len(g), '{} points for {} grid values', d.size, len(g))
    if c.isparametric:
        same(d.t, g, 'parametrization of the interpolated curve')
        ev.label('parametric')
    else:
        same(d.t, d.cumarclen, 't of the interpolated curve')
    ev.nontrivial(c.isparametric)


@sub('C08', gen.curve(1, 6, ndims=(2, 3)), quick=150)
def rejects(case, ev):
    """a parametrization of another size or shape is refused"""
    a = gen.array(case)
    n = len(a)
    for bad in (np.zeros(n + 1), np.zeros(n - 1), np.zeros((n, 2)), np.zeros((n, 1)), np.zeros((1, n)) if n else None, 5.0):
        if bad is None:
            continue
        raises(ValueError, lambda: Curve(a, tdata=bad), f'tdata of shape {np.shape(bad)} for {n} points')
    ev.nontrivial()


sub('C08', hist(long=True), quick=100, name='history_long')(history)
sub('C08', gen.long_curve(parametric=False), quick=20, name='natural_long')(natural)

sub('C08', huge.curves(), quick=20, name='huge')(huge.parameters)
