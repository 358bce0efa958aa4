"""C24: smoothing applies the named filter to each coordinate."""
import numpy as np
from hypothesis import strategies as st

from vf import gen, huge, oracle
from vf.core import close, raises, require, same, sub
from skcurve import Curve, SmoothingError, get_smooth_method, smooth_methods
from skcurve._smooth import smooth

MODES = ['reflect', 'constant', 'nearest', 'mirror', 'wrap']
DTYPES = ['float64', 'float64', 'float64', 'float32', 'int8', 'uint8', 'int32', 'int64', 'uint16']


def cos_sum(coefs, k):
    if k == 1:
        return np.ones(1)
    x = 2 * np.pi * np.arange(k) / (k - 1)
    return sum(c * np.cos(i * x) for i, c in enumerate(coefs))


def window_values(kind, k):
    """The window function from its definition."""
    i = np.arange(k)
    if kind == 'hann':
        return cos_sum([0.5, -0.5], k)
    if kind == 'hamming':
        return cos_sum([0.54, -0.46], k)
    if kind == 'blackman':
        return cos_sum([0.42, -0.5, 0.08], k)
    if kind == 'flattop':
        return cos_sum([0.21557895, -0.41663158, 0.277263158, -0.083578947, 0.006947368], k)
    if kind == 'nuttall':
        return cos_sum([0.3635819, -0.4891775, 0.1365995, -0.0106411], k)
    if kind == 'cosine':
        return np.sin(np.pi * (i + 0.5) / k)
    if kind[0] == 'kaiser':
        return np.i0(kind[1] * np.sqrt(1 - (2 * i / (k - 1) - 1) ** 2)) if k > 1 else np.ones(1)
    if kind == 'boxcar':
        return np.ones(k)
    if kind == 'triang':
        return np.array([min(j + 1, k - j) for j in range(k)], dtype=float) if k % 2 else \
            np.array([min(2 * j + 1, 2 * (k - j) - 1) for j in range(k)], dtype=float)
    if kind == 'bartlett':
        return 1 - np.abs(2 * i / (k - 1) - 1) if k > 1 else np.ones(1)
    if kind[0] == 'gaussian':
        return np.exp(-0.5 * ((i - (k - 1) / 2) / kind[1]) ** 2)
    raise ValueError(kind)


WINDOWS = ['hann', 'hamming', 'blackman', 'boxcar', 'triang', 'bartlett', ['gaussian', 1.5], ['gaussian', 0.75], 'flattop', 'nuttall', 'cosine', ['kaiser', 3.0]]


def usable(kind, k):
    """Windows which end in zeros need more than two samples."""
    return k == 1 or k >= 3 or kind not in ('hann', 'blackman', 'bartlett', 'flattop', 'nuttall')


def spec(kind):
    return tuple(kind) if isinstance(kind, list) else kind


@st.composite
def curves(draw, lo=0, hi=14, dtypes=DTYPES):
    return draw(gen.curve(lo=lo, hi=hi, dtypes=dtypes, wide=True))


def scale(c):
    return float(np.max(np.abs(c.data.astype(float)), initial=0.0))


def check_kind(r, c, what):
    require(type(r) is Curve and r.size == c.size and r.ndim == c.ndim, '{}: {} of size {} and dimension {}', what, type(r).__name__, r.size, r.ndim)
    require(r.dtype == np.float64, '{}: type {}', what, r.dtype)
    require(not r.isparametric, '{}: parametric', what)


@sub('C24', st.fixed_dictionaries({'c': curves(), 'k': st.integers(1, 12), 'w': st.sampled_from(WINDOWS), 'mode': st.sampled_from(MODES),
                                   'cval': st.sampled_from([0.0, 0.0, 2.5, -7])}), quick=900)
def window(case, ev):
    """every coordinate becomes its moving average with the normalised named window and boundary mode"""
    if not usable(case['w'], case['k']):
        return
    c = gen.make(case['c'])
    y = gen.array(case['c']).astype(float)
    ref = oracle.convolve(y, window_values(case['w'], case['k']), case['mode'], case['cval'])
    kw = dict(window_size=case['k'], window_type=spec(case['w']), mode=case['mode'], cval=case['cval'])
    r = c.smooth('window', **kw)
    check_kind(r, c, 'window smoothing')
    tol = 1e-12 * (scale(c) + abs(case['cval']))
    close(r.data, ref, f'{case["w"]} window of {case["k"]} with {case["mode"]}', rtol=0, atol=tol)
    same(smooth(c, 'window', **kw).data, r.data, 'smooth() and Curve.smooth()')
    same(get_smooth_method('window')(c, **kw), r.data, 'the registered method and Curve.smooth()')
    ev.label(case['mode'], 'even' if case['k'] % 2 == 0 else 'odd', case['c']['dt'])
    ev.nontrivial(len(c) > 1 and case['k'] > 1 and not np.allclose(ref, y))


@sub('C24', st.fixed_dictionaries({'c': curves(), 'k': st.integers(1, 9)}), quick=250)
def window_defaults(case, ev):
    """by default: a symmetric Hann window with reflection at the ends"""
    if not usable('hann', case['k']):
        return
    c = gen.make(case['c'])
    y = gen.array(case['c']).astype(float)
    r = c.smooth('window', window_size=case['k'])
    check_kind(r, c, 'window smoothing')
    close(r.data, oracle.convolve(y, window_values('hann', case['k']), 'reflect', 0), 'window smoothing with the defaults', rtol=0, atol=1e-12 * scale(c))
    close(c.smooth('window', window_size=case['k'], mode='constant').data, oracle.convolve(y, window_values('hann', case['k']), 'constant', 0),
          'constant mode with the default value', rtol=0, atol=1e-12 * scale(c))
    ev.nontrivial(len(c) > 2 and case['k'] > 2)


@sub('C24', st.fixed_dictionaries({'c': curves(), 'w': st.one_of(st.lists(st.integers(1, 9), min_size=1, max_size=9), st.lists(st.integers(-4, 9), min_size=1, max_size=9)), 'mode': st.sampled_from(MODES),
                                   'cval': st.sampled_from([0.0, 3.0]), 'ret': st.sampled_from(['array', 'list', 'int'])}), quick=500)
def callable_window(case, ev):
    """a window function is called with the size, and its (asymmetric) values are used in convolution order"""
    c = gen.make(case['c'])
    y = gen.array(case['c']).astype(float)
    calls = []
    if sum(case['w']) == 0:
        return

    def fn(size):
        calls.append(size)
        v = case['w']
        return np.array(v, dtype=float) if case['ret'] == 'array' else np.array(v) if case['ret'] == 'int' else list(v)

    r = c.smooth('window', window_size=len(case['w']), window_type=fn, mode=case['mode'], cval=case['cval'])
    check_kind(r, c, 'window smoothing')
    require(calls == [len(case['w'])], 'the window function was called with {}', calls)
    close(r.data, oracle.convolve(y, case['w'], case['mode'], case['cval']), f'window {case["w"]} with {case["mode"]}', rtol=0,
          atol=1e-12 * (scale(c) + 3) * sum(map(abs, case['w'])) / abs(sum(case['w'])))
    ev.label('negative weights' if min(case['w']) < 0 else 'positive weights', 'asymmetric' if case['w'] != case['w'][::-1] else 'symmetric', case['mode'])
    ev.nontrivial(len(c) > 1 and len(case['w']) > 1)


@st.composite
def savgol_cases(draw):
    h = draw(st.integers(0, 5))
    k = 2 * h + 1
    order = draw(st.integers(0, min(k - 1, 5)))
    mode = draw(st.sampled_from(['default', 'interp', 'mirror', 'constant', 'nearest', 'wrap']))
    lo = k if mode in ('interp', 'default') else 1
    c = draw(curves(lo=lo, hi=max(lo + 6, 12)))
    return {'c': c, 'k': k, 'order': order, 'mode': mode, 'deriv': draw(st.sampled_from([0, 0, 1, 2, 3, 6])),
            'delta': draw(st.sampled_from([1, 1.0, 0.5, 2, 3.0])), 'cval': draw(st.sampled_from([0.0, 2.0]))}


@sub('C24', savgol_cases(), quick=900)
def savgol(case, ev):
    """every coordinate becomes the (derivative of the) local least-squares polynomial at its own position"""
    c = gen.make(case['c'])
    y = gen.array(case['c']).astype(float)
    kw = {'window_length': case['k'], 'polyorder': case['order'], 'deriv': case['deriv'], 'delta': case['delta'], 'cval': case['cval']}
    mode = 'interp' if case['mode'] == 'default' else case['mode']
    if case['mode'] != 'default':
        kw['mode'] = mode
    # the defaults: unit spacing, zeros outside of the curve
    if repr(kw['delta']) == '1':
        del kw['delta']
    if kw['cval'] == 0:
        del kw['cval']
    r = c.smooth('savgol', **kw)
    check_kind(r, c, 'savgol')
    ref = oracle.savgol(y, case['k'], case['order'], case['deriv'], case['delta'], mode, case['cval'])
    tol = (3e-6 if case['c']['dt'] == 'float32' else 1e-9) * (scale(c) + abs(case['cval'])) * 10 ** min(case['deriv'], 3)
    close(r.data, ref, f'savgol({kw})', rtol=0, atol=tol + 1e-12)
    same(smooth(c, 'savgol', **kw).data, r.data, 'smooth() and Curve.smooth()')
    if case['deriv'] == 0 and mode == 'interp':
        same(c.smooth('savgol', window_length=case['k'], polyorder=case['order']).data, r.data, 'savgol with the defaults')
    ev.label(mode, f'deriv {case["deriv"]}', case['c']['dt'])
    ev.nontrivial(case['k'] > 1 and case['order'] < case['k'] - 1 and len(c) > 1)


@st.composite
def poly_curves(draw):
    nd = draw(st.sampled_from([2, 3, 4]))
    h = draw(st.integers(1, 4))
    order = draw(st.integers(0, min(2 * h, 4)))
    n = draw(st.integers(2 * h + 1, 2 * h + 9))
    co = draw(st.lists(st.lists(st.integers(-4, 4), min_size=order + 1, max_size=order + 1), min_size=nd, max_size=nd))
    return {'h': h, 'order': order, 'n': n, 'co': co, 'deriv': draw(st.integers(0, 2)), 'delta': draw(st.sampled_from([1.0, 0.5, 2.0]))}


@sub('C24', poly_curves(), quick=400)
def polynomials(case, ev):
    """savgol reproduces polynomials up to its order (and their derivatives) everywhere; windows reproduce constants, and
    straight lines away from the ends"""
    n, delta = case['n'], case['delta']
    x = (np.arange(n) - n // 2) * delta
    polys = [np.polynomial.Polynomial(c) for c in case['co']]
    c = Curve(np.stack([p(x) for p in polys], axis=1))
    tol = 1e-9 * (1 + scale(c)) / delta ** case['deriv'] * 10
    ref = np.stack([(p.deriv(case['deriv']) if case['deriv'] else p)(x) + 0 * x for p in polys], axis=1)
    got = c.smooth('savgol', window_length=2 * case['h'] + 1, polyorder=case['order'], deriv=case['deriv'], delta=delta)
    close(got.data, ref, f'derivative {case["deriv"]} of a polynomial of degree {case["order"]}', rtol=0, atol=tol)
    k = 2 * case['h'] + 1
    if case['order'] == 0:
        for w in ('hamming', 'boxcar', 'triang'):
            for mode in ('reflect', 'nearest', 'mirror', 'wrap'):
                close(c.smooth('window', window_size=k, window_type=w, mode=mode).data, c.data, f'constant curve, {w} {mode}', rtol=0, atol=1e-12 * (1 + scale(c)))
            close(c.smooth('window', window_size=k - 1, window_type=w).data, c.data, f'constant curve, {w} of even size', rtol=0, atol=1e-12 * (1 + scale(c)))
    if case['order'] == 1:
        h = case['h']
        close(c.smooth('window', window_size=k, window_type='hann').data[h:n - h], c.data[h:n - h], 'interior of a straight line', rtol=0, atol=1e-12 * (1 + scale(c)))
    ev.label(f'order {case["order"]}', f'deriv {case["deriv"]}')
    ev.nontrivial(any(any(q[1:]) for q in case['co']) or case['order'] == 0)


@st.composite
def transforms(draw):
    c = draw(gen.curve(lo=5, hi=12, dtypes=('float64',)))
    return {'c': c, 's': draw(st.lists(gen.DYADIC, min_size=c['nd'], max_size=c['nd'])), 'f': draw(st.sampled_from([2.0, -1.0, 0.5, -3.0])),
            'm': draw(st.sampled_from([['savgol', {'window_length': 5, 'polyorder': 2}], ['savgol', {'window_length': 3, 'polyorder': 1, 'mode': 'mirror'}],
                                       ['savgol', {'window_length': 5, 'polyorder': 3, 'mode': 'nearest'}],
                                       ['window', {'window_size': 5}], ['window', {'window_size': 4, 'window_type': 'hamming', 'mode': 'nearest'}],
                                       ['window', {'window_size': 7, 'window_type': 'boxcar', 'mode': 'mirror'}],
                                       ['window', {'window_size': 3, 'window_type': ['gaussian', 1.0], 'mode': 'wrap'}]])),
            'rep': draw(st.integers(2, 3))}


@sub('C24', transforms(), quick=400)
def equivariance(case, ev):
    """smoothing commutes with translation, scaling, selecting coordinates and (odd windows) reversal, and repeats"""
    c = gen.make(case['c'])
    name, params = case['m'][0], {k: spec(v) for k, v in case['m'][1].items()}
    r = c.smooth(name, **params).data
    s, f = np.array(case['s']), case['f']
    tol = 1e-10 * (1 + scale(c) * abs(f) + np.max(np.abs(s)))
    close(Curve(c.data + s).smooth(name, **params).data, r + s, f'{name} of the translated curve', rtol=0, atol=tol)
    close(Curve(c.data * f).smooth(name, **params).data, r * f, f'{name} of the scaled curve', rtol=0, atol=tol)
    close(Curve(c.data[:, ::-1]).smooth(name, **params).data, r[:, ::-1], f'{name} with permuted coordinates', rtol=0, atol=tol)
    if params.get('window_size', 1) % 2:
        close(c.reverse().smooth(name, **params).data, r[::-1], f'{name} of the reversed curve', rtol=0, atol=tol)
    cur, step = c, c.data
    for _ in range(case['rep']):
        cur = cur.smooth(name, **params)
        step = Curve(step).smooth(name, **params).data
    close(cur.data, step, f'{name} applied {case["rep"]} times', rtol=0, atol=tol)
    ev.label(name)
    ev.nontrivial(not np.allclose(r, c.data))


def bad_fn(size):
    raise RuntimeError('no window today')


BAD = [
    ('window', dict(window_size=0), SmoothingError),
    ('window', dict(window_size=-3), ValueError),
    ('window', dict(window_size=2.5), (ValueError, TypeError)),
    ('window', dict(window_size='3'), (ValueError, TypeError, SmoothingError)),
    ('window', dict(window_size=3, window_type='no such window'), ValueError),
    ('window', dict(window_size=3, window_type=bad_fn), ValueError),
    ('window', dict(window_size=3, mode='no such mode'), SmoothingError),
    ('window', dict(), TypeError),
    ('window', dict(window_length=3), TypeError),
    ('window', dict(window_size=3, size=3), TypeError),
    ('savgol', dict(window_length=4, polyorder=2), ValueError),
    ('savgol', dict(window_length=3, polyorder=3), ValueError),
    ('savgol', dict(window_length=3, polyorder=7), ValueError),
    ('savgol', dict(window_length=3, polyorder=1, mode='no such mode'), ValueError),
    ('savgol', dict(window_length=3), TypeError),
    ('savgol', dict(polyorder=3), TypeError),
    ('savgol', dict(window_length=3, polyorder=1, window=2), TypeError),
    ('savgol', dict(window_length=101, polyorder=1), (TypeError, ValueError)),
    ('no such method', dict(), NameError),
    ('', dict(window_size=3), NameError),
    ('Window', dict(window_size=3), NameError),
]


@sub('C24', st.fixed_dictionaries({'c': curves(lo=3, hi=8), 'k': st.integers(0, len(BAD) - 1)}), quick=300)
def rejects(case, ev):
    """invalid parameters raise and leave the curve alone"""
    c = gen.make(case['c'])
    before, names = c.data.copy(), smooth_methods()
    name, params, exc = BAD[case['k']]
    raises(exc, lambda: c.smooth(name, **params), f'smooth({name!r}, {params})')
    raises(exc, lambda: smooth(c, name, **params), f'smooth(curve, {name!r}, {params})')
    same(c.data, before, 'data after a failed smoothing')
    require(smooth_methods() == names, 'methods after a failed smoothing: {}', smooth_methods())
    ev.label(name or 'empty name')
    ev.nontrivial()


LONG = gen.long_curve(dtypes=DTYPES)
sub('C24', st.fixed_dictionaries({'c': LONG, 'k': st.integers(1, 40), 'w': st.sampled_from(WINDOWS[:6] + [['gaussian', 5.0]]), 'mode': st.sampled_from(MODES),
                                  'cval': st.sampled_from([0.0, 2.5])}), quick=30, name='window_long')(window)
sub('C24', st.fixed_dictionaries({'c': LONG, 'k': st.integers(1, 9)}), quick=15, name='window_defaults_long')(window_defaults)

sub('C24', huge.curves(300, 3000), quick=20, name='huge')(huge.smoothing)
