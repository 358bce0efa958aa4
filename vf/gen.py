"""Generators of plain (JSON-able) cases."""
import numpy as np
from hypothesis import strategies as st

INT_DTYPES = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64']
FLOAT_DTYPES = ['float32', 'float64']


def sint(a, b):
    return st.integers(a, b)


TINY = st.integers(-2, 2)                                # many coincidences
SMALL = st.integers(-9, 9)
MEDIUM = st.integers(-1000, 1000)
DYADIC = st.integers(-512, 512).map(lambda k: k / 16)    # exactly representable, exact sums and products
FINE = st.integers(-10 ** 6, 10 ** 6).map(lambda k: k / 1000)     # generic reals with three decimals
COORDS = st.one_of(TINY, SMALL, DYADIC, FINE)


@st.composite
def one_coord_kind(draw, kinds):
    return draw(st.sampled_from(kinds))


ZEROS = st.sampled_from([0.0, -0.0, 1.0, -1.0])         # the sign of zero is no part of its value
KINDS = {'zeros': ZEROS, 'tiny': TINY, 'small': SMALL, 'medium': MEDIUM, 'dyadic': DYADIC, 'fine': FINE}


ODD64 = [float('nan'), float('inf'), -float('inf'), -0.0, 0.0, 1.0, -1.0, 1e-9, -1e-300, 5e-324, 1e15, -1e300, 1.7976931348623157e308, 0.1, 2.0 ** 53 + 2]
ODD32 = [float(v) for v in np.array([np.nan, np.inf, -np.inf, -0.0, 0.0, 1.0, -1.0, 1e-9, 1e-45, -1e38, 0.1, 16777217], dtype='float32')]
ALL_DTYPES = FLOAT_DTYPES + INT_DTYPES


def odd_elem(dtype):
    """Values a copy has to keep: undefined, infinite, of any magnitude; integers up to the ends of the type."""
    if dtype in FLOAT_DTYPES:
        return st.one_of(st.sampled_from(ODD64 if dtype == 'float64' else ODD32), TINY)
    return elem_for(dtype, 'full')


@st.composite
def odd_curve(draw, lo=0, hi=8, ndims=(2, 3, 4), dtypes=ALL_DTYPES, parametric=None, nd=None):
    """A curve case with undefined, infinite, huge, tiny and signed zero coordinates and every element type."""
    nd, dt = nd or draw(st.sampled_from(ndims)), draw(st.sampled_from(dtypes))
    p = draw(st.lists(st.lists(odd_elem(dt), min_size=nd, max_size=nd), min_size=lo, max_size=hi))
    par = draw(st.booleans()) if parametric is None else parametric
    t = draw(st.lists(st.sampled_from([x for x in ODD64 if x == x]), min_size=len(p), max_size=len(p))) if par else None
    return {'p': p, 'nd': nd, 'dt': dt, 't': t}


@st.composite
def pointlist(draw, nd, lo=0, hi=12, kinds=('tiny', 'small', 'dyadic', 'fine')):
    elem = KINDS[draw(st.sampled_from(kinds))]
    return draw(st.lists(st.lists(elem, min_size=nd, max_size=nd), min_size=lo, max_size=hi))


@st.composite
def point(draw, nd, kinds=('tiny', 'small', 'dyadic', 'fine')):
    elem = KINDS[draw(st.sampled_from(kinds))]
    return draw(st.lists(elem, min_size=nd, max_size=nd))


DTYPE_RANGE = {'int8': (-128, 127), 'uint8': (0, 255), 'int16': (-2 ** 15, 2 ** 15 - 1), 'uint16': (0, 2 ** 16 - 1),
               'int32': (-2 ** 31, 2 ** 31 - 1), 'uint32': (0, 2 ** 32 - 1),
               # integers beyond 2**53 are not exactly representable in float64, where all geometry is done
               'int64': (-2 ** 50, 2 ** 50), 'uint64': (0, 2 ** 50)}


FULL_RANGE = dict(DTYPE_RANGE, int64=(-2 ** 63, 2 ** 63 - 1), uint64=(0, 2 ** 64 - 1))


def elem_for(dtype, wide=False):
    """Elements which the dtype represents exactly; wide: up to the ends of its range ('full': also beyond 2**53)."""
    if dtype in DTYPE_RANGE:
        a, b = (FULL_RANGE if wide == 'full' else DTYPE_RANGE)[dtype]
        if wide == 'full' and b > 2 ** 53:
            near = st.sampled_from([2 ** 53, 2 ** 62, b]).flatmap(lambda m: st.integers(m - 3, min(m + 3, b)))
            return st.one_of(st.integers(a, b), near, st.integers(max(a, -5), min(b, 5)))
        if wide:
            return st.one_of(st.integers(a, b), st.sampled_from([a, b]), st.integers(max(a, -5), min(b, 5)))
        return st.integers(max(a, -9), min(b, 9))
    return st.one_of(SMALL, DYADIC) if not wide else st.one_of(TINY, SMALL, DYADIC)


@st.composite
def curve(draw, lo=0, hi=10, ndims=(2, 3, 4), dtypes=('float64',), parametric=None, kinds=None, wide=False, nd=None):
    """A curve case: {'p': points, 'nd': dimension, 'dt': dtype, 't': parameters or None}."""
    nd = nd or draw(st.sampled_from(ndims))
    dt = draw(st.sampled_from(dtypes))
    if dt == 'float64' and kinds:
        elem = KINDS[draw(st.sampled_from(kinds))]
    else:
        elem = elem_for(dt, wide)
    p = draw(st.lists(st.lists(elem, min_size=nd, max_size=nd), min_size=lo, max_size=hi))
    if len(p) > 2 and draw(st.integers(0, 7)) == 7:          # a closed curve
        p[-1] = list(p[0])
    par = draw(st.booleans()) if parametric is None else parametric
    t = None
    if par:
        t = draw(st.lists(st.integers(-400, 400).map(lambda k: k / 8), min_size=len(p), max_size=len(p)))
        how = draw(st.integers(0, 7))
        if how == 7:            # one step per point
            t = [(t[0] if t else 0.0) + k for k in range(len(t))]
        elif how == 6:
            t.sort()
    return {'p': p, 'nd': nd, 'dt': dt, 't': t}


def array(case):
    return np.array(case['p'], dtype=case['dt']).reshape(len(case['p']), case['nd'])


def make(case):
    """The real curve of a curve case."""
    from skcurve import Curve
    return Curve(array(case), tdata=None if case['t'] is None else list(case['t']))


@st.composite
def either(draw, k, often, seldom):
    """The first strategy, one time in k the second."""
    return draw(seldom if draw(st.integers(1, k)) == k else often)


@st.composite
def length_like(draw, p):
    """Parameters given explicitly which are the lengths along the points p, agree with them at the end, or in range only."""
    p = np.asarray(p, dtype=float)
    t = np.concatenate(([0.0], np.cumsum(np.sqrt(np.sum(np.diff(p, axis=0) ** 2, axis=1)))))
    how = draw(st.sampled_from(['same', 'end', 'range', 'even']))
    if how == 'end' and len(t) > 1:
        t[0] = t[1] / 2
    elif how == 'range':
        t += draw(st.sampled_from([-3.0, 0.5, 8.0]))
    elif how == 'even':
        t = np.linspace(0.0, t[-1], len(t))
    return t.tolist()


@st.composite
def increasing(draw, n, lo=1, hi=64, den=16):
    """n strictly increasing dyadic numbers with gaps in lo/den..hi/den."""
    start = draw(st.integers(-160, 160))
    out, v = [], start
    gaps = draw(st.lists(st.integers(lo, hi), min_size=max(n - 1, 0), max_size=max(n - 1, 0)))
    even = draw(st.integers(0, 9))
    if even >= 8 and lo <= den <= hi:       # evenly spaced, by one or by another step
        gaps = [den if even == 8 else gaps[0] if gaps else den] * len(gaps)
    for g in gaps:
        out.append(v / den)
        v += g
    out.append(v / den)
    return out[:n]


@st.composite
def walk(draw, lo=2, hi=12, ndims=(2, 3, 4), parametric=None, dt='float64', nd=None):
    """A curve without zero-length segments: non-zero integer steps scaled by a dyadic factor, plus an offset."""
    nd = nd or draw(st.sampled_from(ndims))
    n = draw(st.integers(lo, hi))
    scale = draw(st.sampled_from([1, 1, 1, 0.125, 16]))
    p = [draw(st.lists(st.integers(-20, 20), min_size=nd, max_size=nd))]
    for _ in range(n - 1):
        step = draw(st.lists(st.integers(-6, 6), min_size=nd, max_size=nd))
        if not any(step):
            step[draw(st.integers(0, nd - 1))] = 1
        p.append([a + b for a, b in zip(p[-1], step)])
    if n > 3 and draw(st.integers(0, 7)) == 7 and p[-2] != p[0]:           # a closed curve
        p[-1] = list(p[0])
    p = [[a * scale for a in q] for q in p]
    par = draw(st.booleans()) if parametric is None else parametric
    t = draw(increasing(n)) if par else None
    return {'p': p, 'nd': nd, 'dt': dt, 't': t}


# ------------------------------------------------------------------------------------------- long curves

@st.composite
def long_curve(draw, lo=40, hi=160, ndims=(2, 3, 4), dtypes=('float64',), parametric=None, spread=(1, 9, 200), repeats=False, nd=None):
    """A curve case of many points from a seeded generator: shrinking reduces the number of points and the seed."""
    nd, dt = nd or draw(st.sampled_from(ndims)), draw(st.sampled_from(dtypes))
    n, seed = draw(st.integers(lo, hi)), draw(st.integers(0, 2 ** 32 - 1))
    r = draw(st.sampled_from(spread))
    par = draw(st.booleans()) if parametric is None else parametric
    rs = np.random.RandomState(seed)
    a, b = DTYPE_RANGE.get(dt, (-r, r))
    p = rs.randint(max(a, -r), min(b, r) + 1, (n, nd))
    if repeats:         # runs of equal points
        p = p[np.sort(rs.randint(0, n, n))]
    p = p.tolist() if dt in DTYPE_RANGE else (p / (1 if rs.randint(2) else 16)).tolist()
    t = (rs.randint(-4000, 4000, n) / 8).tolist() if par else None
    return {'p': p, 'nd': nd, 'dt': dt, 't': t}


@st.composite
def long_walk(draw, lo=40, hi=160, ndims=(2, 3, 4), parametric=None, dt='float64', nd=None):
    """A long curve without zero-length segments and with increasing parameters."""
    nd = nd or draw(st.sampled_from(ndims))
    n, seed = draw(st.integers(lo, hi)), draw(st.integers(0, 2 ** 32 - 1))
    scale = draw(st.sampled_from([1, 0.125, 16]))
    par = draw(st.booleans()) if parametric is None else parametric
    rs = np.random.RandomState(seed)
    step = rs.randint(-6, 7, (n, nd))
    step[~step.any(axis=1), rs.randint(nd)] = 1
    p = ((step.cumsum(axis=0) + rs.randint(-20, 21, nd)) * scale).tolist()
    t = ((rs.randint(-160, 161) + rs.randint(1, 65, n).cumsum()) / 16).tolist() if par else None
    return {'p': p, 'nd': nd, 'dt': dt, 't': t}


@st.composite
def scaled(draw, base, powers=(0, 0, 0, -100, -70, -40, -26, 26, 40, 80)):
    """The curve case with all coordinates multiplied by a power of two (exact)."""
    case = draw(base)
    k = draw(st.sampled_from(powers))
    if k and case['dt'] == 'float64':
        case = dict(case, p=[[x * 2.0 ** k for x in q] for q in case['p']])
    return case


@st.composite
def near_integers(draw, lo=2, hi=7, ndims=(2, 3), dtypes=('int64', 'uint64'), parametric=None):
    """Points of large integers which differ by one: equal as float64."""
    nd, dt = draw(st.sampled_from(ndims)), draw(st.sampled_from(dtypes))
    base = draw(st.lists(st.sampled_from([2 ** 53, 2 ** 60 + 1, 2 ** 62, 7]), min_size=nd, max_size=nd))
    p = draw(st.lists(st.lists(st.integers(0, 2), min_size=nd, max_size=nd), min_size=lo, max_size=hi))
    p = [[a + b for a, b in zip(base, q)] for q in p]
    par = draw(st.booleans()) if parametric is None else parametric
    t = draw(st.lists(st.integers(-400, 400).map(lambda k: k / 8), min_size=len(p), max_size=len(p))) if par else None
    return {'p': p, 'nd': nd, 'dt': dt, 't': t}
