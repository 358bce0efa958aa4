"""Reference computations.  Nothing here imports the library under test."""
from fractions import Fraction as F
import math

import numpy as np


# ------------------------------------------------------------------------------------------- exact vectors

def fv(p):
    return [F(x) for x in p]


def vsub(a, b):
    return [x - y for x, y in zip(a, b)]


def vadd(a, b):
    return [x + y for x, y in zip(a, b)]


def vmul(a, k):
    return [x * k for x in a]


def vdot(a, b):
    return sum((x * y for x, y in zip(a, b)), F(0))


def rank(vectors):
    """Exact rank of a list of vectors."""
    rows = [fv(v) for v in vectors]
    r = 0
    ncol = len(rows[0]) if rows else 0
    for c in range(ncol):
        piv = next((i for i in range(r, len(rows)) if rows[i][c] != 0), None)
        if piv is None:
            continue
        rows[r], rows[piv] = rows[piv], rows[r]
        for i in range(r + 1, len(rows)):
            if rows[i][c] != 0:
                k = rows[i][c] / rows[r][c]
                rows[i] = [x - k * y for x, y in zip(rows[i], rows[r])]
        r += 1
    return r


def affine_rank(points):
    """Dimension of the affine hull of the points: 0 a point, 1 a line, 2 a plane."""
    pts = [fv(p) for p in points]
    return rank([vsub(p, pts[0]) for p in pts[1:]]) if len(pts) > 1 else 0


def sqrt_f(x):
    """Square root of a Fraction as a float, accurate for very small and large values."""
    x = F(x)
    if x == 0:
        return 0.0
    k = (x.numerator.bit_length() - x.denominator.bit_length()) // 2
    return math.ldexp(math.sqrt(float(x / F(4) ** k)), k)


# ------------------------------------------------------------------------------------------- segments

def t_of_closest(p, a, b):
    """Parameter in [0, 1] of the point of the segment ab closest to p."""
    d = vsub(b, a)
    dd = vdot(d, d)
    if dd == 0:
        return F(0)
    return min(max(vdot(vsub(p, a), d) / dd, F(0)), F(1))


def dist2_point_segment(p, a, b):
    p, a, b = fv(p), fv(a), fv(b)
    q = vadd(a, vmul(vsub(b, a), t_of_closest(p, a, b)))
    r = vsub(p, q)
    return vdot(r, r)


def dist2_segments(a, b, c, d):
    """Exact squared minimum distance of two segments: a convex quadratic over the unit square has its minimum at the
    inner stationary point or on one of the four edges."""
    a, b, c, d = fv(a), fv(b), fv(c), fv(d)
    best = min(dist2_point_segment(a, c, d), dist2_point_segment(b, c, d),
               dist2_point_segment(c, a, b), dist2_point_segment(d, a, b))
    u, v, w = vsub(b, a), vsub(d, c), vsub(a, c)
    uu, uv, vv, uw, vw = vdot(u, u), vdot(u, v), vdot(v, v), vdot(u, w), vdot(v, w)
    det = uu * vv - uv * uv
    if det != 0:
        s = (uv * vw - vv * uw) / det
        t = (uu * vw - uv * uw) / det
        if 0 <= s <= 1 and 0 <= t <= 1:
            r = vadd(w, vsub(vmul(u, s), vmul(v, t)))
            best = min(best, vdot(r, r))
    return best


def is_parallel(a, b, c, d):
    return rank([vsub(fv(b), fv(a)), vsub(fv(d), fv(c))]) <= 1


def is_collinear(points):
    return affine_rank(points) <= 1


def is_coplanar(points):
    return affine_rank(points) <= 2


def overlap(a, b, c, d):
    """Common part of two collinear segments: (lo, hi) end points in the direction order of a line, or None."""
    a, b, c, d = fv(a), fv(b), fv(c), fv(d)
    u = vsub(b, a)
    if not any(u):
        u = vsub(d, c)
    if not any(u):
        return (a, a) if a == c else None
    uu = vdot(u, u)
    par = [(vdot(vsub(p, a), u) / uu, p) for p in (a, b, c, d)]
    key = lambda x: x[0]
    lo = max(min(par[0], par[1], key=key), min(par[2], par[3], key=key), key=key)
    hi = min(max(par[0], par[1], key=key), max(par[2], par[3], key=key), key=key)
    return (lo[1], hi[1]) if lo[0] <= hi[0] else None


def intersect(a, b, c, d):
    """('none',) / ('point', p, s, t) / ('overlap', lo, hi) of two closed segments."""
    a, b, c, d = fv(a), fv(b), fv(c), fv(d)
    if is_collinear([a, b, c, d]):
        o = overlap(a, b, c, d)
        return ('overlap',) + o if o else ('none',)
    u, v, w = vsub(b, a), vsub(d, c), vsub(c, a)
    if rank([u, v]) < 2 or rank([u, v, w]) > 2:
        return ('none',)
    uu, uv, vv, uw, vw = vdot(u, u), vdot(u, v), vdot(v, v), vdot(u, w), vdot(v, w)
    det = uu * vv - uv * uv
    s = (vv * uw - uv * vw) / det
    t = (uv * uw - uu * vw) / det
    if 0 <= s <= 1 and 0 <= t <= 1:
        return ('point', vadd(a, vmul(u, s)), s, t)
    return ('none',)


# ------------------------------------------------------------------------------------------- finite differences

def grad(y):
    """The second-order finite difference operator along the rows of an M x N array."""
    y = np.asarray(y, dtype=np.float64)
    m = y.shape[0]
    g = np.zeros(y.shape, dtype=np.float64)
    if m == 2:
        g[0] = g[1] = y[1] - y[0]
    elif m > 2:
        for i in range(1, m - 1):
            g[i] = (y[i + 1] - y[i - 1]) / 2
        g[0] = -1.5 * y[0] + 2 * y[1] - 0.5 * y[2]
        g[-1] = 1.5 * y[-1] - 2 * y[-2] + 0.5 * y[-3]
    return g


def grad_exact(rows):
    """The same operator on rows of Fractions."""
    m = len(rows)
    if m == 0:
        return []
    if m == 1:
        return [[F(0)] * len(rows[0])]
    if m == 2:
        d = vsub(rows[1], rows[0])
        return [d, list(d)]
    half = F(1, 2)
    out = [[-3 * half * a + 2 * b - half * c for a, b, c in zip(*rows[:3])]]
    out += [vmul(vsub(rows[i + 1], rows[i - 1]), half) for i in range(1, m - 1)]
    out.append([3 * half * a - 2 * b + half * c for a, b, c in zip(rows[-1], rows[-2], rows[-3])])
    return out


def chord_lengths(points):
    pts = [fv(p) for p in points]
    return [sqrt_f(vdot(vsub(b, a), vsub(b, a))) for a, b in zip(pts, pts[1:])]


# ------------------------------------------------------------------------------------------- interpolation schemes

def locate(t, x):
    """Index of the interval of the knots t used for x (end intervals extrapolate)."""
    i = int(np.searchsorted(t, x, side='right')) - 1
    return min(max(i, 0), len(t) - 2)


def linear(t, y, grid):
    out = []
    for x in grid:
        i = locate(t, x)
        w = (x - t[i]) / (t[i + 1] - t[i])
        out.append(y[i] + w * (y[i + 1] - y[i]))
    return np.array(out)


def hermite(t, y, dy, grid):
    """Piecewise cubic with the values y and derivatives dy at the knots."""
    out = []
    for x in grid:
        i = locate(t, x)
        h = t[i + 1] - t[i]
        s = (x - t[i]) / h
        out.append((1 + 2 * s) * (1 - s) ** 2 * y[i] + s * (1 - s) ** 2 * h * dy[i]
                   + s * s * (3 - 2 * s) * y[i + 1] + s * s * (s - 1) * h * dy[i + 1])
    return np.array(out)


def cubic_slopes(t, y, bc):
    """Knot derivatives of the cubic spline with boundary conditions 'natural', 'clamped' or 'not-a-knot'."""
    n = len(t)
    h = np.diff(t)
    d = np.diff(y, axis=0) / h[:, None]
    a = np.zeros((n, n))
    b = np.zeros((n, y.shape[1]))
    for i in range(1, n - 1):
        a[i, i - 1], a[i, i], a[i, i + 1] = h[i], 2 * (h[i - 1] + h[i]), h[i - 1]
        b[i] = 3 * (h[i] * d[i - 1] + h[i - 1] * d[i])
    if bc == 'natural':
        a[0, 0], a[0, 1], b[0] = 2, 1, 3 * d[0]
        a[-1, -1], a[-1, -2], b[-1] = 2, 1, 3 * d[-1]
    elif bc == 'clamped':
        a[0, 0] = a[-1, -1] = 1
    elif bc == 'not-a-knot' and n > 3:
        # the third derivative, 6 (s_i + s_{i+1} - 2 d_i) / h_i^2, is continuous at the second and last but one knot
        for row, i in ((0, 0), (n - 1, n - 3)):
            a[row, i] += h[i + 1] ** 2
            a[row, i + 1] += h[i + 1] ** 2 - h[i] ** 2
            a[row, i + 2] -= h[i] ** 2
            b[row] = 2 * (h[i + 1] ** 2 * d[i] - h[i] ** 2 * d[i + 1])
    else:
        raise ValueError(bc)
    return np.linalg.solve(a, b)


def pchip_slopes(t, y):
    """Fritsch-Butland monotone slopes of one coordinate."""
    n = len(t)
    h = np.diff(t)
    d = np.diff(y) / h
    if n == 2:
        return np.array([d[0], d[0]])
    s = np.zeros(n)
    for i in range(1, n - 1):
        if d[i - 1] * d[i] > 0:
            w1, w2 = 2 * h[i] + h[i - 1], h[i] + 2 * h[i - 1]
            s[i] = (w1 + w2) / (w1 / d[i - 1] + w2 / d[i])

    def edge(h0, h1, d0, d1):
        v = ((2 * h0 + h1) * d0 - h0 * d1) / (h0 + h1)
        if np.sign(v) != np.sign(d0):
            return 0.0
        if np.sign(d0) != np.sign(d1) and abs(v) > 3 * abs(d0):
            return 3 * d0
        return v
    s[0] = edge(h[0], h[1], d[0], d[1])
    s[-1] = edge(h[-1], h[-2], d[-1], d[-2])
    return s


def akima_slopes(t, y):
    """Akima slopes of one coordinate and a flag which knots are well conditioned."""
    n = len(t)
    m = np.zeros(n + 3)
    m[2:-2] = np.diff(y) / np.diff(t)
    m[1] = 2 * m[2] - m[3]
    m[0] = 2 * m[1] - m[2]
    m[-2] = 2 * m[-3] - m[-4]
    m[-1] = 2 * m[-2] - m[-3]
    dm = np.abs(np.diff(m))
    s = np.zeros(n)
    w = np.zeros(n)
    for i in range(n):
        w1, w2 = dm[i + 2], dm[i]
        w[i] = w1 + w2
        if w[i] > 0:
            s[i] = (w1 * m[i + 1] + w2 * m[i + 2]) / w[i]
        else:
            s[i] = (m[i + 1] + m[i + 2]) / 2
    top = max(w) if n else 0
    clear = (w > 1e-6 * top) | (top == 0) | (w == 0)
    return s, clear


def smoothing_values(t, y, w, p):
    """Values at the knots of the natural cubic spline which minimises p*sum(w (y-f)^2) + (1-p)*int f''^2."""
    n = len(t)
    h = np.diff(t)
    q = np.zeros((n, n - 2))
    r = np.zeros((n - 2, n - 2))
    for j in range(n - 2):
        q[j, j] = 1 / h[j]
        q[j + 1, j] = -1 / h[j] - 1 / h[j + 1]
        q[j + 2, j] = 1 / h[j + 1]
        r[j, j] = (h[j] + h[j + 1]) / 3
        if j:
            r[j, j - 1] = r[j - 1, j] = h[j] / 6
    k = q @ np.linalg.solve(r, q.T)
    return np.linalg.solve(p * np.diag(w) + (1 - p) * k, p * w[:, None] * y)


def natural_eval(t, f, grid):
    """Natural cubic spline through (t, f), continued linearly outside."""
    t = np.asarray(t, dtype=float)
    s = cubic_slopes(t, f, 'natural') if len(t) > 2 else np.repeat((f[1:] - f[:1]) / (t[1] - t[0]), 2, axis=0)
    out = []
    for x in grid:
        if x < t[0]:
            out.append(f[0] + s[0] * (x - t[0]))
        elif x > t[-1]:
            out.append(f[-1] + s[-1] * (x - t[-1]))
        else:
            out.append(hermite(t, f, s, [x])[0])
    return np.array(out)


# ------------------------------------------------------------------------------------------- smoothing

def boundary_index(i, n, mode):
    """Source index of the position i of a signal of length n extended by the mode, None for the constant."""
    if 0 <= i < n:
        return i
    if mode == 'constant':
        return None
    if mode == 'nearest':
        return min(max(i, 0), n - 1)
    if mode == 'wrap':
        return i % n
    if mode == 'reflect':           # (d c b a | a b c d | d c b a)
        k = i % (2 * n)
        return k if k < n else 2 * n - 1 - k
    if mode == 'mirror':            # (d c b | a b c d | c b a)
        if n == 1:
            return 0
        k = i % (2 * n - 2)
        return k if k < n else 2 * n - 2 - k
    raise ValueError(mode)


def convolve(y, window, mode, cval):
    """Moving average of every column with the normalised window (true convolution)."""
    w = np.asarray(window, dtype=np.float64)
    w = w / w.sum()
    k = len(w)
    n, nd = y.shape
    out = np.zeros((n, nd))
    for i in range(n):
        for j in range(k):
            src = boundary_index(i + k // 2 - j, n, mode)
            v = np.full(nd, float(cval)) if src is None else y[src]
            out[i] += w[j] * v
    return out


def savgol_fit(x, y, order, at, deriv, delta):
    """Derivative at position `at` of the least-squares polynomial of the samples."""
    v = np.vander(np.asarray(x, float) - at, order + 1, increasing=True)
    coef = np.linalg.lstsq(v, y, rcond=None)[0]
    if deriv > order:
        return np.zeros(y.shape[1])
    return coef[deriv] * math.factorial(deriv) / delta ** deriv


def savgol(y, window, order, deriv, delta, mode, cval):
    n, nd = y.shape
    h = window // 2
    out = np.zeros((n, nd))
    for i in range(n):
        if mode == 'interp':
            lo = min(max(i - h, 0), n - window)
            x = np.arange(lo, lo + window)
            out[i] = savgol_fit(x, y[lo:lo + window], order, i, deriv, delta)
        else:
            x = np.arange(i - h, i + h + 1)
            rows = [boundary_index(int(k), n, mode) for k in x]
            s = np.array([np.full(nd, float(cval)) if r is None else y[r] for r in rows])
            out[i] = savgol_fit(x, s, order, i, deriv, delta)
    return out
