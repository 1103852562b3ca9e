"""Independent evaluations of the published exponentiality statistics."""
import math

import numpy as np
from scipy import special

fs = math.fsum


def scaled(x):
    return x * (len(x) / fs(x))


def spacings(x):
    """Normalised spacings n x_(1), (n-1)(x_(2) - x_(1)), ..."""
    y = [0.0] + sorted(float(v) for v in x)
    n = len(x)
    return [(n - i) * (y[i + 1] - y[i]) for i in range(n)]


def count(a, b, strict_gt=True):
    """Bounds of the number of pairs a > b, allowing for rounding at equality."""
    a, b = np.broadcast_arrays(a, b)
    tol = 1e-12 * (np.abs(a) + np.abs(b))
    return np.count_nonzero(a > b + tol), np.count_nonzero(a > b - tol) + 0


def epps_pulley(x, kw, ex):
    n = len(x)
    return math.sqrt(48 * n) * (fs(np.exp(-scaled(x))) / n - 0.5)


def ahsanullah(x, kw, ex):
    n = len(x)
    d = np.abs(x[:, None] - x[None, :]).ravel()
    m = 2 * np.minimum(x[:, None], x[None, :]).ravel()
    h = count(x[:, None], d[None, :])
    g = count(x[:, None], m[None, :])
    return (h[0] - g[1]) / n ** 3, (h[1] - g[0]) / n ** 3


def atkinson(x, kw, ex):
    p, n = ex.get("p", 0.99), len(x)
    m = fs(x ** p) / n
    return math.sqrt(n) * abs(m ** (1 / p) / (fs(x) / n) - math.gamma(1 + p) ** (1 / p))


def cox_oakes(x, kw, ex):
    y = scaled(x)
    return len(x) + fs((1 - y) * np.log(y))


def deshpande(x, kw, ex):
    b, n = ex.get("b", 0.44), len(x)
    off = ~np.eye(n, dtype=bool)
    X, Y = np.broadcast_arrays(x[:, None], b * x[None, :])
    lo, hi = count(X[off], Y[off])
    return lo / (n * (n - 1)), hi / (n * (n - 1))


def epstein(x, kw, ex):
    n, d = len(x), spacings(x)
    return 2 * n * (math.log(fs(x) / n) - fs(math.log(v) for v in d) / n) / (1 + (n + 1) / (6 * n))


def frozini(x, kw, ex):
    n, y = len(x), np.sort(scaled(x))
    return fs(abs(-math.expm1(-v) - (i - 0.5) / n) for i, v in enumerate(y, 1)) / math.sqrt(n)


def gini(x, kw, ex):
    n = len(x)
    return fs(abs(a - b) for a in x for b in x) / (2 * (n - 1) * fs(x))


def gnedenko(x, kw, ex):
    n, d = len(x), spacings(x)
    r = ex.get("r", round(n / 2))
    return (fs(d[:r]) / r) / (fs(d[r:]) / (n - r))


def harris(x, kw, ex):
    n, d = len(x), spacings(x)
    r = ex.get("r", round(n / 4))
    return ((fs(d[:r]) + fs(d[n - r:])) / (2 * r)) / (fs(d[r:n - r]) / (n - 2 * r))


def hegazy(power):
    def f(x, kw, ex):
        n, y = len(x), np.sort(x) * kw.get("lam", 1)
        return fs(abs(v + math.log1p(-i / (n + 1))) ** power for i, v in enumerate(y, 1)) / n
    return f


def hollander(x, kw, ex):
    n = len(x)
    t = [0, 0]
    i, j = np.triu_indices(n, 1)
    s = x[i] + x[j]
    for a in range(n):
        ok = (i != a) & (j != a)
        c = count(np.full(ok.sum(), x[a]), s[ok])
        t[0] += c[0]
        t[1] += c[1]
    k = 2 / (n * (n - 1) * (n - 2))
    return t[0] * k, t[1] * k


def kimber(x, kw, ex):
    n, y = len(x), np.sort(scaled(x))
    return max(abs(2 / math.pi * (math.asin(math.sqrt((i - 0.5) / n)) - math.asin(math.sqrt(-math.expm1(-v))))) for i, v in enumerate(y, 1))


def kochar(x, kw, ex):
    n, y = len(x), np.sort(x)
    return math.sqrt(108 * n / 17) * fs((2 * (1 - i / (n + 1)) * (1 - math.log(1 - i / (n + 1))) - 1) * v for i, v in enumerate(y, 1)) / fs(x)


def lorenz(x, kw, ex):
    p = ex.get("p", 0.5)
    return fs(np.sort(x)[:math.floor(len(x) * p)]) / fs(x)


def moran(x, kw, ex):
    return np.euler_gamma + fs(np.log(scaled(x))) / len(x)


def pietra(x, kw, ex):
    n, m = len(x), fs(x) / len(x)
    return fs(abs(x - m)) / (2 * n * m)


def shapiro_wilk(x, kw, ex):
    n, m = len(x), fs(x) / len(x)
    return n / (n - 1) * (m - min(x)) ** 2 / fs((x - m) ** 2)


def rossberg(x, kw, ex):
    n, y = len(x), np.sort(x)
    # middle minus smallest of every triple; smallest of every pair
    t = [y[j] - y[i] for i in range(n) for j in range(i + 1, n) for _ in range(j + 1, n)]
    m = [y[i] for i in range(n) for _ in range(i + 1, n)]
    h = count(x[:, None], np.array(t)[None, :])
    g = count(x[:, None], np.array(m)[None, :])
    a, b = math.comb(n, 3) * n, math.comb(n, 2) * n
    # values compared with themselves (smallest of a pair) are exact ties, never counted
    exact = np.count_nonzero(x[:, None] > np.array(m)[None, :])
    return h[0] / a - exact / b, h[1] / a - exact / b


def we(x, kw, ex):
    n, m = len(x), fs(x) / len(x)
    return fs((x - m) ** 2) / (n * m) ** 2


def wong(x, kw, ex):
    return float(np.max(x)) / float(np.min(x))


def psi1():
    return special.digamma(1)
