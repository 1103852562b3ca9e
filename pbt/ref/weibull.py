"""Independent evaluations of the published Weibull statistics."""
import math

import numpy as np
from scipy import optimize, special

from pbt.ref import edf

fs = math.fsum


def logs(x):
    return np.sort(np.log(x))


def corr2(a, b):
    a, b = a - fs(a) / len(a), b - fs(b) / len(b)
    return fs(a * b) ** 2 / (fs(a * a) * fs(b * b))


def shape_mle(x):
    """Maximum-likelihood shape of the two-parameter Weibull law (None if not found inside the search range)."""
    y = np.log(x)
    m, top = fs(y) / len(y), float(np.max(y))

    def f(b):
        w = np.exp(b * (y - top))
        return fs(y * w) / fs(w) - 1 / b - m
    if not (f(0.02) < 0 < f(45)):
        return None
    return optimize.brentq(f, 0.02, 45, xtol=1e-13)


def gumbel_scores(x, b):
    """b (log x - log eta) in increasing order, eta the maximum-likelihood scale for shape b."""
    y = logs(x)
    return b * y - math.log(fs(np.exp(b * (y - y[-1]))) / len(y)) - b * y[-1]


def with_mle(fn):
    """The statistic at the maximum-likelihood shape; bounds allow the 1e-5 precision of the code's search."""
    def f(x, kw, ex):
        b = shape_mle(x)
        if b is None or np.max(x) > 1e5:
            return None
        d = 5e-5 + 1e-6 * b
        v = [fn(gumbel_scores(x, t), ex) for t in (b - d, b, b + d)]
        pad = max(abs(v[0] - v[1]), abs(v[2] - v[1]))
        return min(v) - pad, max(v) + pad
    return f


def cabana_quiroz(y, ex):
    n = len(y)
    v = np.array([math.sqrt(n) * (fs(np.exp(-s * y)) / n - math.gamma(1 - s)) for s in (-0.1, 0.02)])
    return float(v @ np.linalg.solve(np.array([[1.59, 0.91], [0.91, 0.53]]), v))


def laplace(grid):
    def f(y, ex):
        m, a, n = ex.get("m", 100), ex.get("a", -5), len(y)
        out = []
        for t in grid(m):
            e = math.exp(a * t) if a * t < 700 else math.inf
            w = math.exp(a * t - e) if e < 1e300 else 0.0
            if w:
                out.append(w * (math.gamma(1 - t) - fs(np.exp(-t * y)) / n) ** 2)
        return n * fs(out)
    return f


def grid2(m):
    return [-k / m for k in range(m, 0, -1)]


def grid3(m):
    return [-2.5 + 2.99 * k / (m - 1) for k in range(m)]


def spp(descending):
    def f(y, ex):
        n = len(y)
        z = y[::-1] if descending else y
        return max(abs(math.asin(math.sqrt((i - 0.5) / n)) - math.asin(math.sqrt(-math.expm1(-math.exp(v))))) for i, v in enumerate(z, 1)) * 2 / math.pi
    return f


def shapiro_brain_b(x):
    y, n = logs(x), len(x)
    w = [math.log((n + 1) / (n - i + 1)) for i in range(1, n)]
    w2 = [v * (1 + math.log(v)) - 1 for v in w]
    w.append(n - fs(w))
    w2.append(0.4228 * n - fs(w2))
    return 0.6079 * fs(np.array(w2) * y) - 0.2570 * fs(np.array(w) * y)


def shapiro_brain(x, kw, ex):
    y, n = np.log(x), len(x)
    return shapiro_brain_b(x) ** 2 / n / fs((y - fs(y) / n) ** 2)


def ozturk(x, kw, ex):
    y, n = logs(x), len(x)
    sig = fs((2 * i - 1 - n) * v for i, v in enumerate(y, 1)) / (math.log(2) * (n - 1))
    return (shapiro_brain_b(x) / sig - 1 - 0.13 / math.sqrt(n) + 1.18 / n) / (0.49 / math.sqrt(n) - 0.36 / n)


def moment_ratio(x):
    y, n = -np.log(x), len(x)
    d = y - fs(y) / n
    s = fs(d * d) / n
    return fs(d ** 3) / n / s ** 1.5, fs(d ** 4) / n / s ** 2


def st1(x, kw, ex):
    return len(x) / 20 * (moment_ratio(x)[0] - 1.139547) ** 2


def st2(x, kw, ex):
    b1, b2 = moment_ratio(x)
    return len(x) / 219.72 * (b2 - 7.55 * b1 + 3.21) ** 2


def rsb(sort):
    def f(x, kw, ex):
        n = len(x)
        y = logs(x) if sort else np.log(x)
        return n * (1 - corr2(y, np.log(-np.log(1 - np.arange(1, n + 1) / (n + 1)))))
    return f


def rejg(x, kw, ex):
    """Fourth power of the correlation, as the class (and the R package it follows) defines it."""
    n = len(x)
    return corr2(logs(x), np.log(-np.log(1 - (np.arange(1, n + 1) - 0.3175) / (n + 0.365)))) ** 2


def expected_sev(n):
    """David-Johnson approximation of the expected order statistics of the smallest-extreme-value law."""
    out = []
    for i in range(1, n + 1):
        p = i / (n + 1)
        q = 1 - p
        L = -math.log(q)
        d2 = (1 / L - 1 / L ** 2) / q ** 2
        d3 = (2 / L - 3 / L ** 2 + 2 / L ** 3) / q ** 3
        d4 = (6 / L - 11 / L ** 2 + 12 / L ** 3 - 6 / L ** 4) / q ** 4
        out.append(math.log(L) + p * q / (2 * (n + 2)) * d2 + p * q / (n + 2) ** 2 * ((q - p) / 3 * d3 + p * q / 8 * d4))
    return np.array(out)


def normalised(x):
    return np.diff(logs(x)) / np.diff(expected_sev(len(x)))


def tiku_singh(x, kw, ex):
    n, g = len(x), normalised(x)
    return 2 * fs((n - 1 - i) * g[i - 1] for i in range(1, n - 1)) / ((n - 2) * fs(g))


def los(x, kw, ex):
    g = normalised(x)
    z = np.cumsum(g)[:-1] / fs(g)
    return edf.ad(z, (np.cumsum(g[::-1])[::-1] / fs(g))[1:])


def msf(x, kw, ex):
    g = normalised(x)
    return fs(g[len(x) // 2:]) / fs(g)


def mahdi(x, kw, ex):
    n, F = len(x), edf.cdf("WEIBULL", np.sort(x), kw)[0]
    return n * (0.5 + fs((1 - i / n) ** 2 * math.log(F[i] / F[i - 1]) - 2 * (1 - i / n) * (F[i] - F[i - 1]) for i in range(1, n)))


def kl(x, kw, ex):
    y, n = logs(x), len(x)
    m = ex.get("m", n // 2)
    w = [y[min(n - 1, i + m)] - y[max(0, i - m)] for i in range(n)]
    if min(w) <= 0:
        return None
    return -fs(math.log(n / (2 * m) * v) for v in w) / n - fs(y) / n + fs(x) / n


def chi2(x, kw, ex):
    n = len(x)
    k = math.ceil(math.sqrt(n))
    lo, hi = float(np.min(x)), float(np.max(x))
    e = np.array([lo + (hi - lo) * j / k for j in range(k + 1)])
    if any(abs(v - t) < 1e-9 * hi for v in x for t in e[1:-1]):
        return None
    c = [0] * k
    for v in x:
        c[min(int(np.searchsorted(e, v, side="right")) - 1, k - 1)] += 1
    F = edf.cdf("WEIBULL", e, kw)[0]
    p = np.diff(F)
    if np.min(p) < 1e-9:
        return None
    return fs((o / n - q) ** 2 / q for o, q in zip(c, p))
