"""Empirical-distribution statistics from their definitions, on independent distribution functions."""
import math

import numpy as np
from scipy import optimize, special

FAMILY_OF = {}


def norm_cdf(z):
    return np.array([0.5 * math.erfc(-t / math.sqrt(2)) for t in np.atleast_1d(z)])


def cdf(family, x, kw):
    """Distribution function and survival function at x (arrays)."""
    x = np.asarray(x, float)
    g = kw.get
    if family == "NORMAL":
        z = (x - g("mean", 0)) / math.sqrt(g("var", 1))
        return norm_cdf(z), norm_cdf(-z)
    if family == "EXPONENTIAL":
        t = -g("lam", 1) * x
        return -np.expm1(t), np.exp(t)
    if family == "UNIFORM":
        a, b = g("a", 0), g("b", 1)
        return (x - a) / (b - a), (b - x) / (b - a)
    if family == "GAMMA":
        return special.gammainc(g("alpha", 1), g("beta", 1) * x), special.gammaincc(g("alpha", 1), g("beta", 1) * x)
    if family == "BETA":
        return special.betainc(g("alpha", 1), g("beta", 1), x), special.betainc(g("beta", 1), g("alpha", 1), 1 - x)
    if family == "WEIBULL":
        e = -np.expm1(-x ** g("k", 1))
        f = e ** g("a", 1)
        return f, -np.expm1(g("a", 1) * np.log1p(-np.exp(-x ** g("k", 1))))
    if family == "STUDENT":
        z = (x - g("loc", 0)) / g("scale", 1)
        return special.stdtr(g("df", 1), z), special.stdtr(g("df", 1), -z)
    if family == "LOG_NORMAL":
        z = (np.log(x) - math.log(g("scale", 1))) / g("s", 1)
        return norm_cdf(z), norm_cdf(-z)
    raise KeyError(family)


def d_plus(u):
    """sup (Fn - F) over the line, Fn taken at and after each distinct observation."""
    u = np.asarray(u)
    n = len(u)
    return max(max(np.count_nonzero(u <= v) / n - v for v in u), 0.0)


def d_minus(u):
    u = np.asarray(u)
    n = len(u)
    return max(max(v - np.count_nonzero(u < v) / n for v in u), 0.0)


def ks(u, side="two"):
    if side == "right":
        return d_plus(u)
    if side == "left":
        return d_minus(u)
    return max(d_plus(u), d_minus(u))


def kuiper(u):
    return d_plus(u) + d_minus(u)


def _segments(u):
    v = [0.0] + sorted(float(t) for t in u) + [1.0]
    return [(i, v[i], v[i + 1]) for i in range(len(v) - 1)]


def cvm(u):
    """n * integral of (Fn - F)^2 dF, piecewise exactly."""
    n = len(u)
    return n * math.fsum(((hi - i / n) ** 3 - (lo - i / n) ** 3) / 3 for i, lo, hi in _segments(u))


def watson(u):
    n = len(u)
    d = math.fsum((i / n) * (hi - lo) - (hi * hi - lo * lo) / 2 for i, lo, hi in _segments(u))
    return cvm(u) - n * d * d


def ad(u, v):
    """n * integral of (Fn - F)^2 / (F (1 - F)) dF; u = F(x), v = 1 - F(x), both accurate."""
    p = sorted(zip(u, v), key=lambda t: (t[0], -t[1]))
    n = len(p)
    if min(u) <= 0 or min(v) <= 0:
        return math.inf
    return -n - math.fsum((2 * i - 1) * math.log(a) + (2 * (n - i) + 1) * math.log(b) for i, (a, b) in enumerate(p, 1)) / n


def zhang_a(u, v):
    p = sorted(zip(u, v), key=lambda t: (t[0], -t[1]))
    n = len(p)
    return -math.fsum(math.log(a) / (n - i + 0.5) + math.log(b) / (i - 0.5) for i, (a, b) in enumerate(p, 1))


def zhang_c(u, v):
    p = sorted(zip(u, v), key=lambda t: (t[0], -t[1]))
    n = len(p)
    return math.fsum((math.log(b / a) - math.log((n - 0.5) / (i - 0.75) - 1)) ** 2 for i, (a, b) in enumerate(p, 1))


def zhang_k(u, v):
    p = sorted(zip(u, v), key=lambda t: (t[0], -t[1]))
    n = len(p)
    return max((i - 0.5) * math.log((i - 0.5) / (n * a)) + (n - i + 0.5) * math.log((n - i + 0.5) / (n * b)) for i, (a, b) in enumerate(p, 1))


def min_toshiyuki(u, v):
    """Sum of the larger one-sided deviation at each order statistic over sqrt(F (1 - F)), divided by sqrt(n)."""
    p = sorted(zip(u, v), key=lambda t: (t[0], -t[1]))
    n = len(p)
    return math.fsum(max(i / n - a, a - (i - 1) / n) / math.sqrt(a * b) for i, (a, b) in enumerate(p, 1)) / math.sqrt(n)


def normal_log_cdf(z):
    return special.log_ndtr(z)


def ad_logs(lu, lv):
    """Anderson-Darling from log F and log(1 - F) in increasing order of x."""
    n = len(lu)
    return -n - math.fsum((2 * i - 1) * lu[i - 1] + (2 * (n - i) + 1) * lv[i - 1] for i in range(1, n + 1)) / n


def gumbel_min_mle(y):
    """Maximum-likelihood location and scale of the smallest-extreme-value (log-Weibull) law."""
    y = np.asarray(y, float)
    m, top = float(np.mean(y)), float(np.max(y))

    def f(b):
        w = np.exp((y - top) / b)
        return float(np.sum(y * w) / np.sum(w)) - m - b
    s = float(np.std(y))
    lo, hi = s * 1e-2, s * 10
    b = optimize.brentq(f, lo, hi, xtol=1e-14 * s, rtol=1e-14)
    return top + b * math.log(float(np.mean(np.exp((y - top) / b)))), b
