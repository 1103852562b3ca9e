"""Independent evaluations of the uniform, beta, gamma and Student statistics that are not EDF statistics."""
import itertools
import math

import numpy as np
import scipy.stats as ss
from scipy import special

from pbt.ref import bins, edf

fs = math.fsum


def unif(x, kw):
    return np.sort((x - kw.get("a", 0)) / (kw.get("b", 1) - kw.get("a", 0)))


def gaps(u):
    v = [0.0] + sorted(float(t) for t in u) + [1.0]
    return [v[i + 1] - v[i] for i in range(len(v) - 1)]


def greenwood(u):
    return fs(g * g for g in gaps(u))


def sherman(u):
    g = gaps(u)
    return 0.5 * fs(abs(v - 1 / len(g)) for v in g)


def quesenberry(u):
    g = gaps(u)
    return fs(v * v for v in g) + fs(g[i] * g[i + 1] for i in range(len(g) - 1))


def moran(u):
    n, g = len(u), gaps(u)
    return ValueError if min(g) <= 0 else -fs(math.log(n * v) for v in g)


def neyman(x, kw, ex):
    u, n = 2 * unif(x, kw) - 1, len(x)
    tot = 0.0
    a, b = np.ones(n), u
    for j in range(1, kw.get("k", 4) + 1):
        tot += (2 * j + 1) * fs(b) ** 2 / n
        a, b = b, ((2 * j + 1) * u * b - j * a) / (j + 1)
    return tot


def stein_kernel(x, y):
    return max(x, y) - x - y + (x * x + y * y) / 2


def stein(x, kw, ex):
    u, n = unif(x, kw), len(x)
    return fs(stein_kernel(u[i], u[j]) for i in range(n) for j in range(i)) / math.comb(n, 2)


def censored_stein(x, kw, ex):
    """Inverse-probability-of-censoring weights from the Kaplan-Meier estimate of the censoring distribution."""
    d = ex.get("censoring_indices")
    if d is None or not np.any(d):
        return stein(x, kw, ex)
    a, b, n = kw.get("a", 0), kw.get("b", 1), len(x)
    u, d = (x - a) / (b - a), np.asarray(d)
    times = sorted(set(x.tolist()))
    if len(times) > 1 and min(np.diff(times)) / (b - a) < 1e-10:
        return None
    # tied censored and observed times may be taken in any order; the estimate at a time counts every censoring up to it
    orders, left = [], n
    for t in times:
        m, c = int(np.sum(x == t)), int(np.sum(d[x == t]))
        orders.append([math.prod(1 - 1 / (left - k) for k in pos) for pos in itertools.combinations(range(m), c)])
        left -= m
    if math.prod(len(o) for o in orders) > 60:
        return None
    live = [i for i in range(n) if not d[i]]
    if len(live) < 2:
        return 0.0
    h = np.array([[stein_kernel(u[i], u[j]) for j in live] for i in live])
    out = []
    for pick in itertools.product(*orders):
        g = dict(zip(times, np.cumprod(pick)))
        w = np.array([1 / max(g[x[i]], 1e-10) for i in live])
        out.append(fs(np.triu(w[:, None] * w[None, :] * h, 1).ravel()) / math.comb(len(live), 2))
    return (min(out), max(out)) if len(out) > 1 else out[0]


def bickel(x, kw, ex):
    u, n = unif(x, kw), len(x)
    h = kw.get("bandwidth", "auto")
    if h == "auto":
        h = 1.06 * math.sqrt(fs((u - fs(u) / n) ** 2) / n) * n ** -0.2
    g = np.arange(1000) / 999
    f = np.exp(-((g[:, None] - u[None, :]) / h) ** 2 / 2).sum(1) / (n * h * math.sqrt(2 * math.pi))
    return fs((f - 1) ** 2) / 999


def chi2_uniform(x, kw, ex):
    a, b = kw.get("a", 0), kw.get("b", 1)
    k = bins.num_bins(kw.get("bins", "sturges"), x, a, b)
    c = k and bins.equal_bins(x, a, b, k)
    return c and bins.power_divergence(c, [len(x) / k] * k, kw.get("lambda_", 1))


# ---- beta
def ab(kw):
    return kw.get("alpha", 1), kw.get("beta", 1)


def chi2_beta(x, kw, ex):
    k = math.ceil(math.sqrt(len(x)))
    c = bins.equal_bins(x, 0, 1, k)
    if c is None:
        return None
    F = special.betainc(*ab(kw), np.arange(k + 1) / k)
    e = np.diff(F) * len(x)
    if np.min(e) < 1e-7:
        return None
    return bins.power_divergence(c, e, kw.get("lambda_", 1))


def beta_mb(x, kw, ex):
    n, d = len(x), ss.beta(*ab(kw))
    m, v = fs(x) / n, float(np.var(x)) * n / (n - 1)
    return n * ((m - d.mean()) ** 2 + (v - d.var()) ** 2) / d.var()


def beta_sk(x, kw, ex):
    n, m = len(x), fs(x) / len(x)
    m2, m3, m4 = (fs((x - m) ** k) / n for k in (2, 3, 4))
    G1 = math.sqrt(n * (n - 1)) / (n - 2) * m3 / m2 ** 1.5
    G2 = (n - 1) / ((n - 2) * (n - 3)) * ((n + 1) * (m4 / m2 ** 2 - 3) + 6)
    s, k = (float(v) for v in ss.beta(*ab(kw)).stats("sk"))
    return n / 6 * (G1 - s) ** 2 + n / 24 * (G2 - k) ** 2


def beta_rt(x, kw, ex):
    n = len(x)
    a, b = ab(kw)
    r = math.exp(fs(np.log(x)) / n) / (fs(x) / n)
    return math.sqrt(n) * abs(r - math.exp(special.digamma(a) - special.digamma(a + b)) * (a + b) / a)


def beta_ent(x, kw, ex):
    n, y = len(x), np.sort(x)
    m = ex.get("m", n // 4)
    h = 0.0
    for i in range(n):
        w = y[min(n - 1, i + m)] - y[max(0, i - m)]
        if w > 0:
            h += math.log(n * w / (2 * m)) / n
    return math.sqrt(n) * abs(h - float(ss.beta(*ab(kw)).entropy()))


def beta_mode(x, kw, ex):
    n = len(x)
    a, b = ab(kw)
    h = math.sqrt(float(np.var(x)) * n / (n - 1)) * n ** -0.2
    g = 0.01 + 0.98 * np.arange(200) / 199
    f = np.exp(-((g[:, None] - x[None, :]) / h) ** 2 / 2).sum(1)
    i = int(np.argmax(f))
    if np.sort(f)[-2] > f[i] * (1 - 1e-9):
        return None
    return math.sqrt(n) * abs(g[i] - (a - 1) / (a + b - 2))


# ---- gamma, Student
def gamma_u(x, kw):
    return edf.cdf("GAMMA", x, kw)[0]


def binned_gamma(lam):
    def f(x, kw, ex):
        k = kw.get("bins", 8)
        c = bins.probability_bins(gamma_u(x, kw), k)
        return c and bins.power_divergence(c, [len(x) / k] * k, kw.get("power", 2 / 3) if lam is None else lam)
    return f


def gamma_ppcc(x, kw, ex):
    n, y = len(x), np.sort(x)
    q = special.gammaincinv(kw.get("alpha", 1), (np.arange(1, n + 1) - 0.375) / (n + 0.25))
    y, q = y - fs(y) / n, q - fs(q) / n
    return 1 - fs(y * q) / math.sqrt(fs(y * y) * fs(q * q))


def student_chi2(x, kw, ex):
    k = kw.get("n_bins", 10)
    c = bins.probability_bins(edf.cdf("STUDENT", x, kw)[0], k)
    return c and bins.power_divergence(c, [len(x) / k] * k, 1)
