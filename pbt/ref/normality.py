"""Independent evaluations of the published normality statistics (plain formulas, accurate summation)."""
import math

import numpy as np
import scipy.stats as ss
from scipy import special

ppf = special.ndtri
fs = math.fsum


def mom(x, k):
    m = fs(x) / len(x)
    return fs((x - m) ** k) / len(x)


def z1(x):
    """Standardised by the unbiased variance."""
    return (x - fs(x) / len(x)) / math.sqrt(mom(x, 2) * len(x) / (len(x) - 1))


def phi(z):
    return np.exp(-z * z / 2) / math.sqrt(2 * math.pi)


def corr(a, b):
    a, b = np.asarray(a) - fs(a) / len(a), np.asarray(b) - fs(b) / len(b)
    return fs(a * b) / math.sqrt(fs(a * a) * fs(b * b))


def blom(n, c=0.375):
    return ppf((np.arange(1, n + 1) - c) / (n + 1 - 2 * c))


def shapiro_wilk(x, kw, ex):
    return float(ss.shapiro(x).statistic)


def skew_z(x):
    n = len(x)
    g = mom(x, 3) / mom(x, 2) ** 1.5
    y = g * math.sqrt((n + 1) * (n + 3) / (6 * (n - 2)))
    b2 = 3 * (n * n + 27 * n - 70) * (n + 1) * (n + 3) / ((n - 2) * (n + 5) * (n + 7) * (n + 9))
    w2 = math.sqrt(2 * (b2 - 1)) - 1
    return math.asinh(y / math.sqrt(2 / (w2 - 1))) / math.sqrt(math.log(w2) / 2)


def kurt_z(x):
    n = len(x)
    b = mom(x, 4) / mom(x, 2) ** 2
    e = 3 * (n - 1) / (n + 1)
    v = 24 * n * (n - 2) * (n - 3) / ((n + 1) ** 2 * (n + 3) * (n + 5))
    s = (b - e) / math.sqrt(v)
    rb = 6 * (n * n - 5 * n + 2) / ((n + 7) * (n + 9)) * math.sqrt(6 * (n + 3) * (n + 5) / (n * (n - 2) * (n - 3)))
    a = 6 + 8 / rb * (2 / rb + math.sqrt(1 + 4 / rb ** 2))
    d = 1 + s * math.sqrt(2 / (a - 4))
    t = math.copysign((abs((1 - 2 / a) / d)) ** (1 / 3), d)
    return (1 - 2 / (9 * a) - t) / math.sqrt(2 / (9 * a))


def jb(x):
    return len(x) / 6 * (mom(x, 3) ** 2 / mom(x, 2) ** 3 + (mom(x, 4) / mom(x, 2) ** 2 - 3) ** 2 / 4)


def filliben(x):
    n = len(x)
    m = [(i - 0.3175) / (n + 0.365) for i in range(1, n + 1)]
    m[-1] = 0.5 ** (1 / n)
    m[0] = 1 - m[-1]
    return corr(np.sort(x), ppf(np.array(m)))


def looney(x):
    return corr(np.sort(x), blom(len(x)))


def ryan_joiner(x, kw, ex):
    n = len(x)
    c = {"3/8": 0.375, "1/2": 0.5, "0": 0.0}[kw.get("cte_alpha", "3/8")]
    y = np.sort(x)
    p = (np.arange(1, n + 1) - c) / (n + 1 - 2 * c)
    if kw.get("weighted", False):
        p = np.array([np.mean(p[y == v]) for v in y])
    return corr(y, ppf(p))


def shapiro_francia(x):
    return corr(np.sort(x), blom(len(x))) ** 2


def epps_pulley(x):
    n, m2 = len(x), mom(x, 2)
    m = fs(x) / n
    pairs = fs(math.exp(-(x[i] - x[j]) ** 2 / (2 * m2)) for i in range(n) for j in range(i))
    return 1 + n / math.sqrt(3) + 2 / n * pairs - math.sqrt(2) * fs(np.exp(-(x - m) ** 2 / (4 * m2)))


def tl_moment(y, r, t):
    """Sample trimmed L-moment of order r with t observations trimmed on each side (t = 0: the L-moment)."""
    n = len(y)
    tot = []
    for i in range(1, n + 1):
        w = sum((-1) ** k * math.comb(r - 1, k) * math.comb(i - 1, r + t - 1 - k) * math.comb(n - i, t + k) for k in range(r))
        tot.append(w / math.comb(n, r + 2 * t) * y[i - 1])
    return fs(tot) / r


HOSK = {0: {25: (0.12383, 0.0088038, 0.0049295), 50: (0.12321, 0.0040493, 0.0020802), 0: (0.12291, 0.0019434, 0.00095785)},
        1: {25: (0.067077, 0.0081391, 0.0042752), 50: (0.064456, 0.0034657, 0.0015699), 0: (0.063424, 0.0016064, 0.000681)},
        2: {25: (0.044174, 0.008657, 0.0042066), 50: (0.040389, 0.0033818, 0.0013301), 0: (0.03903, 0.001512, 0.00054207)},
        3: {25: (0.03318, 0.0095765, 0.0044609), 50: (0.028224, 0.0033813, 0.0011823), 0: (0.026645, 0.0014547, 0.00045107)}}


def hosking(t):
    def f(x, kw, ex):
        n = len(x)
        y = np.sort(x)
        l2, l3, l4 = (tl_moment(y, r, t) for r in (2, 3, 4))
        mu, v3, v4 = HOSK[t][25 if n <= 25 else 50 if n <= 50 else 0]
        return (l3 / l2) ** 2 / v3 + (l4 / l2 - mu) ** 2 / v4
    return f


def order_cdf(x):
    z = np.sort(z1(x))
    return special.ndtr(z), special.ndtr(-z)


def zhang_wu_c(x):
    u, v = order_cdf(x)
    n = len(x)
    return fs((math.log(b / a) - math.log((n - 0.5) / (i - 0.75) - 1)) ** 2 for i, (a, b) in enumerate(zip(u, v), 1))


def zhang_wu_a(x):
    u, v = order_cdf(x)
    n = len(x)
    return -10 * fs(math.log(a) / (n - i + 0.5) + math.log(b) / (i - 0.5) for i, (a, b) in enumerate(zip(u, v), 1)) - 32


def glen(x):
    u, v = order_cdf(x)
    n = len(x)
    p = sorted((special.betainc(i, n + 1 - i, a), special.betainc(n + 1 - i, i, b)) for i, (a, b) in enumerate(zip(u, v), 1))
    if p[0][0] < 1e-300 or p[-1][1] < 1e-10:  # 1 - p is left with no digits
        return None
    return -n - fs((2 * n + 1 - 2 * i) * math.log(a) + (2 * i - 1) * math.log(b) for i, (a, b) in enumerate(p, 1)) / n


def doornik_hansen(x):
    n = len(x)
    b1 = mom(x, 3) / mom(x, 2) ** 1.5
    b2 = mom(x, 4) / mom(x, 2) ** 2
    be = 3 * (n * n + 27 * n - 70) * (n + 1) * (n + 3) / ((n - 2) * (n + 5) * (n + 7) * (n + 9))
    w2 = math.sqrt(2 * (be - 1)) - 1
    dl = 1 / math.sqrt(math.log(math.sqrt(w2)))
    y = b1 * math.sqrt((w2 - 1) / 2 * (n + 1) * (n + 3) / (6 * (n - 2)))
    s = dl * math.asinh(y)
    d = (n - 3) * (n + 1) * (n * n + 15 * n - 4)
    a = (n - 2) * (n + 5) * (n + 7) * (n * n + 27 * n - 70) / (6 * d)
    c = (n - 7) * (n + 5) * (n + 7) * (n * n + 2 * n - 5) / (6 * d)
    k = (n + 5) * (n + 7) * (n ** 3 + 37 * n * n + 11 * n - 313) / (12 * d)
    al = a + b1 * b1 * c
    ch = (b2 - 1 - b1 * b1) * 2 * k
    z = ((ch / (2 * al)) ** (1 / 3) - 1 + 1 / (9 * al)) * math.sqrt(9 * al)
    return s * s + z * z


def avg_dev(x):
    """Average absolute deviation from the median, scaled to the normal standard deviation."""
    return math.sqrt(math.pi / 2) * fs(abs(x - np.median(x))) / len(x)


def robust_jb(x):
    n, j = len(x), avg_dev(x)
    return n / 6 * (mom(x, 3) / j ** 3) ** 2 + n / 64 * (mom(x, 4) / j ** 4 - 3) ** 2


def hermite(k, z):
    """Orthonormal probabilists' Hermite polynomial by recursion."""
    a, b = np.ones_like(z), z
    if k == 0:
        return a
    for j in range(1, k):
        a, b = b, z * b - j * a
    return b / math.sqrt(math.factorial(k))


def bm(top):
    def f(x, kw, ex):
        z = z1(x)
        return fs(fs(hermite(k, z)) ** 2 for k in range(3, top + 1)) / len(x)
    return f


def bonett_seier(x):
    n = len(x)
    tau = fs(abs(x - fs(x) / n)) / n
    om = 13.29 * math.log(math.sqrt(mom(x, 2)) / tau)
    return math.sqrt(n + 2) * (om - 3) / 3.54


def martinez(x):
    n = len(x)
    m = np.median(x)
    a = 9 * np.median(abs(x - m))
    num = den = 0.0
    for v in x:
        z = (v - m) / a
        if abs(z) < 1:
            num += (v - m) ** 2 * (1 - z * z) ** 4
            den += (1 - z * z) * (1 - 5 * z * z)
    return fs((x - m) ** 2) / (n - 1) / (n * num / den ** 2)


def cabana1(x):
    z, n = z1(x), len(x)
    H = {k: fs(hermite(k, z)) / math.sqrt(n) for k in range(3, 9)}
    s = sum(H[j + 3] * hermite(j - 1, z) / math.sqrt(j) for j in range(1, 6))
    return float(np.max(np.abs(special.ndtr(z) * H[3] - phi(z) * s)))


def cabana2(x, extra=0):
    z, n = z1(x), len(x)
    H = {k: fs(hermite(k, z)) / math.sqrt(n) for k in range(3, 9)}
    s = sum((1 + (extra if j == 5 else 0)) * (math.sqrt(j / (j - 1)) * hermite(j - 2, z) + hermite(j, z)) * H[j + 3] for j in range(2, 6))
    return float(np.max(np.abs(-phi(z) * H[3] + (special.ndtr(z) - z * phi(z)) * H[4] - phi(z) * s)))


def chen_shapiro(x):
    y, n = np.sort(x), len(x)
    m = blom(n)
    s = math.sqrt(mom(x, 2) * n / (n - 1))
    return math.sqrt(n) * (1 - fs((y[i + 1] - y[i]) / (m[i + 1] - m[i]) for i in range(n - 1)) / ((n - 1) * s))


def zhang_q(x):
    y, n = np.sort(x), len(x)
    u = blom(n)
    q1 = fs((y[i] - y[0]) / (u[i] - u[0]) for i in range(1, n)) / (n - 1)
    q2 = fs((y[i + 4] - y[i]) / (u[i + 4] - u[i]) for i in range(n - 4)) / (n - 4)
    return math.log(q1 / q2)


def zhang_q_star(x):
    return zhang_q(-x)


AS177_EPS = (0.419885, 0.450536, 0.456936, 0.468488)
AS177_DL1 = (0.112063, 0.12177, 0.239299, 0.215159)
AS177_DL2 = (0.080122, 0.111348, -0.211867, -0.115049)
AS177_GAM = (0.474798, 0.469051, 0.208597, 0.259784)
AS177_LAM = (0.282765, 0.304856, 0.407708, 0.414093)
AS177_C = ((9.5, -6195, 93380), (28.7, -9569, 175160), (1.9, -6728, 410400), (0, -17614, 2157600), (-7, -8278, 2376000), (-6.2, -3570, 2065000), (-1.6, 1075, 2065000))


def normal_scores(n):
    """Royston's AS 177 approximation (NSCOR2) of the expected normal order statistics, largest first."""
    out = []
    for i in range(1, n // 2 + 1):
        k = min(i, 4) - 1
        e1 = (i - AS177_EPS[k]) / (n + AS177_GAM[k])
        p = AS177_LAM[k] if i < 4 else AS177_LAM[3] + -0.283833 / (i - 0.106136)
        e2 = e1 ** p
        c = 0.0
        if i * n == 4:
            c = 1.9e-5
        elif i <= 7 and not (i != 4 and n > 20) and not (i == 4 and n > 40):
            c = (AS177_C[i - 1][0] + (AS177_C[i - 1][1] + AS177_C[i - 1][2] / n ** 2) / n ** 2) * 1e-6
        out.append(-ppf(e1 + e2 * (AS177_DL1[k] + e2 * AS177_DL2[k]) / n - c))
    return out


def exact_scores(n):
    """Expected normal order statistics by numerical integration, smallest first."""
    t = np.linspace(-9, 9, 6001)
    lo, hi, ph = special.log_ndtr(t), special.log_ndtr(-t), -t * t / 2 - math.log(math.sqrt(2 * math.pi))
    out = []
    for i in range(1, n + 1):
        lw = special.gammaln(n + 1) - special.gammaln(i) - special.gammaln(n - i + 1) + (i - 1) * lo + (n - i) * hi + ph
        out.append(float(np.sum(t * np.exp(lw)) * (t[1] - t[0])))
    return np.array(out)


def coin_with(x, a):
    z = np.sort(z1(x))
    s2, s4, s6 = fs(a ** 2), fs(a ** 4), fs(a ** 6)
    # least squares of z on (a, a^3): the squared coefficient of a^3
    M = np.array([[s2, s4], [s4, s6]])
    return float(np.linalg.solve(M, [fs(a * z), fs(a ** 3 * z)])[1]) ** 2


def coin(x):
    s = normal_scores(len(x))
    return coin_with(x, np.array([-v for v in s] + ([0.0] if len(x) % 2 else []) + s[::-1]))


def dagostino(x):
    y, n = np.sort(x), len(x)
    t = fs((i - (n + 1) / 2) * v for i, v in enumerate(y, 1))
    return math.sqrt(n) * (t / (n * n * math.sqrt(mom(x, 2))) - 0.28209479) / 0.02998598


def swrg(x):
    y, n = np.sort(x), len(x)
    m = ppf(np.arange(1, n + 1) / (n + 1))
    f = phi(m)
    mf = np.concatenate([[0], m * f, [0]])
    a = np.array([-(n + 1) * (n + 2) * f[i] * (mf[i] - 2 * mf[i + 1] + mf[i + 2]) for i in range(n)])
    return fs(a * y) ** 2 / fs(a * a) / (n * mom(x, 2))


def gmg(x):
    return math.sqrt(mom(x, 2)) / avg_dev(x)


def medcouple(z):
    """By the definition: the (lower) median of the kernel over all pairs around the median."""
    z = np.sort(z)
    n = len(z)
    if n < 3:
        return 0.0
    m = np.median(z)
    hi, lo = [v for v in z if v >= m], [v for v in z if v <= m]
    if z[-1] == m or z[0] == m:
        return -1.0 if z[-1] == m else 1.0
    # the t values tied with the median compare among themselves as if infinitesimally spread: t zeros, as many +1 as -1
    t = sum(1 for v in z if v == m)
    k = [0.0] * t + [1.0, -1.0] * (t * (t - 1) // 2)
    for a in hi:
        for b in lo:
            if a != b:
                k.append(((a - m) - (m - b)) / (a - b))
    k.sort(reverse=True)
    return k[len(k) // 2]


BHS_V = np.array([[1.24581, 0.322918, -0.322918], [0.322918, 2.62068, -0.0123455], [-0.322918, -0.0123455, 2.62068]])


def bhs(x):
    y, n = np.sort(x), len(x)
    h = (n + 1) // 2
    v = np.array([medcouple(y), -medcouple(y[:h]) - 0.198828, medcouple(y[n // 2:]) - 0.198828])
    return float(n * v @ np.linalg.solve(BHS_V, v))


def spiegelhalter(x):
    n = len(x)
    s = math.sqrt(mom(x, 2) * n / (n - 1))
    u = (np.max(x) - np.min(x)) / s
    g = fs(abs(x - fs(x) / n)) / (s * math.sqrt(n * (n - 1)))
    if n < 150:
        lc = math.lgamma(n + 1) / (n - 1) - math.log(2 * n)
    else:  # Stirling
        lc = math.log(2 * math.pi) / (2 * (n - 1)) + (1.5 * math.log(n) - 1) / (n - 1) - math.log(2 * math.e)
    a, b = -(n - 1) * (lc + math.log(u)), -(n - 1) * math.log(g)
    t = max(a, b)
    return math.exp((t + math.log(math.exp(a - t) + math.exp(b - t))) / (n - 1))


def desgagne(x):
    y = abs((x - fs(x) / len(x)) / math.sqrt(mom(x, 2)))
    n = len(x)
    r = np.array([0.18240929 - 0.5 * fs(special.xlogy(y * y, y)) / n, 0.5348223 - fs(np.log1p(y)) / n, 0.20981558 - fs(np.log(np.log(math.e + y))) / n])
    Q = np.array([[1259.04213344, -32040.6956903, 85065.7773947], [-32040.6956903, 918649.9005906, -2425883.3443201], [85065.7773947, -2425883.3443201, 6407749.8211208]])
    return n * float(r @ Q @ r)
