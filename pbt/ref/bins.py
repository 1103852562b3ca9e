"""Counting observations in bins and power divergences, exactly."""
import math
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st

fs = math.fsum


def equal_bins(x, a, b, k):
    """Counts of x in k equal bins of [a, b] (left-closed, the last one closed); None when rounding decides a count.

    An observation exactly on an edge is decided when the edge is a representable number."""
    a, b = Fraction(a), Fraction(b)
    edges = [a + (b - a) * j / k for j in range(k + 1)]
    c = [0] * k
    for v in x:
        v = Fraction(float(v))
        for e in edges[1:-1]:
            if v == e:
                if float(a) + (float(b) - float(a)) / k * edges.index(e) != float(e):
                    return None
            elif abs(v - e) < Fraction(1, 10 ** 9) * (b - a):
                return None
        c[min(int((v - a) / (b - a) * k), k - 1)] += 1
    return c


def probability_bins(u, k):
    """Counts of the probabilities u in k equal bins; None when one is too close to an edge."""
    c = [0] * k
    for v in u:
        t = v * k
        if abs(t - round(t)) < 1e-8 and 0 < round(t) < k:
            return None
        c[min(int(t), k - 1)] += 1
    return c


def powers():
    """Cressie-Read powers: the named members of the family, values next to them, and anything between -3 and 3."""
    named = st.sampled_from([1, 0, -1, 2 / 3, 2, 0.5, -0.5, -2, 1.5])
    near = st.tuples(st.sampled_from([0, 0, 1, -1]), st.sampled_from([1e-3, -1e-3, 3e-3, -3e-3, 0.01, -0.01, 0.04, -0.04])).map(sum)
    return st.one_of(named, named, near, st.floats(-3, 3).map(lambda v: float("%.3g" % v)).filter(lambda v: min(abs(v), abs(v + 1)) > 5e-4))


def power_divergence(o, e, lam):
    """Cressie-Read family, Pearson (1) and likelihood ratio (0, and -1 with the roles exchanged) as its limits."""
    o, e = [float(v) for v in o], [float(v) for v in e]
    if lam == 1:
        return fs((a - b) ** 2 / b for a, b in zip(o, e))
    if lam == 0:
        return 2 * fs(a * math.log(a / b) for a, b in zip(o, e) if a > 0)
    if lam == -1:
        return math.inf if min(o) == 0 else 2 * fs(b * math.log(b / a) for a, b in zip(o, e))
    if lam < 0 and min(o) == 0:
        return None
    return 2 / (lam * (lam + 1)) * fs(a * ((a / b) ** lam - 1) for a, b in zip(o, e))


def num_bins(rule, x, a, b):
    n = len(x)
    if rule == "sturges":
        k = math.log2(n) + 1
    elif rule == "sqrt":
        k = math.sqrt(n)
    elif rule == "auto":
        m = fs(x) / n
        k = (b - a) * n ** (1 / 3) / (3.5 * math.sqrt(fs((v - m) ** 2 for v in x) / n))
    elif isinstance(rule, str):
        k = 10
    else:
        k = rule
    if rule == "auto" and abs(k - round(k)) < 1e-9:
        return None
    return max(2, math.ceil(k))
