"""Strategies shared by the properties. Every strategy yields JSON-able values."""
import math

import numpy as np
from hypothesis import strategies as st

fin = dict(allow_nan=False, allow_infinity=False)


def p_value():
    return st.one_of(
        st.floats(0, 1),
        st.integers(0, 20).map(lambda k: k / 20),
        st.integers(0, 100).map(lambda k: k / 1000),
        st.integers(1, 18).map(lambda k: 10.0 ** -k),
        st.sampled_from([0.0, 1.0, 0.05, 0.01, 5e-324, 1 - 1e-16]),
    )


def p_list(max_size=40, min_size=0):
    grid = st.lists(st.integers(0, 12).map(lambda k: k / 100), min_size=min_size, max_size=max_size)
    return st.one_of(st.lists(p_value(), min_size=min_size, max_size=max_size), grid,
                     st.lists(st.floats(0, 0.1), min_size=min_size, max_size=max_size))


def rng(seed):
    return np.random.RandomState(seed & 0x7FFFFFFF)


def rnd(x, digits=6):
    """Round to `digits` significant digits so that cases stay readable; keeps zeros."""
    return float("%.*g" % (digits, x))


def unit(lo=1e-3):
    """A number strictly inside (0, 1)."""
    return st.floats(lo, 1 - lo).map(lambda u: rnd(u, 6))


def ulist(min_n, max_n, lo=1e-3, big=0):
    """Lists of numbers in (0,1): explicit (shrinkable), tied, clustered, or seeded pseudo-random ones of larger size."""
    def seeded(t):
        s, n, shape = t
        r = rng(s)
        u = r.uniform(lo, 1 - lo, n)
        if shape == 1:
            u = u ** 2
        elif shape == 2:
            u = np.sqrt(u)
        elif shape == 3:
            u = np.where(r.uniform(size=n) < 0.5, u * 0.4 + 0.02, 0.6 + u * 0.38)
        elif shape == 4:
            u = np.round(u, 2)
        return [rnd(v) for v in np.clip(u, lo, 1 - lo)]
    hi = max(max_n, min_n)
    opts = [
        st.lists(unit(lo), min_size=min_n, max_size=min(hi, max(min_n, 24))),
        st.lists(st.integers(1, 19).map(lambda k: k / 20), min_size=min_n, max_size=min(hi, max(min_n, 24))),
        st.tuples(st.integers(0, 2**31 - 1), st.integers(min_n, hi), st.integers(0, 4)).map(seeded),
        st.tuples(st.integers(0, 2**31 - 1), st.integers(min_n, hi), st.integers(0, 4)).map(seeded),
    ]
    if big:
        opts.append(st.tuples(st.integers(0, 2**31 - 1), st.integers(min_n, big), st.integers(0, 4)).map(seeded))
    return st.one_of(*opts)


def spread(x):
    """Sample spread relative to magnitude; used to keep numerically meaningful cases."""
    x = np.asarray(x, float)
    if len(x) < 2:
        return 0.0
    s = float(np.std(x))
    m = float(np.max(np.abs(x)))
    return 0.0 if m == 0 else s / m


def limit_values(min_size=1, max_size=60):
    """Simulated limit distributions: continuous-looking, discrete (tied) and mixed lists."""
    f = st.floats(-1e3, 1e3, **fin).map(lambda v: rnd(v, 8))
    return st.one_of(
        st.lists(f, min_size=min_size, max_size=max_size),
        st.lists(st.integers(-3, 6).map(float), min_size=min_size, max_size=max_size),
        st.lists(st.integers(0, 40).map(lambda k: k / 8), min_size=min_size, max_size=max_size),
        st.lists(st.sampled_from([0.0, 1.0]), min_size=min_size, max_size=max_size),
        st.tuples(st.integers(0, 2**31 - 1), st.integers(max(min_size, 2), 400), st.integers(0, 2)).map(_seeded_limit),
    )


def _seeded_limit(t):
    s, n, kind = t
    r = rng(s)
    if kind == 0:
        v = r.exponential(size=n)
    elif kind == 1:
        v = r.normal(size=n)
    else:
        v = r.poisson(2.0, size=n).astype(float)
    return [rnd(x, 8) for x in v]


def level():
    return st.one_of(st.sampled_from([0.01, 0.05, 0.1, 0.25, 0.5, 0.001]), st.floats(0.001, 0.999).map(lambda v: rnd(v, 6)))


def near(xs):
    """A value to compare with the list `xs`: one of its members, between, or outside."""
    return st.one_of(
        st.sampled_from(xs),
        st.floats(-1.2e3, 1.2e3, **fin).map(lambda v: rnd(v, 8)),
        st.tuples(st.sampled_from(xs), st.sampled_from(xs)).map(lambda t: (t[0] + t[1]) / 2),
    )


def isfinite(x):
    return isinstance(x, (int, float, np.floating, np.integer)) and math.isfinite(float(x))


# -- large limit distributions, kept compact in the case and expanded by the check
KINDS = ["exponential", "normal", "poisson", "cauchy", "rounded", "two-point"]


def big_limit():
    return st.fixed_dictionaries({"seed": st.integers(0, 2**31 - 1), "n": st.sampled_from([401, 999, 1000, 1001, 5000, 10000, 10001, 10001, 65537, 131071]),
                                  "kind": st.sampled_from(KINDS), "scale": st.sampled_from([1.0, 1.0, 1.0, 1e-7, 1e7])})


def fine_level():
    """Levels that need a large simulation: small, next to one, with many digits."""
    e = st.floats(0.5, 4.5).map(lambda u: rnd(10.0 ** -u, 5))
    return st.one_of(e, e, e.map(lambda v: 1 - v), st.sampled_from([0.001, 0.0025, 0.005, 0.025, 0.0001, 0.015, 0.975, 0.999]), level())


def rank_value():
    """A statistic value given by the simulated quantile it is near: position, whole ranks and a part of the gap to the next."""
    return st.fixed_dictionaries({"q": st.one_of(st.none(), st.floats(0, 1).map(lambda u: rnd(u, 4))), "ranks": st.integers(-4, 4),
                                  "part": st.sampled_from([0.0, 0.0, 0.5, 1.0])})


def expand(xs):
    if not isinstance(xs, dict):
        return xs
    r, n = rng(xs["seed"]), xs["n"]
    k = xs["kind"]
    v = (r.exponential(size=n) if k == "exponential" else r.normal(size=n) if k == "normal" else r.poisson(3.0, size=n) if k == "poisson" else
         r.standard_cauchy(n) if k == "cauchy" else np.round(r.gamma(2.0, size=n), 2) if k == "rounded" else (r.uniform(size=n) < 0.97))
    return [rnd(x * xs["scale"], 9) for x in np.asarray(v, float)]


def at(xs, v, q):
    """The value meant by `v` (see rank_value) in the limit distribution `xs`; `q` is the quantile meant by default."""
    if not isinstance(v, dict):
        return v
    s = sorted(xs)
    n = len(s)
    k = int(round((q if v["q"] is None else v["q"]) * (n - 1))) + v["ranks"]
    if k < 0:
        return s[0] - 1.0
    if k >= n:
        return s[-1] + 1.0
    nxt = s[min(k + 1, n - 1)]
    return s[k] + v["part"] * (nxt - s[k])
