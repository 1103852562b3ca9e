"""C25: CDF, density, log and moment helpers."""
import math

import numpy as np
from hypothesis import strategies as st
from pysatl_criterion.core.distributions import expon, norm, sample, weibull

from pbt import gen
from pbt.core import Sub, close

TECHNIQUE = "property-based testing against closed forms evaluated independently (math.erfc, expm1, log1p, exact sums), plus metamorphic relations"
NOTE = "Helpers evaluated on random arguments and parameters, far tails and boundaries included, against closed forms and against each other."
RULE = ("Parameters over several decades, arguments as quantile-like multiples of the scale, far tails, zeros, negatives, infinities. "
        "Non-trivial = parameters differ from the defaults and at least three arguments are distinct.")
ASSUMPTIONS = ["math.erfc, exp, expm1, log1p of the C library are accurate to a few ulps"]


def pos(lo, hi):
    return st.one_of(st.sampled_from([1, 2, 0.5, 5]), st.floats(math.log(lo), math.log(hi)).map(lambda e: gen.rnd(math.exp(e), 5)))


def z():
    return st.one_of(st.floats(-8, 8), st.floats(-40, 40), st.integers(-5, 5), st.sampled_from([0.0, -0.0, 1e-9, -1e-9, 1e3, -1e3]), st.floats(-1e-3, 1e-3))


def arr(xs, kind):
    return {"list": list(xs), "array": np.array(xs, float), "scalar": xs[0], "matrix": np.array([xs, xs], float)}[kind]


def flat(v):
    return [float(t) for t in np.asarray(v, float).reshape(-1)]


KINDS = ["list", "array", "array", "scalar", "matrix"]


def norm_cases():
    return st.fixed_dictionaries({"mean": st.one_of(st.sampled_from([0, 1, -3]), st.floats(-1e4, 1e4).map(lambda v: gen.rnd(v, 5))), "var": st.one_of(pos(1e-4, 1e4), pos(1e-12, 1e12)),
                                  "z": st.lists(z(), min_size=1, max_size=12), "kind": st.sampled_from(KINDS), "default": st.integers(0, 9)})


def phi(t):
    return 0.5 * math.erfc(-t / math.sqrt(2))


def check_norm(case, ctx):
    m, v = (0, 1) if case["default"] == 0 else (case["mean"], case["var"])
    s = math.sqrt(v)
    xs = [m + s * t for t in case["z"]]
    ctx.nt(len(set(xs)) >= 3 and (m, v) != (0, 1))
    a = arr(xs, case["kind"])
    used = [xs[0]] if case["kind"] == "scalar" else (xs * 2 if case["kind"] == "matrix" else xs)
    kw = {} if case["default"] == 0 else {"mean": m, "var": v}
    keep = np.array(a, copy=True)
    c = ctx.call("cdf_norm", norm.cdf_norm, a, **kw)
    p = ctx.call("pdf_norm", norm.pdf_norm, a, **kw)
    ctx.require(np.shape(c) == np.shape(a) and np.shape(p) == np.shape(a), "cdf_norm/pdf_norm changed the shape %s to %s, %s", np.shape(a), np.shape(c), np.shape(p))
    ctx.require(np.array_equal(keep, np.array(a)), "cdf_norm/pdf_norm changed its argument")
    if case["default"] > 4:
        ctx.close(flat(norm.cdf_norm(a, m, v)), flat(c), "cdf_norm with positional parameters", 1e-14, 0)
        ctx.close(flat(norm.pdf_norm(a, m, v)), flat(p), "pdf_norm with positional parameters", 1e-14, 0)
    for x, ci, pi in zip(used, flat(c), flat(p)):
        t = (x - m) / s
        # cancellation in x - m limits the accuracy of t
        e = 1e-15 * (abs(x) + abs(m)) / s
        rt = 1e-9 + (abs(t) + 1) * e * 4
        ctx.close(ci, phi(t), "cdf_norm(%r, %r, %r)" % (x, m, v), rt, 1e-300)
        ctx.close(pi, math.exp(-t * t / 2) / (s * math.sqrt(2 * math.pi)), "pdf_norm(%r, %r, %r)" % (x, m, v), rt, 1e-300)
        ctx.require(0 <= ci <= 1 and pi >= 0, "cdf_norm/pdf_norm(%r) outside its range", x)
    order = sorted(used)
    cs = flat(norm.cdf_norm(np.array(order), m, v))
    ctx.require(all(p <= q for p, q in zip(cs, cs[1:])), "cdf_norm is not monotone on %s", order)
    ends = flat(norm.cdf_norm(np.array([-np.inf, np.inf, m]), m, v))
    ctx.require(ends == [0.0, 1.0, 0.5], "cdf_norm at -inf, inf, mean: %s", ends)


def expon_cases():
    return st.fixed_dictionaries({"lam": st.one_of(pos(1e-4, 1e4), pos(1e-12, 1e12)), "z": st.lists(z(), min_size=1, max_size=12), "kind": st.sampled_from(KINDS), "default": st.integers(0, 9)})


def check_expon(case, ctx):
    lam = 1 if case["default"] == 0 else case["lam"]
    xs = [t / lam for t in case["z"]]
    ctx.nt(len(set(xs)) >= 3 and lam != 1)
    a = arr(xs, case["kind"])
    used = [xs[0]] if case["kind"] == "scalar" else (xs * 2 if case["kind"] == "matrix" else xs)
    kw = {} if case["default"] == 0 else {"lam": lam}
    c = ctx.call("cdf_expon", expon.cdf_expon, a, **kw)
    ctx.require(np.shape(c) == np.shape(a), "cdf_expon changed the shape")
    for x, ci in zip(used, flat(c)):
        ctx.close(ci, 0.0 if x <= 0 else -math.expm1(-lam * x), "cdf_expon(%r, %r)" % (x, lam), 1e-10, 1e-300)
    order = np.array(sorted(used))
    cs = flat(expon.cdf_expon(order, lam))
    ctx.require(all(p <= q for p, q in zip(cs, cs[1:])), "cdf_expon is not monotone")
    ctx.require(flat(expon.cdf_expon(np.array([-np.inf, 0.0, np.inf]), lam)) == [0.0, 0.0, 1.0], "cdf_expon at -inf, 0, inf")


def weib_cases():
    return st.fixed_dictionaries({"a": st.one_of(pos(0.05, 50), pos(1e-4, 1e4)), "k": st.one_of(pos(0.2, 20), pos(0.01, 300)), "e": st.lists(st.one_of(st.floats(-30, 3), st.floats(-3, 3), st.floats(3, 6.4)), min_size=1, max_size=12),
                                  "neg": st.booleans(), "kind": st.sampled_from(KINDS), "default": st.integers(0, 9)})


def log1mexp(t):
    """log(1 - exp(-t)), t > 0"""
    if t <= 0:
        return -math.inf
    return math.log(-math.expm1(-t)) if t < 0.6931 else math.log1p(-math.exp(-t))


def check_weib(case, ctx):
    a, k = (1, 5) if case["default"] == 0 else (case["a"], case["k"])
    # e = log of x**k
    xs = [math.exp(e / k) for e in case["e"]]
    if case["neg"]:
        xs = [-xs[0], 0.0] + xs
    ctx.nt(len(set(xs)) >= 3 and (a, k) != (1, 5))
    arg = arr(xs, case["kind"])
    used = [xs[0]] if case["kind"] == "scalar" else (xs * 2 if case["kind"] == "matrix" else xs)
    kw = {} if case["default"] == 0 else {"a": a, "k": k}
    fs = {n: ctx.call(n, getattr(weibull, n), arg, **kw) for n in ("generate_weibull_cdf", "generate_weibull_logcdf", "generate_weibull_logsf")}
    for n, v in fs.items():
        ctx.require(np.shape(v) == np.shape(arg), "%s changed the shape", n)
    c, lc, ls = (flat(v) for v in fs.values())
    for x, ci, lci, lsi in zip(used, c, lc, ls):
        if x <= 0:
            ctx.require(ci == 0 and lci == -math.inf and lsi == 0, "Weibull helpers at %r: cdf %r, logcdf %r, logsf %r", x, ci, lci, lsi)
            continue
        t = x ** k
        want = a * log1mexp(t)
        sf = -math.expm1(want)
        what = "(%r, a=%r, k=%r)" % (x, a, k)
        # scipy's survival function takes 1 - exp(-t) by subtraction (and the log of the distribution function from it above the median)
        sub = 1e-15 * a / t if want > -0.75 else 0.0
        if want > -690:
            ctx.close(lci, want, "logcdf" + what, 1e-9, 1e-12 + sub)
            ctx.close(ci, math.exp(want), "cdf" + what, 1e-9 * (1 + abs(want)), 1e-300)
        else:
            ctx.require(lci < -680 and ci <= 1e-290, "logcdf%s = %r, cdf %r, want log %r", what, lci, ci, want)
        if sf > 1e-290:
            ctx.close(lsi, math.log(sf), "logsf" + what, 1e-7, 1e-11 + sub / sf)
        else:
            ctx.require(lsi < -600, "logsf%s = %r", what, lsi)
        ctx.require(lci <= 0 and lsi <= 0 and 0 <= ci <= 1, "Weibull helpers outside their range at %r", x)
    order = np.array(sorted(used))
    cs, lss = flat(weibull.generate_weibull_cdf(order, a, k)), flat(weibull.generate_weibull_logsf(order, a, k))
    ctx.require(all(p <= q for p, q in zip(cs, cs[1:])), "the Weibull cdf is not monotone on %s", order)
    ctx.require(all(p >= q - 1e-12 * (1 + abs(q)) for p, q in zip(lss, lss[1:])), "the Weibull log survival function is not monotone on %s", order)


def moment_cases():
    x = st.one_of(st.lists(st.integers(-50, 50), min_size=2, max_size=30), st.lists(st.floats(-100, 100).map(lambda v: gen.rnd(v, 5)), min_size=2, max_size=30),
                  st.tuples(st.integers(0, 2**31 - 1), st.integers(31, 400)).map(lambda t: [gen.rnd(v, 5) for v in gen.rng(t[0]).gumbel(size=t[1]) * 3]))
    return st.fixed_dictionaries({"x": x, "mom": st.integers(1, 8), "center": st.floats(-50, 50).map(lambda v: gen.rnd(v, 4)), "shift": st.integers(-40, 40), "arr": st.booleans(),
                                  "unit": st.sampled_from([1, 1, 1, 1e-9, 1e-5, 1e-3, 1e5])})


def check_moment(case, ctx):
    x, m, c, unit = case["x"], case["mom"], case["center"], case.get("unit", 1)
    if unit != 1:
        x, c = [v * unit for v in x], c * unit
    floor = 1e-12 * min(1, max(abs(v) for v in x + [c]) ** m)
    ctx.nt(len(set(x)) > 2 and m >= 2)
    a = np.array(x, float) if case["arr"] else list(x)

    def want(c0):
        return math.fsum((v - c0) ** m for v in x) / len(x), math.fsum(abs(v - c0) ** m for v in x) / len(x)
    mu = math.fsum(x) / len(x)
    for got, c0, what in ((ctx.call("central_moment", sample.central_moment, a, m), mu, "central_moment"), (ctx.call("moment", sample.moment, a, m), 0.0, "moment"),
                          (ctx.call("moment", sample.moment, a, m, c), c, "moment about %r" % c), (ctx.call("moment", sample.moment, a, mom=m, center=mu), mu, "moment about the mean")):
        w, scale = want(c0)
        ctx.require(close(got, w, 1e-9, 1e-9 * scale + floor), "%s of order %d: %s, want %s", what, m, got, w)
    if unit != 1:
        return
    d = case["shift"]
    w, scale = want(mu)
    b = [v + d for v in x]
    ctx.require(close(sample.central_moment(np.array(b, float), m), w, 1e-7, 1e-7 * scale + 1e-9), "central_moment of order %d changes under a shift by %s", m, d)


def subs():
    return [Sub("normal", norm_cases, check_norm, 1000, 30000), Sub("exponential", expon_cases, check_expon, 800, 20000),
            Sub("weibull", weib_cases, check_weib, 1500, 30000), Sub("moments", moment_cases, check_moment, 800, 20000)]
