"""C24: generators draw from the distribution they declare."""
import importlib
import json
import math
import os

import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st
from pysatl_criterion import DistributionType
from pysatl_criterion.utils.generator import get_available_generator

from pbt import gen
from pbt.core import VERIF, Sub
from pbt.ref import dists

TECHNIQUE = "property-based testing with statistical oracles: probability-integral transform of generated draws under an independent reference distribution"
NOTE = "Draws of every generator and every core sampling function for random parameters are compared with independent reference distributions (false-alarm rate 1e-9 per test)."
RULE = ("A distribution, valid parameters, a sample size and a random state; draws of 1500-3000 observations (and single draws of 20000-250000) are tested. "
        "Non-trivial = some parameter differs from its default.")
ASSUMPTIONS = ["scipy.stats distribution functions are the reference", "numpy's global random state is the documented source of randomness",
               "parameters between about 0.15 and 30, shapes and degrees of freedom up to 300 (no overflow or underflow of single draws)"]
ALPHA = 1e-9
CORE = {
    "NORMAL": ("norm", "generate_norm"), "EXPONENTIAL": ("expon", "generate_expon"), "WEIBULL": ("weibull", "generate_weibull"),
    "UNIFORM": ("uniform", "generate_uniform"), "STUDENT": ("student", "generate_t"), "GAMMA": ("gamma", "generate_gamma"),
    "BETA": ("beta", "generate_beta"), "LOG_NORMAL": ("lognormal", "generate_lognorm"), "CAUCHY": ("cauchy", "generate_cauchy"),
    "CHI_2": ("chi2", "generate_chi2"), "GOMPERTZ": ("gompertz", "generate_gompertz"), "GUMBEL": ("gumbel", "generate_gumbel"),
    "INV_GAUSS": ("invgauss", "generate_invgauss"), "LAPLACE": ("laplace", "generate_laplace"), "LO_CON_NORMAL": ("lo_con_norm", "generate_lo_con_norm"),
    "LOGISTIC": ("logistic", "generate_logistic"), "MIX_CON_NORMAL": ("mix_con_norm", "generate_mix_con_norm"), "RICE": ("rice", "generate_rice"),
    "SCALE_CON_NORMAL": ("scale_con_norm", "generate_scale_con_norm"), "TRUNC_NORMAL": ("truncnormal", "generate_truncnorm"), "TUKEY": ("tukey", "generate_tukey"),
}
LISTS = {"LO_CON_NORMAL", "MIX_CON_NORMAL", "SCALE_CON_NORMAL"}


def pos(lo=0.15, hi=30.0):
    return st.one_of(st.sampled_from([1, 2, 0.5, 3]), st.floats(math.log(lo), math.log(hi)).map(lambda e: gen.rnd(math.exp(e), 4)))


def real(m=30.0):
    return st.one_of(st.sampled_from([0, 1, -2]), st.floats(-m, m).map(lambda v: gen.rnd(v, 4)))


def prob():
    return st.one_of(st.sampled_from([0, 1, 0.5, 0.25]), st.floats(0, 1).map(lambda v: gen.rnd(v, 4)))


def params(name):
    if name == "UNIFORM":
        return st.tuples(real(), pos()).map(lambda t: {"a": t[0], "b": t[0] + t[1]})
    if name == "TRUNC_NORMAL":
        def mk(t):
            m, v, lo, w = t
            s = math.sqrt(v)
            a = gen.rnd(m + lo * s, 5)
            return {"mean": m, "var": v, "a": a, "b": gen.rnd(a + w * s, 6)}
        return st.one_of(st.tuples(real(), pos(), st.floats(-4, 2.5), st.floats(0.3, 5)).map(mk), st.just({"mean": 0, "var": 1, "a": -10, "b": 10}))
    if name == "LOG_NORMAL":
        return st.fixed_dictionaries({"s": pos(0.15, 3), "mu": real(5)})
    if name == "TUKEY":
        return st.fixed_dictionaries({"lam": st.one_of(st.sampled_from([0, 2, 1, 0.14, -0.5]), st.floats(-0.8, 4).map(lambda v: gen.rnd(v, 3)))})
    if name == "RICE":
        return st.tuples(st.one_of(st.just(0), pos(0.1, 10)), pos(0.2, 8)).map(lambda t: {"nu": t[0], "sigma": t[1]})
    if name == "GOMPERTZ":
        return st.fixed_dictionaries({"eta": pos(0.05, 10), "b": pos()})
    if name in ("STUDENT", "CHI_2", "GAMMA", "BETA"):
        wide = st.one_of(pos(), pos(0.15, 300), st.sampled_from([10, 20, 30, 40, 50, 100]))
        return st.fixed_dictionaries({p: wide for p, _, _ in dists.PARAMS[name]})
    kinds = {"pos": pos, "real": real, "prob": prob, "nonneg": pos}
    return st.fixed_dictionaries({p: kinds[k]() for p, _, k in dists.PARAMS[name]})


def cases(name):
    return lambda: st.fixed_dictionaries({"name": st.just(name), "v": params(name), "n": st.one_of(st.integers(1, 5), st.integers(6, 40)),
                                          "big": st.integers(1500, 3000), "seed": st.integers(0, 2**31 - 1)})


def tests(ctx, x, ref, what):
    """Distribution of independent draws x."""
    if ref is None:
        return
    u = ref.cdf(x)
    p = ss.kstest(u, "uniform").pvalue
    ctx.require(p >= ALPHA, "%s: %d draws do not follow the declared distribution (Kolmogorov-Smirnov p=%.2g, median %.5g)", what, len(x), p, float(np.median(x)))
    # dependence between neighbours, and trend
    z = ss.norm.ppf(np.clip(u, 1e-12, 1 - 1e-12))
    for lag in (1, 2):
        r = float(np.mean(z[:-lag] * z[lag:])) * math.sqrt(len(z) - lag)
        ctx.require(abs(r) < 6.5, "%s: draws %d apart are dependent (z=%.1f)", what, lag, r)
    t = np.linspace(-1, 1, len(z))
    r = float(np.sum(z * t) / math.sqrt(np.sum(t * t)))
    ctx.require(abs(r) < 6.5, "%s: draws have a trend (z=%.1f)", what, r)
    # location, spread and tails of the normal scores (not where the distribution piles up below the resolution of its upper bound)
    hi = ref.support()[1]
    if len(z) >= 20000 and not (math.isfinite(hi) and ref.sf(hi - 4 * np.spacing(abs(hi))) > 1e-9):
        for k, (mean, var) in enumerate([(0, 1), (1, 2), (0, 15), (3, 96)], 1):
            r = (float(np.mean(z**k)) - mean) * math.sqrt(len(z) / var)
            ctx.require(abs(r) < 7.5, "%s: moment %d of the normal scores of %d draws is off (z=%.1f)", what, k, len(z), r)


def spread_of_sums(ctx, g, ref, what, k, m=12):
    """Observations of one draw are independent: sums of their normal scores (and of the squares) over draws of m vary as sums of m independent terms do."""
    if ref is None:
        return
    u = ref.cdf(np.array([np.asarray(g.generate(m), float) for _ in range(k)]))
    if np.mean((u > 1e-9) & (u < 1 - 1e-9)) < 1:
        return
    z = ss.norm.ppf(u)
    for power, s, kurt in ((1, z.sum(axis=1) / math.sqrt(m), 0), (2, (z * z - 1).sum(axis=1) / math.sqrt(2 * m), 12 / m)):
        r = (float(np.mean(s * s)) - 1) / math.sqrt((2 + kurt) / k)
        ctx.require((-6 if power == 1 else -7) < r < (8 if power == 1 else 14), "%s: sums of the normal scores (power %d) of %d draws of %d do not vary as those of independent observations (z=%.1f)",
                    what, power, k, m, r)


def inside(ctx, x, ref, what):
    ctx.require(bool(np.all(np.isfinite(x))), "%s drew a non-finite observation", what)
    lo, hi = ref.support()
    ctx.require(bool(np.all(x >= lo - 1e-9 * max(1, abs(lo))) if math.isfinite(lo) else True) and bool(np.all(x <= hi + 1e-9 * max(1, abs(hi))) if math.isfinite(hi) else True),
                "%s drew outside the support [%s, %s]: min %s, max %s", what, lo, hi, x.min(), x.max())


def check(case, ctx):
    name, v, n = case["name"], case["v"], case["n"]
    spec = dists.PARAMS[name]
    ctx.nt(any(v[p] != d for p, d, _ in spec))
    ref = dists.dist(name, v)
    g = ctx.call("generator", get_available_generator, DistributionType[name], dict(v))
    what = "%s(%s).generate" % (name, v)
    np.random.seed(case["seed"])
    a = np.asarray(ctx.call("%s(%d)" % (what, n), g.generate, n), float)
    ctx.require(a.shape == (n,), "%s(%d) has shape %s", what, n, a.shape)
    inside(ctx, a, ref, what)
    b = np.asarray(ctx.call("%s(%d)" % (what, n), g.generate, n), float)
    ctx.require(n < 2 or not np.array_equal(a, b), "%s(%d): two draws are identical", what, n)
    np.random.seed(case["seed"])
    g2 = get_available_generator(DistributionType[name], dict(v))
    a2, b2 = np.asarray(g2.generate(n), float), np.asarray(g2.generate(size=n), float)
    ctx.require(np.array_equal(a, a2) and np.array_equal(b, b2), "%s: equal random states gave different draws", what)
    big = case["big"]
    x = np.asarray(ctx.call("%s(%d)" % (what, big), g.generate, big), float)
    ctx.require(x.shape == (big,), "%s(%d) has shape %s", what, big, x.shape)
    inside(ctx, x, ref, what)
    tests(ctx, x, ref, what)
    # first elements of many draws of one object are independent too
    if name not in LISTS:
        m = np.array([np.asarray(g.generate(2), float) for _ in range(400)])
        tests(ctx, m.T.ravel(), ref, "%s(2), first and second elements of 400 draws" % what)
    spread_of_sums(ctx, g, ref, what, 400 if name in LISTS else 600)
    ctx.equal(g.parameters(), v, "%s parameters after generating" % name)


def core_args(name, v):
    """Arguments of the core sampling function for descriptor parameters v (as its own documentation names them)."""
    if name == "INV_GAUSS":
        return {"mu": v["mu"] / v["lam"], "lam": v["lam"]}
    return dict(v)


def core_cases(name):
    return lambda: st.fixed_dictionaries({"name": st.just(name), "v": params(name), "n": st.integers(1, 9), "m": st.integers(1, 4),
                                          "big": st.integers(1000, 2000), "seed": st.integers(0, 2**31 - 1)})


def check_core(case, ctx):
    name, v, n = case["name"], case["v"], case["n"]
    modname, fname = CORE[name]
    f = getattr(importlib.import_module("pysatl_criterion.core.distributions.%s" % modname), fname)
    ctx.nt(any(v[p] != d for p, d, _ in dists.PARAMS[name]))
    ref = dists.dist(name, v)
    args = core_args(name, v)
    what = "%s(%s)" % (fname, args)
    np.random.seed(case["seed"])
    a = np.asarray(ctx.call(what, f, n, **args), float)
    ctx.require(a.shape == (n,), "%s with size %d has shape %s", what, n, a.shape)
    inside(ctx, a, ref, what)
    np.random.seed(case["seed"])
    ctx.require(np.array_equal(a, np.asarray(f(size=n, **args), float)), "%s: equal random states gave different draws", what)
    if name not in LISTS:
        c = ctx.call(what, f, (n, case["m"]), **args)
        ctx.require(np.shape(c) == (n, case["m"]), "%s with size %s has shape %s", what, (n, case["m"]), np.shape(c))
    x = np.asarray(ctx.call(what, f, case["big"], **args), float)
    inside(ctx, x, ref, what)
    tests(ctx, x, ref, what)


def large_cases(name):
    lo, hi = (20000, 25000) if name in LISTS else (100000, 250000)
    return lambda: st.fixed_dictionaries({"name": st.just(name), "v": params(name), "core": st.booleans(), "big": st.integers(lo, hi), "seed": st.integers(0, 2**31 - 1)})


def check_large(case, ctx):
    """One large draw: small systematic errors, repetitions and errors in the tails."""
    name, v, big = case["name"], case["v"], case["big"]
    if name == "BETA" and v["b"] < 0.4:  # piles up on the last few doubles below 1
        return
    ctx.nt(any(v[p] != d for p, d, _ in dists.PARAMS[name]))
    if case["core"]:
        modname, fname = CORE[name]
        f, args = getattr(importlib.import_module("pysatl_criterion.core.distributions.%s" % modname), fname), core_args(name, v)
        what = "%s(%d, %s)" % (fname, big, args)
        draw = lambda: f(big, **args)  # noqa: E731
    else:
        g = ctx.call("generator", get_available_generator, DistributionType[name], dict(v))
        what = "%s(%s).generate(%d)" % (name, v, big)
        draw = lambda: g.generate(big)  # noqa: E731
    ref = dists.dist(name, v)
    np.random.seed(case["seed"])
    x = np.asarray(ctx.call(what, draw), float)
    ctx.require(x.shape == (big,), "%s has shape %s", what, x.shape)
    inside(ctx, x, ref, what)
    distinct = len(np.unique(x))
    ctx.require(distinct > 0.9 * big, "%s drew only %d distinct values", what, distinct)
    tests(ctx, x, ref, what)


with open(os.path.join(VERIF, "pbt", "ref", "defaults.json")) as _f:
    DEFAULTS = json.load(_f)  # documented defaults


def default_cases(name):
    return lambda: st.fixed_dictionaries({"name": st.just(name), "v": params(name), "left_out": st.lists(st.booleans(), min_size=4, max_size=4), "seed": st.integers(0, 2**31 - 1)})


def check_defaults(case, ctx):
    """Parameters left out take their documented default: the draw equals the one with the default given."""
    name, v = case["name"], case["v"]
    modname, fname = CORE[name]
    f = getattr(importlib.import_module("pysatl_criterion.core.distributions.%s" % modname), fname)
    cls = type(get_available_generator(DistributionType[name], dict(v)))
    for what, make, args, dflt in (
            (fname, lambda a: f(7, **a), core_args(name, v), DEFAULTS["functions"]["%s.%s" % (modname, fname)]),
            (cls.__name__, lambda a: cls(**a).generate(7), dict(v), DEFAULTS["generators"][name])):
        out = {k for k, b in zip(sorted(args), case["left_out"]) if b and dflt.get(k) is not None}
        part, full = {k: a for k, a in args.items() if k not in out}, {k: dflt[k] if k in out else a for k, a in args.items()}
        if name == "UNIFORM" and full["a"] >= full["b"] or name == "GAMMA" and full["alfa"] <= 0 or name == "SCALE_CON_NORMAL" and full["b"] <= 0:
            continue
        if name == "TRUNC_NORMAL" and not full["a"] < full["b"]:
            continue
        ctx.nt(bool(out))
        np.random.seed(case["seed"])
        got = np.asarray(ctx.call("%s(%s)" % (what, part), make, part), float)
        np.random.seed(case["seed"])
        want = np.asarray(ctx.call("%s(%s)" % (what, full), make, full), float)
        ctx.require(np.array_equal(got, want, equal_nan=True), "%s(%s) differs from %s(%s), whose %s are the documented defaults", what, part, what, full, sorted(out))
        if what != fname:
            ctx.equal(cls(**part).parameters(), full, "%s(%s).parameters()" % (what, part))


def subs():
    out = []
    for n in dists.NAMES:
        slow = n in LISTS
        out.append(Sub(n, cases(n), check, 24 if slow else 60, 150 if slow else 600))
        out.append(Sub("defaults:" + n, default_cases(n), check_defaults, 40, 600))
        out.append(Sub("large:" + n, large_cases(n), check_large, 10 if n in ("STUDENT", "CHI_2", "GAMMA", "BETA") else 4, 60))
        out.append(Sub("core:" + n, core_cases(n), check_core, 20 if slow else 50, 120 if slow else 400))
    return out


def _weibull_scale():
    from pysatl_criterion.utils.distribution import get_available_distribution_descriptor
    d = {p.name: p for p in get_available_distribution_descriptor(DistributionType.WEIBULL).parameters()}
    np.random.seed(0)
    x = np.asarray(get_available_generator(DistributionType.WEIBULL, {"a": 4, "k": 2}).generate(500))
    return "cale" in (d["a"].description or "") + d["a"].display_name and ss.kstest(x / 4, ss.weibull_min(2).cdf).pvalue < 1e-9


WITNESS = {"KF-WEIBULL-A": _weibull_scale}
