"""C28: one-sided criteria reject on the side where the evidence lies."""
import functools
import json
import math
import os

import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st
from pysatl_criterion.statistics.alternative import AlternativeType

from pbt import fam, gen
from pbt.core import Sub, tofloat

TECHNIQUE = "property-based testing: metamorphic relation between the criterion's simulated null distribution, the sample of the hypothesis' own quantiles and gross departures, judged through the declared alternative"
NOTE = "Every one-sided criterion, random hypothesis parameters and sample sizes; a wrong side puts the perfect fit on the rejecting side or a gross departure on the accepting one."
RULE = ("One criterion, hypothesis parameters and sample size per case, 60 seeded null samples. Non-trivial = the null distribution of the statistic is not constant. "
        "pbt/ref/sides.json says, per criterion, whether its own-quantile sample is extreme and which of sixteen departure designs it responds to.")
ASSUMPTIONS = ["null samples come from numpy's seeded generator through scipy's quantile functions, not from the code under test",
               "a criterion is only held to departures listed for it in pbt/ref/sides.json (a criterion need not respond to every kind)"]

with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "ref", "sides.json")) as f:
    SIDES = json.load(f)
Phi = ss.norm.cdf
DEP = {
    "own": lambda u: u,
    "cube": lambda u: u ** 5, "root": lambda u: u ** .2, "clump": lambda u: .45 + .1 * u,
    "bimodal": lambda u: np.where(u < .5, u * .05 + .001, .95 + .049 * u),
    "low": lambda u: .001 + .2 * u, "high": lambda u: .8 + .199 * u,
    "outliers": lambda u: np.where(u > 1 - 2.5 / len(u), 1 - 1e-7 * (2 - u), u),
    "outlierslow": lambda u: np.where(u < 2.5 / len(u), 1e-7 * (1 + u), u),
    "heavy": lambda u: Phi(ss.cauchy.ppf(u)), "skewR": lambda u: Phi(ss.expon.ppf(u) * 1.5 - 1), "skewL": lambda u: 1 - Phi(ss.expon.ppf(1 - u) * 1.5 - 1),
    "two": lambda u: np.where(u < .5, .1 + .002 * u, .9 + .002 * u), "unevenL": lambda u: np.where(u < .75, .3 + .002 * u, .3 + .6 * (u - .75) / .25),
    "logn": lambda u: Phi(np.exp(ss.norm.ppf(u) * 1.2) - 1.5), "light": lambda u: Phi(3 * (u - .5)),
}
GRID = {
    "NORMAL": [{"mean": 0, "var": 1}, {"mean": -3, "var": 9}, {"mean": 2.5, "var": 0.25}],
    "EXPONENTIAL": [{"lam": 1}, {"lam": 4}, {"lam": 0.2}],
    "UNIFORM": [{"a": 0, "b": 1}, {"a": -1, "b": 3}, {"a": 10, "b": 10.5}],
    "GAMMA": [{"alpha": 1, "beta": 1}, {"alpha": 3.0, "beta": 0.5}, {"alpha": 0.6, "beta": 2}, {"alpha": 2, "beta": 7}],
    "BETA": [{"alpha": 1, "beta": 1}, {"alpha": 2, "beta": 3}, {"alpha": 0.7, "beta": 1.5}],
    "WEIBULL": [{"a": 1, "k": 1}, {"a": 1, "k": 3}, {"a": 2, "k": 1.5}],
    "STUDENT": [{"df": 1}, {"df": 5, "loc": 2, "scale": 3}, {"df": 12, "loc": -1}],
    "LOG_NORMAL": [{"s": 1, "scale": 1}, {"s": 0.5, "scale": 3}, {"s": 0.8, "scale": 0.1}],
}
SLOW = {"RossbergExponentiality": 12, "BickelRosenblattUniform": 14, "KLIntegralLogNormal": 14, "KLSupremumLogNormal": 14, "AhsanullahExponentiality": 30, "ModeBeta": 25}
B = 60


def data(name, kw, u):
    return np.array([float("%.12g" % v) for v in fam.dist(fam.FAMILY[name], kw).ppf(np.clip(u, 1e-9, 1 - 1e-9))])


def stat(ctx, name, o, x):
    return tofloat(ctx.call("%s.execute_statistic" % name, o.execute_statistic, x))


@functools.lru_cache(maxsize=None)
def null_samples(name, kws, n, seed):
    kw = dict(kws)
    r = gen.rng(seed)
    return [data(name, kw, r.uniform(1e-6, 1 - 1e-6, n)) for _ in range(24 if name in SLOW and SLOW[name] < 20 else B)]


def cases(name):
    top = SLOW.get(name, 60)
    return st.fixed_dictionaries({"kw": st.sampled_from(GRID[fam.FAMILY[name]]).map(lambda k: fam.fit_kw(name, k)), "n": st.integers(12, top),
                                  "dep": st.sampled_from((["own"] if SIDES[name]["own"] else []) + SIDES[name]["departures"]),
                                  "seed": st.integers(0, 2 ** 31 - 1), "perm": st.booleans()})


def judge(ctx, name, o, case, side, msg=""):
    n, kw = case["n"], case["kw"]
    null = [stat(ctx, name, o, x) for x in null_samples(name, tuple(sorted(kw.items())), n, case["seed"])]
    u = DEP[case["dep"]]((np.arange(n) + .5) / n)
    x = data(name, kw, u)
    if case["perm"] and name != "RSBWeibull":
        x = x[gen.rng(case["seed"]).permutation(n)]
    v = stat(ctx, name, o, x)
    ctx.require(not math.isnan(v), "%s(%s) of %s is NaN", name, kw, x.tolist())
    ctx.nt(len(set(null)) > 1)
    tail = sum(1 for t in null if (t >= v if side == AlternativeType.RIGHT else t <= v)) / len(null)
    return tail, v


def make(name):
    def check(case, ctx):
        o = ctx.call("%s(%s)" % (name, case["kw"]), fam.build, name, case["kw"])
        side = ctx.call("alternative", lambda: o.alternative().type())
        if side == AlternativeType.TWO_TAILED:
            ctx.require(False, "%s rejects on both sides", name)
        tail, v = judge(ctx, name, o, case, side)
        if case["dep"] == "own":
            ctx.require(tail >= 0.3, "%s%s: the sample of the hypothesis' own %s quantiles gives %s, as extreme towards the rejecting (%s) side as only %s of the null samples",
                        name, case["kw"], case["n"], v, side.value, tail)
        else:
            ctx.require(tail <= 0.35, "%s%s: departure '%s' of size %s gives %s, on the accepting side: %s of the null samples are at least as extreme (%s side)",
                        name, case["kw"], case["dep"], case["n"], v, tail, side.value)
    return check


# ---- one-sided Kolmogorov-Smirnov
KS = [n for n in fam.NAMES if n.startswith("KolmogorovSmirnov")]


def ks_cases():
    return st.sampled_from(KS).flatmap(lambda n: st.fixed_dictionaries({
        "name": st.just(n), "kw": st.sampled_from(GRID[fam.FAMILY[n]]).map(lambda k: fam.fit_kw(n, k)), "n": st.integers(12, 40), "type": st.sampled_from(["left", "right"]),
        "dep": st.sampled_from(["own", "far"]), "seed": st.integers(0, 2 ** 31 - 1), "perm": st.booleans()}))


def check_ks(case, ctx):
    name = case["name"]
    o = ctx.call("%s(%s)" % (name, case["kw"]), fam.build, name, dict(case["kw"], alternative_type=case["type"]))
    side = ctx.call("alternative", lambda: o.alternative().type())
    if case["dep"] == "far":  # D+ grows when the sample lies low, D- when it lies high
        case = dict(case, dep="low" if case["type"] == "right" else "high")
    tail, v = judge(ctx, name, o, case, side)
    bad = tail < 0.3 if case["dep"] == "own" else tail > 0.35
    if bad and case["type"] == "left" and side == AlternativeType.LEFT and ctx.kf("KF-KS-LEFT"):
        # exact model of the finding: the statistic is D-, which grows with the evidence, rejected in its left tail
        x = np.sort(data(name, case["kw"], DEP[case["dep"]]((np.arange(case["n"]) + .5) / case["n"])))
        u = fam.dist(fam.FAMILY[name], case["kw"]).cdf(x)
        if abs(v - float(np.max(u - np.arange(case["n"]) / case["n"]))) < 1e-6:
            ctx.kf_hit("KF-KS-LEFT")
            return
    ctx.require(not bad, "%s%s with alternative %s: sample '%s' of size %s gives %s; %s of the null samples are at least as extreme towards the rejecting (%s) side",
                name, case["kw"], case["type"], case["dep"], case["n"], v, tail, side.value)


def w_ks_left():
    from pbt.core import Ctx, Violation
    c = {"name": "KolmogorovSmirnovNormality", "kw": {"mean": 0, "var": 1}, "n": 20, "type": "left", "dep": "own", "seed": 1, "perm": False}
    try:
        check_ks(c, Ctx())
    except Violation:
        return True
    return False


WITNESS = {"KF-KS-LEFT": w_ks_left}


def subs():
    out = []
    for n in sorted(SIDES):
        if not SIDES[n]["own"] and not SIDES[n]["departures"]:
            continue
        slow = SLOW.get(n, 99) < 20
        out.append(Sub(n, lambda n=n: cases(n), make(n), 6 if slow else 24, 60 if slow else 600))
    out.append(Sub("one_sided_ks", ks_cases, check_ks, 60, 1500))
    return out
