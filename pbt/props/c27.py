"""C27: invalid hypotheses and impossible data are refused or flagged."""
import math

import numpy as np
from hypothesis import strategies as st
from pysatl_criterion.hypothesis_testing.alternative_factory.alternative_factories import AbstractAlternativeFactory

from pbt import fam, gen
from pbt.core import Sub, Violation

TECHNIQUE = "property-based testing with injected faults: invalid constructor arguments and offending observations at generated positions and magnitudes"
NOTE = "Every statistic of the five validated families is built with parameters on both sides of each bound, and given valid samples with one or more observations replaced by impossible ones."
RULE = ("Constructor cases: parameters, one of which may be replaced by an invalid one. Sample cases: a valid sample with 1-3 offending observations. "
        "Non-trivial = something invalid was injected, or a valid value within 1e-6 of a bound was accepted.")
ASSUMPTIONS = ["NaN parameters and NaN observations are not judged"]
VALIDATED = [n for n in fam.NAMES if fam.FAMILY[n] in ("UNIFORM", "BETA", "STUDENT", "GAMMA", "LOG_NORMAL")]
# statistics of half-line hypotheses for which a negative observation must not give a finite value (they take logarithms)
LOGS = ["AndersonDarlingGamma", "MinToshiyukiGamma", "MoranGamma", "KullbackLeiblerWeibull", "LOSWeibull", "OKWeibull", "RSBWeibull", "SBWeibull", "ST1Weibull",
        "ST2Weibull", "SbWeibull", "TikuSinghWeibull", "AndersonDarlingWeibull", "CabanaQuirozWeibull", "LaplaceTransform2Weibull", "LaplaceTransform3Weibull",
        "REJGWeibull", "SPPWeibull", "LiaoShimokawaWeibull", "MahdiDoostparastWeibull", "MinToshiyukiWeibull", "MSFWeibull"] + [
    n for n in fam.names("LOG_NORMAL") if n not in ("CramerVonMiseLogNormal", "KolmogorovSmirnovLogNormal", "QuesenberryMillerLogNormal")]
POSITIVE = {"BETA": ["alpha", "beta"], "STUDENT": ["df", "scale"], "GAMMA": ["alpha", "beta"], "LOG_NORMAL": ["s", "scale"], "UNIFORM": []}


def nonpos():
    return st.one_of(st.sampled_from([0, 0.0, -0.0, -1, -5e-324, -1e-12, -1e300]), st.floats(-1e3, 0), st.integers(-50, 0))


def ctor_cases(name):
    return lambda: st.fixed_dictionaries({"name": st.just(name), "kw": fam.kwargs(name), "bad": nonpos(), "which": st.integers(0, 3), "tiny": st.booleans(),
                                          "two": st.booleans(), "gap": st.one_of(st.just(0.0), st.floats(-30, 0))})


def refused(ctx, name, kw):
    ctx.raises("%s(%s)" % (name, kw), (ValueError,), fam.build, name, kw)


def check_ctor(case, ctx):
    name, kw = case["name"], dict(case["kw"])
    family = fam.FAMILY[name]
    ctx.call("%s(%s)" % (name, kw), fam.build, name, kw)
    if family == "UNIFORM":
        a, gap = kw["a"], case["gap"]
        bad = {**kw, "b": a + gap}
        ctx.nt()
        refused(ctx, name, bad)
        if kw["b"] != kw["a"]:
            refused(ctx, name, {**kw, "a": kw["b"], "b": kw["a"]})
        ok = {**kw, "b": float(np.nextafter(float(a), np.inf))}
        if case["tiny"]:
            ctx.call("%s(%s)" % (name, ok), fam.build, name, ok)
        refused(ctx, name, {"a": 1 + abs(gap)})  # against the default b = 1
        return
    names = [p for p in POSITIVE[family] if p in kw]
    k = names[case["which"] % len(names)]
    ctx.nt()
    bad = {**kw, k: case["bad"] if name != "ModeBeta" or case["which"] > 1 else 1 + min(0, case["bad"])}
    refused(ctx, name, bad)
    refused(ctx, name, {k: bad[k]})
    if case["two"]:
        refused(ctx, name, {p: bad[k] for p in names})
    if case["tiny"]:
        small = 1 + 1e-9 if name == "ModeBeta" else 1e-9
        ok = {**kw, k: small}
        ctx.call("%s(%s)" % (name, ok), fam.build, name, ok)
        ok = {**kw, k: 1e9}
        ctx.call("%s(%s)" % (name, ok), fam.build, name, ok)


# ---------------------------------------------------------------- options
BINNED = ["Chi2PearsonGamma", "LikelihoodRatioGamma", "CressieReadGamma"]


def opt_cases():
    return st.fixed_dictionaries({"bins": st.integers(-5, 12), "name": st.sampled_from(BINNED), "type": st.one_of(st.sampled_from(list("ACKackBZ") + ["", "AC", "zA", "a "]), st.text(max_size=2))})


def check_opt(case, ctx):
    name = case["name"]
    ctx.nt(case["bins"] < 2 or case["type"] not in "ACK")
    if case["bins"] < 2:
        ctx.raises("%s(bins=%d)" % (name, case["bins"]), (ValueError,), fam.CLASSES[name], bins=case["bins"])
    else:
        ctx.call("%s(bins=%d)" % (name, case["bins"]), fam.CLASSES[name], bins=case["bins"])
    t = case["type"]
    if t and t in "ACKack" and len(t) == 1:
        a = ctx.call("ZhangTestsUniform(test_type=%r)" % t, fam.CLASSES["ZhangTestsUniform"], test_type=t)
        b = fam.CLASSES["ZhangTestsUniform"](test_type=t.upper())
        x = np.array([0.11, 0.93, 0.42, 0.27, 0.61])
        ctx.close(a.execute_statistic(x), b.execute_statistic(x), "ZhangTestsUniform(test_type=%r) against upper case" % t, 1e-12, 1e-12)
    elif t.upper() not in ("A", "C", "K"):
        ctx.raises("ZhangTestsUniform(test_type=%r)" % t, (ValueError,), fam.CLASSES["ZhangTestsUniform"], test_type=t)


# ---------------------------------------------------------------- samples
def sample_cases(name):
    sizes = fam.samples(10, 25, ties=False)
    if name not in SLOW:
        sizes = st.one_of(sizes, sizes, st.fixed_dictionaries({"u": st.tuples(st.integers(0, 2**31 - 1), st.sampled_from([26, 50, 99, 100, 101, 200])).map(
            lambda t: [gen.rnd(v) for v in gen.rng(t[0]).uniform(1e-3, 1 - 1e-3, t[1])]).filter(lambda u: len(set(u)) == len(u)), "warp": st.sampled_from(fam.WARPS)}))
    return lambda: st.fixed_dictionaries({
        "name": st.just(name), "kw": fam.kwargs(name), "s": sizes,
        "bad": st.lists(st.fixed_dictionaries({"pos": st.floats(0, 1), "mag": st.floats(-13, 4), "side": st.booleans()}), min_size=1, max_size=3), "list": st.booleans(),
        "limit": gen.limit_values(5, 30), "level": gen.level()})


SLOW = ()


def evaluate(stat, x):
    with np.errstate(all="ignore"):
        return float(np.asarray(stat.execute_statistic(x)).reshape(-1)[0])


def inject(case, family, kw):
    """A valid sample and the same with offending observations."""
    x = np.array(fam.sample(family, kw, case["s"]["u"], case["s"]["warp"]))
    y = x.copy()
    for b in case["bad"]:
        i = min(len(y) - 1, int(b["pos"] * len(y)))
        if family in ("UNIFORM", "BETA"):
            lo, hi = (kw.get("a", 0), kw.get("b", 1)) if family == "UNIFORM" else (0, 1)
            d = 10 ** b["mag"]
            v = float(lo - d if b["side"] else hi + d)
            if lo <= v <= hi:
                v = float(np.nextafter(lo, -np.inf) if b["side"] else np.nextafter(hi, np.inf))
            y[i] = v
        else:
            y[i] = -(10 ** b["mag"])
            if family == "LOG_NORMAL" and b["side"] and b["mag"] < -3:
                y[i] = 0.0
    return x, y


def check_sample(case, ctx):
    name, kw = case["name"], case["kw"]
    family = fam.FAMILY[name]
    x, y = inject(case, family, kw)
    arg = [float(v) for v in y] if case["list"] else y
    ctx.nt()
    stat = ctx.call("constructor", fam.build, name, kw)
    if family in ("UNIFORM", "BETA"):
        ctx.raises("%s(%s) on %s" % (name, kw, arg), (ValueError,), evaluate, stat, arg)
        # still usable afterwards, and the valid sample is not refused (edges included)
        z = x.copy()
        if family == "UNIFORM":
            z[0], z[-1] = kw.get("a", 0), kw.get("b", 1)
        try:
            ctx.call("%s(%s) on a valid sample" % (name, kw), evaluate, stat, x)
            if family == "UNIFORM":
                ctx.call("%s(%s) on a sample touching both ends" % (name, kw), evaluate, stat, z)
        except Violation as e:
            if "ValueError" in str(e) or len(set(x)) == len(x):
                raise
        return
    try:
        v = evaluate(stat, arg)
    except ValueError:
        if family == "LOG_NORMAL":
            raise Violation("%s(%s) on %s raised ValueError instead of returning infinity" % (name, kw, arg)) from None
        return
    ctx.require(not math.isfinite(v), "%s(%s) = %r, a finite value, on the impossible sample %s", name, kw, v, arg)
    if family == "LOG_NORMAL":
        fac = AbstractAlternativeFactory.get_concrete_factory(stat.alternative().type())
        limit = list(case["limit"])
        p = fac.get_p_value_calculator().calculate(limit, v)
        inside = fac.get_critical_area(fac.get_critical_value_calculator().calculate(limit, case["level"])).contains(v)
        if p != 0 or inside:
            if stat.alternative().type().value == "left" and v == math.inf and ctx.kf("KF-LOGNORMAL-LEFT"):
                ctx.kf_hit("KF-LOGNORMAL-LEFT")
                return
            raise Violation("%s: the value %r given to an impossible sample has p-value %r (accepted: %s)" % (name, v, p, inside))


MINIMUM = {"SkewNormality": 8, "KurtosisNormality": 5, "LillieforsGamma": 2, "GreenwoodGamma": 0, "MoranGamma": 1, "Chi2PearsonGamma": 1,
           "LikelihoodRatioGamma": 1, "WatsonGamma": 1, "KuiperGamma": 1, "JBNormality": 1, "CressieReadGamma": 1, "ProbabilityPlotCorrelationGamma": 2, "GraphEdgesNumberGamma": 1, "DAPNormality": 8}


def small_cases():
    return st.fixed_dictionaries({"name": st.sampled_from(sorted(n for n, k in MINIMUM.items() if k)), "u": gen.ulist(12, 12), "n": st.integers(0, 12)})


def check_small(case, ctx):
    name, n = case["name"], case["n"]
    family = fam.FAMILY[name]
    x = np.array(fam.sample(family, {}, [(i + u) / 12 for i, u in enumerate(case["u"])])[:n])
    ctx.nt(n < MINIMUM[name] + 2)
    stat = fam.build(name, {})
    if n < MINIMUM[name]:
        ctx.raises("%s on %d observations" % (name, n), (ValueError,), evaluate, stat, x)
    else:
        v = ctx.call("%s on %d observations" % (name, n), evaluate, stat, x)
        ctx.require(n < 3 or not math.isnan(v), "%s on %d observations is NaN", name, n)


def subs():
    out = [Sub("ctor:" + n, ctor_cases(n), check_ctor, 25, 800) for n in VALIDATED]
    out += [Sub("sample:" + n, sample_cases(n), check_sample, 25, 800) for n in fam.NAMES if fam.FAMILY[n] in ("UNIFORM", "BETA") or n in LOGS]
    return out + [Sub("options", opt_cases, check_opt, 150, 4000), Sub("small", small_cases, check_small, 200, 4000)]


def _left():
    o = fam.build("ShapiroWilkLogNormal", {})
    return o.alternative().type().value == "left" and o.execute_statistic(np.array([1.0, -2.0, 3.0, 4.0, 2.5])) == math.inf


WITNESS = {"KF-LOGNORMAL-LEFT": _left}
