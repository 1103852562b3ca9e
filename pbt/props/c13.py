"""C13: invariance to nuisance parameters, equivariance of fully specified hypotheses."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import fam, gen
from pbt.core import Sub, Violation, close, isnum, short

TECHNIQUE = "metamorphic property-based testing: each statistic on generated samples and on their images under its invariance group"
NOTE = "Every statistic is evaluated on random samples and on shifted, rescaled, reflected or power-transformed copies with the parameters moved along."
RULE = ("Per statistic: parameters, a tie-free sample (null, skewed, bimodal, heavy-tailed), a shift (up to a million standard deviations), a scale over eighteen decades and a power. "
        "Non-trivial = the statistic is finite and at least one non-identity transformation of its class was compared.")
ASSUMPTIONS = ["tie-free samples with relative spread above 1e-3 (conditioning)", "values compared to 1e-6 relative (2e-4 where the statistic uses an iterative fit)"]

GRAPH = {n for n in fam.NAMES if "Graph" in n}
# which transformations leave the statistic alone, per family; names of relations are those of `image`
BASE = {"NORMAL": {"affine", "neg"}, "EXPONENTIAL": {"scale"}, "LOG_NORMAL": {"scale", "pow", "jscale", "jpow"}, "GAMMA": {"jscale"},
        "UNIFORM": {"jaffine", "jneg"}, "STUDENT": {"jaffine", "jneg"}, "WEIBULL": {"scale", "pow"}, "BETA": {"jneg"}}
JOINT_ONLY = {"NORMAL": {"jaffine"}, "EXPONENTIAL": {"jscale"}, "LOG_NORMAL": {"jscale", "jpow"}}


def table():
    t = {n: set(BASE[fam.FAMILY[n]]) for n in fam.NAMES}

    def put(family, stems, rel):
        for s in stems:
            hit = [n for n in fam.names(family) if n.lower().startswith(s.lower())]
            assert hit, (family, s)
            for n in hit:
                t[n] = set(rel)
    put("NORMAL", ["CramerVonMise", "KolmogorovSmirnov"], {"jaffine"})
    for n in fam.names("NORMAL"):
        if any(n.startswith(s) for s in ("BHS", "CabanaCabana", "Skew", "ZhangQ")):
            t[n] = {"affine"}
        if n in GRAPH:
            t[n] = {"shift", "neg"}
    put("EXPONENTIAL", ["CramerVonMises", "KolmogorovSmirnov", "HegazyGreen"], {"jscale"})
    put("EXPONENTIAL", ["ShapiroWilk"], {"affine"})
    for n in fam.names("EXPONENTIAL"):
        if n in GRAPH:
            t[n] = set()
    put("LOG_NORMAL", ["CramerVonMise", "KolmogorovSmirnov", "QuesenberryMiller"], {"jscale", "jpow"})
    for n in fam.names("GAMMA"):
        if n in GRAPH:
            t[n] = {"jscale"}
        elif "PPCC" in n or "ProbabilityPlot" in n:
            t[n] = {"jscale", "affine"}
        elif "Lilliefors" in n:
            t[n] = {"jscale", "scale"}
    put("STUDENT", ["Lilliefors"], set())
    put("WEIBULL", ["CabanaQuiroz", "LaplaceTransform"], {"scale"})
    put("WEIBULL", ["OK", "SB"], {"pow"})
    put("WEIBULL", ["CrammerVonMises", "KolmogorovSmirnov", "LiaoShimokawa", "Lilliefors", "MahdiDoostparast", "Watson", "MinToshiyuki"], {"jpow"})
    put("WEIBULL", ["Chi2Pearson", "KullbackLeibler"], set())
    put("BETA", ["Ratio"], set())
    return t


def image(family, kw, rel, c, d, p):
    """(parameters, point map) of the transformed problem; only parameters present are moved."""
    k = dict(kw)

    def mv(**new):
        k.update({a: v for a, v in new.items() if a in kw})
        return k
    if rel == "shift":
        return k, lambda x: x + d
    if rel == "scale":
        return k, lambda x: c * x
    if rel == "affine":
        return k, lambda x: c * x + d
    if rel == "neg":
        return k, lambda x: -x
    if rel == "pow":
        return k, lambda x: x ** p
    if rel == "jaffine":
        if family == "NORMAL":
            return mv(mean=c * kw.get("mean", 0) + d, var=c * c * kw.get("var", 1)), lambda x: c * x + d
        if family == "UNIFORM":
            return mv(a=c * kw["a"] + d, b=c * kw["b"] + d), lambda x: c * x + d
        if family == "STUDENT":
            return mv(loc=c * kw.get("loc", 0) + d, scale=c * kw.get("scale", 1)), lambda x: c * x + d
    if rel == "jneg":
        if family == "UNIFORM":
            return mv(a=-kw["b"], b=-kw["a"]), lambda x: -x
        if family == "STUDENT":
            return mv(loc=-kw.get("loc", 0)), lambda x: -x
        if family == "BETA":
            return mv(alpha=kw["beta"], beta=kw["alpha"]) if "alpha" in kw else k, lambda x: 1 - x
    if rel == "jscale":
        if family == "EXPONENTIAL":
            return mv(lam=kw.get("lam", 1) / c), lambda x: c * x
        if family == "GAMMA":
            return mv(beta=kw.get("beta", 1) / c), lambda x: c * x
        if family == "LOG_NORMAL":
            return mv(scale=kw.get("scale", 1) * c), lambda x: c * x
    if rel == "jpow":
        if family == "LOG_NORMAL":
            return mv(scale=kw.get("scale", 1) ** p, s=kw.get("s", 1) * p), lambda x: x ** p
        if family == "WEIBULL":
            return mv(k=kw["k"] / p), lambda x: x ** p
    raise KeyError((family, rel))


def cases(name):
    big = 13 if name == "RossbergExponentiality" else 40
    return lambda: st.fixed_dictionaries({
        "name": st.just(name), "kw": fam.kwargs(name), "s": fam.samples(10, big, ties=False),
        "c": st.one_of(st.sampled_from([2.0, 0.5, 10.0, 0.01, 1e-5, 1e6]), st.floats(-3, 3).map(lambda e: gen.rnd(10 ** e, 4)),
                       st.floats(-9, 9).map(lambda e: gen.rnd(10 ** e, 4))),
        "d": st.one_of(*[st.floats(-5, 5).map(lambda v: gen.rnd(v, 4))] * 5, st.sampled_from([1e3, -1e3, 1e5, -1e5, 1e6, -1e6])), "p": st.one_of(st.sampled_from([2.0, 0.5]), st.floats(0.4, 2.5).map(lambda v: gen.rnd(v, 3)))})


REL = table()
LOOSE = ("Weibull",)


def check(case, ctx):
    name, kw = case["name"], case["kw"]
    family = fam.FAMILY[name]
    u = np.array(case["s"]["u"])
    u = np.clip(u + 1e-4 * ((np.arange(len(u)) * 0.6180339887498949) % 1 - 0.5), 5e-4, 1 - 5e-4)  # off the grid (bin edges, ties)
    x = np.array(fam.sample(family, kw, u, case["s"]["warp"]))
    if len(set(x)) < len(x) or gen.spread(x) < 1e-3:
        return
    gaps = np.diff(np.sort(x))
    if gaps.min() < 1e-9 * np.max(np.abs(x)):
        return
    c, p = case["c"], case["p"]

    def val(kw2, y, what):
        def go():
            try:
                return fam.build(name, kw2).execute_statistic(np.array(y))
            except ValueError as e:
                return "refused: %s" % type(e).__name__
        v = ctx.call("%s on %s" % (name, what), go)
        return v if isinstance(v, str) else float(np.asarray(v).reshape(-1)[0])
    v = val(kw, x, "the sample")
    tol = 2e-4 if fam.FAMILY[name] == "WEIBULL" else 1e-6
    if abs(case["d"]) > 10:  # far from the origin: the observations themselves are rounded
        tol = max(tol, abs(case["d"]) * 1e-10)
        if gaps.min() < 1e-9 * abs(case["d"]) * np.std(x):
            return
    for rel in sorted(REL[name]):
        if rel == "shift" and abs(case["d"]) > 10:
            continue  # relations at a fixed distance: rounding moves pairs across it
        d = case["d"] * (1 if rel == "shift" else c) * float(np.std(x))
        kw2, f = image(family, kw, rel, c, d, p)
        y = f(x)
        if family == "UNIFORM" and (y.min() < kw2["a"] or y.max() > kw2["b"]):
            continue  # the interval end was lost to rounding
        if not np.all(np.isfinite(y)) or len(set(y)) < len(y):
            continue
        w = val(kw2, y, rel)
        ctx.label(rel)
        ctx.nt(not isinstance(v, str) and math.isfinite(v))
        if isinstance(v, str) or isinstance(w, str):
            ok = v == w
        else:
            ok = close(v, w, tol, 1e-7 if tol <= 1e-6 else tol / 10 if tol < 2e-4 else 1e-5)
        if not ok:
            raise Violation("%s(%s) = %s, but %s(%s) = %s on the sample transformed by %s (c=%s, d=%s, p=%s)" % (
                name, kw, v, name, kw2, w, rel, c, d, p))


def subs():
    return [Sub(n, cases(n), check, 40, 1500) for n in fam.NAMES if REL[n]]
