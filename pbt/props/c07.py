"""C07: Monte Carlo null distributions: recorded samples are drawn from the statistic's hypothesis and evaluated by it."""
import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st
from pysatl_criterion.hypothesis_testing.limit_distribution.base import MonteCarloLimitDistributionResolver

from pbt import fam, gen
from pbt.core import Sub

TECHNIQUE = "property-based testing of simulations: recorded samples, probability-integral transform, seeded repetition"
NOTE = ("For every registered statistic the samples passed to it by the resolver are recorded; pooled, they must be uniform after the distribution "
        "function of the statistic's hypothesis (independent scipy model) at a false-alarm rate below 1e-9 per case.")
RULE = ("A statistic with random hypothesis parameters, a count, a size and a random state. Non-trivial = the parameters are not the defaults and "
        "at least 600 observations are pooled (80 for the four slow statistics).")
ASSUMPTIONS = ["scipy.stats is the reference for the hypothesised distributions", "numpy's global random state is the source of randomness (README, generators)"]
ALPHA = 1e-9
SLOW = {"RossbergExponentiality", "BickelRosenblattUniform", "KLIntegralLogNormal", "AhsanullahExponentiality"}


def recorder(stat, log):
    """The same statistic object, with its top-level evaluations recorded."""
    cls = type(stat)
    depth = [0]

    def execute_statistic(self, rvs, *a, **k):
        keep = np.array(rvs, float, copy=True)
        depth[0] += 1
        try:
            v = cls.execute_statistic(self, rvs, *a, **k)
        finally:
            depth[0] -= 1
        if depth[0] == 0:
            log.append((keep, v))
        return v
    stat.__class__ = type(cls.__name__, (cls,), {"execute_statistic": execute_statistic})
    return stat


def cases(n):
    sizes = st.tuples(st.integers(25, 60), st.integers(10, 40)) if n not in SLOW else st.tuples(st.integers(8, 12), st.integers(10, 12))
    return lambda: st.fixed_dictionaries({"name": st.just(n), "kw": fam.kwargs(n), "cn": sizes.map(list), "seed": st.integers(0, 2**31 - 1)})


def num(v):
    return float("nan") if v is None else float(np.asarray(v).reshape(-1)[0])


def check(case, ctx):
    name, kw, (count, n) = case["name"], case["kw"], case["cn"]
    family = fam.FAMILY[name]
    log = []
    stat = recorder(fam.build(name, kw), log)
    np.random.seed(case["seed"])
    res = ctx.call("MonteCarloLimitDistributionResolver", MonteCarloLimitDistributionResolver, count)
    got = ctx.call("resolve(%s, %s)" % (name, kw), res.resolve, stat, n)
    what = "resolving %s(%s) with %d samples of size %d" % (name, kw, count, n)
    ctx.require(len(got) == count, "%s returned %d values", what, len(got))
    ctx.require(len(log) == count, "%s evaluated the statistic %d times", what, len(log))
    for (x, v), g in zip(log, got):
        ctx.require(x.shape == (n,), "%s drew a sample of shape %s", what, x.shape)
        ctx.require(bool(np.all(np.isfinite(x))), "%s drew a non-finite observation", what)
        a, b = num(v), float(g)
        ctx.require(a == b or (a != a and b != b), "%s: returned value %r, the statistic gave %r", what, g, v)
    fresh = fam.build(name, kw)
    for x, v in log[:2]:
        w = num(ctx.call("execute", fresh.execute_statistic, np.array(x)))
        a = num(v)
        ctx.close(a, w, "%s: simulated value against the statistic of the recorded sample" % what, 1e-9, 1e-12)
    # the samples: distinct, from the hypothesis
    pool = np.concatenate([x for x, _ in log])
    ctx.require(len({tuple(x) for x, _ in log}) == count, "%s reused a sample", what)
    ctx.nt(len(pool) >= (600 if name not in SLOW else 80) and any(fam.CLASSES[name]().__dict__.get(k) != v for k, v in kw.items()))
    hypotheses = [fam.dist(family, kw)]
    if family == "STUDENT" and ("loc" in kw or "scale" in kw) and ctx.kf("KF-STUDENT-LOCSCALE"):
        model = ss.t(kw.get("df", 1))
        if ss.kstest(model.cdf(pool), "uniform").pvalue >= ALPHA and ss.kstest(hypotheses[0].cdf(pool), "uniform").pvalue < ALPHA:
            ctx.kf_hit("KF-STUDENT-LOCSCALE")
            return
    u = hypotheses[0].cdf(pool)
    p = ss.kstest(u, "uniform").pvalue
    ctx.require(p >= ALPHA, "%s: %d simulated observations do not come from the hypothesis %s (Kolmogorov-Smirnov p=%.3g; mean %.4g, hypothesis %.4g)",
                what, len(pool), kw, p, pool.mean(), hypotheses[0].mean())
    if count >= 10 and n >= 10:
        # no dependence between consecutive samples or observations
        z = ss.norm.ppf(np.clip(u, 1e-12, 1 - 1e-12)).reshape(count, n)
        for w, (a, b) in {"consecutive observations": (z[:, :-1].ravel(), z[:, 1:].ravel()), "consecutive samples": (z[:-1].ravel(), z[1:].ravel())}.items():
            r = float(np.mean(a * b)) * np.sqrt(len(a))
            ctx.require(abs(r) < 6.5, "%s: %s are dependent (z=%.1f)", what, w, r)
    # random state
    stat2 = fam.build(name, kw)
    np.random.seed(case["seed"])
    again = ctx.call("resolve", res.resolve, stat2, n)
    ctx.require(np.array_equal(np.array(got, float), np.array(again, float), equal_nan=True), "%s: equal random state gave different results", what)


def sizes():
    return st.fixed_dictionaries({"name": st.sampled_from(["KolmogorovSmirnovNormality", "GiniExponentiality", "GreenwoodGamma", "AndersonDarlingUniform",
                                                           "KolmogorovSmirnovBeta", "KolmogorovSmirnovWeibull", "KolmogorovSmirnovStudent", "KolmogorovSmirnovLogNormal"]),
                                  "count": st.one_of(st.integers(-3, 3), st.integers(-100, 300)), "n": st.one_of(st.integers(-1, 2), st.integers(-3, 12), st.integers(-50, 80)),
                                  "seed": st.integers(0, 2**31 - 1)})


def check_sizes(case, ctx):
    name, count, n = case["name"], case["count"], case["n"]
    if name not in fam.CLASSES:
        return
    ctx.nt(count <= 1 or n <= 1)
    if count <= 0:
        ctx.raises("a Monte Carlo count of %d" % count, (ValueError,), MonteCarloLimitDistributionResolver, count)
        return
    res = ctx.call("resolver", MonteCarloLimitDistributionResolver, count)
    if n <= 0:
        ctx.raises("a sample size of %d" % n, (ValueError,), res.resolve, fam.CLASSES[name](), n)
        return
    if n < 3 and name == "GiniExponentiality":  # divides by n - 1
        return
    log = []
    np.random.seed(case["seed"])
    got = ctx.call("resolve", res.resolve, recorder(fam.CLASSES[name](), log), n)
    ctx.require(len(got) == count and len(log) == count, "asked for %d values, got %d from %d evaluations", count, len(got), len(log))
    ctx.require(all(len(x) == n for x, _ in log), "asked for samples of %d, got %s", n, {len(x) for x, _ in log})


MANY = ["KolmogorovSmirnovNormality", "KolmogorovSmirnovExponentiality", "KolmogorovSmirnovUniform", "KolmogorovSmirnovGamma",
        "KolmogorovSmirnovBeta", "KolmogorovSmirnovWeibull", "KolmogorovSmirnovStudent", "KolmogorovSmirnovLogNormal"]


def many_cases():
    def one(n):
        return st.fixed_dictionaries({"name": st.just(n), "kw": fam.kwargs(n).map(lambda k: {a: b for a, b in k.items() if a not in ("loc", "scale") or fam.FAMILY[n] != "STUDENT"}),
                                      "cn": st.sampled_from([[10000, 2], [6000, 3], [5000, 2], [2500, 4], [1, 20000], [2, 12000], [5, 5000]]), "seed": st.integers(0, 2**31 - 1)})
    return st.sampled_from([n for n in MANY if n in fam.CLASSES]).flatmap(one)


def check_many(case, ctx):
    """Counts and sizes as large as those of real use: every value from its own new sample."""
    name, kw, (count, n) = case["name"], case["kw"], case["cn"]
    log = []
    np.random.seed(case["seed"])
    got = np.array(ctx.call("resolve", MonteCarloLimitDistributionResolver(count).resolve, recorder(fam.build(name, kw), log), n), float)
    what = "resolving %s(%s) with %d samples of size %d" % (name, kw, count, n)
    ctx.nt(True)
    ctx.require(len(got) == count, "%s returned %d values", what, len(got))
    ctx.require(len(log) == count, "%s evaluated the statistic %d times", what, len(log))
    ctx.require(np.array_equal(got, np.array([num(v) for _, v in log]), equal_nan=True), "%s: returned values are not the statistic's", what)
    x = np.array([s for s, _ in log])
    ctx.require(x.shape == (count, n), "%s drew samples of shape %s", what, x.shape)
    ctx.require(len(np.unique(x)) > 0.9 * x.size, "%s drew only %d distinct observations", what, len(np.unique(x)))
    u = fam.dist(fam.FAMILY[name], kw).cdf(x)
    p = ss.kstest(u.ravel(), "uniform").pvalue
    ctx.require(p >= ALPHA, "%s: %d simulated observations do not come from the hypothesis (Kolmogorov-Smirnov p=%.3g)", what, x.size, p)
    half = u[: count // 2 * 2] if count > 1 else u.reshape(2, -1)
    for w, part in (("first half", half[: len(half) // 2]), ("second half", half[len(half) // 2:])):
        p = ss.kstest(part.ravel(), "uniform").pvalue
        ctx.require(p >= ALPHA, "%s: the %s does not come from the hypothesis (Kolmogorov-Smirnov p=%.3g)", what, w, p)


def two_cases():
    """The same statistic resolved twice in a row and with other parameters in between: nothing is remembered."""
    def one(n):
        return st.fixed_dictionaries({"name": st.just(n), "kws": st.lists(fam.kwargs(n), min_size=2, max_size=2), "seed": st.integers(0, 2**31 - 1),
                                      "n": st.lists(st.integers(10, 20), min_size=2, max_size=2)})
    return st.sampled_from([n for n in fam.NAMES if n not in SLOW]).flatmap(one)


def check_two(case, ctx):
    name, (k1, k2), (n1, n2) = case["name"], case["kws"], case["n"]
    res = MonteCarloLimitDistributionResolver(5)

    def run(kw, n, r=None):
        np.random.seed(case["seed"])
        return np.array(ctx.call("resolve", (r or MonteCarloLimitDistributionResolver(5)).resolve, fam.build(name, kw), n), float)
    a = run(k1, n1)
    b = run(k2, n2, res)
    c = run(k1, n1, res)
    d = np.array(ctx.call("resolve", res.resolve, fam.build(name, k1), n1), float)
    ctx.require(np.array_equal(a, c, equal_nan=True), "%s(%s): simulated values %s after resolving another hypothesis, %s before", name, k1, c.tolist(), a.tolist())
    if len(set(a.tolist())) > 3:
        ctx.require(not np.array_equal(a, d), "%s: two consecutive simulations are identical", name)
    ctx.nt(k1 != k2 or n1 != n2)
    ctx.require(len(b) == 5, "got %d values", len(b))


def _witness():
    log = []
    np.random.seed(1)
    MonteCarloLimitDistributionResolver(100).resolve(recorder(fam.CLASSES["KolmogorovSmirnovStudent"](df=5, loc=10, scale=1), log), 20)
    return abs(np.median(np.concatenate([x for x, _ in log]))) < 3


WITNESS = {"KF-STUDENT-LOCSCALE": _witness}


def subs():
    out = [Sub("simulate/" + n, cases(n), check, 5, 60) for n in fam.NAMES]
    return out + [Sub("sizes", sizes, check_sizes, 200, 4000), Sub("many", many_cases, check_many, 28, 600), Sub("repeat", two_cases, check_two, 250, 5000)]
