"""C05: a goodness-of-fit test is statistic + limit distribution + level, combined per alternative."""
import dataclasses
import math

import numpy as np
from hypothesis import strategies as st
from pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test import (
    CriticalValueDecisionMethod, GoodnessOfFitTest, PValueDecisionMethod)
from pysatl_criterion.hypothesis_testing.limit_distribution.base import (
    AbstractLimitDistributionResolver, MonteCarloLimitDistributionResolver, StorageLimitDistributionResolver)
from pysatl_criterion.persistence.models.limit_distribution import LimitDistributionModel
from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage
from pysatl_criterion.statistics.alternative import Alternative
from pysatl_criterion.statistics import AbstractGoodnessOfFitStatistic

from pbt import fam, gen
from pbt.core import Sub, isnum, tofloat
from pbt.props.c04 import quantile
from pbt.store import DictStorage, f32

TECHNIQUE = "property-based testing of whole tests against a reference decision model, with recording resolvers"
NOTE = ("Every registered statistic and constant-valued stand-ins of each alternative are run through both decision methods with limit "
        "distributions placed on, next to and around the statistic's value.")
RULE = ("A statistic (any of the registered ones with random parameters, or a stand-in of a chosen alternative), a sample, a level and a limit "
        "distribution given by offsets from the statistic's value. Non-trivial = the limit distribution has values on both sides of the statistic "
        "or equal to it.")
ASSUMPTIONS = ["the p-value and quantile conventions of C03 and C04 (pinned by the existing tests)"]
TYPE = {"left": fam.TYPES["left"], "right": fam.TYPES["right"], "two": fam.TYPES["two"]}
SIDE = {v: k for k, v in TYPE.items()}


class Resolver(AbstractLimitDistributionResolver):
    def __init__(self, make):
        self.make, self.calls = make, []

    def resolve(self, statistic, sample_size):
        self.calls.append((statistic, sample_size))
        return self.make(statistic)


class Fake(AbstractGoodnessOfFitStatistic):
    """Stand-in statistic with a chosen alternative and value."""

    def __init__(self, value, side):
        self.value, self.side, self.seen = value, side, []

    @staticmethod
    def distribution():
        return fam.CLASSES["KolmogorovSmirnovNormality"].distribution()

    @staticmethod
    def code():
        return "FAKE"

    @staticmethod
    def short_code():
        return "FAKE"

    def hypothesis(self):
        raise AssertionError("not needed")

    def alternative(self):
        return Alternative.get_alternative(TYPE[self.side])

    def execute_statistic(self, rvs, **kw):
        self.seen.append(list(rvs))
        return self.value


def want_p(side, xs, v):
    n = len(xs)
    le = sum(1 for x in xs if x <= v) / n
    return {"left": le, "right": 1 - le, "two": 2 * min(le, 1 - le)}[side]


def judge(ctx, res, side, xs, v, sl, method, what):
    """The result must be consistent with the reference decision for (xs, v, sl)."""
    ctx.close(res.statistic, v, "%s: statistic in the result" % what, 1e-9, 1e-12)
    v = tofloat(res.statistic)
    ctx.require(res.significance_level == sl, "%s: result holds level %r, asked for %r", what, res.significance_level, sl)
    ctx.require(res.rejected in (True, False), "%s: rejected is %r", what, res.rejected)
    if method == "p":
        ctx.require(res.critical_value is None, "%s: a p-value decision reports critical value %r", what, res.critical_value)
        ctx.require(isnum(res.p_value), "%s: p-value is %r", what, res.p_value)
        ctx.close(res.p_value, want_p(side, xs, v), "%s: %s p-value" % (what, side), 0, 1e-9)
        ctx.require(bool(res.rejected) == (tofloat(res.p_value) <= sl), "%s: p=%r, level %r, rejected=%r", what, res.p_value, sl, res.rejected)
        return
    ctx.require(res.p_value is None, "%s: a critical-value decision reports p-value %r", what, res.p_value)
    tol = 1e-9 * (max(xs) - min(xs)) + 1e-12 * (1 + max(abs(x) for x in xs))
    cv = res.critical_value
    if side == "two":
        ctx.require(isinstance(cv, (tuple, list)) and len(cv) == 2, "%s: critical value is %r", what, cv)
        lo, hi = tofloat(cv[0]), tofloat(cv[1])
        ctx.close(lo, quantile(xs, sl / 2), what + ": lower critical value", 0, tol)
        ctx.close(hi, quantile(xs, 1 - sl / 2), what + ": upper critical value", 0, tol)
        rej = v < lo or v > hi
    else:
        ctx.require(isnum(cv), "%s: critical value is %r", what, cv)
        c = tofloat(cv)
        ctx.close(c, quantile(xs, sl if side == "left" else 1 - sl), what + ": %s critical value" % side, 0, tol)
        rej = v < c if side == "left" else v > c
    ctx.require(bool(res.rejected) == rej, "%s: statistic %r, critical value %r (%s), rejected=%r", what, v, cv, side, res.rejected)


METHOD = {"p": PValueDecisionMethod, "cv": CriticalValueDecisionMethod}


def offsets():
    return st.one_of(
        st.lists(st.integers(-3, 3).map(float), min_size=1, max_size=12),
        st.lists(st.floats(-2, 2).map(lambda v: gen.rnd(v, 4)), min_size=1, max_size=30),
        st.tuples(st.integers(0, 2**31 - 1), st.integers(20, 300)).map(lambda t: [gen.rnd(x, 5) for x in gen.rng(t[0]).normal(size=t[1])]))


def real_cases(n):
    return lambda: st.fixed_dictionaries({"name": st.just(n), "kw": fam.kwargs(n), "s": fam.samples(10, 24, ties=False), "off": offsets(), "sl": gen.level(),
                                      "method": st.sampled_from(["p", "cv"]), "arr": st.booleans()})


def check_real(case, ctx):
    name, kw = case["name"], case["kw"]
    x = fam.sample(fam.FAMILY[name], kw, case["s"]["u"], case["s"]["warp"])
    v = ctx.call("execute", fam.build(name, kw).execute_statistic, np.array(x) if case["arr"] else list(x))
    if not isnum(v) or not math.isfinite(tofloat(v)):
        ctx.label("not finite")
        return
    v = tofloat(v)
    xs = [v + o * (abs(v) if abs(v) > 1e-3 else 1) for o in case["off"]]
    stat = fam.build(name, kw)
    side = SIDE[stat.alternative().type()]
    res = Resolver(lambda s: list(xs))
    arg = np.array(x) if case["arr"] else list(x)
    test = ctx.call("GoodnessOfFitTest", GoodnessOfFitTest, stat)
    r = ctx.call("test", test.test, arg, case["sl"], METHOD[case["method"]](res))
    what = "%s(%s) by %s" % (name, kw, case["method"])
    ctx.require(len(res.calls) == 1 and res.calls[0][0] is stat and res.calls[0][1] == len(x), "%s: the resolver was asked for %r", what, res.calls)
    ctx.nt(min(xs) <= v <= max(xs))
    ctx.label(side)
    judge(ctx, r, side, xs, v, case["sl"], case["method"], what)
    try:
        r.rejected = not r.rejected
        changed = True
    except (dataclasses.FrozenInstanceError, AttributeError):
        changed = False
    ctx.require(not changed, "a test result can be changed after the decision")


def fake_cases():
    return gen.limit_values().flatmap(lambda xs: st.fixed_dictionaries({
        "xs": st.just(xs), "sl": gen.level(), "v": gen.near(xs), "side": st.sampled_from(["left", "right", "two"]),
        "n": st.integers(1, 60), "method": st.sampled_from(["p", "cv"]), "none": st.sampled_from([False] * 9 + [True])}))


def check_fake(case, ctx):
    xs, v, side, n = case["xs"], case["v"], case["side"], case["n"]
    stat = Fake(v, side)
    res = Resolver(lambda s: None if case["none"] else list(xs))
    test = GoodnessOfFitTest(stat)
    rvs = [float(i) for i in range(n)]
    m = METHOD[case["method"]](res)
    if case["none"]:
        ctx.raises("a missing limit distribution", (ValueError,), test.test, rvs, case["sl"], m)
        ctx.raises("decide without a limit distribution", (ValueError,), m.decide, stat, v, case["sl"], n)
        ctx.nt()
        return
    r = ctx.call("test", test.test, rvs, case["sl"], m)
    ctx.require(stat.seen == [rvs], "the statistic was evaluated on %r instead of the given sample", stat.seen)
    ctx.require(res.calls == [(stat, n)], "the resolver was asked for %r", res.calls)
    judge(ctx, r, side, xs, v, case["sl"], case["method"], "stand-in")
    d = ctx.call("decide", m.decide, stat, v, case["sl"], n)
    ctx.require(repr(d) == repr(r), "decide gives %r, test gives %r", d, r)
    ctx.nt(min(xs) <= v <= max(xs))
    ctx.label(side)


DEFAULTS = ["KolmogorovSmirnovNormality", "GiniExponentiality", "AndersonDarlingUniform", "RyanJoinerNormality", "CoxOakesExponentiality", "GreenwoodGamma"]


def default_cases():
    return st.fixed_dictionaries({"name": st.sampled_from([n for n in DEFAULTS if n in fam.CLASSES]), "seed": st.integers(0, 2**31 - 1),
                                  "s": fam.samples(10, 12), "sl": gen.level(), "m": st.sampled_from(["none", "p", "cv"])})


def check_default(case, ctx):
    """Without a method the critical-value decision is made, without a resolver 10000 samples are simulated."""
    name = case["name"]
    x = fam.sample(fam.FAMILY[name], {}, case["s"]["u"], case["s"]["warp"])
    stat = fam.CLASSES[name]()
    side = SIDE[stat.alternative().type()]
    v = tofloat(ctx.call("execute", fam.CLASSES[name]().execute_statistic, np.array(x)))
    np.random.seed(case["seed"])
    xs = ctx.call("resolve", MonteCarloLimitDistributionResolver(10000).resolve, stat, len(x))
    np.random.seed(case["seed"])
    method = {"none": None, "p": PValueDecisionMethod, "cv": CriticalValueDecisionMethod}[case["m"]]
    if method is None:
        r = ctx.call("test", GoodnessOfFitTest(stat).test, x, case["sl"])
    else:
        r = ctx.call("test", GoodnessOfFitTest(stat).test, x, case["sl"], method())
    judge(ctx, r, side, [float(z) for z in xs], v, case["sl"], "p" if case["m"] == "p" else "cv", "default method %s of %s" % (case["m"], name))
    ctx.nt()


def shared_cases():
    """A history of tests made through one decision method object (and one test object per statistic)."""
    def inner(names):
        call = st.fixed_dictionaries({"who": st.integers(0, 2 * len(names) - 1), "u": st.lists(gen.unit(0.02), min_size=10, max_size=12, unique=True),
                                      "sl": gen.level(), "size": st.booleans(), "reuse": st.booleans(),
                                      "container": st.sampled_from(["new", "new", "refilled list", "refilled array"])})
        return st.fixed_dictionaries({"names": st.just(names), "kws": st.tuples(*[st.lists(fam.kwargs(n), min_size=2, max_size=2) for n in names]).map(list),
                                      "calls": st.lists(call, min_size=2, max_size=6), "method": st.sampled_from(["p", "cv"]), "seed": st.integers(0, 2**31 - 1)})
    return st.lists(st.sampled_from(SHARED), min_size=1, max_size=2, unique=True).flatmap(inner)


def check_shared(case, ctx):
    """Every test through a shared method object uses the limit distribution of its own statistic, parameters and sample size."""
    count = {}

    def limit(stat, n):
        key = repr((stat.code(), list(stat.hypothesis().parameters()), n))
        count.setdefault(key, len(count))
        r = gen.rng(case["seed"] + 7919 * count[key])
        return [gen.rnd(x, 6) for x in np.exp(r.normal(size=40)) * (1 + count[key])]

    class Keyed(AbstractLimitDistributionResolver):
        def resolve(self, statistic, sample_size):
            return limit(statistic, sample_size)
    m = METHOD[case["method"]](Keyed())
    made, lists, arrays = {}, {}, {}
    for i, c in enumerate(case["calls"]):
        name = case["names"][c["who"] // 2]
        kw = case["kws"][c["who"] // 2][c["who"] % 2]
        x = fam.sample(fam.FAMILY[name], kw, c["u"] if c["size"] else c["u"][:10])
        v = ctx.call("execute", fam.build(name, kw).execute_statistic, np.array(x))
        if not isnum(v) or not math.isfinite(tofloat(v)):
            continue
        if c["who"] not in made or not c["reuse"]:
            made[c["who"]] = GoodnessOfFitTest(fam.build(name, kw))
        # the caller may hand over the same list or array again with other contents
        arg = list(x)
        if c.get("container") == "refilled list":
            arg = lists.setdefault(c["who"], [])
            arg[:] = x
        elif c.get("container") == "refilled array":
            arg = arrays.setdefault((c["who"], len(x)), np.empty(len(x)))
            arg[:] = x
        r = ctx.call("test", made[c["who"]].test, arg, c["sl"], m)
        stat = fam.build(name, kw)
        judge(ctx, r, SIDE[stat.alternative().type()], limit(stat, len(x)), tofloat(v), c["sl"], case["method"],
              "call %d through a shared method: %s(%s), size %d" % (i, name, kw, len(x)))
        ctx.nt(i > 0)


SHARED = [n for n in ["KolmogorovSmirnovNormality", "HegazyGreen1Exponentiality", "AndersonDarlingWeibull", "AndersonDarlingUniform", "KolmogorovSmirnovBeta",
                      "KolmogorovSmirnovStudent", "KolmogorovSmirnovLogNormal", "KolmogorovSmirnovGamma", "RyanJoinerNormality", "GiniExponentiality",
                      "AndersonDarlingNormality", "KuiperUniform"] if n in fam.CLASSES]


def store_cases():
    names = ["KolmogorovSmirnovNormality", "GiniExponentiality", "AndersonDarlingUniform", "GreenwoodGamma", "AndersonDarlingWeibull",
             "KolmogorovSmirnovStudent", "KolmogorovSmirnovBeta", "KolmogorovSmirnovLogNormal"]
    names = [n for n in names if n in fam.CLASSES]
    rec = st.fixed_dictionaries({"name": st.integers(0, 1), "kw": st.integers(0, 1), "n": st.sampled_from([10, 11]), "count": st.sampled_from([1, 1, 1, 1000]),
                                 "xs": st.lists(st.integers(-8, 8).map(lambda k: k / 4), min_size=1, max_size=6), "exp": st.integers(1, 2)})
    return st.lists(st.sampled_from(names), min_size=2, max_size=2, unique=True).flatmap(lambda two: st.fixed_dictionaries({
        "names": st.just(two), "kws": st.tuples(*[st.lists(fam.kwargs(n), min_size=2, max_size=2) for n in two]).map(list),
        "recs": st.lists(rec, max_size=8), "ask": st.tuples(st.integers(0, 1), st.integers(0, 1), st.sampled_from([10, 11])).map(list),
        "u": gen.ulist(11, 11).filter(lambda u: len(set(u)) > 7), "sl": gen.level(), "method": st.sampled_from(["p", "cv"]), "sql": st.booleans(),
        "fine": st.sampled_from([0, 0, 1e-3, 1e-5, 1e-7, 1e-12])}))


def finer(kw, by, k):
    """Constructor arguments with more digits: the two parameter sets of a case may then differ in the last ones only."""
    return {n: v * (1 + by * (k + 1)) + by * (v == 0) * (n != "b") for n, v in kw.items()} if by else kw


def check_store(case, ctx):
    if case["sql"]:
        storage = AlchemyLimitDistributionStorage("sqlite:///:memory:")
        storage.init()
    else:
        storage = DictStorage()
    kws = [[finer(kw, case.get("fine"), k) for k, kw in enumerate([two[0]] * 2 if case.get("fine") else two)] for two in case["kws"]]
    try:
        name = case["names"][case["ask"][0]]
        kw = kws[case["ask"][0]][case["ask"][1]]
        stat = fam.build(name, kw)
        n = case["ask"][2]
        fit, other = [], []
        for r in case["recs"]:
            s = fam.build(case["names"][r["name"]], kws[r["name"]][r["kw"]])
            ps = list(s.hypothesis().parameters())
            storage.insert_data(LimitDistributionModel(r["exp"], s.code(), ps, r["n"], r["count"], list(r["xs"])))
            if s.code() == stat.code() and ps == list(stat.hypothesis().parameters()) and r["n"] == n:
                (fit if r["count"] == 1 else other).append((r["exp"], r["xs"]))
        latest = {e: xs for e, xs in fit}
        fit = [xs for e, xs in latest.items()]
        other = [xs for e, xs in {e: xs for e, xs in other}.items()]
        got = ctx.call("resolve", StorageLimitDistributionResolver(storage).resolve, stat, n)
        x = fam.sample(fam.FAMILY[name], kw, case["u"][:n])
        test = GoodnessOfFitTest(stat)
        m = METHOD[case["method"]](StorageLimitDistributionResolver(storage))
        ctx.nt(bool(case["recs"]))
        if not fit and not other:
            ctx.require(got is None, "nothing is stored for %s %s size %d, the resolver returned %r", name, kw, n, got)
            ctx.raises("a test without stored distribution", (ValueError,), test.test, x, case["sl"], m)
            return
        if got is None:
            if not fit and ctx.kf("KF-STORAGE-COUNT"):
                ctx.kf_hit("KF-STORAGE-COUNT")
                return
            ctx.require(False, "a distribution is stored for %s %s size %d, the resolver found none", name, kw, n)
        ctx.require(any([f32(v) for v in xs] == [f32(v) for v in got] for xs in fit + other), "resolver returned %r, stored for this criterion and size: %s", got, fit + other)
        r = ctx.call("test", test.test, x, case["sl"], m)
        v = tofloat(fam.build(name, kw).execute_statistic(np.array(x)))
        judge(ctx, r, SIDE[stat.alternative().type()], [float(z) for z in got], v, case["sl"], case["method"], "%s from storage" % name)
    finally:
        if case["sql"]:
            storage.engine.dispose()


def _witness():
    storage = DictStorage()
    s = fam.CLASSES["KolmogorovSmirnovNormality"]()
    storage.insert_data(LimitDistributionModel(1, s.code(), list(s.hypothesis().parameters()), 10, 1000, [0.1, 0.2]))
    return StorageLimitDistributionResolver(storage).resolve(s, 10) is None


WITNESS = {"KF-STORAGE-COUNT": _witness}


def subs():
    out = [Sub("test/" + n, real_cases(n), check_real, 10, 300) for n in fam.NAMES]
    return out + [Sub("shared", shared_cases, check_shared, 300, 6000), Sub("decide", fake_cases, check_fake, 2500, 60000), Sub("default", default_cases, check_default, 4, 60),
                  Sub("storage", store_cases, check_store, 250, 6000)]
