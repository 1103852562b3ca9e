"""C22: the criterion catalogue: codes, listing, hypotheses, alternatives."""
import json
import os

import numpy as np
from hypothesis import strategies as st
from pysatl_criterion import DistributionType
from pysatl_criterion.hypothesis_testing.alternative_factory.alternative_factories import AbstractAlternativeFactory
from pysatl_criterion.utils.statistic import get_available_criteria

from pbt import fam, gen
from pbt.core import VERIF, Sub, Violation

TECHNIQUE = "property-based testing of every criterion over generated constructor parameters and evaluation histories, against a committed catalogue and a behavioural model of the alternatives"
NOTE = "Codes, listings, hypotheses and rejection sides of all 195 criteria for random parameters, compared with the committed catalogue and with each other."
RULE = ("Per criterion: two parameter sets, options, a sample evaluated in between, a simulated null distribution and a level. "
        "Non-trivial = the two parameter sets differ (criteria) or the distribution has criteria (listings).")
ASSUMPTIONS = ["the catalogue (pbt/ref/catalogue.json) is the public interface of the pinned commit after the recorded fixes"]
with open(os.path.join(VERIF, "pbt", "ref", "catalogue.json")) as f:
    CAT = json.load(f)  # class name -> family, short code, code, side, hypothesis parameters
with open(os.path.join(VERIF, "pbt", "ref", "defaults.json")) as f:
    DEFAULTS = json.load(f)["statistics"]  # documented defaults of the constructors
TOKEN = {"NORMAL": "NORMALITY", "EXPONENTIAL": "EXPONENTIALITY", "LOG_NORMAL": "LOGNORMAL"}
RENAME = {"BETA": {"alpha": "a", "beta": "b"}, "GAMMA": {"alpha": "alfa"}}
SIDES = {"two": "two_tailed", "left": "left", "right": "right"}
DUP = ("SbWeibullGofStatistic", "SBWeibullGofStatistic")


def want_hypothesis(family, kw, names):
    ren = RENAME.get(family, {})
    vals = {ren.get(k, k): v for k, v in kw.items()}
    return {n: vals[n] for n in names if n in vals}


# ---------------------------------------------------------------- listings
def listing_cases():
    return [{"distribution": d.name, "repeat": r} for d in DistributionType for r in (1, 3)]


def check_listing(case, ctx):
    d = DistributionType[case["distribution"]]
    want = sorted(v[1] for v in CAT.values() if v[0] == d.name)
    ctx.nt(bool(want))
    for _ in range(case["repeat"]):
        got = ctx.call("get_available_criteria", get_available_criteria, d)
        ctx.require(isinstance(got, list), "get_available_criteria(%s) returned %r", d.name, type(got))
        if sorted(got) != want:
            extra = [c for c in got if got.count(c) > want.count(c)]
            missing = [c for c in want if want.count(c) > got.count(c)]
            raise Violation("criteria offered for %s: unexpected %s, missing %s" % (d.name, sorted(set(extra)), sorted(set(missing))))
        got.append("?")  # the caller's list is its own


def check_codes(case, ctx):
    seen = {}
    for n in fam.NAMES:
        c = fam.CLASSES[n]
        seen.setdefault(c.code(), []).append(c.__name__)
    ctx.nt()
    for code, cl in seen.items():
        if len(cl) > 1:
            if sorted(cl) == sorted(DUP) and ctx.kf("KF-SB-DUP"):
                ctx.kf_hit("KF-SB-DUP")
                continue
            raise Violation("the code %s is shared by %s" % (code, cl))


# ---------------------------------------------------------------- one criterion
def cases(name):
    family = fam.FAMILY[name]
    opts = {}
    acc = fam.accepts(name)
    if "alternative_type" in acc:
        opts["alternative_type"] = st.sampled_from(["two", "left", "right"])
    if "mode" in acc:
        opts["mode"] = st.sampled_from(["auto", "exact", "approx", "asymp"])
    if "bins" in acc and family == "GAMMA":
        opts["bins"] = st.integers(2, 9)
    if "n_bins" in acc:
        opts["n_bins"] = st.integers(2, 9)
    return lambda: st.fixed_dictionaries({
        "name": st.just(name), "kw": fam.kwargs(name), "kw2": fam.kwargs(name), "opts": st.fixed_dictionaries(opts), "u": gen.ulist(10, 14),
        "limit": gen.limit_values(3, 40), "level": gen.level(), "drop": st.integers(0, 3)})


def check(case, ctx):
    name, kw, kw2, opts = case["name"], dict(case["kw"]), case["kw2"], case["opts"]
    cls = fam.CLASSES[name]
    family, short, code, side, hnames = CAT[cls.__name__]
    ctx.nt(kw != kw2)
    o = ctx.call("constructor", fam.build, name, {**kw, **opts})
    p = ctx.call("constructor", fam.build, name, {**kw2, **opts})
    ctx.require(cls.distribution() is DistributionType[family], "%s: distribution %s", name, cls.distribution())
    for q in (cls, o, p):
        ctx.equal(ctx.call("short_code", q.short_code), short, "%s short code" % name)
        ctx.equal(ctx.call("code", q.code), code, "%s code" % name)
    ctx.require(code.startswith(short + "_") and TOKEN.get(family, family) in code, "%s: code %s does not name %s and %s", name, code, short, family)

    def hyp(stat, kws, what):
        got = ctx.call("hypothesis", stat.hypothesis)
        want = want_hypothesis(family, kws, hnames)
        params = dict(got.params or {})
        vals = list(got.parameters())
        ctx.require(list(params) == hnames and all(params[k] == v for k, v in want.items()), "%s(%s): hypothesis %s %s", name, kws, params, what)
        ctx.require(vals == [params[k] for k in hnames], "%s: hypothesis().parameters() = %s for %s", name, vals, params)
        rest = {k: v for k, v in kws.items() if RENAME.get(family, {}).get(k, k) not in hnames}
        if rest:
            if family == "STUDENT" and set(rest) <= {"loc", "scale"} and ctx.kf("KF-STUDENT-HYP"):
                ctx.kf_hit("KF-STUDENT-HYP")
            else:
                raise Violation("%s: constructed with %s, which its hypothesis %s leaves out" % (name, rest, params))
        vals.append(123.0)
        if vals:
            vals[0] = -777
        ctx.require(list(stat.hypothesis().parameters()) == [params[k] for k in hnames], "%s: the parameter list of the hypothesis is shared", name)
        return [params[k] for k in hnames]
    a, b = hyp(o, kw, "after construction"), hyp(p, kw2, "after construction")
    # parameters left out assume the same defaults
    names = sorted(kw)
    if names:
        k = names[case["drop"] % len(names)]
        part = {x: v for x, v in kw.items() if x != k}
        try:
            q = fam.build(name, part)
        except (TypeError, ValueError):
            q = None
        if q is not None:
            hyp(q, {**part, **({k: DEFAULTS[name][k]} if DEFAULTS[name].get(k) is not None else {})}, "with %s left out (documented default %r)" % (k, DEFAULTS[name].get(k)))
        elif k in DEFAULTS[name] and not (family == "UNIFORM" and {**part, k: DEFAULTS[name][k]}["a"] >= {**part, k: DEFAULTS[name][k]}["b"]):
            raise Violation("%s cannot be constructed with %s left out, whose documented default is %r" % (name, k, DEFAULTS[name][k]))
    x = np.array(fam.sample(family, kw, case["u"]))
    try:
        ctx.call("execute_statistic", o.execute_statistic, x)
    except Violation:
        pass  # C12 judges evaluation; ties in this sample are allowed to be degenerate
    ctx.require(hyp(o, kw, "after evaluating") == a and hyp(p, kw2, "after evaluating another object") == b, "%s: hypothesis changed by evaluating", name)
    ctx.equal(o.code(), code, "%s code after evaluating" % name)
    # alternative
    want = SIDES[opts["alternative_type"]] if "alternative_type" in opts else side
    for q in (o, p):
        t = ctx.call("alternative", q.alternative).type()
        ctx.require(t.value == want, "%s(%s) rejects on side %s, want %s", name, opts, t.value, want)
    machinery(o.alternative().type(), case["limit"], case["level"], want, ctx)


def machinery(t, limit, level, side, ctx):
    """The factory of an alternative gives tools of that side: behaviour at the extremes of the null distribution."""
    fac = ctx.call("get_concrete_factory", AbstractAlternativeFactory.get_concrete_factory, t)
    lo, hi = min(limit) - 10.0, max(limit) + 10.0
    pv = ctx.call("get_p_value_calculator", fac.get_p_value_calculator)
    p_lo, p_hi = (ctx.call("calculate", pv.calculate, list(limit), v) for v in (lo, hi))
    wants = {"right": (1.0, 0.0), "left": (0.0, 1.0), "two_tailed": (0.0, 0.0)}[side]
    ctx.require((p_lo, p_hi) == wants, "p-values below and above the null distribution are %s, want %s for side %s", (p_lo, p_hi), wants, side)
    cv = ctx.call("get_critical_value_calculator", fac.get_critical_value_calculator)
    crit = ctx.call("calculate", cv.calculate, list(limit), level)
    area = ctx.call("get_critical_area", fac.get_critical_area, crit)
    inside = (area.contains(lo), area.contains(hi))
    wants = {"right": (True, False), "left": (False, True), "two_tailed": (False, False)}[side]
    ctx.require(tuple(map(bool, inside)) == wants, "acceptance region contains values below and above the null distribution: %s, want %s for side %s", inside, wants, side)


def subs():
    out = [Sub("exported", None, check_complete, enum=lambda: [{"all": True}]), Sub("listing", None, check_listing, enum=listing_cases), Sub("codes", None, check_codes, enum=lambda: [{"all": True}])]
    return out + [Sub(n, cases(n), check, 12, 250) for n in fam.NAMES if fam.CLASSES[n].__name__ in CAT]


def _missing():
    return sorted(set(CAT) - {c.__name__ for c in fam.CLASSES.values()})


def check_complete(case, ctx):
    ctx.nt()
    ctx.require(not _missing(), "criteria no longer exported: %s", _missing())


WITNESS = {
    "KF-SB-DUP": lambda: fam.CLASSES["SbWeibull"].code() == fam.CLASSES["SBWeibull"].code(),
    "KF-STUDENT-HYP": lambda: list(fam.build("AndersonDarlingStudent", {"df": 3, "loc": 2, "scale": 5}).hypothesis().params) == ["df"],
}
