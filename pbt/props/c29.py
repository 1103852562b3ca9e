"""C29: helpers refuse the parameters of no distribution."""
import importlib

import numpy as np
from hypothesis import strategies as st
from pysatl_criterion import DistributionType
from pysatl_criterion.utils.generator import get_available_generator

from pbt import gen
from pbt.core import Sub, Violation
from pbt.props.c24 import CORE, core_args, params
from pbt.ref import dists

TECHNIQUE = "property-based testing with injected faults: one or more invalid parameters of generated magnitude among otherwise generated valid ones"
NOTE = "Every sampling and distribution-function helper whose documentation names parameter errors, called directly and (samplers) through its generator."
RULE = ("Valid parameters with one or two replaced by values outside the documented domain, any size and random state, and the same call with admissible values next to the bound. "
        "Non-trivial = always (each case has an invalid call).")
ASSUMPTIONS = ["NaN and infinite parameters are not judged", "through a generator any exception counts as a refusal (the errors are documented for the helpers)"]
# what each parameter's documentation excludes: "pos" (<= 0), "nonneg" (< 0), "prob" (outside [0, 1]); interval ends are handled apart
DOMAIN = {
    "NORMAL": {"var": "nonneg"}, "EXPONENTIAL": {"lam": "pos"}, "STUDENT": {"df": "pos"}, "GAMMA": {"alfa": "pos", "beta": "pos"}, "BETA": {"a": "pos", "b": "pos"},
    "LOG_NORMAL": {"s": "nonneg"}, "CAUCHY": {"s": "pos"}, "CHI_2": {"df": "pos"}, "GOMPERTZ": {"eta": "pos", "b": "pos"}, "GUMBEL": {"beta": "pos"},
    "INV_GAUSS": {"mu": "pos", "lam": "pos"}, "LAPLACE": {"s": "pos"}, "LO_CON_NORMAL": {"p": "prob"}, "LOGISTIC": {"s": "pos"}, "MIX_CON_NORMAL": {"p": "prob", "b": "pos"},
    "RICE": {"sigma": "pos"}, "SCALE_CON_NORMAL": {"p": "prob", "b": "nonneg"}, "TRUNC_NORMAL": {"var": "nonneg", "a,b": "interval"}, "UNIFORM": {"a,b": "interval"},
}
HELPERS = {"cdf_norm": ("norm", "NORMAL"), "pdf_norm": ("norm", "NORMAL"), "cdf_expon": ("expon", "EXPONENTIAL")}


def negative():
    return st.one_of(st.sampled_from([-1, -1.0, -5e-324, -1e-300, -1e-16, -1e-9, -1e9, -1e300]), st.floats(-1e3, -1e-12), st.integers(-50, -1))


def bad_value(kind):
    if kind == "nonneg":
        return negative()
    if kind == "pos":
        return st.one_of(st.sampled_from([0, 0.0, -0.0]), negative())
    return st.one_of(st.sampled_from([float(np.nextafter(0, -1)), float(np.nextafter(1, 2)), -1, 2, 1 + 1e-9, -1e-9, 1.5]), st.floats(1 + 1e-9, 100), st.floats(-100, -1e-9))


def edge_value(kind):
    if kind == "prob":
        return st.sampled_from([0, 1, 0.0, 1.0, 1e-12, 1 - 1e-12])
    small = st.sampled_from([1e-6, 1e-3, 1e3, 1e6])
    return small


def cases(name, helper=None):
    dom = DOMAIN[name]

    def build():
        bads = st.fixed_dictionaries({k: st.one_of(st.floats(-1e6, 0), st.sampled_from([0.0, -0.0, -1e-12, -1e-3])) if kind == "interval" else bad_value(kind) for k, kind in dom.items()})
        edges = st.fixed_dictionaries({k: st.booleans() if kind == "interval" else edge_value(kind) for k, kind in dom.items()})
        return st.fixed_dictionaries({
            "name": st.just(name), "helper": st.just(helper), "v": params(name), "bad": bads, "edge": edges,
            "which": st.lists(st.sampled_from(sorted(dom)), min_size=1, max_size=2, unique=True), "n": st.one_of(st.integers(1, 6), st.integers(7, 40)),
            "x": st.lists(st.floats(-20, 20).map(lambda v: gen.rnd(v, 4)), min_size=1, max_size=5), "list": st.booleans(), "seed": st.integers(0, 2**31 - 1)})
    return build


def replace(v, k, value, kind):
    """Parameters with one replaced (an interval: its end moved to start + value)."""
    if kind == "interval":
        return {**v, "b": v["a"] + value}
    return {**v, k: value}


def check(case, ctx):
    name, dom, v, n = case["name"], DOMAIN[case["name"]], case["v"], case["n"]
    ctx.nt()
    if case["helper"]:
        mod, fn = HELPERS[case["helper"]][0], case["helper"]
        first = list(case["x"]) if case["list"] else np.array(case["x"])
    else:
        mod, fn = CORE[name]
        first = n
    f = getattr(importlib.import_module("pysatl_criterion.core.distributions." + mod), fn)
    np.random.seed(case["seed"])
    own = core_args(name, v)
    for k in case["which"]:
        w = replace(own, k, case["bad"][k], dom[k])
        ctx.raises("%s(%s, %s)" % (fn, first, w), (ValueError,), f, first, **w)
        if k in own or dom[k] == "interval":  # the same with the other parameters left at their defaults
            w = {"a": own["a"], "b": own["a"] + case["bad"][k]} if dom[k] == "interval" else {k: case["bad"][k]}
            ctx.raises("%s(%s, %s)" % (fn, first, w), (ValueError,), f, first, **w)
    if len(case["which"]) == 2:
        w = dict(own)
        for k in case["which"]:
            w = replace(w, k, case["bad"][k], dom[k])
        ctx.raises("%s(%s, %s)" % (fn, first, w), (ValueError,), f, first, **w)
    if not case["helper"]:
        for k in case["which"]:
            w = replace(v, k, case["bad"][k], dom[k])
            try:
                got = get_available_generator(DistributionType[name], w).generate(n)
            except Exception:
                continue
            raise Violation("generator of %s with %s drew %s" % (name, w, list(got)[:4]))
    # admissible values, next to the bound too, are accepted
    with np.errstate(all="ignore"):
        ctx.call("%s(%s, %s)" % (fn, first, own), f, first, **own)
        for k in case["which"]:
            if dom[k] == "interval":
                continue
            w = replace(own, k, case["edge"][k], dom[k])
            got = ctx.call("%s(%s, %s)" % (fn, first, w), f, first, **w)
            ctx.require(np.size(got) == (n if not case["helper"] else len(case["x"])), "%s(%s, %s) returned %d values", fn, first, w, np.size(got))


def subs():
    assert set(DOMAIN) <= set(dists.PARAMS)
    return ([Sub("sample:" + n, cases(n), check, 150, 8000) for n in sorted(DOMAIN)]
            + [Sub("helper:" + h, cases(n, h), check, 150, 8000) for h, (_, n) in sorted(HELPERS.items())])
