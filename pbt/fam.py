"""Registry of the concrete goodness-of-fit statistics with generators of constructor arguments and samples."""
import inspect

import numpy as np
import pysatl_criterion.statistics.goodness_of_fit as gof
import scipy.stats as ss
from hypothesis import strategies as st
from pysatl_criterion.statistics.alternative import AlternativeType

from pbt import gen

SUFFIX = "GofStatistic"


def _load():
    out = {}
    for n in dir(gof):
        o = getattr(gof, n)
        if inspect.isclass(o) and hasattr(o, "execute_statistic") and not inspect.isabstract(o):
            out[n.replace(SUFFIX, "").replace("GoFStatistic", "")] = o
    return out


CLASSES = _load()
NAMES = sorted(CLASSES)
FAMILY = {n: c.distribution().name for n, c in CLASSES.items()}
TYPES = {"two": AlternativeType.TWO_TAILED, "left": AlternativeType.LEFT, "right": AlternativeType.RIGHT}


def names(family):
    return [n for n in NAMES if FAMILY[n] == family]


def pos(lo=0.2, hi=6.0):
    """Positive parameter; 1 and 2 included (the defaults must stay reachable)."""
    return st.one_of(st.sampled_from([1, 2, 0.5, 3]), st.floats(lo, hi).map(lambda v: gen.rnd(v, 4)))


def loc():
    return st.one_of(st.sampled_from([0, 1, -2]), st.floats(-20, 20).map(lambda v: gen.rnd(v, 4)))


def params(family):
    """Hypothesis parameters of a family, under the names of the statistics' constructors."""
    return {
        "NORMAL": lambda: st.fixed_dictionaries({"mean": loc(), "var": pos(0.05, 30)}),
        "EXPONENTIAL": lambda: st.fixed_dictionaries({"lam": pos(0.05, 20)}),
        "UNIFORM": lambda: st.tuples(loc(), pos(0.05, 20)).map(lambda t: {"a": t[0], "b": t[0] + t[1]}),
        "GAMMA": lambda: st.fixed_dictionaries({"alpha": pos(0.3, 8), "beta": pos(0.1, 10)}),
        "BETA": lambda: st.fixed_dictionaries({"alpha": pos(0.4, 6), "beta": pos(0.4, 6)}),
        "WEIBULL": lambda: st.fixed_dictionaries({"a": pos(0.4, 4), "k": pos(0.5, 6)}),
        "STUDENT": lambda: st.fixed_dictionaries({"df": pos(0.7, 15), "loc": loc(), "scale": pos(0.1, 10)}),
        "LOG_NORMAL": lambda: st.fixed_dictionaries({"s": pos(0.2, 2), "scale": pos(0.1, 10)}),
    }[family]()


FAMILY_KEYS = {"mean", "var", "lam", "a", "b", "alpha", "beta", "k", "df", "loc", "scale", "s"}


def accepts(name):
    return set(inspect.signature(CLASSES[name].__init__).parameters) - {"self"}


def fit_kw(name, kw):
    """Drop the parameters this constructor does not take (a statistic without them assumes their default)."""
    acc = accepts(name)
    kw = {k: v for k, v in kw.items() if k in acc}
    if name == "ModeBeta":
        kw["alpha"], kw["beta"] = kw["alpha"] + 1, kw["beta"] + 1
    return kw


def kwargs(name):
    return params(FAMILY[name]).map(lambda kw: fit_kw(name, kw))


def build(name, kw):
    kw = dict(kw)
    if "alternative_type" in kw:
        kw["alternative_type"] = TYPES[kw["alternative_type"]]
    return CLASSES[name](**kw)


def dist(family, kw):
    """The hypothesised distribution (scipy), with the default of every parameter that is absent."""
    g = kw.get
    if family == "NORMAL":
        return ss.norm(g("mean", 0), np.sqrt(g("var", 1)))
    if family == "EXPONENTIAL":
        return ss.expon(scale=1 / g("lam", 1))
    if family == "UNIFORM":
        return ss.uniform(g("a", 0), g("b", 1) - g("a", 0))
    if family == "GAMMA":
        return ss.gamma(g("alpha", 1), scale=1 / g("beta", 1))
    if family == "BETA":
        return ss.beta(g("alpha", 1), g("beta", 1))
    if family == "WEIBULL":
        return ss.exponweib(g("a", 1), g("k", 1))
    if family == "STUDENT":
        return ss.t(g("df", 1), loc=g("loc", 0), scale=g("scale", 1))
    if family == "LOG_NORMAL":
        return ss.lognorm(g("s", 1), scale=g("scale", 1))
    raise KeyError(family)


WARPS = ["null", "null", "skew", "bimodal", "tails"]


def sample(family, kw, u, warp="null"):
    """A valid sample for the family from numbers in (0,1): drawn from the hypothesis, or from something else in its support."""
    u = np.asarray(u, float)
    if warp == "skew":
        v = u ** 3 * 0.98 + 0.01
    elif warp == "bimodal":
        v = np.where(u < 0.5, u * 0.5 + 0.01, 0.5 + u * 0.49)
    elif warp == "tails":
        v = np.where(u < 0.5, 0.5 - 0.499 * (1 - 2 * u) ** 0.25, 0.5 + 0.499 * (2 * u - 1) ** 0.25)
    else:
        v = u
    return [float("%.10g" % x) for x in dist(family, kw).ppf(v)]


def samples(min_n=8, max_n=30, ties=True):
    """(u, warp) pairs."""
    us = gen.ulist(min_n, max_n)
    if not ties:
        us = us.filter(lambda v: len(set(v)) == len(v))
    return st.fixed_dictionaries({"u": us, "warp": st.sampled_from(WARPS)})
