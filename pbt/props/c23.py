"""C23: descriptors, validators and generators agree."""
import inspect
import math

import numpy as np
from hypothesis import strategies as st
from pysatl_criterion import DistributionType
from pysatl_criterion.distribution import distributions as dmod
from pysatl_criterion.distribution.validator import NonNegativeNumberValidator, PositiveNumberValidator, ProbabilityValidator
from pysatl_criterion.generator.model import AbstractRVSGenerator
from pysatl_criterion.utils.distribution import get_available_distribution_descriptor
from pysatl_criterion.utils.generator import get_available_generator

from pbt import gen
from pbt.core import Sub, Violation, short
from pbt.ref import dists

TECHNIQUE = "property-based testing of descriptors, validators and generators of all 21 distributions against a table model and each other"
NOTE = "Generated parameter values (integers, floats, numpy scalars, zeros of both signs, NaN, infinities) through validators and generators of every distribution."
RULE = ("Per distribution: two valid parameter dictionaries and one probe value per validator. Non-trivial = the parameters are not the defaults, "
        "or the probe is a boundary or special value.")
ASSUMPTIONS = ["the table of parameters (pbt/ref/dists.py) is the documented set", "infinite values are not judged except where a bound excludes them"]


def value(kind, name="x"):
    pos = st.one_of(st.integers(1, 9), st.floats(1e-3, 1e3).map(lambda v: gen.rnd(v, 5)), st.floats(1e-6, 1e6))
    return {"pos": pos, "nonneg": st.one_of(st.just(0), st.just(0.0), pos),
            "prob": st.one_of(st.sampled_from([0, 1, 0.0, 1.0, 0.5]), st.floats(0, 1)),
            "real": st.one_of(st.integers(-9, 9), st.floats(-1e3, 1e3).map(lambda v: gen.rnd(v, 5)), st.floats(-1e6, 1e6))}[kind]


def valid(name):
    return st.fixed_dictionaries({p: value(k) for p, _, k in dists.PARAMS[name]})


def probe():
    sp = [0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 1e-300, -1e-300, 1 - 2**-53, 1 + 2**-52, 1e308, -1e308]
    return st.one_of(st.sampled_from(["nan", "inf", "-inf"]), st.sampled_from(sp), st.integers(-3, 3), st.floats(-2, 2), st.floats(-1e9, 1e9),
                     st.floats(0, 1), st.floats(-1e-9, 1e-9))


def num(v):
    return float(v) if isinstance(v, str) else v


def legal(kind, v):
    """Documented condition; None = not judged."""
    if kind == "real":
        return None if math.isinf(v) or math.isnan(v) else True
    if math.isnan(v):
        return False
    if kind == "prob":
        return 0 <= v <= 1
    if v == math.inf:
        return None
    return v > 0 if kind == "pos" else v >= 0


def verdict(ctx, validator, v, what):
    got = ctx.call(what, validator, v)
    ctx.require(got is True or got is False or isinstance(got, np.bool_), "%s returned %r, not a truth value", what, got)
    return bool(got)


def subclasses(c):
    out = set()
    for s in c.__subclasses__():
        out |= subclasses(s) | {s}
    return {s for s in out if not inspect.isabstract(s)}


def check_one_each(case, ctx):
    ctx.nt()
    ctx.require(sorted(d.name for d in DistributionType) == sorted(dists.NAMES), "distributions %s", sorted(d.name for d in DistributionType))
    ctx.require(sorted(DistributionType.list()) == sorted(n.lower() for n in dists.NAMES), "DistributionType.list() = %s", DistributionType.list())
    get_available_generator(DistributionType.NORMAL, None)  # loads the generator classes
    for what, base, key in (("descriptor", dmod.DistributionDescriptor, "type"), ("generator", AbstractRVSGenerator, "distribution_type")):
        classes = [c for c in subclasses(base) if c.__module__.startswith("pysatl_criterion.")]
        types = sorted(getattr(c, key)().name for c in classes)
        ctx.require(types == sorted(dists.NAMES), "%s classes exist for %s", what, types)


def cases(name):
    return lambda: st.fixed_dictionaries({"name": st.just(name), "v": valid(name), "w": valid(name), "probes": st.lists(probe(), min_size=1, max_size=4),
                                          "np": st.booleans(), "order": st.integers(0, 23)})


def check(case, ctx):
    name = case["name"]
    d = DistributionType[name]
    spec = dists.PARAMS[name]
    names = [p for p, _, _ in spec]
    desc = ctx.call("get_available_distribution_descriptor(%s)" % name, get_available_distribution_descriptor, d)
    ctx.require(desc.type() is d, "descriptor of %s has type %s", name, desc.type())
    ps = ctx.call("parameters", desc.parameters)
    ctx.require([p.name for p in ps] == names, "%s descriptor lists %s, want %s", name, [p.name for p in ps], names)
    ps.append(None)
    ps = desc.parameters()
    ctx.require([p.name for p in ps] == names, "the parameter list of the %s descriptor is shared with callers", name)
    for p, (pn, default, kind) in zip(ps, spec):
        ctx.require(isinstance(p.display_name, str) and p.display_name, "%s.%s has no display name", name, pn)
        ctx.equal(p.default, default, "default of %s.%s" % (name, pn))
        if p.validator is not None:
            ctx.require(verdict(ctx, p.validator, p.default, "validator of %s.%s on its default" % (name, pn)), "the default %r of %s.%s fails its own validator", p.default, name, pn)
        else:
            ctx.require(kind == "real", "%s.%s has no validator", name, pn)
        for v in [case["v"][pn], case["w"][pn]] + [num(z) for z in case["probes"]]:
            want = legal(kind, v)
            if p.validator is None or want is None:
                continue
            if case["np"]:
                v = np.float64(v)
            got = verdict(ctx, p.validator, v, "validator of %s.%s on %r" % (name, pn, v))
            ctx.require(got == want, "validator of %s.%s says %s for %r", name, pn, got, v)
    # generators
    made = []
    for vals in (case["v"], case["w"]):
        k = case["order"] % len(names)
        args = {p: vals[p] for p in names[k:] + names[:k]}
        shown = dict(args)
        g = ctx.call("get_available_generator(%s, %s)" % (name, args), get_available_generator, d, args)
        ctx.require(args == shown, "get_available_generator changed the caller's parameters")
        ctx.require(g.distribution_type() is d, "generator for %s has type %s", name, g.distribution_type())
        got = ctx.call("parameters", g.parameters)
        want = {p: vals[p] for p in names}
        ctx.require(isinstance(got, dict) and list(got) == names, "%s generator parameters %s, want order %s", name, short(got), names)
        for p in names:
            if not (got[p] == want[p]):
                raise Violation("%s generator built with %s reports %s" % (name, want, got))
        got["?"] = 1
        ctx.require(list(g.parameters()) == names, "%s: parameter dictionary shared with the caller", name)
        made.append((want, ctx.call("code", g.code), g))
        again = get_available_generator(d, dict(want))
        ctx.equal(again.code(), g.code(), "%s code of an equal generator" % name)
        # round trip through its own parameters
        ctx.equal(get_available_generator(d, g.parameters()).code(), g.code(), "%s code after a round trip through parameters()" % name)
        ctx.require(name.lower() in g.code().lower(), "%s generator code %s does not name the distribution", name, g.code())
    (v, cv, g), (w, cw, _) = made
    ctx.nt(any(v[p] != dflt for p, dflt, _ in spec) or any(isinstance(z, str) or z == 0 for z in case["probes"]))
    ctx.require((cv == cw) if (list(map(repr, v.values())) == list(map(repr, w.values()))) else (v == w or cv != cw), "%s: codes %s and %s for %s and %s", name, cv, cw, v, w)
    ctx.equal(g.code(), cv, "%s code after building another generator" % name)
    if name == "LOG_NORMAL":
        c = abs(float(case["w"]["s"])) + 1e-3
        g = ctx.call("generator with scale", get_available_generator, d, {"s": v["s"], "scale": c})
        ctx.close(g.parameters()["mu"], math.log(c), "log-normal generator built with scale %r: mu" % c, 1e-12, 1e-12)
    # defaults are usable
    dflt = {p.name: p.default for p in desc.parameters()}
    ctx.equal(get_available_generator(d, dict(dflt)).parameters(), dflt, "%s generator of the defaults" % name)


def check_validators(case, ctx):
    v = num(case["v"])
    ctx.nt(math.isnan(v) or v in (0, 1) or abs(v) < 1e-9 or math.isinf(v))
    x = np.float64(v) if case["np"] else v
    for cls, kind in ((PositiveNumberValidator, "pos"), (NonNegativeNumberValidator, "nonneg"), (ProbabilityValidator, "prob")):
        want = legal(kind, v)
        if want is None:
            continue
        a = verdict(ctx, cls(), x, "%s()(%r)" % (cls.__name__, v))
        b = bool(ctx.call("validate", cls().validate, x))
        ctx.require(a == want and b == want, "%s on %r: call %s, validate %s, want %s", cls.__name__, v, a, b, want)


def subs():
    return [Sub("one-each", None, check_one_each, enum=lambda: [{"all": True}]),
            Sub("validators", lambda: st.fixed_dictionaries({"v": probe(), "np": st.booleans()}), check_validators, 300, 20000)] + [
        Sub(n, cases(n), check, 60, 3000) for n in dists.NAMES]
