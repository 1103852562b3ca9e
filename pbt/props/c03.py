"""C03: p-values are empirical tail probabilities; reference counts with exact fractions."""
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st
from pysatl_criterion.hypothesis_testing.alternative_factory.alternative_factories import AbstractAlternativeFactory
from pysatl_criterion.hypothesis_testing.p_value.calculator.p_value_calculator import (
    LeftPValueCalculator, RightPValueCalculator, TwoSidedPValueCalculator)
from pysatl_criterion.statistics.alternative import AlternativeType

from pbt import gen
from pbt.core import Sub, isnum

TECHNIQUE = 'property-based testing against exact-fraction tail counts'
NOTE = 'Random limit distributions, ties included, against counts with exact fractions.'
RULE = ("A limit distribution (continuous, discrete with heavy ties, two-point, or a seeded sample of up to 131071) and two statistic "
        "values (members, midpoints, outside); non-trivial = the value is neither below all nor above all simulated values.")
ASSUMPTIONS = ["p-values are compared with exact fractions up to 1e-12"]
CALC = {"left": LeftPValueCalculator, "right": RightPValueCalculator, "two": TwoSidedPValueCalculator}
TYPE = {"left": AlternativeType.LEFT, "right": AlternativeType.RIGHT, "two": AlternativeType.TWO_TAILED}


def ref(side, xs, v):
    f = Fraction(sum(1 for x in xs if x <= v), len(xs))
    return {"left": f, "right": 1 - f, "two": 2 * min(f, 1 - f)}[side]


def cases():
    return gen.limit_values().flatmap(lambda xs: st.fixed_dictionaries({
        "xs": st.just(xs), "v": gen.near(xs), "w": gen.near(xs), "rev": st.sampled_from(["none", "reverse", "sort", "rotate"]),
        "arr": st.booleans()}))


def big():
    v = gen.rank_value()
    return st.fixed_dictionaries({"xs": gen.big_limit(), "sl": gen.fine_level(), "v": v, "w": v, "rev": st.sampled_from(["none", "reverse", "sort", "rotate"]),
                                  "arr": st.booleans()})


def make(side):
    def check(case, ctx):
        xs = gen.expand(case["xs"])
        v, w = (gen.at(xs, z, case.get("sl")) for z in (case["v"], case["w"]))
        calc = ctx.call("calculator", CALC[side])
        arg = list(xs)
        p = ctx.call("calculate", calc.calculate, arg, v)
        ctx.require(arg == xs, "calculate changed the limit distribution it was given")
        ctx.require(isnum(p), "p-value is %r", p)
        p = float(p)
        want = ref(side, xs, v)
        ctx.nt(min(xs) <= v < max(xs))
        ctx.label("tied" if len(set(xs)) < len(xs) else "distinct")
        ctx.label("member" if v in xs else "between/outside")
        ctx.close(p, float(want), "%s p-value of %r in %s" % (side, v, xs if len(xs) < 20 else "%d values" % len(xs)), 1e-12, 1e-12)
        ctx.require(0 <= p <= 1, "p-value %r outside [0,1]", p)
        # order of the simulated values is irrelevant
        ys = {"none": list(xs), "reverse": xs[::-1], "sort": sorted(xs), "rotate": xs[1:] + xs[:1]}[case["rev"]]
        q = ctx.call("calculate", calc.calculate, np.array(ys) if case["arr"] else ys, v)
        ctx.close(float(q), p, "p-value after reordering the limit distribution", 1e-12, 1e-12)
        # monotone in the statistic
        r = float(ctx.call("calculate", calc.calculate, list(xs), w))
        lo, hi = (p, r) if v <= w else (r, p)
        if side == "left":
            ctx.require(lo <= hi, "left p-value decreases: %r at %r, %r at %r", p, v, r, w)
        if side == "right":
            ctx.require(lo >= hi, "right p-value increases: %r at %r, %r at %r", p, v, r, w)
        # the factory of the alternative hands out the matching calculator
        fc = ctx.call("factory", AbstractAlternativeFactory.get_concrete_factory, TYPE[side]).get_p_value_calculator()
        ctx.close(float(ctx.call("calculate", fc.calculate, list(xs), v)), p, "p-value through the alternative factory", 1e-12, 1e-12)
    return check


def subs():
    return [Sub(s, cases, make(s), 1500, 40000) for s in CALC] + [Sub(s + "-large", big, make(s), 150, 4000) for s in CALC]
