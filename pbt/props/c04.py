"""C04: critical values are (linearly interpolated) empirical quantiles; acceptance regions are closed."""
import math

from hypothesis import strategies as st
from pysatl_criterion.hypothesis_testing.alternative_factory.alternative_factories import AbstractAlternativeFactory
from pysatl_criterion.hypothesis_testing.critical_values.calculator.critical_value_calculator import (
    LeftCriticalValueCalculator, RightCriticalValueCalculator, TwoSidedCriticalValueCalculator)
from pysatl_criterion.hypothesis_testing.critical_values.critical_area.critical_areas import (
    LeftCriticalArea, RightCriticalArea, TwoSidedCriticalArea)
from pysatl_criterion.statistics.alternative import AlternativeType

from pbt import gen
from pbt.core import Sub, isnum

TECHNIQUE = 'property-based testing against a reference quantile and region model'
NOTE = 'Random tied and continuous limit distributions against a linear-interpolation quantile and exact region membership.'
RULE = ("A limit distribution (continuous, discrete with heavy ties, two-point, seeded sample) with a level and a statistic value, "
        "or a pair of bounds with values on, next to and away from them; non-trivial = at least three simulated values of which two differ, "
        "or a value exactly on a bound.")
ASSUMPTIONS = ["quantiles use the linear interpolation between order statistics that the existing tests pin",
               "quantiles are compared up to 1e-9 of the range of the limit distribution"]
CALC = {"left": LeftCriticalValueCalculator, "right": RightCriticalValueCalculator, "two": TwoSidedCriticalValueCalculator}
TYPE = {"left": AlternativeType.LEFT, "right": AlternativeType.RIGHT, "two": AlternativeType.TWO_TAILED}


def quantile(xs, q):
    s = sorted(xs)
    h = (len(s) - 1) * q
    k = min(int(math.floor(h)), len(s) - 1)
    if k + 1 >= len(s):
        return s[-1]
    return s[k] + (h - k) * (s[k + 1] - s[k])


def cases():
    return gen.limit_values().flatmap(lambda xs: st.fixed_dictionaries({
        "xs": st.just(xs), "sl": gen.level(), "v": gen.near(xs), "rev": st.booleans()}))


def big():
    return st.fixed_dictionaries({"xs": gen.big_limit(), "sl": gen.fine_level(), "sl2": gen.fine_level(), "v": gen.rank_value(), "rev": st.booleans()})


def make(side):
    def check(case, ctx):
        xs, sl = gen.expand(case["xs"]), case["sl"]
        v = gen.at(xs, case["v"], {"left": sl, "right": 1 - sl, "two": sl / 2}[side])
        calc = ctx.call("calculator", CALC[side])
        arg = list(reversed(xs)) if case["rev"] else list(xs)
        keep = list(arg)
        cv = ctx.call("calculate", calc.calculate, arg, sl)
        ctx.require(arg == keep, "calculate changed the limit distribution it was given")
        ctx.nt(len(xs) >= 3 and len(set(xs)) >= 2)
        ctx.label("tied" if len(set(xs)) < len(xs) else "distinct")
        tol = 1e-9 * (max(xs) - min(xs)) + 1e-12 * max(abs(x) for x in xs)
        n = len(xs)
        if side == "two":
            ctx.require(isinstance(cv, (tuple, list)) and len(cv) == 2, "two-sided critical value is %r", cv)
            lo, hi = float(cv[0]), float(cv[1])
            ctx.close(lo, quantile(xs, sl / 2), "lower critical value at level %r" % sl, 0, tol)
            ctx.close(hi, quantile(xs, 1 - sl / 2), "upper critical value at level %r" % sl, 0, tol)
            ctx.require(lo <= hi + tol, "critical values out of order: %r > %r", lo, hi)
        else:
            ctx.require(isnum(cv), "critical value is %r", cv)
            lo = hi = float(cv)
            ctx.close(lo, quantile(xs, sl if side == "left" else 1 - sl), "%s critical value at level %r" % (side, sl), 0, tol)
        # the region built from it
        fac = ctx.call("factory", AbstractAlternativeFactory.get_concrete_factory, TYPE[side])
        area = ctx.call("area", fac.get_critical_area, cv)

        def accepted(z):
            return bool(ctx.call("contains", area.contains, z))

        def want(z):
            return (side == "right" or z >= lo) and (side == "left" or z <= hi)
        for z in [v, lo, hi, math.nextafter(lo, -math.inf), math.nextafter(hi, math.inf), lo - 1, hi + 1]:
            ctx.require(accepted(z) == want(z), "%s region with critical value %r: contains(%r) is %s", side, cv, z, accepted(z))
        # size: outside lies at most the level, up to one simulated value per tail
        below = sum(1 for x in xs if not accepted(x) and x < lo)
        above = sum(1 for x in xs if not accepted(x) and x > hi)
        lv = sl / 2 if side == "two" else sl
        ctx.require(below + above == sum(1 for x in xs if not accepted(x)), "region rejects a value between the critical values")
        # a value that the interpolation rounds to the wrong side of the critical value is not held against it
        ulps = 8 * math.ulp(max(abs(lo), abs(hi), 1e-300))
        for cnt in (sum(1 for x in xs if not accepted(x) and x < lo - ulps), sum(1 for x in xs if not accepted(x) and x > hi + ulps)):
            ctx.require(cnt <= lv * (n - 1) + 1 + 1e-9, "%d of %d simulated values rejected at level %r per tail", cnt, n, lv)
        # the calculator the factory hands out agrees
        cv2 = ctx.call("calculate", fac.get_critical_value_calculator().calculate, list(xs), sl)
        ctx.close(list(cv2) if side == "two" else cv2, list(cv) if side == "two" else cv, "critical value through the factory", 1e-12, tol)
    return check


def level_mono(side):
    def check(case, ctx):
        xs, a, b = gen.expand(case["xs"]), min(case["sl"], case["sl2"]), max(case["sl"], case["sl2"])
        calc = CALC[side]()
        tol = 1e-9 * (max(xs) - min(xs)) + 1e-12 * max(abs(x) for x in xs)
        ca, cb = (ctx.call("calculate", calc.calculate, list(xs), s) for s in (a, b))
        if side == "left":
            ctx.require(ca <= cb + tol, "left critical value falls from %r to %r as the level rises %r -> %r", ca, cb, a, b)
        elif side == "right":
            ctx.require(ca >= cb - tol, "right critical value rises from %r to %r as the level rises %r -> %r", ca, cb, a, b)
        else:
            ctx.require(ca[0] <= cb[0] + tol and ca[1] >= cb[1] - tol, "two-sided region grows with the level: %r, %r", ca, cb)
        ctx.nt(a < b and len(set(xs)) > 2)
    return check


def areas(case, ctx):
    a, b, z = case["a"], case["b"], case["z"]
    lo, hi = min(a, b), max(a, b)
    for v in (z, lo, hi, math.nextafter(lo, -math.inf), math.nextafter(lo, math.inf), math.nextafter(hi, math.inf), math.nextafter(hi, -math.inf)):
        ctx.require(bool(LeftCriticalArea(lo).contains(v)) == (v >= lo), "left area %r contains %r", lo, v)
        ctx.require(bool(RightCriticalArea(hi).contains(v)) == (v <= hi), "right area %r contains %r", hi, v)
        ctx.require(bool(TwoSidedCriticalArea(lo, hi).contains(v)) == (lo <= v <= hi), "two-sided area (%r, %r) contains %r", lo, hi, v)
    ctx.nt(lo <= z <= hi)


def subs():
    fl = st.floats(-1e6, 1e6, **gen.fin)
    out = [Sub(s, cases, make(s), 1200, 40000) for s in CALC]
    out += [Sub(s + "-level", lambda: st.fixed_dictionaries({"xs": gen.limit_values(), "sl": gen.level(), "sl2": gen.level()}), level_mono(s), 400, 10000) for s in CALC]
    out += [Sub(s + "-large", big, make(s), 150, 4000) for s in CALC] + [Sub(s + "-level-large", big, level_mono(s), 60, 2000) for s in CALC]
    out.append(Sub("areas", lambda: st.fixed_dictionaries({"a": fl, "b": fl, "z": fl}), areas, 500, 10000))
    return out
