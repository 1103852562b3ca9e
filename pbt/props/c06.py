"""C06: the two decision methods agree away from the critical value, and both are monotone."""
import math

from hypothesis import strategies as st
from pysatl_criterion.hypothesis_testing.goodness_of_fit_test.goodness_of_fit_test import GoodnessOfFitTest

from pbt import gen
from pbt.core import Sub
from pbt.props.c04 import quantile
from pbt.props.c05 import METHOD, Fake, Resolver

TECHNIQUE = "metamorphic property-based testing of decisions (two methods, ordered statistic values, ordered levels)"
NOTE = "Stand-in statistics of the three alternatives; whole tests run by both methods on the same limit distribution, values on, between and beyond its points."
RULE = ("A limit distribution (continuous, tied, two-point), three ordered statistic values drawn on or around it and two ordered levels. "
        "Non-trivial = the six decisions are not all equal.")
ASSUMPTIONS = ["values within 1e-9 (relative to the range) of a critical value are not compared between levels"]


def cases():
    return gen.limit_values().flatmap(lambda xs: st.fixed_dictionaries({
        "xs": st.just(xs), "v": st.lists(gen.near(xs), min_size=3, max_size=3).map(sorted),
        "sl": st.lists(gen.level(), min_size=2, max_size=2).map(sorted), "n": st.integers(1, 30)}))


def big():
    return st.fixed_dictionaries({"xs": gen.big_limit(), "v": st.lists(gen.rank_value(), min_size=3, max_size=3),
                                  "sl": st.lists(gen.fine_level(), min_size=2, max_size=2).map(sorted), "n": st.integers(1, 30)})


def gap(xs, q):
    """Order statistics around the quantile at q (rounding of q's position widens it)."""
    s = sorted(xs)
    h = (len(s) - 1) * q
    lo = max(0, int(math.floor(h - 1e-9)))
    hi = min(len(s) - 1, int(math.floor(h + 1e-9)) + 1)
    return s[lo], s[hi]


def make(side):
    def check(case, ctx):
        xs, sls = gen.expand(case["xs"]), case["sl"]
        near = {"left": [sls[0], sls[1], sls[0]], "right": [1 - sls[0], 1 - sls[1], 1 - sls[0]], "two": [sls[0] / 2, 1 - sls[0] / 2, sls[1] / 2]}[side]
        vs = sorted(gen.at(xs, v, q) for v, q in zip(case["v"], near))
        rvs = [0.5] * case["n"]

        def decide(method, v, sl):
            test = GoodnessOfFitTest(Fake(v, side))
            r = ctx.call("test", test.test, list(rvs), sl, METHOD[method](Resolver(lambda s: list(xs))))
            ctx.require(r.rejected in (True, False), "rejected is %r", r.rejected)
            return bool(r.rejected)
        table = {(m, i, j): decide(m, v, sl) for m in ("p", "cv") for i, v in enumerate(vs) for j, sl in enumerate(sls)}
        ctx.nt(len(set(table.values())) > 1)
        # agreement
        for i, v in enumerate(vs):
            for j, sl in enumerate(sls):
                qs = {"left": [sl], "right": [1 - sl], "two": [sl / 2, 1 - sl / 2]}[side]
                gaps = [gap(xs, q) for q in qs]
                if any(a <= v <= b for a, b in gaps):
                    continue
                ctx.label("compared")
                ctx.require(table["p", i, j] == table["cv", i, j],
                            "%s value %r at level %r: by p-value rejected=%s, by critical value rejected=%s", side, v, sl, table["p", i, j], table["cv", i, j])
                if side != "two":
                    beyond = v > gaps[0][1] if side == "right" else v < gaps[0][0]
                    ctx.require(table["p", i, j] == beyond, "%s value %r far from the quantile at level %r: rejected=%s", side, v, sl, table["p", i, j])
                else:
                    beyond = v < gaps[0][0] or v > gaps[1][1]
                    ctx.require(table["p", i, j] == beyond, "two-sided value %r at level %r: rejected=%s", v, sl, table["p", i, j])
        for m in ("p", "cv"):
            for j, sl in enumerate(sls):
                a, b, c = (table[m, i, j] for i in range(3))
                what = "%s by %s at level %r, values %s rejected=%s" % (side, m, sl, vs, (a, b, c))
                if side == "right":
                    ctx.require(a <= b <= c, "larger values rejected less: %s", what)
                elif side == "left":
                    ctx.require(a >= b >= c, "smaller values rejected less: %s", what)
                else:
                    ctx.require(not b or a or c, "a value between two accepted ones is rejected: %s", what)
            for i, v in enumerate(vs):
                tol = 1e-9 * (max(xs) - min(xs)) + 1e-12 * abs(v)
                qs = [q for sl in sls for q in ([sl] if side == "left" else [1 - sl] if side == "right" else [sl / 2, 1 - sl / 2])]
                if m == "cv" and any(abs(v - quantile(xs, q)) <= tol for q in qs):
                    continue
                ctx.require(not table[m, i, 0] or table[m, i, 1], "%s value %r by %s: rejected at level %r but not at %r", side, v, m, sls[0], sls[1])
    return check


def subs():
    sides = ("left", "right", "two")
    return [Sub(s, cases, make(s), 1200, 40000) for s in sides] + [Sub(s + "-large", big, make(s), 150, 4000) for s in sides]
