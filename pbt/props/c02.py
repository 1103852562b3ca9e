"""C02: decisions, validation, symmetry, monotonicity and purity of the multiple-testing procedures."""
import math

from hypothesis import strategies as st

from pbt import gen
from pbt.core import Sub
from pbt.props.c01 import METHODS

TECHNIQUE = 'property-based and metamorphic testing (permutation, threshold and p-value monotonicity, invalid inputs)'
NOTE = 'Random p-value lists, thresholds and invalid entries at every position; assurance is that of the sampled cases.'
RULE = ("Lists of p-values with a threshold, a permutation and a perturbed copy; invalid lists with an offending value at a "
        "generated position; non-trivial = at least two hypotheses with both decisions present, or an invalid value not in first place.")
ASSUMPTIONS = ["adjusted values within 1e-12 of each other count as equal in the symmetry and monotonicity relations"]


def dec(cls):
    def check(case, ctx):
        p, t = case["p"], case["t"]
        arg = list(p)
        res = ctx.call("test", cls.test, arg, t)
        ctx.require(isinstance(res, tuple) and len(res) == 2, "test returned %r", res)
        rej, adj = res
        ctx.require(arg == p, "test changed the caller's list")
        ctx.require(len(rej) == len(adj) == len(p), "lengths %d, %d for %d p-values", len(rej), len(adj), len(p))
        arg = list(p)
        alone = ctx.call("adjust", cls.adjust, arg)
        ctx.require(arg == p, "adjust changed the caller's list")
        ctx.close(adj, alone, "adjusted values of test() and adjust()", 1e-12, 1e-15)
        for i, (r, a) in enumerate(zip(rej, adj)):
            ctx.require(bool(r) == (a < t), "hypothesis %d: adjusted %r, threshold %r, rejected=%r", i, a, t, r)
        ctx.nt(len(p) > 1 and any(rej) and not all(rej))
        # default threshold is 0.05
        rej5, _ = ctx.call("test", cls.test, list(p))
        ctx.require([bool(r) for r in rej5] == [a < 0.05 for a in adj], "default threshold is not 0.05")
        # repeated call gives the same answer
        rej2, adj2 = ctx.call("test", cls.test, list(p), t)
        ctx.require(rej2 == rej and adj2 == adj, "second call differs: %r then %r", adj, adj2)
        # a larger threshold rejects at least as much
        t2 = min(1.0, t + case["dt"])
        rej_hi, _ = ctx.call("test", cls.test, list(p), t2)
        ctx.require(all(not a or b for a, b in zip(rej, rej_hi)), "threshold %r -> %r lost a rejection", t, t2)
    return check


def sym(cls):
    def check(case, ctx):
        p = case["p"]
        order = sorted(range(len(p)), key=lambda i: (case["keys"][i % len(case["keys"])] * (i + 1)) % 97)
        a = ctx.call("adjust", cls.adjust, list(p))
        b = ctx.call("adjust", cls.adjust, [p[i] for i in order])
        ctx.close(b, [a[i] for i in order], "permuted adjusted values", 1e-9, 1e-12)
        ctx.nt(len(set(p)) > 2 and order != list(range(len(p))))
    return check


def mono(cls):
    def check(case, ctx):
        p, q = case["p"], list(case["p"])
        if not p:
            return
        i = case["i"] % len(p)
        q[i] = q[i] * case["f"]
        a = ctx.call("adjust", cls.adjust, list(p))
        b = ctx.call("adjust", cls.adjust, q)
        for j in range(len(p)):
            ctx.require(b[j] <= a[j] + 1e-12, "lowering p[%d] %r->%r raised adjusted p[%d] %r->%r", i, p[i], q[i], j, a[j], b[j])
        ctx.nt(q[i] < p[i] and len(p) > 1)
    return check


BAD = st.one_of(st.floats(max_value=-1e-300, allow_nan=False), st.floats(min_value=1.0000000001, allow_nan=False),
                st.sampled_from([-5e-324, 1.0000000000000002, math.inf, -math.inf, 2, -1])).map(
    lambda v: v if math.isfinite(v) else ("inf" if v > 0 else "-inf"))


def bad(cls):
    def check(case, ctx):
        p = list(case["p"])
        i = case["i"] % (len(p) + 1)
        p.insert(i, float(case["bad"]))
        ctx.raises("test(%s)" % p, ValueError, cls.test, p, case["t"])
        ctx.nt(i > 0)
    return check


def bad_adjust(cls):
    def check(case, ctx):
        p = list(case["p"])
        i = case["i"] % (len(p) + 1)
        p.insert(i, float(case["bad"]))
        ctx.raises("adjust(%s)" % p, ValueError, cls.adjust, p)
        ctx.nt(i > 0)
    return check


def subs():
    out = []
    thr = st.one_of(st.sampled_from([0.0, 0.05, 0.01, 1.0]), st.floats(0, 1))
    for n, (cls, _r, _k, _d) in METHODS.items():
        out.append(Sub(n + "-decisions", lambda: st.fixed_dictionaries({"p": gen.p_list(), "t": thr, "dt": st.floats(0, 0.5)}), dec(cls), 700, 20000))
        out.append(Sub(n + "-symmetry", lambda: st.fixed_dictionaries({"p": gen.p_list(), "keys": st.lists(st.integers(1, 96), min_size=1, max_size=8)}), sym(cls), 500, 15000))
        out.append(Sub(n + "-monotone", lambda: st.fixed_dictionaries({"p": gen.p_list(), "i": st.integers(0, 100), "f": st.floats(0, 1)}), mono(cls), 500, 15000))
        b = st.one_of(BAD, st.just("nan"))
        strat = (lambda bb: lambda: st.fixed_dictionaries({"p": gen.p_list(20), "bad": bb, "i": st.integers(0, 30), "t": thr}))(b)
        out.append(Sub(n + "-invalid", strat, bad(cls), 300, 5000))
        if n in ("Bonferroni", "Sidak"):  # these document their own validation in adjust as well
            out.append(Sub(n + "-invalid-adjust", strat, bad_adjust(cls), 300, 5000))
    return out
