"""C01: adjusted p-values = textbook procedures, evaluated by an independent O(n^2) / recursive reference."""
from hypothesis import strategies as st
from pysatl_criterion import (BenjaminiYekutieli, BonferroniMultipleTesting, Holm, SidakHolm,
                              SidakMultipleTesting)

from pbt import gen
from pbt.core import Sub, close

TECHNIQUE = 'property-based testing against exact reference implementations of each correction'
NOTE = 'Random and enumerated p-value lists against textbook adjusted p-values computed independently; trusts the reference formulas in pbt/props/c01.py. Two pinned deviations are listed as known findings.'
RULE = ("Lists of p-values (0..40 long, explicit; a few up to 12000) with ties, 0, 1 and tiny values in any order; "
        "non-trivial = at least two hypotheses and at least one adjusted value strictly between 0 and 1.")
ASSUMPTIONS = ["adjusted values are compared up to 1e-12 absolute / 1e-9 relative rounding",
               "above 10000 hypotheses the Benjamini-Yekutieli harmonic factor may be its asymptotic approximation (its error, at most 1/(2n): 6e-6 relative)"]


def bonferroni(p):
    return [min(1.0, x * len(p)) for x in p]


def sidak_one(x, m):
    """1-(1-x)^m without cancellation."""
    import math
    return 1.0 if x >= 1 else -math.expm1(m * math.log1p(-x))


def sidak(p):
    return [sidak_one(x, len(p)) for x in p]


def _stepdown(p, single):
    """Step-down: adj of p_i = max over hypotheses j with p_j <= p_i (earlier in the sorted order) of single(p_j, m_j)."""
    m = len(p)
    order = sorted(range(m), key=lambda i: p[i])
    adj = [0.0] * m
    run = 0.0
    for r, i in enumerate(order):
        run = max(run, min(1.0, single(p[i], m - r)))
        adj[i] = run
    return adj


def holm(p):
    return _stepdown(p, lambda x, k: x * k)


def sidakholm(p):
    return _stepdown(p, sidak_one)


def by(p):
    m = len(p)
    c = 0.0
    for k in range(m, 0, -1):
        c += 1.0 / k
    srt = sorted(p)
    adj_sorted = [min(1.0, srt[k] * m * c / (k + 1)) for k in range(m)]
    run = 1.0
    for k in range(m - 1, -1, -1):
        run = min(run, adj_sorted[k])
        adj_sorted[k] = run
    first = {}
    for k, v in enumerate(srt):  # ties: the last one has the smallest (common) adjusted value
        first[v] = adj_sorted[k]
    return [first[x] for x in p]


def hochberg(p):
    """The defect model of finding KF-HOLM: running minimum from the largest p-value (step-up instead of step-down)."""
    m = len(p)
    order = sorted(range(m), key=lambda i: p[i])
    adj = [0.0] * m
    run = 1.0
    for r in range(m - 1, -1, -1):
        i = order[r]
        run = min(run, min(1.0, p[i] * (m - r)))
        adj[i] = run
    return adj


METHODS = {"Bonferroni": (BonferroniMultipleTesting, bonferroni, None, None),
           "Sidak": (SidakMultipleTesting, sidak, None, None),
           "Holm": (Holm, holm, "KF-HOLM", hochberg),
           "SidakHolm": (SidakHolm, sidakholm, "KF-SIDAKHOLM", sidak),
           "BenjaminiYekutieli": (BenjaminiYekutieli, by, None, None)}


def make(name):
    cls, ref, kid, defect = METHODS[name]

    def check(case, ctx):
        p = case["p"]
        if "big" in case:
            b = case["big"]
            p = [float(v) for v in gen.rng(b["seed"]).uniform(0, b["hi"], b["n"])]
        got = ctx.call("adjust", cls.adjust, list(p))
        ctx.require(isinstance(got, list) and len(got) == len(p), "adjust returned %r for %d p-values", type(got), len(p))
        want = ref(p)
        rtol = 6e-6 if name == "BenjaminiYekutieli" and len(p) > 10000 else 1e-9
        ctx.nt(len(p) >= 2 and any(0 < x < 1 for x in got))
        ctx.label("ties" if len(set(p)) < len(p) else "distinct")
        ctx.label("unsorted" if p != sorted(p) else "sorted")
        if not close(got, want, rtol, 1e-12):
            if kid and ctx.kf(kid) and close(got, defect(p), rtol, 1e-12):
                ctx.kf_hit(kid)
            else:
                ctx.close(got, want, name + " adjusted p-values of %s" % (p if len(p) < 30 else "a long list"), rtol, 1e-12)
        for x, a in zip(p, got):
            ctx.require(0 <= a <= 1, "adjusted value %r outside [0,1]", a)
            ctx.require(a >= x - 1e-12, "adjusted value %r below raw p-value %r", a, x)
        pairs = sorted(zip(p, got))
        for (x, a), (y, b) in zip(pairs, pairs[1:]):
            ctx.require(a <= b + 1e-12, "raw %r <= %r but adjusted %r > %r", x, y, a, b)
            if x == y:
                ctx.require(abs(a - b) <= 1e-12, "equal p-values %r adjusted differently: %r, %r", x, a, b)
    return check


def perm_case():
    return gen.p_list().map(lambda p: {"p": p})


def big():
    return st.fixed_dictionaries({"p": st.just([]), "big": st.fixed_dictionaries({
        "seed": st.integers(0, 2**31 - 1), "hi": st.sampled_from([0.001, 0.05, 1.0]),
        "n": st.sampled_from([50, 200, 999, 1000, 1001, 5000, 9999, 10000, 10001, 12000])})})


def subs():
    out = []
    for n in METHODS:
        out.append(Sub(n, perm_case, make(n), 1500, 40000))
        out.append(Sub(n + "-large", big, make(n), 12, 150))
    return out


WITNESS = {
    "KF-HOLM": lambda: close(Holm.adjust([0.01, 0.04, 0.03]), [0.03, 0.04, 0.04], 1e-9),
    "KF-SIDAKHOLM": lambda: close(SidakHolm.adjust([0.01, 0.02, 0.1]), sidak([0.01, 0.02, 0.1]), 1e-9),
}
