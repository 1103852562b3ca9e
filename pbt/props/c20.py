"""C20: graph statistics equal brute-force invariants of the proximity graph."""
import contextlib
import functools
import inspect
import json
import os
import sys
from fractions import Fraction

import numpy as np
from hypothesis import strategies as st
from scipy import special

from pbt import fam, gen
from pbt.core import Sub, tofloat

TECHNIQUE = "property-based testing: differential testing against brute-force graph invariants (exact rational adjacency, exhaustive maximum clique and maximum independent set, breadth-first components)"
NOTE = "Cases in which a pair lies within rounding of the distance threshold are skipped, except those of a precomputed table in which every intermediate quantity is exact in binary arithmetic: there the strict inequality at the threshold is judged."
RULE = "One sample and family per case, all six statistics judged. Non-trivial = the graph is neither empty nor complete."
ASSUMPTIONS = ["scipy.special.gammainc is correct (gamma family)"]

KINDS = ["EdgesNumber", "MaxDegree", "AverageDegree", "ConnectedComponents", "CliqueNumber", "IndependenceNumber"]
SUFFIX = {"NORMAL": "Normality", "EXPONENTIAL": "Exponentiality", "GAMMA": "Gamma"}
with open(os.path.join(os.path.dirname(os.path.dirname(__file__)), "ref", "graph_exact.json")) as _f:
    EXACT = json.load(_f)


def points(family, kw, x):
    """Observations as exact rationals, and the distance threshold."""
    if family == "GAMMA":
        x = special.gammainc(kw.get("alpha", 1), kw.get("beta", 1) * np.asarray(x, float)).tolist()
    p = [Fraction(float(v)) for v in x]
    d, n = (max(p) - min(p)) / 10, len(p)
    m = sum(p) / n
    scale = {"NORMAL": lambda: sum((v - m) ** 2 for v in p) / n, "EXPONENTIAL": lambda: m, "GAMMA": lambda: Fraction(1)}[family]()
    return p, d / scale if scale else d


def adjacency(p, d):
    return [[i != j and abs(a - b) < d for j, b in enumerate(p)] for i, a in enumerate(p)]


def undecided(p, d):
    size = max(abs(v) for v in p) + d
    return any(abs(abs(p[i] - p[j]) - d) <= Fraction(1, 10 ** 10) * size for i in range(len(p)) for j in range(i) if p[i] != p[j]) and d != 0


def largest_independent(adj):
    """Exhaustive: branch on a vertex of largest degree (taken, or not)."""
    n = len(adj)
    nb = [sum(1 << j for j in range(n) if adj[i][j]) for i in range(n)]

    @functools.lru_cache(maxsize=None)
    def best(mask):
        if not mask:
            return 0
        v = max((i for i in range(n) if mask >> i & 1), key=lambda i: bin(nb[i] & mask).count("1"))
        if not nb[v] & mask:
            return bin(mask).count("1")
        return max(best(mask & ~(1 << v)), 1 + best(mask & ~(1 << v) & ~nb[v]))
    return best((1 << n) - 1)


def invariants(adj):
    n = len(adj)
    deg = [sum(r) for r in adj]
    seen, comps = set(), 0
    for s in range(n):
        if s in seen:
            continue
        comps += 1
        todo = [s]
        while todo:
            v = todo.pop()
            if v not in seen:
                seen.add(v)
                todo += [j for j in range(n) if adj[v][j]]
    other = [[i != j and not adj[i][j] for j in range(n)] for i in range(n)]
    if n > 36:
        return {"EdgesNumber": sum(deg) // 2, "MaxDegree": max(deg), "AverageDegree": sum(deg) / n, "ConnectedComponents": comps, "CliqueNumber": None, "IndependenceNumber": None}
    return {"EdgesNumber": sum(deg) // 2, "MaxDegree": max(deg), "AverageDegree": sum(deg) / n, "ConnectedComponents": comps,
            "CliqueNumber": largest_independent(other), "IndependenceNumber": largest_independent(adj)}


def on_the_line(p, d):
    """Clique and independence number of points on a line joined when closer than d (for graphs too large for exhaustion):
    a clique lies within less than d of its first point, and the points chosen from the left never block more than any others would."""
    clique = max(sum(1 for q in p[i:] if q - a < d) for i, a in enumerate(p)) if d > 0 else 1
    chosen = [p[0]]
    for q in p:
        if q - chosen[-1] >= d and q is not p[0]:
            chosen.append(q)
    return {"CliqueNumber": clique, "IndependenceNumber": len(chosen)}


def judge(family, kw, x, form, ctx, exact):
    p, d = points(family, kw, x)
    if not exact and undecided(p, d):
        ctx.label("a pair within rounding of the threshold: skipped")
        return
    adj = adjacency(p, d)
    inv = invariants(adj)
    line = on_the_line(sorted(p), d)
    if inv["CliqueNumber"] is None:
        inv.update(line)
    elif d > 0 and {k: inv[k] for k in line} != line:
        raise AssertionError("the two references disagree: %s and %s for %s" % (inv, line, x))
    n = len(p)
    ctx.nt(0 < inv["EdgesNumber"] < n * (n - 1) // 2)
    ctx.label("n=%s" % (n if n < 4 else "4+"))
    for k in KINDS:
        o = fam.build("Graph" + k + SUFFIX[family], kw)
        arg = list(x) if form == "list" else np.array(x)
        what = "Graph%s%s(%s) of %s" % (k, SUFFIX[family], kw, x)
        g = tofloat(ctx.call(what, o.execute_statistic, arg))
        ctx.require(abs(g - inv[k]) <= 1e-9, "%s: got %s, brute force gives %s (threshold %s)", what, g, inv[k], float(d))


def expand(family, c):
    kw, (u, shape, factor, dup) = c["kw"], c["s"]
    u = np.array(u)
    if shape == "clusters":
        u = np.round(u * 5) / 5 * 0.9 + 0.05 + (u - np.round(u * 5) / 5) * 0.2
    elif shape == "outlier":
        u = u * 0.5 + 0.1
        u[0] = 0.999
    elif shape == "even":
        u = (np.argsort(np.argsort(u)) + 0.5) / len(u)
    elif shape == "constant":
        u = np.full(len(u), u[0])
    u = np.clip(u, 1e-3, 1 - 1e-3)
    if family == "NORMAL":
        x = fam.dist(family, {}).ppf(u) * factor + kw.get("mean", 0)
    elif family == "EXPONENTIAL":
        x = -np.log1p(-u) * factor
    else:
        x = fam.dist(family, kw).ppf(u) * factor
    x = [float("%.6g" % v) for v in x]
    return [x[0] if i and dup >> i & 1 else v for i, v in enumerate(x)]


def strategy(family):
    def mk(t):
        n, seed = t
        return [gen.rnd(v, 6) for v in gen.rng(seed).uniform(0, 1, n)]
    u = st.one_of(st.lists(st.floats(0, 1).map(lambda v: gen.rnd(v, 4)), min_size=1, max_size=14),
                  st.tuples(st.integers(1, 30), st.integers(0, 2 ** 31 - 1)).map(mk), st.tuples(st.integers(8, 36), st.integers(0, 2 ** 31 - 1)).map(mk),
                  st.tuples(st.sampled_from([37, 50, 64, 99, 100, 101, 120]), st.integers(0, 2 ** 31 - 1)).map(mk))
    kws = fam.kwargs("GraphEdgesNumber" + SUFFIX[family])
    return st.fixed_dictionaries({"kw": kws, "form": st.sampled_from(["array", "list"]), "s": st.tuples(
        u, st.sampled_from(["plain", "plain", "clusters", "outlier", "even", "constant"]), st.sampled_from([0.3, 0.5, 0.7, 1, 1, 1.4, 2, 3]),
        st.sampled_from([0, 0, 0, 2, 12, 56, 1 << 9]))})


def ints(family):
    """Small integer samples (ties, repeated distances)."""
    return st.fixed_dictionaries({"kw": st.just({}), "form": st.sampled_from(["array", "list"]),
                                  "x": st.lists(st.integers(0, 12) if family != "NORMAL" else st.integers(-6, 6), min_size=1, max_size=16)})


def long_cases(family):
    return st.fixed_dictionaries({"kw": fam.kwargs("GraphEdgesNumber" + SUFFIX[family]), "n": st.integers(1030, 1700), "seed": st.integers(0, 2 ** 31 - 1),
                                  "shape": st.sampled_from(["plain", "clusters", "even"]), "form": st.sampled_from(["array", "list"]), "factor": st.sampled_from([0.6, 1, 1.6])})


@contextlib.contextmanager
def usual_stack():
    """The interpreter's default recursion limit, which the test engine raises."""
    old, depth = sys.getrecursionlimit(), len(inspect.stack(0))
    sys.setrecursionlimit(depth + 1000)
    try:
        yield
    finally:
        sys.setrecursionlimit(old)


def check_long(family, case, ctx):
    """More than a thousand observations: neighbour counts by binary search on the sorted points."""
    n, kw, r = case["n"], case["kw"], gen.rng(case["seed"])
    u = r.uniform(0.001, 0.999, n)
    if case["shape"] == "clusters":
        u = np.where(u < 0.3, u * 0.5, np.where(u < 0.6, 0.4 + u * 0.1, 0.95 + u * 0.04))
    elif case["shape"] == "even":
        u = 0.001 + 0.998 * (r.permutation(n) + r.uniform(0.2, 0.8, n)) / n
    x = (fam.dist(family, {}).ppf(u) if family == "NORMAL" else fam.dist(family, kw).ppf(u)) * case["factor"]
    p = np.sort(special.gammainc(kw.get("alpha", 1), kw.get("beta", 1) * x) if family == "GAMMA" else x)
    d = (p[-1] - p[0]) / 10 / {"NORMAL": np.var(p), "EXPONENTIAL": np.mean(p), "GAMMA": 1}[family]
    eps = 1e-11 * (p[-1] - p[0] + d)
    near, far = (np.searchsorted(p, p + d + e) for e in (-eps, eps))
    if not d > 0 or np.any(near != far):
        ctx.label("a pair within rounding of the threshold: skipped")
        return
    left = np.searchsorted(p, p - d, side="right")
    i = np.arange(n)
    deg = near - left - 1
    chosen, last = 1, p[0]
    for q in p[1:]:
        if q - last >= d:
            chosen, last = chosen + 1, q
    inv = {"EdgesNumber": int(deg.sum()) // 2, "MaxDegree": int(deg.max()), "AverageDegree": float(deg.mean()), "ConnectedComponents": 1 + int(np.sum(np.diff(p) >= d)),
           "CliqueNumber": int((near - i).max()), "IndependenceNumber": chosen}
    ctx.nt(0 < inv["EdgesNumber"] < n * (n - 1) // 2)
    for k in KINDS:
        o = fam.build("Graph" + k + SUFFIX[family], kw)
        what = "Graph%s%s(%s) of %d observations" % (k, SUFFIX[family], kw, n)
        with usual_stack():
            g = tofloat(ctx.call(what, o.execute_statistic, x.tolist() if case["form"] == "list" else x.copy()))
        ctx.require(abs(g - inv[k]) <= 1e-9 * (1 + abs(inv[k])), "%s: got %s, want %s (threshold %s)", what, g, inv[k], float(d))


def subs():
    out = []
    for f in SUFFIX:
        out.append(Sub(f + ":long", lambda f=f: long_cases(f), lambda c, ctx, f=f: check_long(f, c, ctx), 8, 60, budget={"quick": 40, "thorough": 300}))
    for f in SUFFIX:
        out.append(Sub(f, lambda f=f: strategy(f), lambda c, ctx, f=f: judge(f, c["kw"], expand(f, c), c["form"], ctx, False), 300, 8000, budget={"quick": 40, "thorough": 400}))
        out.append(Sub(f + ":integers", lambda f=f: ints(f), lambda c, ctx, f=f: judge(f, c["kw"], c["x"], c["form"], ctx, False), 150, 3000, budget={"quick": 40, "thorough": 400}))
    for f in EXACT:
        cs = [{"x": x, "form": form} for x in EXACT[f] for form in ("array", "list")]
        out.append(Sub(f + ":at-threshold", None, lambda c, ctx, f=f: judge(f, {}, c["x"], c["form"], ctx, True), enum=lambda cs=cs: cs))
    return out
