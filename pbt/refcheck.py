"""Engine for the reference-model properties (C14-C21): a statistic against an independent evaluation of its formula.

A `Spec` names one exported statistic and a reference function `ref(x, kw, ex)` of the sample (numpy array), the
constructor arguments and the arguments of execute_statistic.  Samples are drawn through the hypothesised
quantile function or that of a distribution with other parameters of the same family, plain, warped, tied or
with outliers, at sizes that always include the statistic's branch sizes.
"""
import copy
import json
import math
import os

import numpy as np
from hypothesis import strategies as st

from pbt import fam, gen
from pbt.core import Sub, close, tofloat

with open(os.path.join(os.path.dirname(__file__), "ref", "defaults.json")) as _f:
    DEFAULTS = json.load(_f)["statistics"]  # documented defaults of the constructors
with open(os.path.join(os.path.dirname(__file__), "ref", "tiny.json")) as _f:
    TINY = json.load(_f)  # smallest sample size below min_n, numbers of distinct values below `distinct`, for which formula and code are defined
with open(os.path.join(os.path.dirname(__file__), "ref", "huge.json")) as _f:
    HUGE = json.load(_f)  # sizes up to which statistic and reference are fast (tools/gen_huge.py)
BIG = (100, 300, 1050, 2100)
FACT = [0.5, 0.7, 1.4, 2.0]


class Spec:
    def __init__(self, name, ref, opts=None, ex=None, sizes=(), min_n=5, max_n=40, rtol=1e-8, atol=1e-9, guard=None, kf=None, quick=170, thorough=6000, distinct=4, ties=True,
                 other=True, kwargs=None, warps=None, sample=None, spread=1e-3, ex_of=None, big=BIG, edge=False, out=True, u=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]


def other_params(kw):
    """Distortions (factor per positive parameter) for samples that do not come from the hypothesis."""
    return st.one_of(st.none(), st.fixed_dictionaries({k: st.sampled_from(FACT) for k in sorted(kw)}))


def seeded(t, digits=8):
    n, s, shape = t
    r = gen.rng(s)
    u = r.uniform(2e-3, 1 - 2e-3, n)
    if shape == 1:
        u = u ** 2 * 0.99 + 0.002
    elif shape == 2:
        u = np.where(r.uniform(size=n) < 0.5, u * 0.4 + 0.02, 0.6 + u * 0.38)
    elif shape == 3:
        u = np.round(u, 2) * 0.99 + 0.004
    elif shape == 4:
        u[r.randint(n)] = 1 - 1e-5
    elif shape == 5:
        u[r.randint(n)] = 1e-5
    return [gen.rnd(v, digits) for v in u]


def u_strategy(s):
    sized = st.tuples(st.one_of(st.sampled_from(list(s.sizes)), st.integers(s.min_n, s.max_n)) if s.sizes else st.integers(s.min_n, s.max_n),
                      st.integers(0, 2 ** 31 - 1), st.sampled_from([0, 1, 2, 4, 5] + ([3] if s.ties else []))).map(seeded)
    opts = [gen.ulist(s.min_n, min(s.max_n, max(24, s.min_n)))] + [sized] * 5
    if s.big:
        top = min(260, max(s.big))
        large = st.sampled_from(list(s.big))
        if top > s.max_n + 1:
            large = st.one_of(large, st.integers(s.max_n + 1, top))
        opts.append(st.tuples(large, st.integers(0, 2 ** 31 - 1), st.sampled_from([0, 1, 2, 4, 5] + ([3] if s.ties else []))).map(seeded))
    u = st.integers(0, 11).flatmap(lambda i: opts[i % len(opts) if i < 11 else -1])
    return u if s.ties else u.filter(lambda v: len(set(v)) == len(v))


def tiny_u(s):
    """Samples below the usual size, and samples of two or three values repeated."""
    lo, few = TINY[s.name]
    g = st.integers(3, 97)
    opts = []
    if lo is not None and lo < s.min_n:
        opts.append(st.lists(g, min_size=lo, max_size=s.min_n - 1, unique=True))
    for d in few if s.ties else []:
        opts.append(st.tuples(st.lists(g, min_size=d, max_size=d, unique=True), st.lists(st.integers(0, d - 1), min_size=max(s.min_n, 5) - d, max_size=20)).map(
            lambda t: t[0] + [t[0][i] for i in t[1]]))
    return st.one_of(opts).map(lambda v: [i / 100 for i in v])


def tiny(s):
    """The Spec of the small and tied samples of a statistic, or None."""
    lo, few = TINY.get(s.name, (None, []))
    if (lo is None or lo >= s.min_n) and not (few and s.ties):
        return None
    t = copy.copy(s)
    t.distinct, t.u, t.spread, t.edge = 1, tiny_u(s), 0, False
    t.ref = lambda x, kw, ex: s.ref(x, kw, ex) if len(x) < s.min_n or len(set(x.tolist())) > 1 else None
    return t


def huge(s):
    """The Spec of the samples of many thousand observations, or None."""
    n = HUGE.get(s.name)
    if n is None or s.sample or s.ex or s.ex_of:
        return None
    t = copy.copy(s)
    sizes = st.sampled_from([k for k in (2500, 4096, 8192, 10000, 16384, 32768, 65536) if k < n]).flatmap(lambda k: st.integers(k + 1, min(n, k + k // 8)))
    t.u = st.fixed_dictionaries({"n": sizes, "seed": st.integers(0, 2 ** 31 - 1), "shape": st.sampled_from([0, 0, 1, 2, 4, 5])})
    t.edge, t.rtol, t.out = False, max(s.rtol, 1e-7), False
    return t


def cases(s):
    kws = s.kwargs() if s.kwargs else fam.kwargs(s.name)
    dflt = {k: v for k, v in DEFAULTS[s.name].items() if k in fam.FAMILY_KEYS}
    if dflt and not s.kwargs:
        kws = st.one_of(kws, kws, kws, kws, kws, st.just(dflt))

    def rest(kw):
        return st.fixed_dictionaries({
            "kw": st.just(kw), "omit": st.booleans(), "u": s.u if s.u is not None else u_strategy(s), "warp": st.sampled_from(s.warps or fam.WARPS),
            "from": other_params(kw) if s.other and fam.FAMILY[s.name] != "UNIFORM" else st.none(),
            "opts": s.opts() if s.opts else st.just({}), "ex": s.ex() if s.ex else st.just({}),
            "order": st.sampled_from(["given", "given", "sorted", "reversed"]),
            "out": st.sampled_from([0, 0, 0, 0, 0, 0, 8, -8, 40, -40, 10**4, -(10**6), -(10**10)] if s.out else [0]),
            "edge": st.sampled_from(["", "", "", "lo", "hi", "both", "lo2"] if s.edge else [""])})
    return kws.flatmap(rest)


def draw(s, case):
    kw = dict(case["kw"])
    if case["from"]:
        kw = {k: (v * case["from"][k] if k not in ("mean", "loc") else v + case["from"][k] - 1) for k, v in kw.items()}
    f = fam.FAMILY[s.name]
    u = case["u"]
    if isinstance(u, dict):
        x = np.array(fam.sample(f, kw, seeded((u["n"], u["seed"], u["shape"]), 14), case["warp"]))
        x = x[np.sort(np.unique(x, return_index=True)[1])]
    else:
        x = np.array(fam.sample(f, kw, u, case["warp"]))
    outlier(f, case["kw"], x, case.get("out"))
    edges(f, case["kw"], x, case.get("edge"))
    if case["order"] != "given":
        x = np.sort(x)
        if case["order"] == "reversed":
            x = x[::-1].copy()
    return x


def outlier(f, kw, x, size):
    """One gross outlier (first observation): far away on the real line, next to a bound of a bounded support."""
    if not size or len(x) < 3:
        return
    if f in ("UNIFORM", "BETA"):
        a, b = (kw.get("a", 0), kw.get("b", 1)) if f == "UNIFORM" else (0, 1)
        e = 1e-11 if f == "BETA" and size < -100 else 1e-7
        x[0] = min(max(a + (b - a) * (1 - e if size > 0 else e), a), b)
        return
    elif f in ("NORMAL", "STUDENT"):
        x[0] = np.mean(x) + np.clip(size, -1000, 1000) * np.std(x)
    else:
        x[0] *= size if size > 0 else -1 / size
    x[0] = float("%.10g" % x[0])


def edges(f, kw, x, edge):
    """Observations exactly on a finite bound of the support."""
    if not edge or len(x) < 4:
        return
    lo, hi = (kw.get("a", 0), kw.get("b", 1)) if f == "UNIFORM" else (0, 1)
    if edge in ("lo", "both", "lo2"):
        x[1] = lo
    if edge == "lo2":
        x[2] = lo
    if edge in ("hi", "both") and f in ("UNIFORM", "BETA"):
        x[-1] = hi


def usable(s, x, kw):
    if not np.all(np.isfinite(x)) or len(set(x.tolist())) < s.distinct or np.max(np.abs(x)) > 1e8:
        return False
    if gen.spread(x) < s.spread:
        return False
    f = fam.FAMILY[s.name]
    if s.edge:
        return s.guard is None or s.guard(x, kw)
    if f in ("EXPONENTIAL", "GAMMA", "WEIBULL", "LOG_NORMAL", "BETA") and np.min(x) < 1e-12:
        return False
    if f == "BETA" and np.max(x) > 1 - 1e-12:
        return False
    return s.guard is None or s.guard(x, kw)


def jsonless(ex):
    return {k: (np.array(v) if isinstance(v, list) else v) for k, v in ex.items()}


def agrees(g, want, s):
    lo, hi = want if isinstance(want, tuple) else (want, want)
    return close(g, lo, s.rtol, s.atol) or close(g, hi, s.rtol, s.atol) or lo <= g <= hi


def make(s):
    def check(case, ctx):
        kw = dict(case["kw"], **case["opts"])
        x = s.sample(s, case) if s.sample else draw(s, case)
        if not usable(s, x, kw):
            ctx.label("degenerate-skipped")
            return
        ex = jsonless(s.ex_of(x, case["ex"]) if s.ex_of else case["ex"])
        with np.errstate(all="ignore"):
            try:
                want = s.ref(x, kw, ex)
            except ZeroDivisionError:  # the formula is undefined on this sample
                want = None
            except ValueError:
                if not case.get("edge"):
                    raise
                want = None
        if want is None:
            ctx.label("undecided-skipped")
            return
        # arguments equal to their documented default may be left out
        given = {k: v for k, v in kw.items() if not (case.get("omit") and k in DEFAULTS[s.name] and DEFAULTS[s.name][k] == v)}
        o = ctx.call("%s(%s)" % (s.name, given), fam.build, s.name, given)
        if isinstance(want, type) and issubclass(want, Exception):
            ctx.nt()
            ctx.raises("%s(%s).execute_statistic(%s, %s)" % (s.name, kw, x.tolist(), case["ex"]), want, o.execute_statistic, x.copy(), **copy.deepcopy(ex))
            return
        got = ctx.call("%s(%s).execute_statistic" % (s.name, kw), o.execute_statistic, x.copy(), **copy.deepcopy(ex))
        lo = want[0] if isinstance(want, tuple) else want
        try:
            g = tofloat(got)
        except (TypeError, ValueError):
            ctx.require(False, "%s(%s) returned %r", s.name, kw, got)
        ok = agrees(g, want, s)
        if math.isnan(lo) or math.isinf(lo):
            ctx.label("reference-not-finite")
        else:
            ctx.nt()
        if not ok and s.kf is not None and ctx.kf(s.kf[0]) and agrees(g, s.kf[1](x, kw, ex), s):
            ctx.kf_hit(s.kf[0])
            return
        ctx.require(ok, "%s(%s)%s of %s: got %r, the published formula gives %r", s.name, kw, " with %s" % case["ex"] if case["ex"] else "", x.tolist() if len(x) < 2500 else "%d observations %s..." % (len(x), x[:5].tolist()), g, want)
    return check


def subs(specs):
    small = [(s.name if not s.opts and not s.ex else s.name + ":options", s, tiny(s)) for s in specs]
    many = [(s.name if not s.opts else s.name + ":options", huge(s)) for s in specs]
    out = [Sub("huge " + n, lambda t=t: cases(t), make(t), 6, 60, budget={"quick": 20, "thorough": 200}) for n, t in many if t]
    return out + [Sub("tiny " + n, lambda t=t: cases(t), make(t), max(30, s.quick // 4), s.thorough // 4, budget={"quick": 20, "thorough": 200}) for n, s, t in small if t] + [Sub(s.name if not s.opts and not s.ex else s.name + ":options", lambda s=s: cases(s), make(s), 2 * s.quick, s.thorough, budget={"quick": 80, "thorough": 400}) for s in specs]
