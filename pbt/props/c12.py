"""C12: computing a statistic is pure."""
import numpy as np
from hypothesis import strategies as st

from pbt import fam, gen
from pbt.core import Sub, Violation, close, isnum, short

TECHNIQUE = "property-based testing of every registered statistic: histories of evaluations on one object, frozen inputs, several containers"
NOTE = "Random histories of evaluations (several samples, several objects, changing global random state) with bitwise checks of the inputs."
RULE = ("Per statistic: constructor parameters, two samples of different sizes, a history of evaluations over list, array, read-only, strided view, "
        "tuple-free containers and two objects. Non-trivial = the two samples give different finite values.")
ASSUMPTIONS = ["values are compared up to 1e-9 relative between containers (summation order of lists and arrays may differ)",
               "samples are valid for the family and have no ties"]
OPS = ["list", "array", "readonly", "view", "other", "fresh", "seed", "ints", "typed", "refill", "large"]
SLOW = {"RossbergExponentiality": 16, "HollanderProshanExponentiality": 101, "AhsanullahExponentiality": 101}  # sample sizes that take too long beyond


def cases(name):
    big = 13 if name == "RossbergExponentiality" else 30
    return lambda: st.fixed_dictionaries({
        "name": st.just(name), "kw": fam.kwargs(name), "s": fam.samples(10, big, ties=False), "t": fam.samples(10, big, ties=False),
        "ops": st.lists(st.sampled_from(OPS), min_size=2, max_size=7), "seed": st.integers(0, 2**31 - 1)})


def state(obj):
    """A comparable picture of the object's attributes."""
    return {k: repr(np.asarray(v).tolist()) if isinstance(v, (np.ndarray, list, tuple)) else repr(v) for k, v in sorted(vars(obj).items())}


def run(ctx, name, stat, arg, what, lax=False):
    """Evaluate on `arg`, checking that argument and global random state survive.
    `lax`: the sample may be far from the hypothesis, so infinite values and refusals are answers too."""
    before = [float(v) for v in arg]
    kinds = [type(v) for v in arg] if isinstance(arg, list) else None
    rs = np.random.get_state()
    def go():
        try:
            return stat.execute_statistic(arg)
        except (ValueError, ArithmeticError):
            if lax:
                return float("nan")
            raise
    v = ctx.call("%s on %s" % (name, what), go)
    after = [float(z) for z in arg]
    if before != after or (kinds is not None and kinds != [type(z) for z in arg]):
        raise Violation("%s on %s changed the caller's sample: %s -> %s" % (name, what, short(before), short(after)))
    now = np.random.get_state()
    if not (rs[0] == now[0] and np.array_equal(rs[1], now[1]) and rs[2:] == now[2:]):
        raise Violation("%s on %s consumed global random state" % (name, what))
    if not isnum(v):
        raise Violation("%s on %s returned %s, not a number" % (name, what, short(v)))
    v = float(np.asarray(v).reshape(-1)[0])
    if not np.isfinite(v) and not lax:
        raise Violation("%s on %s returned %r" % (name, what, v))
    return v


def check(case, ctx):
    name, kw = case["name"], case["kw"]
    family = fam.FAMILY[name]
    x = fam.sample(family, kw, case["s"]["u"], case["s"]["warp"])
    y = fam.sample(family, kw, case["t"]["u"], case["t"]["warp"])
    if name == "RossbergExponentiality":
        x, y = ([max(1, round(v * 4096)) / 4096 for v in z] for z in (x, y))
    if len(set(x)) < len(x) or len(set(y)) < len(y):
        return
    stat = ctx.call("constructor", fam.build, name, kw)
    shown = state(stat)
    code, hyp = stat.code(), list(stat.hypothesis().parameters())
    np.random.seed(case["seed"])
    vx = run(ctx, name, fam.build(name, kw), np.array(x), "a fresh object")
    vy = run(ctx, name, fam.build(name, kw), np.array(y), "a fresh object")
    ctx.nt(not close(vx, vy, 1e-9, 1e-12))

    def same(v, w, what):
        if not close(v, w, 1e-9, 1e-11):
            raise Violation("%s(%s): %r %s, %r before (history %s)" % (name, kw, v, what, w, case["ops"]))
    for op in case["ops"]:
        if op == "list":
            same(run(ctx, name, stat, list(x), "a list"), vx, "for a list")
        elif op == "array":
            a = np.array(x)
            same(run(ctx, name, stat, a, "an array"), vx, "for an array")
            same(run(ctx, name, stat, a, "the same array"), vx, "for the same array again")
        elif op == "readonly":
            a = np.array(x)
            a.flags.writeable = False
            same(run(ctx, name, stat, a, "a read-only array"), vx, "for a read-only array")
        elif op == "view":
            b = np.full(2 * len(x) + 1, 0.123)
            b[1::2] = x
            a = b[1::2]
            keep = b.copy()
            same(run(ctx, name, stat, a, "a strided view"), vx, "for a strided view")
            ctx.require(np.array_equal(b, keep), "%s wrote outside the view it was given", name)
        elif op == "other":
            same(run(ctx, name, stat, np.array(y), "another sample"), vy, "for the second sample")
        elif op == "refill":
            # the same array and the same list with other contents
            m = min(len(x), len(y))
            want = run(ctx, name, fam.build(name, kw), np.array(y[:m]), "a fresh object")
            for a, what in ((np.array(x[:m]), "an array"), (list(x[:m]), "a list")):
                run(ctx, name, stat, a, what)
                a[:] = y[:m]
                same(run(ctx, name, stat, a, what + " filled anew"), want, "for %s filled anew, on a fresh object" % what)
        elif op == "large":
            n = min(SLOW.get(name, 10 ** 6), 60 + case["seed"] % 260)
            z = fam.sample(family, kw, gen.rng(case["seed"]).uniform(0.005, 0.995, n), case["s"]["warp"])
            if name == "RossbergExponentiality":
                z = [max(1, round(v * 4096)) / 4096 for v in z]
            if len(set(z)) == n:
                v = run(ctx, name, stat, np.array(z), "a large array", True)
                w = run(ctx, name, stat, list(z), "a large list", True)
                ctx.require(close(v, w, 1e-7, 1e-9), "%s(%s) of %d observations is %r, and %r for a list, computed again", name, kw, n, v, w)
        elif op == "fresh":
            same(run(ctx, name, fam.build(name, kw), list(x), "a list"), vx, "for a list on a fresh object")
        elif op == "seed":
            np.random.seed(len(x))
            same(run(ctx, name, stat, np.array(x), "an array"), vx, "after reseeding")
        elif op == "ints" and (family in ("NORMAL", "EXPONENTIAL", "WEIBULL", "GAMMA", "STUDENT", "LOG_NORMAL") or {"a", "b"} <= set(kw)):
            # whole numbers given as python ints, as floats and as an integer array
            z = [i * i % 97 + i + 1 for i in range(len(x))]
            if len(set(z)) == len(z):
                wide = fam.build(name, {**kw, "a": -case["seed"] % 7, "b": 98 + case["seed"] % 11 / 4}) if family == "UNIFORM" else stat
                f = run(ctx, name, wide, [float(v) for v in z], "whole floats", True)
                g = run(ctx, name, wide, list(z), "ints", True)
                h = run(ctx, name, wide, np.array(z), "an integer array", True)
                same(g, f, "for ints")
                same(h, f, "for an integer array")
        elif op == "typed" and (family in ("NORMAL", "EXPONENTIAL", "WEIBULL", "GAMMA", "STUDENT", "LOG_NORMAL") or {"a", "b"} <= set(kw)):
            # whole numbers near the end of the range of their integer type
            dtype, unit = [(np.int32, 2 * 10 ** 7), (np.uint32, 4 * 10 ** 7), (np.int64, 10 ** 12), (np.int64, 9007), (np.uint64, 10 ** 10)][case["seed"] // 7 % 5]
            z = [(i * i % 97 + 2) * unit + i * (unit // 50) for i in range(len(x))]
            if len(set(z)) == len(z):
                wide = fam.build(name, {**kw, "a": 0, "b": 100 * unit}) if family == "UNIFORM" else stat
                f = run(ctx, name, wide, np.array(z, dtype=float), "whole floats", True)
                h = run(ctx, name, wide, np.array(z, dtype=dtype), "an array of %s" % np.dtype(dtype).name, True)
                ctx.require(close(h, f, 1e-6, 1e-8), "%s(%s) of %s is %r for an array of %s and %r for one of floats", name, kw, z, h, np.dtype(dtype).name, f)
    same(run(ctx, name, stat, np.array(x), "an array"), vx, "at the end")
    ctx.require(stat.code() == code and list(stat.hypothesis().parameters()) == hyp, "%s: code or hypothesis changed by evaluating", name)
    now = state(stat)
    ctx.require(all(now.get(k) == v for k, v in shown.items()), "%s(%s): evaluating changed the object from %s to %s", name, kw, shown, now)


def subs():
    return [Sub(n, cases(n), check, 16, 400) for n in fam.NAMES]
