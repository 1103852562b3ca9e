"""C11: statistics are symmetric functions of the sample."""
import numpy as np
from hypothesis import strategies as st

from pbt import fam, gen
from pbt.core import Sub, Violation, close, isnum, short

TECHNIQUE = "metamorphic property-based testing (permutations of generated samples) of every registered statistic"
NOTE = "For each of the registered statistics: random parameters, samples (tied ones too), and sorted, almost sorted, reversed, rotated, transposed, folded and random orders, as lists and arrays."
RULE = ("Per statistic: constructor parameters, a sample of 10 to 40 observations from the hypothesis or a warped version of it, and a permutation. "
        "Non-trivial = the permuted sample differs from the original and the statistic is a finite number.")
ASSUMPTIONS = ["values are compared up to 1e-7 relative (rounding of sums in another order)"]


def permute(x, how, seed):
    x = list(x)
    n = len(x)
    if how == "sorted":
        return sorted(x)
    if how == "reversed":
        return x[::-1]
    if how == "descending":
        return sorted(x, reverse=True)
    if how == "rotate":
        k = seed % n
        return x[k:] + x[:k]
    if how == "almost":  # in increasing or decreasing order but for one displaced observation, near an end more often than not
        x = sorted(x, reverse=seed % 5 == 0)
        i = (seed // 5) % n if seed % 3 else n - 1 - (seed // 5) % 3
        v = x.pop(i)
        j = max(0, min(n - 1, i + [-1, 1, -2, 2, n // 2, -(n // 2)][(seed // 7) % 6]))
        x.insert(j, v)
        return x
    if how == "pipe":
        x = sorted(x)
        return x[::2] + x[1::2][::-1]
    if how == "swap":
        i, j = seed % n, (seed // n) % n
        x[i], x[j] = x[j], x[i]
        return x
    return [x[i] for i in gen.rng(seed).permutation(n)]


HOW = ["random", "random", "sorted", "reversed", "descending", "rotate", "swap", "almost", "almost", "almost", "pipe"]


def cases(name):
    return lambda: st.fixed_dictionaries({"name": st.just(name), "kw": fam.kwargs(name), "s": fam.samples(10, 14 if name == "RossbergExponentiality" else 40),
                                          "how": st.sampled_from(HOW), "seed": st.integers(0, 2**31 - 1), "arr": st.booleans()})


def value(ctx, name, kw, x, arr):
    """('value', v) or ('error', type) - degenerate (constant, tied) samples may be refused."""
    stat = fam.build(name, kw)
    arg = np.array(x) if arr else list(x)

    def run():
        try:
            return ("value", stat.execute_statistic(arg))
        except (ValueError, ArithmeticError) as e:
            return ("error", type(e).__name__)
    return ctx.call("%s(%s)" % (name, kw), run)


def rsb_model(x):
    """KF-RSB: the pinned formula correlates the logs in the order given with ordered scores."""
    n = len(x)
    m = np.log(-np.log(1 - np.arange(1, n + 1) / (n + 1)))
    y = np.log(np.asarray(x, float))
    return n * (1 - np.corrcoef(y, m)[0, 1] ** 2)


def check(case, ctx):
    name, kw = case["name"], case["kw"]
    x = fam.sample(fam.FAMILY[name], kw, case["s"]["u"], case["s"]["warp"])
    if name == "RossbergExponentiality":
        # it counts strict comparisons of sums: on dyadic values these are exact, so rounding cannot flip a count
        x = [max(1, round(v * 4096)) / 4096 for v in x]
    if len(set(x)) <= 2:
        ctx.label("constant or two-point sample")  # moment bounds are attained: rounding decides between a number and NaN
        return
    y = permute(x, case["how"], case["seed"])
    a, b = value(ctx, name, kw, x, case["arr"]), value(ctx, name, kw, y, case["arr"])
    if a[0] == "error" or b[0] == "error":
        ctx.label("refused")
        ctx.require(a[0] == b[0] or len(set(x)) < len(x), "%s(%s): %s for the sample, %s for a permutation of it", name, kw, short(a), short(b))
        return
    va, vb = a[1], b[1]
    if isnum(va) and np.isfinite(np.asarray(va, float)).all():
        ctx.nt(x != y)
    if va is None and vb is None:
        return
    if not isnum(va) or not isnum(vb):
        raise Violation("%s(%s) returned %s and %s" % (name, kw, short(va), short(vb)))
    if close(va, vb, 1e-7, 1e-9):
        return
    if name == "RSBWeibull" and ctx.kf("KF-RSB") and close(va, rsb_model(x), 1e-7, 1e-9) and close(vb, rsb_model(y), 1e-7, 1e-9):
        ctx.kf_hit("KF-RSB")
        return
    raise Violation("%s(%s): %s for the sample, %s for its permutation (%s)" % (name, kw, short(va), short(vb), case["how"]))


def _witness():
    s = fam.CLASSES["RSBWeibull"]()
    return abs(s.execute_statistic([1.0, 2.0, 5.0, 3.0]) - s.execute_statistic([1.0, 2.0, 3.0, 5.0])) > 1e-3


WITNESS = {"KF-RSB": _witness}


def subs():
    return [Sub(n, cases(n), check, 40, 800) for n in fam.NAMES]
