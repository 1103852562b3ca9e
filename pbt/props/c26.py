"""C26: likelihood functions at the maximum-likelihood estimates."""
import inspect
import math

import numpy as np
import scipy.stats as ss
from hypothesis import strategies as st
from pysatl_criterion.estimation.maximum_likelihood import function_for_maximum_likelihood as M
from scipy.optimize import brentq, minimize, minimize_scalar
from scipy.special import digamma, gammaln

from pbt import gen
from pbt.core import Sub, Violation, tofloat

TECHNIQUE = "property-based testing: differential comparison with independently solved maximum-likelihood equations (closed forms, score equations, profile searches), metamorphic relations (permutation, change of unit), and an optimality check against random rival parameters"
NOTE = "Samples of up to 30 observations inside and outside the support of twenty families, compared in log scale with an independent maximum."
RULE = ("Samples drawn from and away from each family, tied and single observations included. Non-trivial = at least three distinct observations and a likelihood "
        "that is positive and finite (or, for the checks on impossible samples, one observation outside the support among valid ones).")
ASSUMPTIONS = ["scipy's digamma, gammaln and log-densities are accurate", "scipy's numeric fit() is the documented estimator of the beta, chi-squared, Cauchy, t and Fisher likelihoods: samples on which it finds no estimate are not judged"]


def fn(name):
    return getattr(M, "likelihood_function_" + name)


def L(name):
    return np.log(np.asarray(name, float))


# ---- reference: log of the maximised likelihood
def r_uniform(x):
    return -len(x) * math.log(x.max() - x.min())


def r_normal(x):
    n = len(x)
    m = math.fsum(x) / n
    v = math.fsum((t - m) ** 2 for t in x) / n
    return -n / 2 * (math.log(2 * math.pi * v) + 1)


def r_lognormal(x):
    return r_normal(np.log(x)) - math.fsum(np.log(x))


def r_exponential(x):
    n = len(x)
    return n * math.log(n / math.fsum(x)) - n


def weibull_shape(x):
    y = np.log(x / x.max())
    m = y.mean()

    def g(k):
        w = np.exp(k * y)
        return 1 / k + m - (w * y).sum() / w.sum()
    hi = 1.0
    while g(hi) > 0 and hi < 1e7:
        hi *= 2
    lo = 1e-6
    return brentq(g, lo, hi, xtol=1e-14, rtol=1e-13) if g(hi) <= 0 else math.inf


def ll_weibull(x, k, lam):
    z = np.log(x / lam)
    return math.fsum(math.log(k / lam) + (k - 1) * t - math.exp(k * t) for t in z)


def r_weibull(x):
    k, unit = weibull_shape(x), float(x.max())
    y = x / unit
    return ll_weibull(y, k, float(np.mean(y ** k)) ** (1 / k)) - len(x) * math.log(unit)


def r_gamma(x):
    n = len(x)
    s = math.log(math.fsum(x) / n) - math.fsum(np.log(x)) / n
    la = brentq(lambda e: e - digamma(math.exp(e)) - s, -12, 30, xtol=1e-14) if s > 0 else math.inf
    a = math.exp(la)
    b = math.fsum(x) / n / a
    return math.fsum((a - 1) * math.log(t) - t / b for t in x) - n * (gammaln(a) + a * math.log(b))


def r_beta(x):
    n = len(x)
    g1, g2 = math.fsum(np.log(x)), math.fsum(np.log1p(-x))

    def nll(p):
        a, b = np.exp(p)
        return -(n * (gammaln(a + b) - gammaln(a) - gammaln(b)) + (a - 1) * g1 + (b - 1) * g2)

    def grad(p):
        a, b = np.exp(p)
        return -np.array([a * (n * (digamma(a + b) - digamma(a)) + g1), b * (n * (digamma(a + b) - digamma(b)) + g2)])
    m, v = x.mean(), x.var()
    c = max(m * (1 - m) / v - 1, 0.1)
    best = min((minimize(nll, np.log(s), jac=grad, method="BFGS", options={"gtol": 1e-9}).fun
                for s in ([m * c, (1 - m) * c], [1.0, 1.0])))
    return -best


def r_rayleigh(x):
    s2 = math.fsum(x * x) / (2 * len(x))
    return math.fsum(np.log(x)) - len(x) * math.log(s2) - len(x)


def ll_wigner(x, r):
    return len(x) * math.log(2 / (math.pi * r * r)) + 0.5 * math.fsum(np.log(r * r - x * x))


def r_wigner(x):
    m = float(np.abs(x).max())
    u = x / m
    # score in r (in units of m): -2n/r + sum r/(r^2-u^2), decreasing from +inf at 1 to <= 0 at sqrt(2)
    r = brentq(lambda r: -2 * len(u) / r + math.fsum(r / (r * r - u * u)), 1 + 1e-12, math.sqrt(2) + 1e-9, xtol=1e-15)
    return ll_wigner(u, r) - len(x) * math.log(m)


def r_pareto(x):
    n, m = len(x), x.min()
    s = math.fsum(np.log(x / m))
    a = n / s
    return n * math.log(a) - n * math.log(m) - (a + 1) * s


def r_laplace(x):
    med = np.median(x)
    return -len(x) * (math.log(2 * math.fsum(np.abs(x - med)) / len(x)) + 1)


def xlogy(a, b):
    return 0.0 if a == 0 else a * math.log(b)


def r_discrete_uniform(x):
    return -len(x) * math.log(x.max() - x.min() + 1)


def r_bernoulli(x):
    n, k = len(x), float(x.sum())
    return xlogy(k, k / n) + xlogy(n - k, 1 - k / n)


def r_binomial(x, n):
    t, m = float(x.sum()), len(x)
    p = t / (m * n)
    return math.fsum(math.log(math.comb(n, int(v))) for v in x) + xlogy(t, p) + xlogy(m * n - t, 1 - p)


def r_poisson(x):
    t = float(x.sum())
    return xlogy(t, t / len(x)) - t - math.fsum(math.lgamma(v + 1) for v in x)


def r_geometric(x):
    n, t = len(x), float(x.sum())
    return xlogy(n, n / t) + xlogy(t - n, 1 - n / t)


# name -> (reference, support kind, relative tolerance of the log-likelihood, degenerate value or None)
EXACT = {
    "uniform_continuous": (r_uniform, "real", 0), "normal": (r_normal, "real", 0), "lognormal": (r_lognormal, "pos", 0),
    "exponential": (r_exponential, "pos", None), "weibull": (r_weibull, "pos", 0), "gamma": (r_gamma, "pos", 0), "beta": (r_beta, "unit", 0),
    "chi_squared": (r_gamma, "pos", None), "rayleigh": (r_rayleigh, "pos", None), "wigner": (r_wigner, "real", 0), "pareto": (r_pareto, "pos", math.inf),
    "laplace": (r_laplace, "real", math.inf), "discrete_uniform": (r_discrete_uniform, "int", None), "bernoulli": (r_bernoulli, "bit", None),
    "poisson": (r_poisson, "count", None), "geometric": (r_geometric, "one", None), "binomial": (r_binomial, "count", None),
}
TOL = {"weibull": 1e-6, "gamma": 1e-5, "beta": 1e-4, "chi_squared": 2e-2, "wigner": 1e-6}
FITTED = {"cauchy": (ss.cauchy, {}, "real"), "t_distribution": (ss.t, {}, "real"), "fisher": (ss.f, {"floc": 0}, "pos")}
OUTSIDE = {"pos": [0.0, -1.0, -1e-9], "unit": [0.0, 1.0, 1.5, -0.2], "count": [-1.0, 0.5], "one": [0.0, -2.0, 1.5], "bit": [2.0, -1.0, 0.5], "int": [0.5, 1.25]}
SHIFT = {"uniform_continuous", "normal", "laplace"}
SCALED = {"uniform_continuous", "normal", "lognormal", "exponential", "weibull", "gamma", "rayleigh", "wigner", "pareto", "laplace"}


def draw(kind, u, warp, scale, shape, shift):
    u = np.asarray(u, float)
    if kind == "real":
        v = shift * scale + scale * {0: ss.norm.ppf(u), 1: u, 2: np.where(u < 0.5, u - 3, u + 3), 3: ss.expon.ppf(u)}[warp]
    elif kind == "pos":
        v = scale * {0: ss.gamma.ppf(u, shape), 1: ss.weibull_min.ppf(u, shape), 2: np.exp(ss.norm.ppf(u)), 3: ss.expon.ppf(u) + shift * 0 + 0.5}[warp]
    elif kind == "unit":
        v = {0: ss.beta.ppf(u, shape, 2), 1: u, 2: ss.beta.ppf(u, shape, shape), 3: 0.2 + 0.5 * u}[warp]
    elif kind == "int":
        v = np.floor(10 * shape * u) + round(shift)
    elif kind == "bit":
        v = (u > [0.5, 0.1, 0.9, 0.3][warp]).astype(float)
    else:
        v = np.floor([2, 6, 12, 1][warp] * shape * (max(1, 5 * scale) if scale > 1 else 1) * u ** 2) + (1 if kind == "one" else 0)
    v = np.array([float("%.8g" % t) for t in v])
    if kind == "pos":
        v = np.maximum(v, 1e-6 * scale)
    return v


def cases(kind):
    return st.fixed_dictionaries({
        "u": gen.ulist(1, 30), "warp": st.integers(0, 3), "scale": st.sampled_from([1.0, 1.0, 0.05, 0.3, 4.0, 60.0]),
        "shape": st.sampled_from([1.0, 0.5, 2.0, 3.5]), "shift": st.sampled_from([0, 0, 1, -2, 7]),
        "perm": st.integers(0, 2 ** 31 - 1), "unit": st.sampled_from([2.0, 0.5, 3.7, 0.11]), "intdtype": st.booleans(), "extra": st.integers(0, 8),
    }).map(lambda c: dict(c, kind=kind))


def call(ctx, name, x, *extra):
    v = ctx.call("likelihood_function_%s(%s)" % (name, x.tolist()), fn(name), x, *extra)
    try:
        v = tofloat(v)
    except Exception:  # noqa: BLE001
        raise Violation("likelihood_function_%s(%s) returned %r" % (name, x.tolist(), v)) from None
    ctx.require(v >= 0, "likelihood_function_%s(%s) = %s is negative or NaN", name, x.tolist(), v)
    return v


def cmp(ctx, name, got, ref, what, tol):
    if ref > 690:
        ctx.label("overflow range")
        return False
    if ref < -650:
        ctx.require(got <= 1e-270, "%s: got %s, want about exp(%s)", what, got, ref)
        return False
    ctx.require(got > 0 and abs(math.log(got) - ref) <= tol * (1 + abs(ref) * 1e-3) if not math.isinf(got) else False,
                "%s: got %s, want %s (logs %s, %s)", what, got, math.exp(ref), math.log(got) if 0 < got < math.inf else None, ref)
    return True


def make_exact(name):
    ref, kind, degenerate = EXACT[name]
    tol = TOL.get(name, 1e-7)

    def check(case, ctx):
        x = draw(kind, case["u"], case["warp"], case["scale"], case["shape"], case["shift"])
        extra = ()
        if name == "binomial":
            extra = (int(max(x.max(), 1)) + case["extra"],)
        if kind in ("int", "count", "one", "bit") and case["intdtype"]:
            x = x.astype(int)
        keep = x.copy()
        if name == "beta" and len(set(x.tolist())) > 1:
            try:
                with np.errstate(all="ignore"):
                    ss.beta.fit(x, floc=0, fscale=1)
            except Exception:  # noqa: BLE001
                ctx.label("scipy's solver finds no estimate")
                return
        got = call(ctx, name, x, *extra)
        ctx.require(np.array_equal(keep, x), "likelihood_function_%s changed its argument", name)
        distinct = len(set(x.tolist()))
        xf = x.astype(float)
        if distinct == 1 and degenerate is not None:
            ctx.equal(got, float(degenerate), "likelihood_function_%s of the constant sample %s" % (name, x.tolist()))
            return
        if distinct == 1 and name == "chi_squared":
            return
        if kind in ("real", "pos", "unit") and distinct > 1 and gen.spread(xf) < 1e-4:
            return
        if name == "weibull":
            k = weibull_shape(xf)
            if k > 9.99 or k < 0.1001:
                if k > 10.01 or k < 0.0999:
                    ctx.equal(got, 0.0, "likelihood_function_weibull whose estimate %s is outside the searched range [0.1, 10]" % k)
                return
        want = ref(xf, *extra)
        if name == "chi_squared" and -650 < want < 690:
            # numeric search over (df, scale): the family is the gamma family, so its maximum bounds the value from above
            with np.errstate(all="ignore"):
                fitted = float(ss.chi2.logpdf(xf, *ss.chi2.fit(xf, floc=0)).sum())
            ctx.require(got > 0 and fitted - 0.02 <= math.log(got) <= want + 1e-6 * (1 + abs(want)),
                        "likelihood_function_chi_squared(%s) = %s is not between the likelihood at the fitted parameters %s and the maximum %s", x.tolist(), got, math.exp(fitted), math.exp(want))
            if abs(fitted - want) > tol / 2:
                ctx.label("search stopped early")
                return
        if not cmp(ctx, name, got, want, "likelihood_function_%s(%s)%s" % (name, x.tolist(), extra or ""), tol):
            return
        ctx.nt(distinct >= (2 if kind == "bit" else 3))
        r = gen.rng(case["perm"])
        p = call(ctx, name, x[r.permutation(len(x))], *extra)
        ctx.require(abs(math.log(p) - math.log(got)) <= max(tol, 1e-9) if p > 0 else False, "likelihood_function_%s depends on the order of %s: %s, %s", name, x.tolist(), got, p)
        c = case["unit"]
        if name in SCALED and abs(want) < 500 and abs(want - len(x) * math.log(c)) < 500:
            s = call(ctx, name, xf * c)
            ctx.require(s > 0 and abs(math.log(s) + len(x) * math.log(c) - math.log(got)) <= 10 * tol,
                        "likelihood_function_%s(%s) = %s, in units of %s it is %s", name, x.tolist(), got, 1 / c, s)
        if name in SHIFT:
            s = call(ctx, name, xf + 3.25)
            ctx.require(s > 0 and abs(math.log(s) - math.log(got)) <= 1e-5, "likelihood_function_%s(%s) changes under a shift: %s, %s", name, x.tolist(), got, s)
    return check


def make_fitted(name):
    d, fixed, kind = FITTED[name]

    def check(case, ctx):
        x = draw(kind, case["u"], case["warp"], case["scale"], case["shape"], case["shift"])
        got = call(ctx, name, x)
        if len(set(x.tolist())) == 1:
            ctx.equal(got, 0.0, "likelihood_function_%s of a constant sample" % name)
            return
        if gen.spread(x) < 1e-3:
            return
        if name == "cauchy":
            # upper bound: best local maximum over location starts; lower bound: the quartile estimate the search starts from
            def nll(p):
                return -float(ss.cauchy.logpdf(x, p[0], math.exp(p[1])).sum())
            iqr = float(np.subtract(*np.percentile(x, [75, 25]))) / 2
            med = float(np.median(x))
            s0 = math.log(max(iqr, 1e-3 * float(np.std(x))))
            starts = sorted(set([med] + x.tolist()))[:12]
            best = -min(minimize(nll, [m, s], method="Nelder-Mead", options={"xatol": 1e-6, "fatol": 1e-9}).fun for m in starts for s in (s0, s0 - 2))
            if best > 690:
                return
            n, ties = len(x), max(np.unique(x, return_counts=True)[1])
            if ties < n / 2:  # otherwise the likelihood is unbounded at the tied value
                ctx.require(got <= math.exp(best) * 1.001, "likelihood_function_cauchy(%s) = %s exceeds the maximum %s", x.tolist(), got, math.exp(best))
            if iqr > 0:
                ctx.require(got >= math.exp(-nll([med, math.log(iqr)])) * 0.999, "likelihood_function_cauchy(%s) = %s is below its value at the quartile estimates", x.tolist(), got)
            ctx.nt(n >= 3)
        try:
            with np.errstate(all="ignore"):
                par = d.fit(x, **fixed)
        except Exception:  # noqa: BLE001  (the documented estimator itself has no answer; the call above did not raise)
            return
        want = float(d.logpdf(x, *par).sum())
        if not (-650 < want < 690):
            return
        ctx.nt(len(set(x.tolist())) >= 3)
        ctx.require(got > 0 and math.log(got) >= want - 0.02, "likelihood_function_%s(%s) = %s is below the likelihood %s at the fitted parameters", name, x.tolist(), got, math.exp(want))
        if name != "cauchy":
            ctx.require(math.log(got) <= want + max(0.02, 0.02 * abs(want)), "likelihood_function_%s(%s) = %s exceeds the likelihood %s at the fitted parameters %s", name, x.tolist(), got, math.exp(want), par)
    return check


def make_outside(name):
    kind = EXACT[name][1] if name in EXACT else FITTED[name][2]

    def strat():
        return st.tuples(cases(kind), st.sampled_from(OUTSIDE[kind] + ([99.0] if name == "binomial" else [])), st.integers(0, 30)).map(lambda t: dict(t[0], bad=t[1], at=t[2]))

    def check(case, ctx):
        x = draw(kind, case["u"], case["warp"], case["scale"], case["shape"], case["shift"]).astype(float)
        extra = ()
        if name == "binomial":
            extra = (int(max(x.max(), 1)),)
        bad = case["bad"] if case["bad"] != 99.0 else extra[0] + 57.0
        if name == "exponential" and bad == 0.0:
            return  # zero is inside the exponential support
        ctx.nt(len(set(x.tolist())) >= 2)
        at = case["at"] % (len(x) + 1)
        y = np.insert(x, at, bad)
        ctx.equal(call(ctx, name, y, *extra), 0.0, "likelihood_function_%s of %s, which the family cannot generate" % (name, y.tolist()))
    return strat, check


# ---- random rival parameters: no density of the family may beat the returned value
def rivals(name, x, r):
    e = math.exp(r.uniform(-0.7, 0.7))
    e2 = math.exp(r.uniform(-0.7, 0.7))
    m, s = float(np.mean(x)), float(np.std(x)) or 1.0
    if name == "normal":
        return ss.norm.logpdf(x, m + s * r.uniform(-1, 1), s * e)
    if name == "lognormal":
        y = np.log(x)
        sd = float(y.std()) or 1.0
        return ss.norm.logpdf(y, y.mean() + r.uniform(-1, 1) * sd, sd * e) - y
    if name == "exponential":
        return ss.expon.logpdf(x, scale=m * e)
    if name == "weibull":
        k = weibull_shape(x)
        k = min(max(k, 0.1), 10) * e
        return ss.weibull_min.logpdf(x, k, scale=float(np.mean(x ** k)) ** (1 / k) * math.exp(r.uniform(-0.2, 0.2)))
    if name in ("gamma", "chi_squared"):
        a = m * m / (s * s) * e
        return ss.gamma.logpdf(x, a, scale=m / a * math.exp(r.uniform(-0.3, 0.3)))
    if name == "beta":
        c = m * (1 - m) / (s * s)
        return ss.beta.logpdf(x, m * c * e, (1 - m) * c * e2)
    if name == "rayleigh":
        return ss.rayleigh.logpdf(x, scale=math.sqrt(float(np.mean(x * x)) / 2) * e)
    if name == "wigner":
        return ss.semicircular.logpdf(x, scale=float(np.abs(x).max()) * (1 + r.uniform(0, 1)))
    if name == "pareto":
        return ss.pareto.logpdf(x, len(x) / max(float(np.log(x / x.min()).sum()), 1e-9) * e, scale=float(x.min()) * r.uniform(0.5, 1))
    if name == "laplace":
        return ss.laplace.logpdf(x, float(r.choice(x)), s * e)
    if name == "cauchy":
        return ss.cauchy.logpdf(x, float(np.median(x)), max(float(np.subtract(*np.percentile(x, [75, 25]))) / 2, 1e-9))
    if name == "uniform_continuous":
        return np.full(len(x), -math.log((x.max() - x.min()) * (1 + r.uniform(0, 1))))
    raise KeyError(name)


RIVAL = ["normal", "lognormal", "exponential", "weibull", "gamma", "chi_squared", "beta", "rayleigh", "wigner", "pareto", "laplace", "uniform_continuous", "cauchy"]


def make_rival(name):
    kind = EXACT[name][1] if name in EXACT else FITTED[name][2]

    def check(case, ctx):
        x = draw(kind, case["u"], case["warp"], case["scale"], case["shape"], case["shift"])
        if len(set(x.tolist())) < 3 or gen.spread(x) < 1e-3:
            return
        if name == "weibull" and not 0.1001 < weibull_shape(x) < 9.99:
            return
        if name in ("chi_squared", "beta"):
            try:
                with np.errstate(all="ignore"):
                    par = ss.chi2.fit(x, floc=0) if name == "chi_squared" else ss.beta.fit(x, floc=0, fscale=1)
            except Exception:  # noqa: BLE001
                return
            if name == "chi_squared" and abs(float(ss.chi2.logpdf(x, *par).sum()) - r_gamma(x)) > 0.005:
                return
        got = call(ctx, name, x)
        ctx.nt(0 < got < math.inf)
        r = gen.rng(case["perm"])
        for _ in range(8):
            v = float(np.sum(rivals(name, x, r)))
            if v > 690:
                continue
            ctx.require(got >= math.exp(v) * (1 - (0.02 if name == "chi_squared" else 2e-4)) - 1e-280, "likelihood_function_%s(%s) = %s, but a rival parameter has likelihood %s", name, x.tolist(), got, math.exp(v))
    return check


# ---- search for the best-fitting family
def search_cases():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["real", "pos", "unit", "int", "bit", "count", "one"]), "u": gen.ulist(1, 14), "warp": st.integers(0, 3), "scale": st.sampled_from([1.0, 0.3, 4.0]),
        "shape": st.sampled_from([1.0, 0.5, 2.0]), "shift": st.sampled_from([0, 1, -2]), "list": st.booleans(), "bad": st.sampled_from([None] * 8 + ["empty", "text"])})


LARGE = {n: EXACT[n] for n in ("uniform_continuous", "normal", "lognormal", "exponential", "weibull", "gamma", "rayleigh", "wigner", "pareto", "laplace", "poisson",
                               "geometric", "bernoulli", "discrete_uniform")}
SHIFTED = {"real": [0, 0, 1, -2], "pos": [0], "unit": [0], "int": [0], "bit": [0], "count": [0], "one": [0]}


def large_cases(name):
    kind = LARGE[name][1]
    scales = st.sampled_from([1.0, 0.4]) if kind not in ("real", "pos") else st.floats(-80, 80).map(lambda e: float("%.4g" % 10 ** e))
    return lambda: st.fixed_dictionaries({
        "kind": st.just(kind), "n": st.one_of(st.sampled_from([2, 7]), st.integers(3, 60), st.integers(200, 4000)), "seed": st.integers(0, 2 ** 31 - 1), "warp": st.integers(0, 3),
        "aim": st.floats(-600, 600), "how": st.sampled_from(["scale", "aim", "aim", "outlier"]), "scale": scales, "shape": st.sampled_from([1.0, 0.5, 2.0, 3.5]),
        "shift": st.sampled_from(SHIFTED[kind]), "order": st.sampled_from(["drawn", "increasing", "decreasing"])})


def make_large(name):
    """Samples of any size and unit; for scale families the unit may be chosen so that the likelihood is representable."""
    ref, kind, _ = LARGE[name]

    def check(case, ctx):
        u = gen.rng(case["seed"]).uniform(1e-4, 1 - 1e-4, case["n"])
        x = draw(kind, u, case["warp"], 1.0, case["shape"], case["shift"])
        if case["how"] == "outlier" and kind in ("real", "pos"):
            x[case["seed"] % len(x)] = 1e4 * (abs(x).max() + 1)
        if len(set(x.tolist())) < 3 or kind in ("real", "pos") and gen.spread(x) < 1e-3:
            return
        if name == "weibull":
            k = weibull_shape(x)
            if k > 9.99 or k < 0.1001:
                return
        x = {"drawn": x, "increasing": np.sort(x), "decreasing": np.sort(x)[::-1].copy()}[case["order"]]
        if name in SCALED:
            c = math.exp((ref(x) - case["aim"]) / len(x)) if case["how"] != "scale" else case["scale"]
            if not 1e-100 < c < 1e100:
                return
            x = x * c
        want = ref(x)
        got = call(ctx, name, x)
        if want > 720:
            ctx.nt()
            ctx.require(got == math.inf, "likelihood_function_%s of %d observations like %s: got %s, want about exp(%s)", name, len(x), x[:4].tolist(), got, want)
            return
        if not -690 < want < 700:
            if want < -750:
                ctx.require(got == 0, "likelihood_function_%s of %d observations like %s: got %s, want about exp(%s)", name, len(x), x[:4].tolist(), got, want)
            return
        ctx.nt()
        tol = max(TOL.get(name, 1e-7), 1e-9 * len(x))
        ctx.require(0 < got < math.inf and abs(math.log(got) - want) <= tol * (1 + abs(want) * 1e-3),
                    "likelihood_function_%s of %d observations like %s: got %s, want exp(%s)", name, len(x), x[:4].tolist(), got, want)
    return check


def bad_cases():
    return st.fixed_dictionaries({
        "how": st.sampled_from(["empty", "text", "one text", "all impossible"]), "u": gen.ulist(1, 8), "pos": st.integers(0, 7), "kind": st.sampled_from(["list", "array", "tuple"]),
        "text": st.sampled_from(["x", "1.5", "", "nan"])})


def check_bad(case, ctx):
    from pysatl_criterion.estimation.maximum_likelihood import maximum_likelihood as S
    x = [2 * u for u in case["u"]]
    wrap = {"list": list, "array": np.array, "tuple": tuple}[case["kind"]]
    ctx.nt()
    if case["how"] == "empty":
        ctx.raises("find_result_of_likelihood_function(empty %s)" % case["kind"], ValueError, S.find_result_of_likelihood_function, wrap([]))
    elif case["how"] == "all impossible":  # infinite observations belong to no family
        x[case["pos"] % len(x)] = -math.inf
        try:
            with np.errstate(all="ignore"):
                got = S.find_result_of_likelihood_function(wrap(x))
        except ValueError:
            return
        except Exception as e:  # noqa: BLE001
            ctx.require(isinstance(e, (OverflowError, RuntimeError)), "find_result_of_likelihood_function(%s) raised %r", x, e)
            return
        raise Violation("find_result_of_likelihood_function(%s) = %s for a sample of no family" % (x, got))
    else:
        y = [str(v) for v in x] if case["how"] == "text" else x
        y[case["pos"] % len(y)] = case["text"]
        ctx.raises("find_result_of_likelihood_function(%s)" % y, TypeError, S.find_result_of_likelihood_function, wrap(y))


def check_search(case, ctx):
    from pysatl_criterion.estimation.maximum_likelihood import maximum_likelihood as S
    if case["bad"] == "empty":
        ctx.nt()
        return ctx.raises("find_result_of_likelihood_function([])", ValueError, S.find_result_of_likelihood_function, [])
    x = draw(case["kind"], case["u"], case["warp"], case["scale"], case["shape"], case["shift"])
    if case["bad"] == "text":
        ctx.nt()
        return ctx.raises("find_result_of_likelihood_function of text", TypeError, S.find_result_of_likelihood_function, [str(v) for v in x])
    if case["kind"] == "unit" and len(set(x.tolist())) > 1 and 0 < x.min() and x.max() < 1:
        try:
            with np.errstate(all="ignore"):
                ss.beta.fit(x, floc=0, fscale=1)
        except Exception:  # noqa: BLE001
            return
    vals = {}
    for n, f in inspect.getmembers(M, inspect.isfunction):
        if n.startswith("likelihood_function_") and n != "likelihood_function_binomial":
            vals[n] = call(ctx, n[len("likelihood_function_"):], x)
    best = max(vals.values())
    arg = x.tolist() if case["list"] else x
    if best == 0:
        return ctx.raises("find_result_of_likelihood_function(%s) with no positive likelihood" % x.tolist(), ValueError, S.find_result_of_likelihood_function, arg)
    ctx.nt(len(set(x.tolist())) >= 3)
    res = ctx.call("find_result_of_likelihood_function(%s)" % x.tolist(), S.find_result_of_likelihood_function, arg)
    ctx.require(isinstance(res, tuple) and len(res) == 2, "find_result_of_likelihood_function(%s) returned %s", x.tolist(), res)
    f, v = res
    ctx.require(getattr(f, "__name__", None) in vals, "find_result_of_likelihood_function(%s) returned function %s", x.tolist(), f)
    v = tofloat(v)
    ctx.require(abs(v - best) <= 1e-6 * best if not math.isinf(best) else v == best, "best likelihood of %s: got %s, want %s among %s", x.tolist(), v, best, vals)
    ctx.require(abs(vals[f.__name__] - best) <= 1e-6 * best if not math.isinf(best) else vals[f.__name__] == best,
                "best family of %s: got %s, whose likelihood is %s, want %s", x.tolist(), f.__name__, vals[f.__name__], best)
    g = ctx.call("find_max_probability_function(%s)" % x.tolist(), S.find_max_probability_function, arg)
    ctx.require(getattr(g, "__name__", None) == f.__name__, "find_max_probability_function(%s) = %s, want %s", x.tolist(), g, f.__name__)


def subs():
    out = []
    for name in EXACT:
        kind = EXACT[name][1]
        slow = name in ("chi_squared", "beta", "gamma", "wigner")
        out.append(Sub("max_" + name, lambda kind=kind: cases(kind), make_exact(name), 120 if slow else 200, 2500 if slow else 8000))
    for name in FITTED:
        out.append(Sub("max_" + name, lambda kind=FITTED[name][2]: cases(kind), make_fitted(name), 25 if name == "cauchy" else 30, 1200))
    for name in list(EXACT) + ["fisher"]:
        kind = EXACT[name][1] if name in EXACT else FITTED[name][2]
        if kind in OUTSIDE:
            s, c = make_outside(name)
            out.append(Sub("outside_" + name, s, c, 80, 2000))
    for name in RIVAL:
        kind = EXACT[name][1] if name in EXACT else FITTED[name][2]
        out.append(Sub("rival_" + name, lambda kind=kind: cases(kind), make_rival(name), 60, 1500))
    for name in LARGE:
        out.append(Sub("large_" + name, large_cases(name), make_large(name), 50, 2000))
    out.append(Sub("search_bad", bad_cases, check_bad, 60, 1500))
    out.append(Sub("search", search_cases, check_search, 40, 1200))
    return out
