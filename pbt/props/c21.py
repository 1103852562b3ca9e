"""C21: log-normality statistics are the normality statistics of standardised logs; the others equal their formulas."""
import json
import math
import os

import numpy as np
from hypothesis import strategies as st
from scipy import integrate

from pbt import fam, gen, refcheck
from pbt.core import Sub, close, tofloat
from pbt.ref import unit
from pbt.refcheck import Spec

TECHNIQUE = "property-based testing: metamorphic relation between the log-normal and normal catalogues, plus differential testing of the log-normal-only statistics against independent evaluations of their formulas"
NOTE = "The integral and supremum statistics are compared within the accuracy of the code's grid and quadrature (2e-2, 2e-3); KS and Cramer-von Mises are judged in C14."
RULE = "One statistic, hypothesis and sample per case. Non-trivial = a finite statistic of a sample with at least six distinct values, or a sample with a non-positive observation."
ASSUMPTIONS = ["scipy.special.ndtr and scipy.integrate.quad are correct", "the normality statistics themselves are judged in C14-C17"]

MIRRORS = [(n, n.replace("Normality", "LogNormal")) for n in fam.names("NORMAL") if n.replace("Normality", "LogNormal") in fam.CLASSES and n not in ("KolmogorovSmirnovNormality", "CramerVonMiseNormality")]
ALL_LN = [n for n in fam.names("LOG_NORMAL")]
INFINITE = [l for _, l in MIRRORS] + ["KLSupremumLogNormal", "KLIntegralLogNormal"]


def sig2(r):
    s = r * r
    return math.fsum((m - 2) ** 2 * s ** m / math.factorial(m) for m in range(3, 120))


def D(r, L):
    e = np.exp(r * L)
    return 2 * math.log1p(math.fsum(np.expm1(r * L)) / len(L)) - r * math.fsum(L * e) / math.fsum(e)


def logs(x):
    L = np.log(x)
    L = L - math.fsum(L) / len(L)
    return L / math.sqrt(math.fsum(L * L) / len(L))


def ratio2(r, L):
    """(D/sigma)^2, with its limit near 0 where the difference loses its digits (D/sigma -> -mean(L^3)/sqrt(6))."""
    return D(r, L) ** 2 / sig2(r) if abs(r) > 2e-3 else math.fsum(L ** 3) ** 2 / len(L) ** 2 / 6


def kl_sup(x, kw, ex):
    L = logs(x)
    grid = np.linspace(-5, 5, 1000)
    v = [ratio2(r, L) for r in grid]
    k = int(np.argmax(v))
    t = math.sqrt(len(x) * v[k])
    tol = 2e-3 if abs(grid[k]) > 0.05 else 3e-2
    return t * (1 - tol), t * (1 + tol)


def kl_int(x, kw, ex):
    L = logs(x)
    v = len(x) * integrate.quad(lambda r: ratio2(r, L), -5, 5, limit=200, points=[0])[0]
    return v * (1 - 2e-2), v * (1 + 2e-2)


def units():
    """Any unit and any relative spread."""
    return st.fixed_dictionaries({"s": st.sampled_from([0.03, 0.1, 0.2, 0.5, 1, 2]), "scale": st.sampled_from([1e-6, 1e-3, 0.1, 1, 20, 1e3, 1e6])})


def skewed(x, kw):
    """The code's difference formula loses its digits near r = 0 when the skewness of the logs vanishes."""
    return abs(float(np.mean(logs(x) ** 3))) > 0.05


# ---- mirrors
def mirror(pair):
    nn, ln = pair
    large = st.tuples(st.integers(31, 110), st.integers(0, 2 ** 31 - 1), st.sampled_from([0, 1, 2, 3])).map(refcheck.seeded)

    def strategy():
        return st.fixed_dictionaries({
            "kw": fam.kwargs(ln), "u": st.one_of(gen.ulist(10, 30), gen.ulist(10, 30), gen.ulist(10, 30), large), "warp": st.sampled_from(fam.WARPS), "form": st.sampled_from(["array", "list"]),
            "shift": st.sampled_from([0, 0, 0, 1, -0.7]), "stretch": st.sampled_from([1, 1, 0.5, 2]),
            "wide": st.sampled_from([1, 1, 1, 1, 1e-5, 1e-3, 1e3, 1e5])})

    def check(c, ctx):
        kw = c["kw"]
        z = np.array(fam.sample("NORMAL", {}, c["u"], c["warp"])) * c["stretch"] + c["shift"]
        x = [float("%.12g" % v) for v in np.exp(z * kw["s"]) * kw["scale"]]
        if len(set(x)) < 6 or gen.spread(np.array(z)) < 1e-3 or min(x) <= 0 or np.max(np.abs(z - np.mean(z))) > 6 * np.std(z):
            ctx.label("degenerate-skipped")
            return
        # the hypothesised shape may be of quite another order than that of the sample
        kw = dict(kw, s=kw["s"] * c["wide"])
        std = np.array([(math.log(v) - math.log(kw["scale"])) / kw["s"] for v in x])
        o, base = fam.build(ln, kw), fam.CLASSES[nn]()
        try:
            with np.errstate(all="ignore"):
                want = tofloat(base.execute_statistic(std.copy()))
        except Exception:  # noqa: BLE001  (judged for the normality statistic itself elsewhere)
            ctx.label("normality statistic undefined")
            return
        got = tofloat(ctx.call("%s(%s).execute_statistic(%s)" % (ln, kw, x), o.execute_statistic, np.array(x) if c["form"] == "array" else list(x)))
        if math.isfinite(want):
            ctx.nt()
        ok = close(got, want, 1e-6, 1e-8)
        if not ok:  # counting statistics jump at rounding; accept the value of an equally rounded standardisation
            for alt in ((np.log(np.array(x)) - np.log(kw["scale"])) / kw["s"], std * (1 + 1e-13), std + 1e-13):
                ok = ok or close(got, tofloat(base.execute_statistic(alt)), 1e-6, 1e-8)
        ctx.require(ok, "%s(%s) of %s: got %r, %s of the standardised logs is %r", ln, kw, x, got, nn, want)
        ctx.require(type(o.alternative()) is type(base.alternative()), "%s reports %s, %s reports %s", ln, type(o.alternative()).__name__, nn, type(base.alternative()).__name__)
        ctx.equal(o.short_code(), base.short_code(), "%s.short_code()" % ln)
    return Sub(ln, strategy, check, 60, 1500, budget={"quick": 40, "thorough": 400})


def nonpositive():
    return st.fixed_dictionaries({
        "name": st.sampled_from(INFINITE), "x": st.lists(st.floats(0.05, 20).map(lambda v: gen.rnd(v, 4)), min_size=7, max_size=24),
        "bad": st.lists(st.tuples(st.integers(0, 23), st.sampled_from([0.0, -0.0, -1e-12, -0.3, -5.0, -1e6])), min_size=1, max_size=3),
        "form": st.sampled_from(["array", "list"])}).flatmap(lambda c: fam.kwargs(c["name"]).map(lambda kw: dict(c, kw=kw)))


def check_nonpositive(c, ctx):
    x = list(c["x"])
    for i, v in c["bad"]:
        x[i % len(x)] = v
    o = fam.build(c["name"], c["kw"])
    what = "%s(%s) of %s" % (c["name"], c["kw"], x)
    g = tofloat(ctx.call(what, o.execute_statistic, np.array(x) if c["form"] == "array" else x))
    ctx.nt()
    ctx.require(g == math.inf, "%s: got %r for data that are not strictly positive, documented value inf", what, g)


# ---- critical values of the two Kullback-Leibler statistics
QUANT = json.load(open(os.path.join(os.path.dirname(__file__), "..", "ref", "kl_quantiles.json")))


def crit_sup(n, a):
    if a == 0.05:
        return 2.67076 - 3.90704 / math.sqrt(n) + 1.07162 / n
    if a == 0.01:
        return 4.10183 - 7.48001 / math.sqrt(n) + 0.638394 * math.log(n) / math.sqrt(n)
    return (0.48632 - 0.00148063 / a - 6.99e-5 * n + 0.217752 / math.sqrt(a) - 2.39217 * math.sqrt(n / a) - 0.532872 / (math.sqrt(a) * n)
            + 0.179786 * math.log(n / a) - 0.13083 * math.log(a * n))


def crit_int(n, a):
    if a == 0.05:
        return -2.88971 - 0.130082 * math.log(n) ** 2 + 2.71403 * math.log(n)
    if a == 0.01:
        return 24.9099 - 31.9302 / math.sqrt(n) - 13.2562 * math.log(n) / math.sqrt(n)
    return (0.880415 + 0.00680135 / a - 35.179 * a - 0.18045 / (a * n) - 0.107479 * n + 1.67972 * math.sqrt(a * n) + 0.0119889 * n * math.log(n)
            + 0.372023 * math.sqrt(n / a) - 0.0213414 * math.sqrt(n / a) * math.log(n / a))


def critical():
    return st.fixed_dictionaries({
        "name": st.sampled_from(["KLSupremumLogNormal", "KLIntegralLogNormal"]), "n": st.integers(4, 400),
        "alpha": st.one_of(st.sampled_from([0.05, 0.01, 0.1, 0.001, 0.02]), st.floats(0.0005, 0.15).map(lambda v: gen.rnd(v, 5)), st.sampled_from([0.0, 0.0009, 0.11, 0.5, 1.0]))})


def check_critical(c, ctx):
    o = fam.build(c["name"], {})
    what = "%s().calculate_critical_value(%s, %s)" % (c["name"], c["n"], c["alpha"])
    ctx.nt()
    if not 0.001 <= c["alpha"] <= 0.1:
        ctx.raises(what, ValueError, o.calculate_critical_value, c["n"], c["alpha"])
        return
    sup = "Sup" in c["name"]
    if sup and c["alpha"] not in (0.05, 0.01):
        return  # no trustworthy published form (see KF-KL-SUP-ALPHA): judged by the quantiles alone
    want = (crit_sup if sup else crit_int)(c["n"], c["alpha"])
    ctx.close(tofloat(ctx.call(what, o.calculate_critical_value, c["n"], c["alpha"])), want, what, 1e-9, 1e-9)
    if c["alpha"] == 0.05:
        ctx.close(tofloat(ctx.call(what, o.calculate_critical_value, c["n"])), want, what + " (default)", 1e-9, 1e-9)


def quantile_cases():
    return st.fixed_dictionaries({"kind": st.sampled_from(["sup", "int"]), "n": st.sampled_from(sorted(QUANT["sup"], key=int)), "alpha": st.sampled_from(sorted(QUANT["sup"]["20"], key=float))})


def check_quantile(c, ctx):
    """The critical value is the upper quantile of the statistic under log-normality, simulated independently."""
    name = {"sup": "KLSupremumLogNormal", "int": "KLIntegralLogNormal"}[c["kind"]]
    n, a = int(c["n"]), float(c["alpha"])
    want = QUANT[c["kind"]][c["n"]][c["alpha"]]
    got = tofloat(ctx.call("%s().calculate_critical_value(%s, %s)" % (name, n, a), fam.build(name, {}).calculate_critical_value, n, a))
    ctx.nt()
    tol = 0.12 if a in (0.05, 0.01) else 0.3
    ok = abs(got - want) <= tol * want
    if not ok and c["kind"] == "sup" and a not in (0.05, 0.01) and ctx.kf("KF-KL-SUP-ALPHA") and close(got, crit_sup(n, a), 1e-9, 1e-9):
        ctx.kf_hit("KF-KL-SUP-ALPHA")
        return
    ctx.require(ok, "%s().calculate_critical_value(%s, %s) is %s, the simulated upper quantile of the statistic under log-normality is %s", name, n, a, got, want)


def w_kl():
    from pbt.core import Ctx, Violation
    try:
        check_quantile({"kind": "sup", "n": "50", "alpha": "0.02"}, Ctx())
    except Violation:
        return True
    return False


WITNESS = {"KF-KL-SUP-ALPHA": w_kl}


def qm(x, kw, ex):
    from scipy import special
    return unit.quesenberry(special.ndtr((np.log(x) - math.log(kw["scale"])) / kw["s"]))


def check_cover(c, ctx):
    """Every log-normality statistic is judged: by a mirror, by its own formula, or (KS, CVM) in C14."""
    ctx.nt()
    missing = [n for n in ALL_LN if n not in INFINITE and n not in ("KolmogorovSmirnovLogNormal", "CramerVonMiseLogNormal", "QuesenberryMillerLogNormal")]
    ctx.equal(missing, [], "log-normality statistics without a counterpart or formula")
    want = [n.replace("Normality", "LogNormal") for n in fam.names("NORMAL") if not n.startswith("Graph") and n != "BHSNormality"]
    ctx.equal([n for n in want if n not in ALL_LN], [], "normality statistics without log-normal counterpart")


def subs():
    out = [mirror(p) for p in MIRRORS]
    out += refcheck.subs([
        Spec("QuesenberryMillerLogNormal", qm, min_n=2, distinct=1, sizes=(2, 3, 60), spread=0, quick=200),
        Spec("KLSupremumLogNormal", kl_sup, kwargs=units, min_n=6, quick=60, thorough=600, ties=True, sizes=(6, 7, 40, 49, 50, 51, 64, 80)),
        Spec("KLIntegralLogNormal", kl_int, kwargs=units, min_n=6, sizes=(6, 7, 40, 49, 50, 51, 64, 80), quick=50, thorough=500, guard=skewed),
    ])
    out.append(Sub("non-positive data", nonpositive, check_nonpositive, 400, 8000, budget={"quick": 40, "thorough": 400}))
    out.append(Sub("critical values", critical, check_critical, 300, 5000, budget={"quick": 40, "thorough": 400}))
    out.append(Sub("critical values are quantiles", quantile_cases, check_quantile, enum=lambda: [{"kind": k, "n": n, "alpha": a} for k in QUANT for n in QUANT[k] for a in QUANT[k][n]]))
    out.append(Sub("coverage of the catalogue", None, check_cover, enum=lambda: [{}]))
    return out
