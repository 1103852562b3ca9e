"""C17: Weibull statistics equal their published definitions."""
import numpy as np
from hypothesis import strategies as st

from pysatl_criterion.statistics import goodness_of_fit as G

from pbt import fam, gen, refcheck
from pbt.core import Sub
from pbt.ref import edf
from pbt.ref import weibull as R
from pbt.refcheck import Spec

TECHNIQUE = "property-based testing: differential testing of the Weibull probability-plot, spacing, Laplace-transform, entropy, likelihood and binned statistics against independent evaluations of their formulas"
NOTE = "Any shape parameters, sizes, ties and outliers; options m and a; maximum-likelihood based statistics are compared with the interval their documented search precision allows."
RULE = "One hypothesis, sample and tuning argument per case. Non-trivial = at least six distinct positive values and a finite reference value; entropies of tied windows and shapes outside (0.02, 45) are skipped."
ASSUMPTIONS = ["the maximum-likelihood shape is searched to 1e-5 by the code under test"]


def no_ties(x, kw):
    y = np.sort(np.log(x))
    return bool(np.min(np.diff(y)) > 1e-9)


def interior(lo):
    def g(x, kw):
        u, v = edf.cdf("WEIBULL", x, kw)
        return bool(np.all(u > lo) and np.all(v > lo))
    return g


def ex_m():
    return st.one_of(st.just({}), st.fixed_dictionaries({"m": st.integers(1, 5)}))


def ex_lt():
    return st.fixed_dictionaries({}, optional={"m": st.sampled_from([10, 50, 100, 200]), "a": st.sampled_from([-5, -2, -1, -8])})


def subs():
    S = lambda n, f, **k: Spec(n + "Weibull", f, **dict({"sizes": (10, 11, 60), "distinct": 6}, **k))
    sp = [
        S("Sb", R.shapiro_brain, min_n=6, rtol=1e-7),
        S("SB", R.shapiro_brain, min_n=6, rtol=1e-7),
        S("ST1", R.st1), S("ST2", R.st2),
        S("OK", R.ozturk, min_n=6, rtol=1e-7),
        S("RSB", R.rsb(True), kf=("KF-RSB-FORMULA", R.rsb(False)), quick=200, rtol=1e-7),
        S("REJG", R.rejg, min_n=6),
        S("SPP", R.with_mle(R.spp(False)), kf=("KF-SPP", R.with_mle(R.spp(True))), quick=200),
        S("TikuSingh", R.tiku_singh, min_n=6, guard=no_ties), S("LOS", R.los, min_n=6, guard=no_ties, rtol=1e-6), S("MSF", R.msf, min_n=6, guard=no_ties),
        S("MahdiDoostparast", R.mahdi, guard=interior(1e-9)),
        S("LiaoShimokawa", lambda x, kw, ex: edf.min_toshiyuki(*edf.cdf("WEIBULL", x, kw)), guard=interior(1e-3), rtol=1e-6),
        S("KullbackLeibler", R.kl, ex=ex_m, min_n=8, quick=250, guard=lambda x, kw: np.max(x) < 1e4),
        S("LaplaceTransform2", R.with_mle(R.laplace(R.grid2)), ex=ex_lt, quick=200),
        S("LaplaceTransform3", R.with_mle(R.laplace(R.grid3)), ex=ex_lt, quick=200),
        S("CabanaQuiroz", R.with_mle(R.cabana_quiroz), quick=200),
        S("Chi2Pearson", R.chi2, sizes=(15, 16, 17, 24, 25, 26), quick=250),
    ]
    by = {s.name[:-len("Weibull")]: s for s in sp}
    return refcheck.subs(sp) + [Sub("dispatch", dispatch_cases, dispatch(by), 150, 3000)]


KINDS = ["OK", "SB", "RSB", "REJG", "SPP", "ST1", "ST2"]


def dispatch_cases():
    return st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "kw": fam.kwargs("ST1Weibull"), "u": gen.ulist(6, 40), "warp": st.sampled_from(fam.WARPS), "sorted": st.booleans()})


def dispatch(by):
    """The family's common entry point, which takes the code of the test to run, gives the published statistics too."""
    def check(case, ctx):
        wpp = getattr(G, "WPPWeibullGofStatistic", None)
        if wpp is None:
            return
        s = by[case["kind"]]
        x = np.array(fam.sample("WEIBULL", case["kw"], case["u"], case["warp"]))
        x = np.sort(x) if case["sorted"] or case["kind"] == "RSB" else x  # unsorted: KF-RSB
        if not refcheck.usable(s, x, case["kw"]) or len(set(x.tolist())) < 6:
            return
        try:
            with np.errstate(all="ignore"):
                want = s.ref(x, case["kw"], {})
        except (ValueError, ZeroDivisionError):
            want = None
        if want is None or not np.all(np.isfinite(np.asarray(want))):
            return
        ctx.nt()
        code = fam.CLASSES[case["kind"] + "Weibull"].code()
        got = float(ctx.call("WPPWeibullGofStatistic.execute_statistic", wpp.execute_statistic, x.copy(), code))
        ok = refcheck.agrees(got, want, s)
        if not ok and s.name == "SPPWeibull" and ctx.kf("KF-SPP") and refcheck.agrees(got, s.kf[1](x, case["kw"], {}), s):
            ctx.kf_hit("KF-SPP")
            return
        ctx.require(ok, "WPPWeibullGofStatistic.execute_statistic(%s, %r): got %r, the published formula gives %r", x.tolist(), code, got, want)
    return check


X = np.array([0.4, 1.7, 0.9, 2.6, 0.2, 1.1, 3.3, 0.7, 1.4, 2.1])


def w_rsb():
    return abs(fam.CLASSES["RSBWeibull"]().execute_statistic(X) - R.rsb(True)(X, {}, {})) > 1e-6


def w_spp():
    lo, hi = R.with_mle(R.spp(False))(X, {}, {})
    return not lo <= fam.CLASSES["SPPWeibull"]().execute_statistic(X) <= hi


WITNESS = {"KF-RSB-FORMULA": w_rsb, "KF-SPP": w_spp}
