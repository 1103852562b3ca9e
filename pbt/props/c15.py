"""C15: normality statistics equal their published definitions."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt import refcheck
from pbt.core import Sub, tofloat
from pbt import fam, gen
from pbt.ref import normality as R
from pbt.refcheck import Spec

TECHNIQUE = "property-based testing: differential testing of every non-graph normality statistic against an independent evaluation of its published formula"
NOTE = "Sizes include every branch size of the statistic (AS R94 n = 4, 5, the L-moment tables at 25/26 and 50/51, AS 177 corrections at 20/21 and 40/41, Stirling at 149/150); ties, outliers, shifted and scaled samples."
RULE = ("One sample per case (normal, warped, tied, with outliers, shifted and scaled; sizes biased to the branch sizes). Non-trivial = at least six (small sizes: three) distinct values, "
        "spread above 1e-3 of the magnitude and a finite reference value.")
ASSUMPTIONS = ["published table constants are as documented in the classes", "scipy.stats.shapiro (AS R94) is correct", "agreement to 1e-7 relative, 1e-5 for Shapiro-Wilk and Desgagne-Lafaye (large cancelling constants)"]


def w(f):
    return lambda x, kw, ex: f(x)


def rj_options():
    return st.fixed_dictionaries({}, optional={"weighted": st.booleans(), "cte_alpha": st.sampled_from(["3/8", "1/2", "0"])})


HS = (24, 25, 26, 49, 50, 51, 60)


def tails(x, kw):
    z = (x - np.mean(x)) / np.std(x, ddof=1)
    return bool(np.max(np.abs(z)) < 6)  # beyond, 1 - Phi(z) in the code loses all but a few digits


def subs():
    S = lambda n, f, **k: Spec(n + "Normality", f, **dict({"rtol": 1e-7, "atol": 1e-8, "min_n": 8}, **k))
    sp = [
        S("ShapiroWilk", R.shapiro_wilk, sizes=(4, 5, 6, 7, 100, 200), min_n=4, distinct=3, rtol=1e-5, quick=300),
        S("Skew", w(R.skew_z), sizes=(8, 9, 200)),
        S("Kurtosis", w(R.kurt_z), sizes=(5, 6, 7, 8, 200), min_n=5, distinct=4),
        S("DAP", lambda x, kw, ex: R.skew_z(x) ** 2 + R.kurt_z(x) ** 2, sizes=(8, 9, 200)),
        S("JB", w(R.jb), sizes=(4, 5, 200), min_n=4, distinct=3),
        S("Filli", w(R.filliben), sizes=(4, 5, 200), min_n=4, distinct=3),
        S("LooneyGulledge", w(R.looney), sizes=(4, 5, 200), min_n=4, distinct=3),
        S("RyanJoiner", R.ryan_joiner, opts=rj_options, sizes=(4, 5, 200), min_n=4, distinct=3, quick=300, warps=["null", "null", "skew"]),
        S("SF", w(R.shapiro_francia), sizes=(4, 5, 200), min_n=4, distinct=3),
        S("EppsPulley", w(R.epps_pulley), sizes=(4, 5, 60), min_n=4, distinct=3),
        S("Hosking1", R.hosking(0), sizes=HS, quick=250),
        S("Hosking2", R.hosking(1), sizes=HS, quick=250),
        S("Hosking3", R.hosking(2), sizes=(9,) + HS, min_n=9, quick=250, distinct=8),
        S("Hosking4", R.hosking(3), sizes=(11,) + HS, min_n=11, quick=250, rtol=1e-6, distinct=9),
        S("ZhangWuC", w(R.zhang_wu_c), sizes=(4, 5, 100), min_n=4, distinct=3, guard=tails, rtol=1e-6),
        S("ZhangWuA", w(R.zhang_wu_a), sizes=(4, 5, 100), min_n=4, distinct=3, guard=tails),
        S("GlenLeemisBarr", w(R.glen), sizes=(4, 5, 60), min_n=4, distinct=3, rtol=1e-5),
        S("DoornikHansen", w(R.doornik_hansen), sizes=(8, 9, 200)),
        S("RobustJarqueBera", w(R.robust_jb), sizes=(4, 5, 200), min_n=4, distinct=3),
        S("BontempsMeddahi1", R.bm(4), sizes=(4, 5, 200), min_n=4, distinct=3),
        S("BontempsMeddahi2", R.bm(6), sizes=(4, 5, 200), min_n=4, distinct=3),
        S("BonettSeier", w(R.bonett_seier), sizes=(4, 5, 200), min_n=4, distinct=3),
        S("MartinezIglewicz", w(R.martinez), sizes=(8, 9, 200), guard=lambda x, kw: np.median(abs(x - np.median(x))) > 1e-3 * np.std(x)),
        S("CabanaCabana1", w(R.cabana1), sizes=(8, 9, 200), rtol=1e-6),
        S("CabanaCabana2", w(R.cabana2), sizes=(8, 9, 200), rtol=1e-6, kf=("KF-CC2", lambda x, kw, ex: R.cabana2(x, 1))),
        S("ChenShapiro", w(R.chen_shapiro), sizes=(4, 5, 200), min_n=4, distinct=3),
        S("ZhangQ", w(R.zhang_q), sizes=(8, 9, 10, 200), distinct=8),
        S("ZhangQStar", w(R.zhang_q_star), sizes=(8, 9, 10, 200), distinct=8),
        S("Coin", w(R.coin), sizes=(4, 5, 6, 7, 8, 14, 15, 19, 20, 21, 39, 40, 41, 100), min_n=4, distinct=3, quick=300, rtol=1e-6),
        S("Dagostino", w(R.dagostino), sizes=(4, 5, 200), min_n=4, distinct=3),
        S("SWRG", w(R.swrg), sizes=(4, 5, 200), min_n=4, distinct=3),
        S("GMG", w(R.gmg), sizes=(4, 5, 200), min_n=4, distinct=3),
        S("BHS", w(R.bhs), sizes=(8, 9, 60, 61), ties=False, distinct=8, rtol=1e-5, atol=1e-5),
        S("Spiegelhalter", w(R.spiegelhalter), sizes=(4, 5, 100, 148, 149, 150, 151, 200), min_n=4, distinct=3, quick=250),
        S("DesgagneLafaye", w(R.desgagne), sizes=(4, 5, 200), min_n=4, distinct=3, rtol=1e-5, atol=1e-4),
    ]
    return refcheck.subs(sp) + [Sub("CoinNormality:exact-scores", coin_cases, check_coin, 120, 2000)]


# ---- Coin's statistic with exact expected order statistics instead of the AS 177 approximation the class uses
def coin_cases():
    return st.fixed_dictionaries({"n": st.integers(8, 60), "seed": st.integers(0, 2 ** 31 - 1), "shape": st.integers(0, 2)})


def check_coin(case, ctx):
    r = gen.rng(case["seed"])
    x = [r.normal(size=case["n"]), r.exponential(size=case["n"]), r.standard_t(3, size=case["n"])][case["shape"]]
    x = np.array([float("%.10g" % v) for v in x])
    got = tofloat(ctx.call("CoinNormality.execute_statistic", fam.CLASSES["CoinNormality"]().execute_statistic, x))
    want = R.coin_with(x, R.exact_scores(case["n"]))
    ctx.nt()
    # the coefficient itself carries the scores' 1e-4 accuracy
    ctx.require(abs(math.sqrt(max(got, 0)) - math.sqrt(want)) < 2e-3, "CoinNormality of %s: got %s, with exact normal scores %s", x.tolist(), got, want)


def w_cc2():
    x = np.array([0.1, 0.4, -1.2, 0.8, 2.2, -0.3, 0.05, 1.1, -0.7, 0.6])
    got = tofloat(fam.CLASSES["CabanaCabana2Normality"]().execute_statistic(x))
    return abs(got - R.cabana2(x)) > 1e-6


WITNESS = {"KF-CC2": w_cc2}
