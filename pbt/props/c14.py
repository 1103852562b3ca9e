"""C14: EDF statistics equal their empirical-distribution definitions at the hypothesised distribution function."""
import math

import numpy as np
from hypothesis import strategies as st
from scipy import special

from pbt import fam, refcheck
from pbt.ref import edf
from pbt.refcheck import Spec

TECHNIQUE = "property-based testing: differential testing of each EDF statistic against its definition (suprema over the line, exact integrals) on independently evaluated distribution functions"
NOTE = "Hypothesis parameters, one- and two-sided forms, sizes, ties, outliers and samples from other parameters, for all eight families."
RULE = ("One hypothesis, options and sample per case (from the hypothesis, warped, tied, with outliers, or from other parameters). Non-trivial = the sample has at least six distinct "
        "finite values inside the support and the reference value is finite.")
ASSUMPTIONS = ["special functions (erfc, incomplete gamma and beta, stdtr) of scipy.special are correct", "agreement to 1e-8 relative (1e-5 for the Weibull Anderson-Darling, whose parameters are maximum-likelihood estimates)"]

EPS = 1e-10


def F(name, x, kw):
    return edf.cdf(fam.FAMILY[name], np.sort(x), kw)


def interior(name, lo=1e-280):
    """Samples on which F and 1 - F are well away from underflow."""
    def g(x, kw):
        u, v = F(name, x, kw)
        return bool(np.all(u > lo) and np.all(v > lo))
    return g


def interior_or_edge(name):
    """As `interior`, but observations exactly on a bound of the support, where F or 1 - F is zero, are allowed."""
    def g(x, kw):
        u, v = F(name, x, kw)
        return bool(np.all((u > 1e-280) | (u == 0)) and np.all((v > 1e-280) | (v == 0)))
    return g


def side():
    return st.fixed_dictionaries({"alternative_type": st.sampled_from(["two", "left", "right"])})


def logs_norm(x, ddof):
    x = np.sort(x)
    z = (x - math.fsum(x) / len(x)) / math.sqrt(math.fsum((x - np.mean(x)) ** 2) / (len(x) - ddof))
    return z


def ad_normal(x, kw, ex):
    z = logs_norm(x, 1)
    return edf.ad_logs(special.log_ndtr(z), special.log_ndtr(-z))


def ln(f):
    return lambda x, kw, ex: f((np.log(x) - math.log(kw.get("scale", 1))) / kw.get("s", 1), {}, {})


def ad_weibull(x, kw, ex):
    y = np.sort(np.log(x))
    m, b = edf.gumbel_min_mle(y)
    w = (y - m) / b
    e = -np.exp(w)
    return edf.ad_logs(np.log(-np.expm1(e)), e)


def lillie_normal(x, kw, ex):
    return edf.ks(edf.norm_cdf(logs_norm(x, 1)))


def lillie_gamma(x, kw, ex):
    m = math.fsum(x) / len(x)
    v = math.fsum((x - m) ** 2) / (len(x) - 1)
    return edf.ks(special.gammainc(m * m / v, x * m / v))


def lillie_student(x, kw, ex):
    """Location and scale estimated from the sample, as documented."""
    z = (x - np.mean(x)) / np.std(x, ddof=1)
    return edf.ks(special.stdtr(kw.get("df", 1), z))


def student_raw(x, kw, ex):
    return edf.ks(special.stdtr(kw.get("df", 1), x))


def clipped(fn):
    def g(x, kw, ex):
        u = np.clip(F("AndersonDarlingStudent", x, kw)[0], EPS, 1 - EPS)
        return fn(u, 1 - u)
    return g


def zhang_uniform(x, kw, ex):
    u, v = F("ZhangTestsUniform", x, kw)
    return {"A": edf.zhang_a, "C": edf.zhang_c, "K": edf.zhang_k}[kw.get("test_type", "A").upper()](u, v)


EDGES = {"EXPONENTIAL", "UNIFORM", "GAMMA", "BETA", "WEIBULL"}
KS = [n for n in fam.NAMES if n.startswith("KolmogorovSmirnov")]
CVM = ["CrammerVonMisesBeta", "CrammerVonMisesUniform", "CrammerVonMisesWeibull", "CramerVonMisesExponentiality", "CramerVonMisesGamma", "CramerVonMisesStudent",
       "CramerVonMiseNormality", "CramerVonMiseLogNormal"]
KUIPER = ["KuiperBeta", "KuiperGamma", "KuiperStudent", "KuiperUniform"]
WATSON = ["WatsonBeta", "WatsonGamma", "WatsonStudent", "WatsonUniform", "WatsonWeibull"]
AD = ["AndersonDarlingBeta", "AndersonDarlingGamma", "AndersonDarlingStudent", "AndersonDarlingUniform"]
PLAIN_LILLIE = ["LillieforsTestBeta", "LillieforsTestUniform", "LillieforsWeibull"]


def ks_weibull_default(kw):
    # an omitted k is 1 in every Weibull criterion except the Kolmogorov-Smirnov one, whose documented default is 5
    return dict({"k": 5}, **kw)


def subs():
    sp = []
    for n in KS:
        fix = ks_weibull_default if n == "KolmogorovSmirnovWeibull" else dict
        sp.append(Spec(n, lambda x, kw, ex, n=n, fix=fix: edf.ks(F(n, x, fix(kw))[0], kw["alternative_type"]), opts=side, quick=200, edge=fam.FAMILY[n] in EDGES))
        sp.append(Spec(n, lambda x, kw, ex, n=n, fix=fix: edf.ks(F(n, x, fix(kw))[0]), kwargs=lambda n=n: st.one_of(st.just({}), fam.kwargs(n)), quick=30,
                       guard=interior(n, 0)))
    for n in CVM:
        sp.append(Spec(n, lambda x, kw, ex, n=n: edf.cvm(F(n, x, kw)[0]), edge=fam.FAMILY[n] in EDGES))
    for n in WATSON:
        sp.append(Spec(n, lambda x, kw, ex, n=n: edf.watson(F(n, x, kw)[0]), edge=fam.FAMILY[n] in EDGES))
    for n in KUIPER:
        sp.append(Spec(n, lambda x, kw, ex, n=n: edf.kuiper(F(n, x, kw)[0]), edge=fam.FAMILY[n] in EDGES))
    for n in AD:
        # an observation on a bound of the support is impossible under the hypothesis: the weighted integral diverges
        sp.append(Spec(n, lambda x, kw, ex, n=n: edf.ad(*F(n, x, kw)), guard=interior_or_edge(n), edge=fam.FAMILY[n] in EDGES))
    for n in PLAIN_LILLIE:
        sp.append(Spec(n, lambda x, kw, ex, n=n: edf.ks(F(n, x, kw)[0]), edge=fam.FAMILY[n] in EDGES))
    sp += [
        Spec("AndersonDarlingNormality", ad_normal),
        Spec("AndersonDarlingLogNormal", ln(ad_normal)),
        Spec("AndersonDarlingWeibull", ad_weibull, rtol=1e-5, atol=1e-6),
        Spec("LillieforsNormality", lillie_normal),
        Spec("LillieforsLogNormal", ln(lillie_normal)),
        Spec("LillieforsGamma", lillie_gamma),
        Spec("LillieforsStudent", lillie_student, kf=("KF-LILLIE-STUDENT", student_raw)),
        Spec("ZhangTestsUniform", zhang_uniform, guard=interior("ZhangTestsUniform"), quick=120,
             opts=lambda: st.sampled_from([{}, {"test_type": "A"}, {"test_type": "C"}, {"test_type": "K"}, {"test_type": "c"}, {"test_type": "k"}])),
        Spec("ZhangZaStudent", clipped(edf.zhang_a), rtol=1e-6),
        Spec("ZhangZcStudent", clipped(edf.zhang_c), rtol=1e-6),
        Spec("MinToshiyukiGamma", lambda x, kw, ex: edf.min_toshiyuki(*F("MinToshiyukiGamma", x, kw)), guard=interior("MinToshiyukiGamma", 1e-6)),
        Spec("MinToshiyukiWeibull", lambda x, kw, ex: edf.min_toshiyuki(*F("MinToshiyukiWeibull", x, kw)), guard=interior("MinToshiyukiWeibull", 1e-6)),
    ]
    return refcheck.subs(sp)


def w_lillie_student():
    x = np.array([10.0, 10.5, 11.0, 11.5, 12.5, 9.0, 8.5, 9.5, 10.2, 10.9])
    got = fam.CLASSES["LillieforsStudent"](df=3).execute_statistic(x)
    return abs(got - lillie_student(x, {"df": 3}, {})) > 1e-6


WITNESS = {"KF-LILLIE-STUDENT": w_lillie_student}
