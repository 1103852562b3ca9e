"""C19: gamma and Student statistics equal their published definitions."""
from hypothesis import strategies as st

from pbt import refcheck
from pbt.ref import unit as R
from pbt.ref.bins import powers
from pbt.refcheck import Spec

TECHNIQUE = "property-based testing: differential testing of the gamma spacing, binned and probability-plot statistics and the Student chi-square statistic against independent evaluations of their formulas"
NOTE = "Any parameters, bin counts and Cressie-Read powers; tied observations must make the Moran statistic raise ValueError."
RULE = "One hypothesis, options and sample per case. Non-trivial = at least five distinct values in the support and a finite reference value (or a required ValueError); probabilities within 1e-8 of a bin edge are skipped."
ASSUMPTIONS = ["scipy.special.gammainc, gammaincinv and stdtr are correct"]


def g(f):
    return lambda x, kw, ex: f(R.gamma_u(x, kw))


def bins(extra=None):
    d = {"bins": st.integers(2, 14)}
    d.update(extra or {})
    return lambda: st.fixed_dictionaries({}, optional=d)


def strict(x, kw):
    v = sorted(R.gamma_u(x, kw))
    d = [b - a for a, b in zip([0.0] + v, v + [1.0])]
    return all(t == 0 or t > 1e-10 for t in d[1:-1]) and d[0] > 1e-10 and d[-1] > 1e-10


def subs():
    G = lambda n, f, **k: Spec(n + "Gamma", f, **dict({"min_n": 4, "distinct": 4, "sizes": (4, 5, 60)}, **k))
    sp = [
        G("Greenwood", g(R.greenwood)), G("Moran", g(R.moran), guard=strict, quick=250, rtol=1e-6),
        G("Chi2Pearson", R.binned_gamma(1), opts=bins(), quick=400), G("LikelihoodRatio", R.binned_gamma(0), opts=bins(), quick=400),
        G("CressieRead", R.binned_gamma(None), opts=bins({"power": powers()}), quick=500),
        G("ProbabilityPlotCorrelation", R.gamma_ppcc, quick=300),
        Spec("ChiSquareStudent", R.student_chi2, min_n=4, distinct=4, sizes=(4, 5, 60), opts=lambda: st.fixed_dictionaries({}, optional={"n_bins": st.integers(2, 14)}), quick=400),
    ]
    return refcheck.subs(sp)
