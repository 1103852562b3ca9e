"""C18: uniform and beta statistics equal their published definitions."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refcheck
from pbt.ref import unit as R
from pbt.ref.bins import powers
from pbt.refcheck import Spec

TECHNIQUE = "property-based testing: differential testing of the uniform and beta spacing, smooth, binned, kernel, moment, entropy, mode and censored statistics against independent evaluations of their formulas"
NOTE = "Any interval and shape parameters, bin rules, bandwidths, orders, divergence exponents, censoring patterns, window sizes; ties and outliers; observations on representable bin edges are decided exactly."
RULE = ("One hypothesis, options and sample per case. Non-trivial = at least six distinct values inside the support and a finite reference value; cases where rounding alone decides a bin or the position of a kernel mode are skipped.")
ASSUMPTIONS = ["documented conventions: Sturges bins ceil(log2 n + 1), 1000-point grid for Bickel-Rosenblatt, 200-point grid on [0.01, 0.99] for the mode, entropy window n // 4"]


def u(f):
    return lambda x, kw, ex: f(R.unif(x, kw))



def chi2_opts():
    return st.fixed_dictionaries({}, optional={"bins": st.one_of(st.sampled_from(["sturges", "sqrt", "auto", "other"]), st.integers(1, 12)), "lambda_": powers()})


def censoring(x, raw):
    if not raw:
        return {}
    r = gen.rng(raw["seed"])
    return {"censoring_indices": [int(v) for v in r.uniform(size=len(x)) < raw["frac"]]}


def neyman_opts():
    return st.one_of(st.just({}), st.fixed_dictionaries({"k": st.integers(1, 8)}))


def bw_opts():
    return st.one_of(st.just({}), st.fixed_dictionaries({"bandwidth": st.sampled_from([0.05, 0.1, 0.3, 1.0])}))


def inside(x, kw):
    a, b = kw.get("a", 0), kw.get("b", 1)
    return bool(np.min(x) >= a and np.max(x) <= b)


def subs():
    U = lambda n, f, **k: Spec(n + "Uniform", f, **dict({"min_n": 4, "distinct": 4, "sizes": (4, 5, 60), "guard": inside}, **k))
    B = lambda n, f, **k: Spec(n + "Beta", f, **dict({"min_n": 6, "distinct": 5, "sizes": (8, 9, 60)}, **k))
    sp = [
        U("GreenwoodTest", u(R.greenwood), edge=True), U("Sherman", u(R.sherman), edge=True), U("QuesenberryMiller", u(R.quesenberry)),
        U("NeymanSmoothTest", R.neyman, opts=neyman_opts, quick=250, edge=True),
        U("Stein", R.stein, big=(100, 200), rtol=1e-7, edge=True),
        U("CensoredStein", R.censored_stein, big=(100, 200), rtol=1e-7, quick=250, ex_of=censoring,
          ex=lambda: st.one_of(st.just({}), st.fixed_dictionaries({"seed": st.integers(0, 2 ** 31 - 1), "frac": st.sampled_from([0.0, 0.1, 0.3, 0.6, 0.9])}))),
        U("BickelRosenblatt", R.bickel, opts=bw_opts, quick=100, thorough=1500, edge=True),
        U("Chi2Pearson", R.chi2_uniform, opts=chi2_opts, quick=500, sizes=(8, 9, 16, 17, 31, 32, 33, 63, 64, 65), edge=True),
        B("Chi2Pearson", R.chi2_beta, opts=lambda: st.one_of(st.just({}), st.fixed_dictionaries({"lambda_": powers()})), quick=400, sizes=(15, 16, 17, 24, 25, 26)),
        B("MomentBased", R.beta_mb), B("SkewnessKurtosis", R.beta_sk, rtol=1e-7), B("Ratio", R.beta_rt),
        B("Entropy", R.beta_ent, ex=lambda: st.one_of(st.just({}), st.fixed_dictionaries({"m": st.integers(1, 5)})), quick=250, rtol=1e-7),
        B("Mode", R.beta_mode, quick=150, thorough=2000),
    ]
    return refcheck.subs(sp)
