"""C16: exponentiality statistics equal their published definitions."""
import numpy as np
from hypothesis import strategies as st

from pbt import refcheck
from pbt.ref import exponentiality as R
from pbt.refcheck import Spec

TECHNIQUE = "property-based testing: differential testing of every non-graph exponentiality statistic against an independent evaluation of its published formula, tuning arguments included"
NOTE = "Odd and even sizes, ties, outliers, any rate, samples from other rates, and the tuning arguments p, b and r at default and other admissible values."
RULE = ("One rate, sample and tuning argument per case. Non-trivial = at least six distinct positive values (four for small sizes) and a finite reference value. "
        "Counting statistics are compared with the interval of values that rounding at exact equality allows.")
ASSUMPTIONS = ["default tuning arguments are those of the documentation (p = 0.99 Atkinson, b = 0.44 Deshpande, r = n/2 Gnedenko, r = n/4 Harris, p = 0.5 Lorenz)"]


def ex(name, values):
    return lambda: st.one_of(st.just({}), st.fixed_dictionaries({name: values()}))


def splits():
    return st.one_of(st.integers(1, 9), st.integers(1, 40))


def upto(ends):
    """The number of spacings at each end, reduced to what leaves at least one spacing for the other group."""
    return lambda x, raw: {"r": min(raw["r"], (len(x) - 1) // ends)} if raw else {}


def subs():
    S = lambda n, f, **k: Spec(n + "Exponentiality", f, **dict({"min_n": 4, "distinct": 4, "sizes": (4, 5, 6, 7, 60)}, **k))
    p = lambda: st.floats(0.05, 3).map(lambda v: round(v, 3))
    sp = [
        S("EppsPulley", R.epps_pulley, edge=True),
        S("Ahsanullah", R.ahsanullah, sizes=(4, 5, 6), max_n=14, big=(20, 25, 60, 110), quick=100, thorough=1500, rtol=1e-12, atol=1e-12),
        S("Atkinson", R.atkinson, ex=ex("p", p), quick=200, rtol=1e-7, edge=True),
        S("CoxOakes", R.cox_oakes),
        S("Deshpande", R.deshpande, big=(100, 300, 1050), ex=ex("b", lambda: st.floats(0.05, 0.99).map(lambda v: round(v, 3))), quick=200, rtol=1e-12, atol=1e-12, edge=True),
        S("Epstein", R.epstein, ties=False, distinct=4, guard=lambda x, kw: np.min(np.diff(np.sort(x))) > 0, rtol=1e-6, edge=True),
        S("Frozini", R.frozini, edge=True),
        S("Gini", R.gini, sizes=(4, 5, 40), edge=True),
        S("Gnedenko", R.gnedenko, min_n=3, distinct=3, sizes=(3, 4, 5, 6, 7, 10, 11, 12, 13, 14, 15), ex=ex("r", splits), ex_of=upto(1), quick=250, edge=True),
        S("Harris", R.harris, min_n=3, distinct=3, sizes=(3, 4, 5, 6, 7, 9, 10, 11, 13, 14, 15, 18, 22), ex=ex("r", splits), ex_of=upto(2), quick=250, edge=True),
        S("HegazyGreen1", R.hegazy(1), edge=True),
        S("HegazyGreen2", R.hegazy(2), edge=True),
        S("HollanderProshan", R.hollander, sizes=(4, 5, 6), max_n=14, big=(20, 25, 60, 110, 130), quick=100, thorough=1500, rtol=1e-12, atol=1e-12),
        S("KimberMichael", R.kimber, edge=True),
        S("Kochar", R.kochar, edge=True),
        S("Lorenz", R.lorenz, ex=ex("p", lambda: st.integers(1, 99).map(lambda v: v / 100)), quick=200, edge=True),
        S("Moran", R.moran),
        S("Pietra", R.pietra, edge=True),
        S("ShapiroWilk", R.shapiro_wilk, edge=True),
        S("Rossberg", R.rossberg, sizes=(4, 5, 6), max_n=10, big=(13, 20, 33), quick=60, thorough=600, rtol=1e-12, atol=1e-12),
        S("We", R.we, edge=True),
        S("WongWong", R.wong, edge=True),
    ]
    return refcheck.subs(sp)
