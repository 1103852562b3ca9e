"""Independent model of the 21 distributions: parameters (name, default, kind) and scipy reference distributions."""
import numpy as np
import scipy.stats as ss

PARAMS = {
    "NORMAL": [("mean", 0, "real"), ("var", 1, "pos")],
    "EXPONENTIAL": [("lam", 1, "pos")],
    "WEIBULL": [("a", 1, "pos"), ("k", 5, "pos")],
    "UNIFORM": [("a", 0, "real"), ("b", 1, "real")],
    "STUDENT": [("df", 2, "pos")],
    "GAMMA": [("alfa", 1, "pos"), ("beta", 1, "pos")],
    "BETA": [("a", 1, "pos"), ("b", 1, "pos")],
    "LOG_NORMAL": [("s", 1, "pos"), ("mu", 0, "real")],
    "CAUCHY": [("t", 0.5, "real"), ("s", 0.5, "pos")],
    "CHI_2": [("df", 2, "pos")],
    "GOMPERTZ": [("eta", 1, "pos"), ("b", 1, "pos")],
    "GUMBEL": [("mu", 0, "real"), ("beta", 1, "pos")],
    "INV_GAUSS": [("mu", 1, "pos"), ("lam", 1, "pos")],
    "LAPLACE": [("t", 0, "real"), ("s", 1, "pos")],
    "LO_CON_NORMAL": [("p", 0.5, "prob"), ("a", 0, "real")],
    "LOGISTIC": [("t", 0, "real"), ("s", 1, "pos")],
    "MIX_CON_NORMAL": [("p", 0.5, "prob"), ("a", 0, "real"), ("b", 1, "pos")],
    "RICE": [("nu", 0, "nonneg"), ("sigma", 1, "nonneg")],
    "SCALE_CON_NORMAL": [("p", 0.5, "prob"), ("b", 1, "pos")],
    "TRUNC_NORMAL": [("mean", 0, "real"), ("var", 1, "pos"), ("a", -10, "real"), ("b", 10, "real")],
    "TUKEY": [("lam", 2, "real")],
}
NAMES = list(PARAMS)


class Mixture:
    """p * A + (1 - p) * B."""

    def __init__(self, p, a, b):
        self.p, self.a, self.b = p, a, b

    def cdf(self, x):
        return self.p * self.a.cdf(x) + (1 - self.p) * self.b.cdf(x)

    def sf(self, x):
        return self.p * self.a.sf(x) + (1 - self.p) * self.b.sf(x)

    def support(self):
        return -np.inf, np.inf


def dist(name, v):
    """Reference distribution for descriptor parameters `v` (dict)."""
    g = dict(v)
    if name == "NORMAL":
        return ss.norm(g["mean"], np.sqrt(g["var"]))
    if name == "EXPONENTIAL":
        return ss.expon(scale=1 / g["lam"])
    if name == "WEIBULL":
        return ss.exponweib(g["a"], g["k"])
    if name == "UNIFORM":
        return ss.uniform(g["a"], g["b"] - g["a"])
    if name == "STUDENT":
        return ss.t(g["df"])
    if name == "GAMMA":
        return ss.gamma(g["alfa"], scale=1 / g["beta"])
    if name == "BETA":
        return ss.beta(g["a"], g["b"])
    if name == "LOG_NORMAL":
        return ss.lognorm(g["s"], scale=np.exp(g["mu"]))
    if name == "CAUCHY":
        return ss.cauchy(g["t"], g["s"])
    if name == "CHI_2":
        return ss.gamma(g["df"] / 2, scale=2)
    if name == "GOMPERTZ":
        return ss.gompertz(g["eta"], scale=g["b"])
    if name == "GUMBEL":
        return ss.gumbel_r(g["mu"], g["beta"])
    if name == "INV_GAUSS":
        return ss.invgauss(g["mu"] / g["lam"], scale=g["lam"])
    if name == "LAPLACE":
        return ss.laplace(g["t"], g["s"])
    if name == "LOGISTIC":
        return ss.logistic(g["t"], g["s"])
    if name == "LO_CON_NORMAL":
        return Mixture(g["p"], ss.norm(g["a"], 1), ss.norm(0, 1))
    if name == "MIX_CON_NORMAL":
        return Mixture(g["p"], ss.norm(g["a"], g["b"]), ss.norm(0, 1))
    if name == "SCALE_CON_NORMAL":
        return Mixture(g["p"], ss.norm(0, g["b"]), ss.norm(0, 1))
    if name == "RICE":
        return ss.rice(g["nu"] / g["sigma"], scale=g["sigma"])
    if name == "TRUNC_NORMAL":
        s = np.sqrt(g["var"])
        return ss.truncnorm((g["a"] - g["mean"]) / s, (g["b"] - g["mean"]) / s, g["mean"], s)
    if name == "TUKEY":
        return ss.tukeylambda(g["lam"])
    raise KeyError(name)
