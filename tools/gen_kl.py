"""Simulated null quantiles of the two Kullback-Leibler statistics (pbt/ref/kl_quantiles.json).

Independent of /repo: the statistics are computed from their definition, vectorised over 40000 normal samples
of logs per sample size.  Run only to regenerate the committed table (about five minutes on 8 cores).
"""

import json
import multiprocessing as mp
import os
import sys

import numpy as np

NS = (20, 25, 30, 40, 50, 70, 100, 140, 200)
ALPHAS = (0.1, 0.08, 0.06, 0.05, 0.04, 0.03, 0.02, 0.015, 0.01, 0.007, 0.005)


def stats(logs):
    y = (logs - logs.mean(1, keepdims=True)) / logs.std(1, keepdims=True)
    best, total = np.zeros(len(y)), np.zeros(len(y))
    grid = np.linspace(-5, 5, 1000)
    for r in grid:
        w = np.exp(r * y)
        m = w.mean(1)
        d = 2 * np.log(m) - r * (w * y).mean(1) / m
        q = np.abs(d) / np.sqrt(np.exp(r * r) * (r**4 - 3 * r * r + 4) - (4 + r * r))
        best, total = np.maximum(best, q), total + q * q
    n = y.shape[1]
    return np.sqrt(n) * best, n * total * (grid[1] - grid[0])


def go(a):
    return a[0], stats(np.random.default_rng([a[0], a[1]]).normal(size=(2000, a[0])))


if __name__ == "__main__":
    with mp.Pool(int(sys.argv[1]) if len(sys.argv) > 1 else 8) as pool:
        res = pool.map(go, [(n, s) for n in NS for s in range(20)], chunksize=1)
    out = {"sup": {}, "int": {}}
    for n in NS:
        for k, i in (("sup", 0), ("int", 1)):
            v = np.concatenate([r[1][i] for r in res if r[0] == n])
            out[k][str(n)] = {str(a): float("%.4g" % np.quantile(v, 1 - a)) for a in ALPHAS}
    with open(os.path.join(os.path.dirname(__file__), "..", "pbt", "ref", "kl_quantiles.json"), "w") as f:
        json.dump(out, f, indent=1)
