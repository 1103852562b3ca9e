"""Writes pbt/ref/huge.json: for each statistic checked by refcheck, the largest size at which the statistic and its reference take under about 1.2 s together
on the unchanged tree and agree.  Run with PYTHONPATH=/repo/src:.deps:. from /verif."""
import importlib
import json
import multiprocessing as mp
import signal
import time
import warnings

import numpy as np

from pbt import fam, refcheck

SIZES = (3000, 9000, 20000, 40000, 70000)


def specs():
    got = []
    refcheck.subs = lambda sp: got.extend(sp) or []
    for p in ("c14", "c15", "c16", "c17", "c18", "c19", "c21"):
        n = len(got)
        importlib.import_module("pbt.props." + p).subs()
        print(p, len(got) - n)
    return got


def stop(*a):
    raise TimeoutError


def one(i):
    warnings.simplefilter("ignore")
    s = ALL[i]
    if s.sample or s.ex or s.ex_of or not s.big or max(s.big) < 1000:
        return s.name, None, "ex"
    signal.signal(signal.SIGALRM, stop)
    best, why = None, ""
    kw = dict(refcheck.DEFAULTS[s.name])
    kw = {k: v for k, v in kw.items() if k in fam.FAMILY_KEYS}
    fk = {k: (2.0 if k in ("k", "alpha", "beta", "df") else v) for k, v in kw.items()}
    for n in SIZES:
        case = {"kw": fk, "u": refcheck.seeded((n, 5, 0)), "warp": 0, "from": None, "opts": {}, "ex": {}, "order": "given"}
        try:
            x = refcheck.draw(s, case)
            if s.guard and not s.guard(x, fk):
                return s.name, best, "guard"
            t = time.time()
            signal.alarm(3)
            want = s.ref(x, fk, {})
            t1 = time.time()
            g = float(fam.build(s.name, fk).execute_statistic(x.copy()))
            t2 = time.time()
            signal.alarm(0)
        except Exception as e:  # noqa: BLE001
            return s.name, best, "%s %s" % (type(e).__name__, str(e)[:80])
        if want is None or isinstance(want, type):
            return s.name, best, "undefined at %d" % n
        if not refcheck.agrees(g, want, s):
            return s.name, best, "differs at %d: %r %r" % (n, g, want)
        if t2 - t > 1.2:
            return s.name, best, "slow at %d: ref %.1f code %.1f" % (n, t1 - t, t2 - t1)
        best = n
    return s.name, best, ""


if __name__ == "__main__":
    ALL = specs()
    out = {}
    with mp.Pool(6) as pool:
        for name, best, why in pool.imap(one, range(len(ALL))):
            print(name, best, why, flush=True)
            if best:
                out[name] = min(best, out.get(name, best))
    with open("pbt/ref/huge.json", "w") as f:
        json.dump(out, f, indent=0, sort_keys=True)
        f.write("\n")
