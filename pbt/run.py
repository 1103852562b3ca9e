"""Entry point: python -m pbt.run PROPERTY quick|thorough   |   python -m pbt.run --replay FILE"""
import concurrent.futures
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import sys
import time

from pbt import core

_SUBS = {}


def _work(args):
    prop, name, tier, seed, known = args
    with contextlib.redirect_stdout(io.StringIO()):
        return core.run_sub(prop, _SUBS[name], tier, seed, known)


def load(prop):
    import pysatl_criterion
    assert os.path.realpath(pysatl_criterion.__file__).startswith("/repo/src/"), pysatl_criterion.__file__
    return importlib.import_module("pbt.props.%s" % prop.lower())


def replay(path):
    with open(path) as f:
        r = json.load(f)
    mod = load(r["property"])
    sub = {s.name: s for s in mod.subs()}[r["sub"]]
    known = [k["id"] for k in core.load_known()["findings"]]
    with contextlib.redirect_stdout(io.StringIO()):
        for case in (r.get("before") or [])[:-1]:
            core.run_case(sub, case, core.Ctx(known))
        msg = core.run_case(sub, r["case"], core.Ctx(known))
    if msg is None:
        print("replay: property held on the saved case")
        return 0
    print(msg)
    print("VIOLATION property=%s replay=%s" % (r["property"], path))
    return 1


def main(argv):
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    prop, tier = argv[0], argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    mod = load(prop)
    known = core.load_known()
    mine = [k for k in known["findings"] if k["property"] == prop]
    known_ids = [k["id"] for k in known["findings"]]
    out = []
    # listed findings: show each that is still there
    witnesses = getattr(mod, "WITNESS", {})
    for k in mine:
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                still = witnesses[k["id"]]()
            except Exception:  # noqa: BLE001  (the checks below judge a changed behaviour)
                still = False
        if still:
            out.append("KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"], k["what"]))
    subs = mod.subs()
    only = os.environ.get("PBT_ONLY")
    if only:
        subs = [s for s in subs if only in s.name]
    names = [s.name for s in subs]
    assert len(set(names)) == len(names), "duplicate sub names"
    _SUBS.update({s.name: s for s in subs})
    jobs = [(prop, s.name, tier, seed, known_ids) for s in subs]
    workers = int(os.environ.get("PBT_JOBS", "8"))
    results = []
    if workers > 1 and len(jobs) > 1:
        with concurrent.futures.ProcessPoolExecutor(min(workers, len(jobs)), mp_context=mp.get_context("fork")) as pool:
            for f in concurrent.futures.as_completed([pool.submit(_work, j) for j in jobs]):
                results.append(f.result())  # BrokenProcessPool: a worker died, which ends the check with exit 2
    else:
        results = [_work(j) for j in jobs]
    results.sort(key=lambda r: names.index(r["sub"]))
    errs = [r for r in results if r["err"]]
    fails = [r for r in results if r["fail"]]
    os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
    for r in fails:
        case, msg = r["fail"]
        rec = {"property": prop, "sub": r["sub"], "message": msg, "case": case, "seed": seed, "tier": tier, **({"before": r["before"]} if r.get("before") else {})}
        h = hashlib.sha256(json.dumps([r["sub"], case], sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(core.VERIF, "replays", "%s-%s-%s.json" % (prop, "".join(c if c.isalnum() else "_" for c in r["sub"]), h))
        with open(path, "w") as f:
            json.dump(rec, f, indent=1)
        out.append("%s: %s\n  case: %s" % (r["sub"], msg, core.short(case, 600)))
        out.append("VIOLATION property=%s replay=%s" % (prop, path))
    samples = []
    for r in results:
        samples.extend(r["samples"])
    if len(samples) > 24:
        step = len(samples) / 24.0
        samples = [samples[int(i * step)] for i in range(24)]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in results),
            "distinct_nontrivial": sum(r["nontrivial"] for r in results),
            "rule": mod.RULE,
            "samples": samples,
            "per_check": {r["sub"]: {"cases": r["evaluations"], "nontrivial": r["nontrivial"], "labels": r["labels"],
                                     "skipped_for_time": r["skipped"], "wall_s": r["wall"]} for r in results},
            "known_finding_matches": {k: sum(r["kf_hits"].get(k, 0) for r in results)
                                      for k in sorted({k for r in results for k in r["kf_hits"]})},
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails),
    }
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for line in out:
        print(line)
    for r in errs:
        print("HARNESS ERROR in %s:\n%s" % (r["sub"], r["err"]), file=sys.stderr)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1f s" % (
        prop, tier, seed, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], len(fails), ev["wall_s"]))
    if fails:
        return 1
    return 2 if errs else 0


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:  # noqa: BLE001
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
