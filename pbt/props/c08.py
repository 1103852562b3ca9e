"""C08: the limit-distribution storage against a dict model, over generated histories with re-opening."""
import os
import threading

from hypothesis import strategies as st
from pysatl_criterion.persistence.models.limit_distribution import CriticalValueQuery, LimitDistributionModel
from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage

from pbt import gen
from pbt import store as S
from pbt.core import Sub, Violation, isolated

TECHNIQUE = "stateful model-based testing of storage histories against a dict model, with re-opening from disk and failing transactions"
NOTE = ("Random histories (up to 25 operations) over colliding keys on a real sqlite file; the model is a dict keyed by the primary key with "
        "values rounded to 32 bits. Two storage objects may be open on the same file; some histories run in threads on separate criteria (each such history in a child process); "
        "bulk operations of up to 1200 records.")
RULE = ("A history is a list of insert / bulk insert / failing bulk insert / delete / re-open / query operations over colliding keys; after "
        "each write the touched keys and at the end every key is queried all ways. Non-trivial = at least two writes of which two touch keys "
        "differing in one component or one key twice.")
ASSUMPTIONS = ["sqlite back end", "parameter lists hold floats (keys are their JSON text)",
               "an exact query that matches several experiments may return any of them; a deletion removes all of them"]


def ops():
    rec = S.record()
    key = st.one_of(S.keys(), S.narrow(), S.narrow())
    err = st.sampled_from([0, 0, 1, 2, 40])
    op = st.one_of(
        st.tuples(st.just("insert"), rec), st.tuples(st.just("insert"), rec), st.tuples(st.just("bulk"), st.lists(rec, max_size=5)),
        st.tuples(st.just("badbulk"), st.lists(rec, min_size=1, max_size=4)),
        st.tuples(st.just("delete"), key), st.tuples(st.just("reopen"), st.none()), st.tuples(st.just("switch"), st.none()), st.tuples(st.just("switch"), st.none()),
        st.tuples(st.just("cv"), st.tuples(st.integers(0, 5), st.sampled_from(S.SIZES), err).map(list)),
        st.tuples(st.just("bulkget"), st.tuples(st.lists(st.integers(0, 5), max_size=5), st.sampled_from(S.SIZES), err).map(list)),
    ).map(list)
    return st.fixed_dictionaries({"ops": st.lists(op, min_size=1, max_size=25), "disk": st.booleans()})


def view(m, ctx, what):
    ctx.require(isinstance(m, LimitDistributionModel), "%s returned %r", what, type(m))
    ctx.require(isinstance(m.criterion_parameters, list) and isinstance(m.results_statistics, list), "%s: record fields are not lists", what)
    return (S.pk(m), tuple(float(v) for v in m.results_statistics))


def check_exact(s, d, key, ctx):
    m0 = S.model([key, []])
    want = [r for k, r in d.items() if k[1:] == S.pk(m0)[1:]]
    what = "get_data%s" % (S.pk(m0)[1:],)
    got = ctx.call(what, s.get_data, S.exact(m0))
    if not want:
        ctx.require(got is None, "%s returned %s although nothing is stored under that key", what, got)
    else:
        ctx.require(got is not None, "%s returned nothing although %s is stored", what, want[0])
        ctx.require(view(got, ctx, what) in want, "%s returned %s, stored %s", what, got, want)


def check_cv(s, d, arg, ctx):
    c, size, err = S.CODES[arg[0]], arg[1], arg[2]
    want = S.matches(d, c, size, err)
    what = "get_data_for_cv(%r, %d, %d)" % (c, size, err)
    got = ctx.call(what, s.get_data_for_cv, CriticalValueQuery(c, size, err))
    if not want:
        ctx.require(got is None, "%s returned %s although nothing matches", what, got)
        return
    ctx.require(got is not None, "%s returned nothing although %s matches", what, want[0])
    g = view(got, ctx, what)
    ctx.require(g in want, "%s returned %s, which is not a stored matching record", what, g)
    ctx.require(g[0][4] == max(r[0][4] for r in want), "%s returned count %d although %d is stored", what, g[0][4], max(r[0][4] for r in want))


def check_bulk(s, d, arg, ctx):
    codes, size, err = [S.CODES[i] for i in arg[0]], arg[1], arg[2]
    what = "get_bulk_data(%r, %d, %d)" % (codes, size, err)
    got = ctx.call(what, s.get_bulk_data, list(codes), size, err)
    seen = sorted(m.criterion_code for m in got)
    want = sorted(c for c in set(codes) if S.matches(d, c, size, err))
    ctx.require(seen == want, "%s returned records for %s, stored ones exist for %s", what, seen, want)
    for m in got:
        g = view(m, ctx, what)
        w = S.matches(d, m.criterion_code, size, err)
        ctx.require(g in w and g[0][4] == max(r[0][4] for r in w), "%s returned %s, best stored %s", what, g, w)


def history(case, ctx):
    with S.scratch() as tmp:
        url = "sqlite:///" + os.path.join(tmp, "x.db") if case["disk"] else "sqlite:///:memory:"
        s = AlchemyLimitDistributionStorage(url)
        ctx.call("init", s.init)
        handles = [s]
        try:
            run(case, handles, url, ctx)
        finally:
            for s in handles:
                s.engine.dispose()


def run(case, handles, url, ctx):
    d, touched = {}, []
    s = handles[0]
    for name, arg in case["ops"]:
        new = len(touched)
        if name == "insert":
            m = S.model(arg)
            keep = (S.content(m, False))
            ctx.call("insert_data", s.insert_data, m)
            ctx.require(S.content(m, False) == keep, "insert_data changed the record it was given")
            d[S.pk(m)] = S.content(m)
            touched.append(arg[0])
            check_exact(s, d, arg[0], ctx)
        elif name == "bulk":
            ms = [S.model(r) for r in arg]
            ctx.call("insert_bulk_data", s.insert_bulk_data, list(ms))
            for m in ms:
                d[S.pk(m)] = S.content(m)
            touched += [r[0] for r in arg]
            for r in arg:
                check_exact(s, d, r[0], ctx)
        elif name == "badbulk":
            ms = [S.model(r) for r in arg]
            ms[-1].results_statistics = ["not a number"]
            try:
                s.insert_bulk_data(ms)
            except Exception:  # noqa: BLE001
                pass
            else:
                raise Violation("insert_bulk_data accepted a record whose values are not numbers")
            ctx.label("failed bulk")
            touched += [r[0] for r in arg]
            for r in arg:
                check_exact(s, d, r[0], ctx)
        elif name == "delete":
            m0 = S.model([arg, []])
            ctx.call("delete_data", s.delete_data, S.exact(m0))
            for k in [k for k in d if k[1:] == S.pk(m0)[1:]]:
                ctx.label("deleted")
                del d[k]
            touched.append(arg)
            check_exact(s, d, arg, ctx)
        elif name == "reopen":
            if case["disk"]:
                s.engine.dispose()
                i = handles.index(s)
                s = AlchemyLimitDistributionStorage.create_safe(url)
                ctx.require(s is not None, "the database could not be re-opened")
                handles[i] = s
                ctx.label("reopened")
            else:
                ctx.call("init", s.init)
        elif name == "switch":
            # another storage object on the same database file, open at the same time, takes over
            if case["disk"]:
                if len(handles) == 1:
                    handles.append(AlchemyLimitDistributionStorage.create_safe(url))
                    ctx.require(handles[1] is not None, "the database could not be opened a second time")
                s = handles[1 - handles.index(s)]
                ctx.label("two handles")
        elif name == "cv":
            check_cv(s, d, arg, ctx)
        else:
            check_bulk(s, d, arg, ctx)
        for k in touched[new:] if len(handles) > 1 else []:
            # both storage objects see the same records after every write
            for h in handles:
                check_exact(h, d, k, ctx)
                check_cv(h, d, [k[1], k[3], 0], ctx)
                check_bulk(h, d, [[k[1]], k[3], 0], ctx)
    ctx.nt(any(a is not b and sum(x != y for x, y in zip(a, b)) <= 1 for i, a in enumerate(touched) for b in touched[:i]))
    if case["disk"] and len(handles) == 1:
        s.engine.dispose()
        handles[0] = s = AlchemyLimitDistributionStorage.create_safe(url)
        ctx.require(s is not None, "the database could not be re-opened")
    uniq = []
    for k in touched:
        if k not in uniq:
            uniq.append(k)
    for k in uniq:
        check_exact(s, d, k, ctx)
        for e in (0, 1):
            check_cv(s, d, [k[1], k[3], e], ctx)
    sizes = sorted({k[3] for k in uniq})[:3]
    for n in sizes:
        check_bulk(s, d, [list(range(len(S.CODES))), n, 0], ctx)
        check_bulk(s, d, [list(range(len(S.CODES))), n, 1], ctx)


def large_cases():
    return st.fixed_dictionaries({"n": st.sampled_from([40, 99, 100, 101, 256, 499, 500, 501, 1000, 1001, 1200]), "bad": st.sampled_from([None, None, 0.0, 0.3, 0.9, 1.0]),
                                  "codes": st.sampled_from([1, 7, 600, 1200]), "dup": st.booleans(), "seed": st.integers(0, 2**31 - 1), "size": st.integers(5, 8), "err": st.integers(0, 2)})


def large(case, ctx):
    """Bulk operations over hundreds of records and codes: all of them or, when one record is refused, none."""
    r = gen.rng(case["seed"])
    with S.scratch() as tmp:
        s = AlchemyLimitDistributionStorage("sqlite:///" + os.path.join(tmp, "x.db"))
        ctx.call("init", s.init)
        try:
            ms, d = [], {}
            for i in range(case["n"]):
                k = int(r.randint(0, max(1, i))) if case["dup"] and i % 5 == 4 else i
                ms.append(LimitDistributionModel(1 + k % 3, "CODE%d" % (k % case["codes"]), [float(k // 50)], 5 + k % 5, 100 + 3 * k, [float(i), 0.5]))
            first = ms[0]
            if case["bad"] is not None:
                s.insert_data(first)
                d[S.pk(first)] = S.content(first)
                j = min(len(ms) - 1, int(case["bad"] * len(ms)))
                ms[j] = LimitDistributionModel(9, "BROKEN", [1.0], 5, 1, ["not a number"])
                try:
                    s.insert_bulk_data(list(ms))
                except Exception:  # noqa: BLE001
                    pass
                else:
                    raise Violation("insert_bulk_data accepted a record whose values are not numbers")
            else:
                ctx.call("insert_bulk_data", s.insert_bulk_data, list(ms))
                for m in ms:
                    d[S.pk(m)] = S.content(m)
            for m in [m for m in ms if m.experiment_id != 9][:: max(1, len(ms) // 60)]:
                got, want = s.get_data(S.exact(m)), [v for k, v in d.items() if k[1:] == S.pk(m)[1:]]
                ctx.require((got is None) == (not want) and (got is None or view(got, ctx, "get_data") in want), "after a bulk insert of %d records%s: get_data%s gives %s, stored %s",
                            len(ms), " that was refused" if case["bad"] is not None else "", S.pk(m)[1:], got, want)
            codes = ["CODE%d" % i for i in range(case["codes"] + 3)]
            r.shuffle(codes)
            best = {}
            for (e, c, p, n, count), v in d.items():
                if abs(n - case["size"]) <= case["err"]:
                    best[c] = max(best.get(c, 0), count)
            got = {m.criterion_code: m.monte_carlo_count for m in ctx.call("get_bulk_data", s.get_bulk_data, codes, case["size"], case["err"])}
            ctx.require(got == best, "get_bulk_data of %d codes: %d records, %d expected; differing: %s", len(codes), len(got), len(best),
                        sorted(set(got.items()) ^ set(best.items()))[:4])
            ctx.nt()
        finally:
            s.engine.dispose()


def thread_cases():
    op = st.tuples(st.sampled_from(["insert", "insert", "bulk", "delete", "get", "cv"]), st.integers(0, 3), st.integers(0, 20)).map(list)
    return st.fixed_dictionaries({"threads": st.lists(st.lists(op, min_size=3, max_size=12), min_size=2, max_size=4), "shared": st.booleans()})


def threads(case, ctx):
    """Histories run at the same time on separate criteria do not disturb each other."""
    with S.scratch() as tmp:
        url = "sqlite:///" + os.path.join(tmp, "x.db")
        first = AlchemyLimitDistributionStorage(url)
        ctx.call("init", first.init)
        made = [first] if case["shared"] else [first] + [AlchemyLimitDistributionStorage(url) for _ in case["threads"][1:]]
        models, problems, busy = [{} for _ in case["threads"]], [], []
        gate = threading.Barrier(len(case["threads"]))

        def work(t, ops):
            s, d, code = made[t % len(made)], models[t], "C%d" % t
            try:
                gate.wait(30)
                for name, k, v in ops:
                    m = LimitDistributionModel(1, code, [float(k)], 5, 100 + k, [float(v), float(t)])
                    if name == "insert":
                        s.insert_data(m)
                        d[k] = [float(v), float(t)]
                    elif name == "bulk":
                        s.insert_bulk_data([LimitDistributionModel(1, code, [float(j)], 5, 100 + j, [float(v), float(t)]) for j in range(k + 1)])
                        d.update({j: [float(v), float(t)] for j in range(k + 1)})
                    elif name == "delete":
                        s.delete_data(S.exact(m))
                        d.pop(k, None)
                    elif name == "get":
                        g = s.get_data(S.exact(m))
                        if (None if g is None else list(g.results_statistics)) != d.get(k):
                            problems.append("thread %d read %s, its last write was %s" % (t, g, d.get(k)))
                    else:
                        g = s.get_data_for_cv(CriticalValueQuery(code, 5, 0))
                        if (None if g is None else g.monte_carlo_count - 100) != (max(d) if d else None):
                            problems.append("thread %d: best record %s, it stored %s" % (t, g, sorted(d)))
            except Exception as e:  # noqa: BLE001
                if "locked" in str(e) or isinstance(e, threading.BrokenBarrierError):
                    busy.append(e)  # sqlite gave up waiting for another writer
                else:
                    problems.append("thread %d: %s: %s" % (t, type(e).__name__, e))
        ts = [threading.Thread(target=work, args=(t, ops)) for t, ops in enumerate(case["threads"])]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        try:
            if busy:
                ctx.label("busy")
                return
            for t, d in enumerate(models):
                for k in range(4):
                    g = first.get_data(S.exact(LimitDistributionModel(1, "C%d" % t, [float(k)], 5, 100 + k, [])))
                    if (None if g is None else list(g.results_statistics)) != d.get(k):
                        problems.append("at the end the key %d of thread %d holds %s, its last write was %s" % (k, t, g, d.get(k)))
            ctx.nt(sum(1 for d in models if d) > 1)
            ctx.require(not problems, "%d threads on %s: %s", len(models), "one storage" if case["shared"] else "separate storages", "; ".join(problems[:3]))
        finally:
            for s in made:
                s.engine.dispose()


def unavailable(case, ctx):
    """An unusable database is reported, not silently replaced."""
    with S.scratch() as tmp:
        url = "sqlite:///" + os.path.join(tmp, *case["path"], "x.db")
        got = ctx.call("create_safe", AlchemyLimitDistributionStorage.create_safe, url)
        ctx.require(got is None, "create_safe returned a storage for a directory that does not exist")
        ctx.raises("init", (ConnectionError,), AlchemyLimitDistributionStorage(url).init)
        ctx.nt()


def subs():
    return [Sub("history", ops, history, 500, 12000),
            Sub("history2", ops, history, 500, 12000),
            Sub("large", large_cases, large, 24, 300),
            Sub("threads", thread_cases, isolated(threads), 60, 1500),
            Sub("unavailable", lambda: st.fixed_dictionaries({"path": st.lists(st.sampled_from(["a", "b"]), min_size=1, max_size=3)}), unavailable, 10, 30)]
