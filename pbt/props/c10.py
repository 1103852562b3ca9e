"""C10: the critical-value loader against a model of the local and remote stores, with injected faults."""
from hypothesis import strategies as st
from pysatl_criterion.hypothesis_testing.critical_values.loader.remote_loader import CriticalValueLoader
from pysatl_criterion.persistence.models.limit_distribution import CriticalValueQuery
from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage

from pbt import store as S
from pbt.core import Sub, Violation

TECHNIQUE = "stateful model-based testing of loads over two stores with injected insert failures and an absent remote"
NOTE = ("Random contents of local and remote stores and random load histories; both with the real sqlite storage and with a reference dict "
        "storage, so loader faults are seen independently of storage faults.")
RULE = ("Local and remote contents over colliding keys, then up to 6 operations: load, load_bulk, toggling local insert failures. "
        "Non-trivial = some operation needs the remote for one code while another code (or an earlier operation) is served locally.")
ASSUMPTIONS = ["a failing local insert refuses the whole insert (as the storage's single transaction does)"]


def cases():
    rec = st.tuples(st.tuples(st.integers(1, 2), st.integers(0, 4), st.integers(0, 1), st.sampled_from([5, 6, 7, 10]), st.sampled_from([1, 100, 104, 107, 1000])).map(list), S.vals()).map(list)
    err = st.sampled_from([0, 0, 1, 3])
    op = st.one_of(
        st.tuples(st.just("load"), st.tuples(st.integers(0, 5), st.sampled_from([5, 6, 10]), err).map(list)),
        st.tuples(st.just("bulk"), st.tuples(st.lists(st.integers(0, 5), max_size=6), st.sampled_from([5, 6, 10]), err).map(list)),
        st.tuples(st.just("bulk"), st.tuples(st.just([0, 1, 2, 3, 4, 5]), st.sampled_from([5, 6, 10]), err).map(list)),
        st.tuples(st.just("fail"), st.booleans()),
        st.tuples(st.just("remote+"), rec),
    ).map(list)
    return st.fixed_dictionaries({
        "local": st.one_of(st.lists(rec, max_size=5), st.lists(rec, min_size=3, max_size=6)),
        "remote": st.one_of(st.lists(rec, max_size=5), st.lists(rec, min_size=6, max_size=14)), "absent": st.sampled_from([False, False, False, True]),
        "ops": st.lists(op, min_size=2, max_size=6)})


def seen(m):
    return (S.pk(m), tuple(float(v) for v in m.results_statistics))


def make(kind):
    rounded = kind == "sqlite"

    def fresh():
        if kind == "dict":
            return S.DictStorage()
        inner = AlchemyLimitDistributionStorage("sqlite:///:memory:")
        inner.init()
        return S.Wrapped(inner)

    def close(s):
        if kind == "sqlite":
            s.inner.engine.dispose()

    def dump(s, universe, ctx):
        out = {}
        if kind == "dict":
            for m in s.d.values():
                out[S.pk(m)] = seen(m)
            return out
        from pysatl_criterion.persistence.sqlalchemy.models.limit_distribution_orm import LimitDistributionORM
        with s.inner.Session() as ses:
            for o in ses.query(LimitDistributionORM).all():
                m = o.to_model()
                out[S.pk(m)] = seen(m)
        return out

    def check(case, ctx):
        local, remote = fresh(), fresh()
        try:
            body(case, ctx, local, remote)
        finally:
            close(local)
            close(remote)

    def body(case, ctx, local, remote):
        ld, rd = {}, {}
        for r in case["local"]:
            local.insert_data(S.model(r))
            ld[S.pk(S.model(r))] = S.content(S.model(r), rounded)
        for r in case["remote"]:
            remote.insert_data(S.model(r))
            rd[S.pk(S.model(r))] = S.content(S.model(r), rounded)
        absent = case["absent"]
        loader = CriticalValueLoader(local, None if absent else remote)
        served, fetched = False, False
        for name, arg in case["ops"]:
            if name == "fail":
                local.fail = arg
                continue
            if name == "remote+":
                if not absent:
                    remote.insert_data(S.model(arg))
                    rd[S.pk(S.model(arg))] = S.content(S.model(arg), rounded)
                continue
            remote.calls.clear()
            local.calls.clear()
            codes = [S.CODES[i] for i in (arg[0] if name == "bulk" else [arg[0]])]
            size, err = arg[1], arg[2]
            have = [c for c in codes if S.matches(ld, c, size, err)]
            missing = [c for c in codes if not S.matches(ld, c, size, err)]
            offer = {} if absent else {c: S.matches(rd, c, size, err) for c in missing if S.matches(rd, c, size, err)}
            what = "%s(%r, %d, %d)" % (name, codes, size, err)
            served = served or bool(have)
            fetched = fetched or bool(offer)
            res, error = None, None
            try:
                tol = (err,) if err or (size + len(codes)) % 2 else ()  # a tolerance of 0 is the default
                res = loader.load(codes[0], size, *tol) if name == "load" else loader.load_bulk(list(codes), size, *tol)
            except Exception as e:  # noqa: BLE001
                error = e
            if error is not None and not (local.fail and offer):
                raise Violation("%s raised %s: %s" % (what, type(error).__name__, error))
            failed = local.fail and bool(offer)
            if not missing:
                ctx.require(not any(c.startswith("get") for c in remote.calls), "%s asked the remote although everything is cached", what)
            ctx.require(not any(c.startswith(("insert", "delete")) for c in remote.calls), "%s wrote to the remote", what)
            ctx.require("delete" not in local.calls, "%s deleted local records", what)
            # what the local store must hold now
            now = dump(local, None, ctx)
            before = ld
            for k, v in before.items():
                ctx.require(now.get(k) == v, "%s changed the local record %s: %s -> %s", what, k, v, now.get(k))
            new = {k: v for k, v in now.items() if k not in before}
            if failed:
                ctx.label("failing insert")
                ctx.require(not new, "a refused insert left %s in the local store", new)
            else:
                ctx.require(sorted(k[1] for k in new) == sorted(offer), "%s cached records for %s, the remote has the missing %s", what,
                            sorted(k[1] for k in new), sorted(offer))
                for k, v in new.items():
                    best = max(r[0][4] for r in offer[k[1]])
                    ctx.require(v in offer[k[1]] and k[4] == best, "%s cached %s, the best remote record has count %d", what, v, best)
            ctx.require(dump(remote, None, ctx) == rd, "%s changed the remote store", what)
            # what it says
            if error is None and name == "load":
                ctx.require(res is True or res is False, "%s returned %r", what, res)
                ctx.require(res == bool(have or (offer and not failed)), "%s reported %s; local has it: %s, remote has it: %s, insert refused: %s",
                            what, res, bool(have), bool(offer), failed)
            if error is None and name == "bulk":
                ctx.require(res.requested_count == len(codes), "%s: requested_count %r", what, res.requested_count)
                ctx.require(res.already_cached_count == len(have), "%s: already_cached_count %r, local has %s", what, res.already_cached_count, have)
                ctx.require(res.newly_cached_count == len(new), "%s: newly_cached_count %r, %d records were added", what, res.newly_cached_count, len(new))
                want = sorted(c for c in missing if c not in offer)
                got = sorted(res.not_found_codes)
                ctx.require(got == want or (failed and set(want) <= set(got) <= set(missing)), "%s: not_found_codes %s, want %s", what, got, want)
            ld = now
            if error is None and not failed:
                for c in set(codes):
                    q = ctx.call("get_data_for_cv", local.get_data_for_cv, CriticalValueQuery(c, size, err))
                    ctx.require((q is not None) == (c in have or c in offer), "after %s the local store %s %s", what, "has" if q else "lacks", c)
        ctx.nt(served and fetched)
    return check


def subs():
    return [Sub("dict", cases, make("dict"), 1500, 40000), Sub("sqlite", cases, make("sqlite"), 400, 8000)]
