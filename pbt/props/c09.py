"""C09: the compressed float column round-trips and refuses malformed blobs."""
import json
import math
import struct
import threading

import numpy as np
from hypothesis import strategies as st
from pysatl_criterion.persistence.sqlalchemy.alchemy_decorator import CompressedFloatArray

from pbt import gen
from pbt.core import Sub, isolated

TECHNIQUE = "property-based round-trip testing and fault injection on encoded blobs"
NOTE = ("Random float lists (bit patterns included) through both precisions, and every truncation / header corruption of the blob; "
        "the reference rounding to 32 bits is struct's, independent of the code's.")
RULE = ("Lists of floats built from raw bit patterns, special values and ordinary numbers, of length 0 to some thousands, written in one "
        "precision and read by a column of the same or the other; or a valid blob with a truncation, a changed version, type or length. "
        "Non-trivial = at least one value that is special (inf, nan, -0.0, subnormal) or changes when rounded to 32 bits, or a corrupted blob.")
ASSUMPTIONS = ["bytes appended after a complete blob are not part of the property",
               "a truncated blob of an empty list may read as empty: nothing is lost"]


def bits(v):
    return struct.pack("<d", v)


def to32(v):
    if math.isnan(v):
        return v
    try:
        return struct.unpack("<f", struct.pack("<f", v))[0]
    except OverflowError:
        return math.copysign(math.inf, v)


def same(a, b):
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    return bits(a) == bits(b)


def values(max_size=40):
    f = st.one_of(st.floats(), st.floats(width=32), st.floats(-10, 10), st.sampled_from(
        [0.0, -0.0, math.inf, -math.inf, math.nan, 5e-324, -5e-324, 1e-45, 1.1754943e-38, 3.4028235e38, 3.40282357e38, 1.7e308, 0.1, 1 / 3]))

    def seeded(t):
        s, n = t
        return [float(v) for v in gen.rng(s).standard_cauchy(n)]
    return st.one_of(st.lists(f, max_size=max_size), st.lists(f, max_size=max_size),
                     st.tuples(st.integers(0, 2**31 - 1), st.integers(0, 3000)).map(seeded))


def huge():
    """Lengths around the powers of two a narrower length field would wrap at."""
    return st.fixed_dictionaries({"s": st.integers(0, 2**31 - 1), "n": st.sampled_from([255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70000, 131073]),
                                  "w32": st.booleans(), "r32": st.booleans(), "kind": st.sampled_from(["list", "array"])})


def check_huge(c, ctx):
    roundtrip(dict(c, v=[float(v) for v in gen.rng(c["s"]).standard_cauchy(c["n"])]), ctx)


def enc(vs):
    return [v if math.isfinite(v) else str(v) for v in vs]


def dec(vs):
    return [float(v) for v in vs]


def case(max_size=40):
    return st.fixed_dictionaries({"v": values(max_size).map(enc), "w32": st.booleans(), "r32": st.booleans(),
                                  "kind": st.sampled_from(["list", "tuple", "array", "json"])})


def roundtrip(c, ctx):
    vs = dec(c["v"])
    w, r = CompressedFloatArray(c["w32"]), CompressedFloatArray(c["r32"])
    arg = {"list": list(vs), "tuple": tuple(vs), "array": np.array(vs, float), "json": json.dumps(vs)}[c["kind"]]
    blob = ctx.call("process_bind_param", w.process_bind_param, arg, None)
    ctx.require(isinstance(blob, bytes), "encoded value is %r, not bytes", type(blob))
    if c["kind"] == "list":
        ctx.require(len(arg) == len(vs) and all(same(a, b) for a, b in zip(arg, vs)), "encoding changed its argument")
    want = [to32(v) for v in vs] if c["w32"] else vs
    got = ctx.call("process_result_value", r.process_result_value, blob, None)
    ctx.require(isinstance(got, list) and all(type(g) is float for g in got), "decoded value is not a list of floats: %r", type(got))
    ctx.require(len(got) == len(want), "decoded %d of %d values", len(got), len(want))
    for i, (g, x) in enumerate(zip(got, want)):
        ctx.require(same(g, x), "value %d of %d: wrote %r in %s mode, read %r instead of %r", i, len(want), vs[i],
                    "32-bit" if c["w32"] else "64-bit", g, x)
    ctx.nt(any(not math.isfinite(v) or same(v, -0.0) or (0 < abs(v) < 1e-37) or not same(to32(v), v) for v in vs))
    # a second round trip changes nothing more
    again = ctx.call("process_result_value", r.process_result_value, ctx.call("process_bind_param", w.process_bind_param, got, None), None)
    ctx.require(len(again) == len(got) and all(same(a, b) for a, b in zip(again, got)), "second round trip is not the identity")


def legacy(c, ctx):
    vs = [v for v in dec(c["v"])]
    col = CompressedFloatArray(c["r32"])
    text = json.dumps(vs)
    got = ctx.call("process_result_value on text", col.process_result_value, text, None)
    ctx.require(len(got) == len(vs) and all(same(float(a), b) for a, b in zip(got, vs)), "legacy JSON text %s read as %s", text[:200], str(got)[:200])
    ctx.require(col.process_bind_param(None, None) is None and col.process_result_value(None, None) is None, "absent value does not stay absent")
    ctx.nt(len(vs) > 0)


def corrupt(c, ctx):
    vs = dec(c["v"])
    blob = CompressedFloatArray(c["w32"]).process_bind_param(vs, None)
    col = CompressedFloatArray(c["r32"])
    how, k = c["how"], c["k"]
    if how == "truncate":
        bad = blob[:k % len(blob)]
        if not vs and len(bad) > 6:
            return  # an empty array has no payload to lose
    elif how == "version":
        ver = (blob[0] + 1 + k % 254) % 256
        bad = bytes([ver]) + blob[1:]
    elif how == "dtype":
        code = [x for x in range(256) if x not in (1, 2)][k % 254]
        bad = blob[:1] + bytes([code]) + blob[2:]
    elif how == "otherdtype":
        if not vs:
            return
        bad = blob[:1] + bytes([1 if blob[1] == 2 else 2]) + blob[2:]
    else:
        n = len(vs)
        wrong = [x for x in (n + 1 + k % 5, max(n - 1 - k % 5, 0), 2 * n, 0, 2**32 - 1) if x != n]
        bad = blob[:2] + struct.pack("<I", wrong[k % len(wrong)]) + blob[6:]
    ctx.nt()
    ctx.label(how)
    try:
        got = col.process_result_value(bad, None)
    except MemoryError:
        return
    except Exception:  # noqa: BLE001  any error is a refusal
        return
    ctx.require(False, "%s: corrupted blob (%d of %d bytes, %d values) was read as %s", how, len(bad), len(blob), len(vs), str(got)[:200])


def thread_cases():
    one = st.fixed_dictionaries({"s": st.integers(0, 2**31 - 1), "n": st.sampled_from([1, 2, 50, 2000, 2000, 60000])})
    return st.fixed_dictionaries({"threads": st.lists(one, min_size=2, max_size=4), "w32": st.booleans(), "reps": st.integers(3, 40)})


def threads(c, ctx):
    """One column object serves every session, whatever thread it runs in."""
    col, problems, gate = CompressedFloatArray(c["w32"]), [], threading.Barrier(len(c["threads"]))
    ctx.nt(sum(1 for t in c["threads"] if t["n"] > 1) > 1)

    def work(t):
        vs = [float(v) for v in gen.rng(t["s"]).standard_cauchy(t["n"])]
        want = [to32(v) for v in vs] if c["w32"] else vs
        gate.wait(30)
        try:
            for _ in range(c["reps"]):
                got = col.process_result_value(col.process_bind_param(vs, None), None)
                if got != want:
                    problems.append("%d values written, other values read" % len(vs))
                    return
        except Exception as e:  # noqa: BLE001
            problems.append("%s: %s" % (type(e).__name__, e))
    ts = [threading.Thread(target=work, args=(t,)) for t in c["threads"]]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    ctx.require(not problems, "%d threads share a column: %s", len(ts), "; ".join(problems[:3]))


def subs():
    cor = lambda: st.fixed_dictionaries({"v": values(12).map(enc), "w32": st.booleans(), "r32": st.booleans(),  # noqa: E731
                                         "how": st.sampled_from(["truncate", "version", "dtype", "otherdtype", "length"]), "k": st.integers(0, 10**6)})
    return [Sub("roundtrip", case, roundtrip, 1500, 40000), Sub("long", lambda: case(400), roundtrip, 300, 4000),
            Sub("threads", thread_cases, isolated(threads), 25, 400), Sub("huge", huge, check_huge, 12, 300), Sub("legacy", case, legacy, 500, 10000), Sub("corrupt", cor, corrupt, 3000, 60000)]
