"""Harness shared by every property: case generation with Hypothesis, oracles, shrinking, evidence.

A property is a list of `Sub`s.  A Sub has a Hypothesis strategy producing JSON-able cases and a check
function `check(case, ctx)` which raises `Violation` when the code under test breaks the property on that
case.  Everything random comes from the strategy, so a case replays outside Hypothesis from its JSON alone.
Any other exception raised by a check function is an error of the harness (exit 2), never a violation:
calls into the code under test go through `ctx.call`, which turns an unexpected exception of the code under
test into a Violation.
"""
import collections
import hashlib
import json
import logging
import math
import os
import signal
import threading
import time
import traceback
import warnings

warnings.filterwarnings("ignore")
logging.disable(logging.CRITICAL)
import hypothesis  # noqa: E402
import numpy as np  # noqa: E402
from hypothesis import HealthCheck, Phase, given, settings  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(VERIF, "known_findings.json")


class Violation(Exception):
    """The property is broken on this case."""


class Hang(BaseException):
    """One case ran for CASE_LIMIT seconds (cases take well below a tenth of it); not an Exception, so that no handler swallows it."""


CASE_LIMIT = 150


def _hang(signum, frame):
    raise Hang("no result after %d s" % CASE_LIMIT)


def alarm(seconds):
    if threading.current_thread() is threading.main_thread():
        signal.signal(signal.SIGALRM, _hang)
        signal.setitimer(signal.ITIMER_REAL, seconds)


def load_known():
    try:
        with open(KNOWN_FILE) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"findings": [], "fixed": []}


class Ctx:
    """Counters and helpers handed to each check function."""

    def __init__(self, known_ids=()):
        self.known = set(known_ids)
        self.evaluations = 0
        self.nontrivial = set()
        self.samples = []
        self.labels = {}
        self.kf_hits = {}
        self._case_nt = False
        self.hung = False

    # -- classification
    def nt(self, cond=True):
        """Mark the current case as non-trivial."""
        if cond:
            self._case_nt = True

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    # -- known findings
    def kf(self, kid):
        """True if `kid` is a listed known finding (then the caller must still match its exact defect model)."""
        return kid in self.known

    def kf_hit(self, kid):
        self.kf_hits[kid] = self.kf_hits.get(kid, 0) + 1

    # -- calling the code under test
    def call(self, what, fn, *a, **k):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    return fn(*a, **k)
        except (Violation, KeyboardInterrupt, MemoryError, Hang):
            raise
        except BaseException as e:  # noqa: BLE001  (SystemExit from the code under test included)
            tb = traceback.extract_tb(e.__traceback__)
            where = "%s:%s" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else "?"
            raise Violation("%s raised %s: %s (%s)" % (what, type(e).__name__, str(e)[:200], where)) from None

    def raises(self, what, excs, fn, *a, **k):
        """The call must raise one of `excs`."""
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    r = fn(*a, **k)
        except excs:
            return
        except Hang:
            raise
        except BaseException as e:  # noqa: BLE001
            raise Violation("%s raised %s: %s instead of %s" % (what, type(e).__name__, str(e)[:120], excs)) from None
        raise Violation("%s returned %s instead of raising %s" % (what, short(r), excs))

    def require(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    def equal(self, got, want, what):
        if not same(got, want):
            raise Violation("%s: got %s, want %s" % (what, short(got), short(want)))

    def close(self, got, want, what, rtol=1e-8, atol=1e-10):
        if not close(got, want, rtol, atol):
            raise Violation("%s: got %s, want %s" % (what, short(got), short(want)))


def short(x, n=300):
    try:
        s = repr(x.tolist() if isinstance(x, np.ndarray) else x)
    except Exception as e:  # noqa: BLE001
        s = "<%s: repr failed %s>" % (type(x).__name__, e)
    return s if len(s) <= n else s[:n] + "..."


def same(a, b):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    try:
        return bool(a == b)
    except Exception:  # noqa: BLE001
        return False


def isnum(x):
    """A real scalar number (python or numpy), or a 0-d / 1-element array holding one."""
    try:
        a = np.asarray(x)
        return a.size == 1 and a.dtype.kind in "fiub"
    except Exception:  # noqa: BLE001
        return False


def tofloat(x):
    return float(np.asarray(x).reshape(-1)[0])


def close(a, b, rtol=1e-8, atol=1e-10):
    """Equality of numbers / flat sequences of numbers up to tolerance; NaN equals NaN, inf equals same inf."""
    if isinstance(b, (list, tuple, np.ndarray)) and np.ndim(b) >= 1:
        try:
            if len(a) != len(b):
                return False
        except TypeError:
            return False
        return all(close(x, y, rtol, atol) for x, y in zip(a, b))
    if not isnum(a) or not isnum(b):
        return False
    a, b = tofloat(a), tofloat(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def isolated(check):
    """Run the check of a case in a child process: code that kills its process is a violation, not the end of the harness."""
    def run(case, ctx):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            out, code = {}, 0
            try:
                os.close(r)
                signal.setitimer(signal.ITIMER_REAL, 0)
                mine = Ctx(ctx.known)
                try:
                    check(case, mine)
                except Violation as v:
                    out["violation"] = str(v) or "violated"
                except Exception as e:  # noqa: BLE001
                    out["violation" if under_test(e) else "error"] = "%s: %s (%s)" % (type(e).__name__, str(e)[:200], under_test(e) or traceback.format_exc())
                out.update(nt=mine._case_nt, labels=mine.labels, kf=mine.kf_hits)
                with os.fdopen(w, "w") as f:
                    json.dump(out, f)
            except BaseException:  # noqa: BLE001
                code = 70
            os._exit(code)
        os.close(w)
        try:
            with os.fdopen(r) as f:
                text = f.read()
        except BaseException:  # the case hangs
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            raise
        status = os.waitpid(pid, 0)[1]
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) != signal.SIGKILL:
            raise Violation("the process died of %s" % signal.Signals(os.WTERMSIG(status)).name)
        if status or not text:
            raise RuntimeError("isolated case ended with status %d" % status)
        out = json.loads(text)
        ctx.nt(out["nt"])
        for k, v in out["labels"].items():
            ctx.labels[k] = ctx.labels.get(k, 0) + v
        for k, v in out["kf"].items():
            ctx.kf_hits[k] = ctx.kf_hits.get(k, 0) + v
        if "violation" in out:
            raise Violation(out["violation"])
        if "error" in out:
            raise RuntimeError(out["error"])
    return run


class Sub:
    """One generated check: name, strategy thunk, check(case, ctx), case counts for the two tiers."""

    def __init__(self, name, strategy, check, quick=200, thorough=None, budget=None, enum=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.budget = budget or {"quick": 100, "thorough": 1500}
        self.enum = enum  # optional thunk: list of cases that are always tried first (exhaustive part)


def case_key(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:16]


def under_test(e):
    """Where in the code under test an exception passed through (None: it did not)."""
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        if "/src/pysatl_criterion/" in f.filename.replace(os.sep, "/"):
            return "%s:%s" % (os.path.basename(f.filename), f.lineno)
    return None


def run_case(sub, case, ctx):
    """Evaluate one case; returns None or the violation message."""
    ctx._case_nt = False
    ctx.evaluations += 1
    alarm(CASE_LIMIT)
    try:
        sub.check(case, ctx)
        msg = None
    except Hang as h:
        msg = "the code under test gave " + str(h)
        ctx.hung = ctx._case_nt = True
    except Violation as v:
        msg = str(v) or "violated"
        ctx._case_nt = True
    except Exception as e:  # noqa: BLE001
        where = under_test(e)
        if where is None:
            raise
        msg = "the code under test raised %s: %s (%s) where the check calls it on valid input" % (type(e).__name__, str(e)[:200], where)
        ctx._case_nt = True
    finally:
        alarm(0)
    if ctx._case_nt:
        k = case_key(case)
        if k not in ctx.nontrivial:
            ctx.nontrivial.add(k)
            if len(ctx.samples) < 2:
                s = json.dumps(case, default=str)
                ctx.samples.append({"sub": sub.name, "case": case if len(s) < 700 else s[:700] + "..."})
    return msg


def run_sub(prop, sub, tier, seed, known_ids):
    """Run one Sub. Returns a dict with the counters and possibly a failure (case, message) or a harness error."""
    ctx = Ctx(known_ids)
    t0 = time.monotonic()
    limit = t0 + sub.budget[tier]
    state = {"fail": None, "err": None, "first": None, "skipped": 0, "history": collections.deque(maxlen=40), "before": None}

    def execute(case):
        if state["fail"] is None:
            state["history"].append(case)
        msg = run_case(sub, case, ctx)
        if msg is not None:
            state["fail"] = (case, msg)
            if state["first"] is None:
                state["first"] = time.monotonic()
                state["before"] = json.loads(json.dumps(list(state["history"])))
            raise Violation(msg)

    try:
        if sub.enum is not None:
            for case in sub.enum():
                try:
                    execute(case)
                except Violation:
                    break
        if state["fail"] is None and sub.strategy is not None:
            n = sub.quick if tier == "quick" else sub.thorough
            h = int.from_bytes(hashlib.sha256(("%s|%s|%d" % (prop, sub.name, seed)).encode()).digest()[:8], "big")

            @hypothesis.seed(h)
            @settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False, print_blob=False,
                      phases=[Phase.generate, Phase.shrink], suppress_health_check=list(HealthCheck))
            @given(sub.strategy())
            def test(case):
                now = time.monotonic()
                if state["first"] is None:
                    if now > limit:
                        state["skipped"] += 1
                        return
                elif ctx.hung or now > state["first"] + 30:  # shrinking budget
                    return
                execute(case)

            try:
                test()
            except Violation:
                pass
            except BaseException as e:  # noqa: BLE001
                # after the shrinking budget Hypothesis may call the test flaky; the saved case decides below
                if state["fail"] is None:
                    raise e
        if state["fail"] is not None:
            case, msg = state["fail"]
            case = json.loads(json.dumps(case))  # what the replay file will hold
            again = msg if ctx.hung else run_case(sub, case, Ctx(known_ids))
            # a failure that the case alone does not reproduce depends on the calls made before it: the replay file holds them too
            state["fail"] = (case, again) if again is not None else (state["before"][-1], "[depends on the calls made before] " + msg)
            if again is not None:
                state["before"] = None
    except BaseException:  # noqa: BLE001
        state["err"] = traceback.format_exc()
    return {"sub": sub.name, "evaluations": ctx.evaluations, "nontrivial": len(ctx.nontrivial), "samples": ctx.samples,
            "labels": ctx.labels, "kf_hits": ctx.kf_hits, "skipped": state["skipped"], "fail": state["fail"], "before": state["before"],
            "err": state["err"], "wall": round(time.monotonic() - t0, 2)}
