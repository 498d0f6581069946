"""
Property-based testing harness on top of Hypothesis.

A check module (checks/pNN.py) defines

    PROP   property id
    RULE   how cases are made and what makes one non-trivial
    SUBS   list of Sub: a generator (Hypothesis strategy of JSON-able cases) and a
           check function deciding the property for one case against an oracle.

One worker process runs one (sub, shard); the runner (check.py) aggregates.
Every random choice is made by Hypothesis, seeded by VERIF_SEED, sub and shard.
"""

import contextlib
import hashlib
import io
import json
import os
import resource
import signal
import sys
import time
import traceback
import warnings

REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """The property does not hold for the current case."""


class HarnessError(Exception):
    """Something is wrong with the check itself."""


class StopShrinking(BaseException):
    """Shrinking budget used up."""


class CaseTimeout(BaseException):
    """The CPU budget of one single case is used up."""


class Sub:
    def __init__(self, name, gen, check, quick, thorough=None, shards=1, setup=None, cpu=150):
        self.name = name
        self.gen = gen  # tier -> strategy
        self.check = check  # (ctx, case) -> None
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.shards = shards
        self.setup = setup
        self.cpu = cpu


def jdump(x):
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


def in_repo(tb):
    """True if the innermost Python frames of the traceback belong to the code under test."""
    for frame in traceback.extract_tb(tb):
        if os.path.abspath(frame.filename).startswith(REPO + os.sep):
            return True
    return False


class Ctx:
    """Handed to every check function."""

    def __init__(self, tier="quick"):
        self.tier = tier
        self.labels = {}
        self.nontrivial_hashes = set()
        self.samples = []
        self.evaluations = 0
        self.all_hashes = set()
        self.excluded = {}
        self.sut_calls = 0
        self._case = None
        self._is_nontrivial = False
        self._case_labels = set()
        self.stdout = ""

    # -- bookkeeping --
    def begin(self, case):
        self._case = case
        self._is_nontrivial = False
        self._case_labels = set()

    def end(self):
        self.evaluations += 1
        text = jdump(self._case)
        h = hashlib.sha1(text.encode()).hexdigest()[:16]
        self.all_hashes.add(h)
        for l in self._case_labels:
            self.labels[l] = self.labels.get(l, 0) + 1
        if self._is_nontrivial and h not in self.nontrivial_hashes:
            self.nontrivial_hashes.add(h)
            k = len(self.nontrivial_hashes)
            if (k & (k - 1)) == 0 and len(text) < 3000:  # 1st, 2nd, 4th, 8th ... of them
                self.samples.append(self._case)
                self.samples = self.samples[-3:]

    def label(self, name):
        self._case_labels.add(name)

    def nontrivial(self, cond=True):
        if cond:
            self._is_nontrivial = True

    def exclude(self, reason):
        self.excluded[reason] = self.excluded.get(reason, 0) + 1

    # -- verdicts --
    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    # -- calls into the code under test --
    def call(self, fn, *args, **kwargs):
        """Call the code under test with input it has to handle."""
        self.sut_calls += 1
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                return fn(*args, **kwargs)
        except (Violation, HarnessError, MemoryError):
            raise
        except Exception as e:
            if not in_repo(e.__traceback__):
                # e.g. wrong signature: still the code under test misbehaving,
                # since the harness only passes documented arguments.
                pass
            raise Violation(
                "%s raised %s: %s\n%s"
                % (getattr(fn, "__name__", fn), type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__)[-3:]))
            ) from None
        except SystemExit as e:
            raise Violation("%s called sys.exit(%r)" % (getattr(fn, "__name__", fn), e.code)) from None
        finally:
            self.stdout = buf.getvalue()

    def raises(self, fn, *args, **kwargs):
        """The code under test has to reject this input."""
        self.sut_calls += 1
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                r = fn(*args, **kwargs)
        except Exception as e:
            return e
        except SystemExit as e:
            return e
        raise Violation("%s accepted illegal input and returned %.200r" % (getattr(fn, "__name__", fn), r))

    # -- result validation --
    def array(self, x, shape=None, what="result", finite=True):
        import numpy as np

        try:
            y = np.array(x, dtype=complex)
        except Exception as e:
            raise Violation("%s is not a numeric array: %.200r (%s)" % (what, x, e)) from None
        if shape is not None and y.shape != tuple(shape):
            raise Violation("%s has shape %s, expected %s" % (what, y.shape, tuple(shape)))
        if finite and not np.all(np.isfinite(y)):
            raise Violation("%s contains non-finite values: %.300r" % (what, x))
        return y

    def close(self, x, y, what="value", rtol=1e-9, atol=1e-9):
        """x from the code under test, y from the oracle."""
        import numpy as np

        y = np.asarray(y, dtype=complex)
        x = self.array(x, y.shape, what)
        err = np.abs(x - y)
        bad = err > atol + rtol * np.abs(y)
        if np.any(bad):
            i = np.unravel_index(np.argmax(np.where(bad, err, -1)), y.shape)
            raise Violation("%s: element %s is %r, expected %r (max deviation %.3g)" % (what, i, x[i], y[i], err[i]))

    def same_args(self, before, after, what):
        if not deep_equal(before, after):
            raise Violation("%s: argument modified: %.300r -> %.300r" % (what, before, after))


def deep_equal(x, y):
    import numpy as np

    if type(x) is not type(y):
        return False
    if isinstance(x, dict):
        return list(x.keys()) == list(y.keys()) and all(deep_equal(x[k], y[k]) for k in x)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(deep_equal(i, j) for i, j in zip(x, y))
    if isinstance(x, np.ndarray):
        return x.shape == y.shape and x.dtype == y.dtype and bool(np.all((x == y) | ((x != x) & (y != y))))
    return x == y or (x != x and y != y)


def stable_seed(*parts):
    return int.from_bytes(hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()[:6], "big")


def evaluate(sub, ctx, case):
    """Decide one case. Raises Violation or HarnessError."""
    ctx.begin(case)

    def on_alarm(signum, frame):
        raise CaseTimeout()

    old = signal.signal(signal.SIGPROF, on_alarm)
    signal.setitimer(signal.ITIMER_PROF, sub.cpu)
    calls = ctx.sut_calls
    try:
        sub.check(ctx, case)
    except CaseTimeout:
        raise Violation("no result after %d s of CPU time (ordinary cases take below a few seconds)" % sub.cpu) from None
    except MemoryError as e:
        if in_repo(e.__traceback__):
            raise Violation("the code under test exhausted the memory") from None
        raise
    except (TypeError, ValueError, KeyError, IndexError, AttributeError, ArithmeticError) as e:
        # The oracles accept whatever form of result is documented. What they
        # cannot digest after the code under test has run is a wrong result.
        if ctx.sut_calls == calls or (isinstance(e, AttributeError) and str(e).startswith("module ")):
            raise
        at = traceback.extract_tb(e.__traceback__)[-1]
        raise Violation("the result is not of the expected form: %s: %.200s (%s:%d)" % (type(e).__name__, e, os.path.basename(at.filename), at.lineno)) from None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    ctx.end()


def run_sub(mod, sub, tier, seed, shard, nshards, budget, shrink_budget=40):
    """Run one shard of one sub. Returns a JSON-able result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    total = sub.quick if tier == "quick" else sub.thorough
    n = total // nshards + (1 if shard < total % nshards else 0)
    ctx = Ctx(tier)
    if sub.setup:
        sub.setup(ctx)
    t_start = time.monotonic()
    state = {"fail": None, "t_fail": None, "error": None, "skipped": 0, "order": []}
    strategy = sub.gen(tier)

    @hypothesis.seed(stable_seed(seed, mod.PROP, sub.name, shard))
    @settings(
        max_examples=max(n, 1),
        database=None,
        deadline=None,
        suppress_health_check=list(HealthCheck),
        phases=[Phase.generate, Phase.shrink],
        print_blob=False,
        report_multiple_bugs=False,
    )
    @given(strategy)
    def run(case):
        now = time.monotonic()
        if state["fail"] is None and now - t_start > budget:
            state["skipped"] += 1
            return
        if state["fail"] is not None and now - state["t_fail"] > shrink_budget:
            raise StopShrinking()
        try:
            evaluate(sub, ctx, case)
        except Violation as e:
            text = jdump(case)
            key = (len(text), text)
            if state["fail"] is None:
                state["t_fail"] = time.monotonic()
                state["first"] = {"case": case, "msg": str(e), "index": ctx.evaluations}
            if state["fail"] is None or key < state["fail"][0]:
                state["fail"] = (key, case, str(e))
            raise Violation("violation") from None
        except (hypothesis.errors.UnsatisfiedAssumption, hypothesis.errors.StopTest):
            raise
        except (StopShrinking, KeyboardInterrupt):
            raise
        except BaseException as e:
            if type(e).__module__.startswith("hypothesis"):
                raise
            state["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:] + "\ncase: %.2000s" % jdump(case)
            raise

    err = None
    try:
        run()
    except StopShrinking:
        pass
    except BaseException as e:
        if state["fail"] is None:
            err = state["error"] or "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    res = {
        "sub": sub.name,
        "shard": shard,
        "requested": n,
        "evaluations": ctx.evaluations,
        "sut_calls": ctx.sut_calls,
        "skipped_for_time": state["skipped"],
        "labels": ctx.labels,
        "excluded": ctx.excluded,
        "all": sorted(ctx.all_hashes),
        "nontrivial": sorted(ctx.nontrivial_hashes),
        "samples": ctx.samples,
        "wall_s": time.monotonic() - t_start,
        "cpu_s": resource.getrusage(resource.RUSAGE_SELF).ru_utime,
        "error": err,
        "fail": None,
    }
    if state["fail"] is not None:
        res["fail"] = {
            "case": state["fail"][1],
            "msg": state["fail"][2],
            "first_case": state["first"]["case"],
            "first_msg": state["first"]["msg"],
            "index": state["first"]["index"],
            "n": n,
            "nshards": nshards,
        }
    return res


def load(prop):
    import importlib

    return importlib.import_module("checks." + prop.lower())


def find_sub(mod, name):
    for s in mod.SUBS:
        if s.name == name:
            return s
    raise HarnessError("no sub %s in %s" % (name, mod.PROP))


def worker_main(argv):
    """worker PROP SUB SHARD NSHARDS TIER SEED BUDGET OUT"""
    prop, subname, shard, nshards, tier, seed, budget, out = argv
    warnings.simplefilter("ignore")
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    res = {"sub": subname, "shard": int(shard), "error": "worker did not finish", "fail": None}
    try:
        mod = load(prop)
        sub = find_sub(mod, subname)
        res = run_sub(mod, sub, tier, int(seed), int(shard), int(nshards), float(budget))
    except BaseException as e:
        res["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    with open(out + ".tmp", "w") as f:
        json.dump(res, f)
    os.rename(out + ".tmp", out)
    sys.stdout.flush()
    os._exit(0)


def replay_main(argv):
    """replay FILE OUT"""
    path, out = argv
    warnings.simplefilter("ignore")
    with open(path) as f:
        rep = json.load(f)
    mod = load(rep["property"])
    sub = find_sub(mod, rep["sub"])
    ctx = Ctx(rep.get("tier", "quick"))
    if sub.setup:
        sub.setup(ctx)
    res = {"violation": None, "how": None}
    for key in ("case", "first_case"):
        try:
            evaluate(sub, ctx, rep[key])
        except Violation as e:
            res = {"violation": str(e), "how": key}
            break
    with open(out, "w") as f:
        json.dump(res, f)
    os._exit(0)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    import glob

    for p in glob.glob("/opt/veriftools/pyvenv/lib/python3*/site-packages"):
        sys.path.append(p)
    # The package "lib.harness" must be one and the same module.
    import lib.harness as H

    if sys.argv[1] == "replay":
        H.replay_main(sys.argv[2:])
    else:
        H.worker_main(sys.argv[2:])
