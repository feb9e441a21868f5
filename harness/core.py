"""Generated-input search engine shared by every check.

A check module (checks/cNN.py) declares Tests.  A Test owns
  * a Hypothesis strategy that yields a *case*: plain data (tuples, lists,
    dicts, numbers, strings, bytes, None) - never live objects;
  * run(case, ctx): executes the case against the code in /repo and raises
    Violation when the oracle disagrees.
Because a case is plain data, its repr() is the replay file, and replaying it
does not involve Hypothesis at all.
"""
import hashlib
import json
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import uuid

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
OUT = os.environ.get("VERIF_OUT", VERIF)
QUICK_SCALE = 2  # times the case counts the checks name
FAST = bool(os.environ.get("VERIF_FAST"))  # tools/mutate.py: stop at the first failure, unshrunk
CPU_LIMIT = 20.0 if FAST else 90.0  # seconds of CPU for ONE case that normally takes milliseconds


class Violation(Exception):
    """The oracle disagrees with the code under test."""


class Unterminated(BaseException):
    """One case burned CPU_LIMIT seconds of CPU time."""


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


class Ctx:
    """Per-case context handed to run()."""

    def __init__(self, stats, root):
        self.stats = stats
        self.root = root
        self._dirs = []
        self._close = []
        self.is_nontrivial = False

    def tmp(self):
        d = tempfile.mkdtemp(dir=self.root)
        self._dirs.append(d)
        return d

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def event(self, label, n=1):
        self.stats["events"][label] = self.stats["events"].get(label, 0) + n

    def on_close(self, fn):
        self._close.append(fn)

    def finish(self):
        for fn in reversed(self._close):
            try:
                fn()
            except Exception:
                pass
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)


class Test:
    def __init__(self, name, strategy, run, quick=300, thorough=None, shards=1, rs=None):
        self.name = name
        self.strategy = strategy  # zero-argument callable -> strategy
        self.run = run
        self.quick = quick * QUICK_SCALE
        self.thorough = quick * 12 if thorough is None else thorough
        self.shards = shards
        self.rs = rs  # optional: case -> int seed for `random`, numpy and uuid


def new_stats():
    return {"evals": 0, "hashes": set(), "events": {}, "samples": []}


def from_code_under_test(exc):
    """True if the exception passed through a frame of the code under test."""
    tb = exc.__traceback__
    while tb is not None:
        if os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(SRC + os.sep):
            return True
        tb = tb.tb_next
    return False


_real_uuid4 = uuid.uuid4


def seed_everything(n):
    import numpy as np

    random.seed(n)
    np.random.seed(n % (2**32))
    rng = random.Random("uuid%d" % n)
    uuid.uuid4 = lambda: uuid.UUID(int=rng.getrandbits(128), version=4)


def _on_prof(signum, frame):
    raise Unterminated()


def execute(test, case, stats, root):
    """Run one case; raise Violation on disagreement, anything else is a harness error."""
    ctx = Ctx(stats, root)
    stats["evals"] += 1
    seed_everything(test.rs(case) if test.rs else 0)
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        test.run(case, ctx)
    except Violation:
        raise
    except Exception as e:
        if from_code_under_test(e):
            raise Violation(
                "unexpected exception from the code under test: "
                + "".join(traceback.format_exception(e))[-3000:]
            ) from e
        if isinstance(e, (LookupError, TypeError, AttributeError, ValueError, ArithmeticError, FileNotFoundError)):
            raise Violation(
                "a result does not have the expected shape: "
                + "".join(traceback.format_exception(e))[-3000:]
            ) from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.finish()
        uuid.uuid4 = _real_uuid4
    if ctx.is_nontrivial:
        r = repr(case)
        h = hashlib.blake2b(r.encode("utf-8", "surrogatepass"), digest_size=8).digest()
        if h not in stats["hashes"]:
            stats["hashes"].add(h)
            n = len(stats["hashes"])
            # keep an early, a middle and late samples
            if n in (1, 7, 40, 200) or (n % 1000 == 0 and len(stats["samples"]) < 8):
                stats["samples"].append(r[:700])


def load_case(text):
    return eval(text, {"__builtins__": {}, "nan": float("nan"), "inf": float("inf"),
                       "True": True, "False": False, "None": None, "set": set,
                       "frozenset": frozenset})


def _search(test, seed, n, root):
    """One Hypothesis campaign.  Returns a result dict."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.internal.conjecture.engine import ConjectureRunner

    # fresh random cases instead of near-copies of earlier ones
    ConjectureRunner.generate_mutations_from = lambda self, data: None
    stats = new_stats()
    last = {}

    def body(case):
        try:
            execute(test, case, stats, root)
        except Violation as v:
            last["case"], last["msg"] = repr(case), str(v)
            raise
        except Unterminated:
            last["hang"] = repr(case)
            raise

    wrapped = settings(
        max_examples=n, deadline=None, database=None, print_blob=False,
        report_multiple_bugs=False,
        phases=(Phase.generate,) if FAST else (Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck),
    )(hypothesis.seed(seed)(given(test.strategy())(body)))
    out = {"test": test.name, "seed": seed, "status": "ok"}
    try:
        wrapped()
    except Violation:
        out.update(status="violation", case=last["case"], msg=last["msg"])
    except Unterminated:
        out.update(status="violation", case=last.get("hang", "?"),
                   msg="the operation did not finish within %d s of CPU time" % CPU_LIMIT)
    except BaseException as e:
        if "case" in last and isinstance(e, hypothesis.errors.Flaky):
            # the failure was observed on real code but did not repeat
            out.update(status="flaky", case=last["case"], msg=last["msg"] + "\n" + str(e))
        else:
            out.update(status="error", msg="".join(traceback.format_exception(e))[-6000:])
    out["stats"] = stats
    return out


def _child(fn, path):
    try:
        res = fn()
    except BaseException as e:
        res = {"status": "error", "test": "?", "msg": "".join(traceback.format_exception(e)),
               "stats": new_stats()}
    with open(path, "wb") as f:
        pickle.dump(res, f)


def run_parallel(jobs, root, width):
    """Each job runs in its own forked process; returns the results in order."""
    results = [None] * len(jobs)
    running = {}
    todo = list(enumerate(jobs))
    while todo or running:
        while todo and len(running) < width:
            i, fn = todo.pop(0)
            path = os.path.join(root, "res%d" % i)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    _child(fn, path)
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(0)
            running[pid] = (i, path)
        pid, status = os.wait()
        if pid not in running:
            continue
        i, path = running.pop(pid)
        try:
            with open(path, "rb") as f:
                results[i] = pickle.load(f)
        except Exception:
            results[i] = {"status": "error", "test": "?", "stats": new_stats(),
                          "msg": "worker died, wait status %s" % status}
        if FAST and (results[i]["status"] != "ok" or results[i].get("bad")):
            for pid in running:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            return [r for r in results if r]
    return results


def corpus_cases(prop):
    path = os.path.join(VERIF, "corpus", prop + ".jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.strip():
                    out.append(json.loads(line))
    return out


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if line.strip():
                    d = json.loads(line)
                    if d.get("property") == prop and d.get("status") == "known":
                        out.append(d)
    return out


def write_replay(prop, test, case, msg):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.blake2b((test + case).encode("utf-8", "surrogatepass"), digest_size=5).hexdigest()
    path = os.path.join(d, "%s-%s-%s.json" % (prop, test, h))
    with open(path, "w") as f:
        json.dump({"property": prop, "test": test, "case": case, "message": msg,
                   "replay_cmd": "./run.sh replay %s" % path}, f, indent=1)
    return path


def run_property(mod, tier, seed, width=8):
    t0 = time.time()
    prop = mod.PROPERTY
    tests = {t.name: t for t in mod.TESTS}
    root = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return _run_property(mod, prop, tests, tier, seed, width, root, t0)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _run_property(mod, prop, tests, tier, seed, width, root, t0):
    violations, errors = [], []
    agg = new_stats()
    per_test = {}

    # 1. replay tier: saved inputs (regressions for repaired defects, seeds) and known findings
    saved = corpus_cases(prop)
    known = known_findings(prop)

    def replay_job():
        out = {"status": "ok", "test": "saved-inputs", "stats": new_stats(), "bad": [], "known": []}
        for entry in saved + known:
            t = tests.get(entry["test"])
            if t is None:
                out.update(status="error", msg="corpus names unknown test %r" % entry["test"])
                continue
            is_known = entry.get("status") == "known"
            try:
                execute(t, load_case(entry["case"]), out["stats"], root)
            except Violation as v:
                (out["known"] if is_known else out["bad"]).append((entry, str(v)))
            except Unterminated:
                (out["known"] if is_known else out["bad"]).append((entry, "did not terminate"))
        return out

    jobs = [replay_job]
    for ti, t in enumerate(mod.TESTS):
        n = t.quick if tier == "quick" else t.thorough
        if not n:  # only replayed from the corpus and the known findings
            continue
        shards = t.shards if tier == "quick" else max(t.shards, 4)
        per = max(1, n // shards)
        for s in range(shards):
            sd = (seed * 1000003 + ti * 101 + s) % (2**31)
            jobs.append(lambda t=t, sd=sd, per=per: _search(t, sd, per, root))
    for j in getattr(mod, "EXTRA_JOBS", lambda tier, seed, root: [])(tier, seed, root):
        jobs.append(j)
    results = run_parallel(jobs, root, width)

    for r in results:
        st = r["stats"]
        agg["evals"] += st["evals"]
        agg["hashes"] |= {r["test"].encode() + b":" + h for h in st["hashes"]}
        for k, v in st["events"].items():
            agg["events"][k] = agg["events"].get(k, 0) + v
        p = per_test.setdefault(r["test"], {"evaluations": 0, "distinct_nontrivial": 0})
        p["evaluations"] += st["evals"]
        p["distinct_nontrivial"] += len(st["hashes"])
        agg["samples"] += [{"test": r["test"], "case": s} for s in st["samples"][:2]]
        if r["status"] == "violation":
            violations.append((r["test"], r["case"], r["msg"]))
        elif r["status"] == "flaky":
            violations.append((r["test"], r["case"], "(did not repeat) " + r["msg"]))
        elif r["status"] == "error":
            errors.append("%s: %s" % (r["test"], r["msg"]))
        for entry, msg in r.get("bad", []):
            violations.append((entry["test"], entry["case"], msg))
        for entry, msg in r.get("known", []):
            print("KNOWN-FINDING: property=%s %s" % (prop, entry["what"]))

    for e in errors:
        print("HARNESS-ERROR %s" % str(e)[-3000:], file=sys.stderr)
    seen = set()
    for test, case, msg in violations:
        if test in seen:
            continue
        seen.add(test)
        path = write_replay(prop, test, case, msg)
        print("--- %s / %s\n%s\nminimal case: %s" % (prop, test, msg if len(msg) < 3000 else msg[:1500] + "\n[...]\n" + msg[-1500:], case[:1200]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": agg["evals"],
            "distinct_nontrivial": len(agg["hashes"]),
            "rule": mod.RULE,
            "samples": agg["samples"][:24],
            "per_test": per_test,
            "classes": dict(sorted(agg["events"].items())),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %d error(s), %.1fs"
          % (prop, tier, seed, agg["evals"], len(agg["hashes"]), len(violations), len(errors),
             time.time() - t0))
    if violations:
        return 1
    return 3 if errors else 0


def replay(path):
    import importlib

    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module("checks." + d["property"].lower())
    test = {t.name: t for t in mod.TESTS}[d["test"]]
    root = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        execute(test, load_case(d["case"]), new_stats(), root)
    except (Violation, Unterminated) as v:
        print("still fails: %s" % v)
        print("VIOLATION property=%s replay=%s" % (d["property"], path))
        return 1
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print("passes")
    return 0
