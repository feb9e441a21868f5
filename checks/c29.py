"""C29: batch operations do what the same calls one by one would do, and count them right."""
import contextlib
import io
import json
import os
import threading
import time

import numpy as np
from hypothesis import strategies as st

from harness.core import Test, Violation, check
from harness.gens import oplist

PROPERTY = "C29"
LEVEL = "exploration"
RULE = ("Histories of sequential and parallel batch inserts and batch searches by one manager over a real collection (three index "
        "types), 0-30 rows, batch sizes 1-9, 1-4 workers, generated delays per batch so that batches finish in any order, rows that "
        "must be refused, callbacks. Non-trivial: at least two batches of which one is refused or overtaken.")


def strategy():
    n = st.one_of(st.integers(0, 8), st.integers(5, 30))
    bad = st.one_of(st.just([]), st.lists(st.integers(0, 29), max_size=3))
    delays = st.lists(st.integers(0, 3), max_size=10)
    op = st.one_of(st.tuples(st.just("insert"), n, bad, st.booleans()), st.tuples(st.just("parallel"), n, bad, delays),
                   st.tuples(st.just("parallel"), n, bad, delays), st.tuples(st.just("search"), n, bad, st.one_of(st.integers(1, 12), st.integers(1, 60))),
                   st.just(("reset",)))
    return st.fixed_dictionaries({"index": st.sampled_from(["flat", "annoy", "hnsw"]), "dim": st.integers(1, 4), "batch": st.integers(1, 9),
                                  "workers": st.integers(1, 4), "callbacks": st.booleans(), "show": st.booleans(), "seed": st.integers(0, 999),
                                  "ops": st.lists(op, min_size=1, max_size=5)})


class Slow:
    """A client whose inserts take the generated time."""

    def __init__(self, client, delays, first):
        self.client, self.delays, self.first = client, delays, first
        self.calls = 0

    def insert(self, vectors, metadata):
        self.calls += 1
        if self.delays and metadata:
            time.sleep(0.0015 * self.delays[metadata[0]["i"] // self.first % len(self.delays)])
        return self.client.insert(vectors, metadata)

    def search(self, *a, **k):
        self.calls += 1
        return self.client.search(*a, **k)


def run(case, ctx):
    from valori import VectorDBClient
    from valori.exceptions import ValoriError
    from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex
    from valori.storage import MemoryStorage
    from valori.utils import BatchManager
    rng = np.random.default_rng(case["seed"])
    ix = {"flat": lambda: FlatIndex({"metric": "euclidean"}), "annoy": lambda: AnnoyIndex({"metric": "euclidean", "num_trees": 3}),
          "hnsw": lambda: HNSWIndex({"metric": "euclidean", "ef_search": 1000, "ef_construction": 200})}[case["index"]]()
    client = VectorDBClient(MemoryStorage({}), ix)
    client.initialize()
    dim, size = case["dim"], case["batch"]
    m = BatchManager(batch_size=size, max_workers=case["workers"])
    progress, errors = [], []
    if case["callbacks"]:
        m.set_progress_callback(lambda a, b: progress.append((a, b)))
        m.set_error_callback(lambda e, x: errors.append((e, x)))
    live = {}       # id -> (vector, tag)
    serial = 0

    s = m.get_stats()
    check(s["total_items"] == s["processed_items"] == s["failed_items"] == s["total_time"] == s["items_per_second"] == 0,
          "statistics of a new manager: %r", s)

    def counts(total, failed, what):
        s = m.get_stats()
        check((s["total_items"], s["processed_items"], s["failed_items"]) == (total, total - failed, failed),
              "%s of %d items with %d failing counts %r", what, total, failed, s)
        check(t0 <= s["start_time"] <= s["end_time"] <= time.time(), "an operation since %r: %r", t0, s)
        check(s["total_time"] == s["end_time"] - s["start_time"], "statistics %r", s)
        rate = (total - failed) / s["total_time"] if s["total_time"] else 0
        check(abs(s["items_per_second"] - rate) <= 1e-9 * rate, "%d items in %r s: %r", total - failed, s["total_time"], s)
        shown = out.getvalue()
        if not case["show"]:
            check("%" not in shown, "printed although not asked to: %r", shown)
        elif total > failed:
            check("%.1f%%" % (100.0 * (total - failed) / total) in shown and "(%d/%d)" % (total - failed, total) in shown,
                  "%s of %d, %d failing, prints %r", what, total, failed, shown)
        if case["callbacks"]:
            check(all(b == total and 0 <= a <= total for a, b in progress) and progress == sorted(progress), "%s of %d reports %r",
                  what, total, progress)
            if total > failed:
                check(progress and progress[-1][0] == total - failed, "%s of %d, %d failing, last reports %r", what, total, failed, progress)

        s.update(processed_items=-1, total_items=-1, start_time=None)
        check(m.get_stats()["processed_items"] == total - failed, "writing into the statistics changes them")

    def build():
        if case["index"] == "annoy":
            ix.build()
    for op in case["ops"]:
        progress.clear()
        errors.clear()
        kind = op[0]
        out = io.StringIO()
        t0 = time.time()
        with contextlib.redirect_stdout(out):
            if kind in ("insert", "parallel"):
                n, delays = op[1], op[3] if kind == "parallel" else []
                bad = {b for b in op[2] if b < n}
                vs = rng.integers(-50, 50, size=(n, dim)).astype(np.float64) + rng.integers(0, 997, size=(n, dim)) / 1000
                for b in bad:
                    vs[b, b % dim] = np.nan
                ms = [{"i": i, "tag": serial + i} for i in range(n)]
                keepv = vs.copy()
                slow = Slow(client, delays, size)
                fn = m.batch_insert if kind == "insert" else m.parallel_batch_insert
                ids = fn(slow, vs, ms, show_progress=case["show"])
                check(np.array_equal(keepv, vs, equal_nan=True) and ms == [{"i": i, "tag": serial + i} for i in range(n)], "inserting changed the vectors")
                batches = [list(range(i, min(i + size, n))) for i in range(0, n, size)]
                good = [i for b in batches if not bad & set(b) for i in b]
                failing = [b for b in batches if bad & set(b)]
                check(slow.calls == len(batches), "%d inserts for %d batches", slow.calls, len(batches))
                check(len(ids) == len(good), "%d ids for %d inserted vectors", len(ids), len(good))
                new = [str(i) for i in ids]
                check(len(set(new)) == len(new) and not set(new) & set(live), "ids %r are not fresh", new)
                for i, r in zip(good, new):
                    live[r] = (vs[i], serial + i)
                counts(n, sum(map(len, failing)), kind)
                if case["callbacks"]:
                    check(len(errors) == len(failing) and all(isinstance(e, ValoriError) for e, _ in errors), "%d errors reported for %d refused batches: %r",
                          len(errors), len(failing), errors)
                    said = [x["vectors"] if isinstance(x, dict) else x for _, x in errors]
                    check(sorted(np.asarray(x).tobytes() for x in said) == sorted(vs[b].tobytes() for b in failing), "the errors name %r, refused were %r", said, failing)
                if failing:
                    ctx.event("refused")
                ctx.nontrivial(len(batches) > 1 and (bool(failing) or bool(delays) and case["workers"] > 1))
                serial += n
            elif kind == "search":
                if not live:
                    continue
                build()
                n, k = op[1], op[3]
                bad = {b for b in op[2] if b < n}
                qs = rng.integers(-50, 50, size=(n, dim)).astype(np.float64)
                for b in bad:
                    qs[b, 0] = np.inf
                res = m.batch_search(Slow(client, [], 1), qs, k=k, show_progress=case["show"])
                check(len(res) == n, "%d results for %d queries", len(res), n)
                for i in range(n):
                    want = [] if i in bad else client.search(qs[i], k=k)
                    check(res[i] == want, "query %d of a batch found %r, alone %r", i, res[i], want)
                counts(n, len(bad), "search")
                if case["callbacks"]:
                    check(len(errors) == len(bad), "%d errors reported for %d refused queries", len(errors), len(bad))
                    check(all(np.array_equal(x, qs[b]) for (_, x), b in zip(errors, sorted(bad))), "the errors name %r, refused were %r", errors, bad)
                ctx.event("search")
            else:
                m.reset_stats()
                s = m.get_stats()
                check(s["total_items"] == s["processed_items"] == s["failed_items"] == s["total_time"] == s["items_per_second"] == 0,
                      "statistics after reset: %r", s)
        # every id stands for the vector and metadata it was returned for
        if live:
            build()
            q = np.zeros(dim)
            found = {str(r["id"]): r for r in client.search(q, k=len(live) + 5)}
            check(set(found) == set(live), "the collection holds %r, ids returned %r", sorted(found), sorted(live))
            for i, (v, tag) in live.items():
                d = np.sqrt((v * v).sum())
                want = 1 / (1 + d) if case["index"] == "annoy" else d
                check(found[i]["metadata"]["tag"] == tag, "id %r is record %r, it was returned for %d", i, found[i], tag)
                check(abs(found[i]["distance"] - want) < 1e-3, "id %r is at %r, its vector at %r", i, found[i]["distance"], want)
    client.close()
    for b in (0, -1):
        try:
            BatchManager(batch_size=b)
        except ValoriError:
            pass
        else:
            raise Violation("a batch size of %d was accepted" % b)


def tracker_strategy():
    return st.fixed_dictionaries({"total": st.one_of(st.just(0), st.integers(1, 20)), "steps": st.lists(st.integers(0, 5), max_size=8)})


def run_tracker(case, ctx):
    from valori.utils import ProgressTracker
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        t = ProgressTracker(case["total"], "Task")
        t.update_interval = 0
        done = 0
        for s in case["steps"]:
            s = min(s, case["total"] - done)
            t.update(s)
            done += s
            check(t.current == done, "progress %r after %d", t.current, done)
            last, share = out.getvalue().split("\r")[-1], done / case["total"] if case["total"] else 1.0
            check("(%d/%d)" % (done, case["total"]) in last and "%.1f%%" % (100 * share) in last, "progress %d of %d prints %r", done, case["total"], last)
            bar = last[last.index("|") + 1:last.rindex("|")]
            check(bar.count("█") == int(len(bar) * share), "progress %d of %d draws %r", done, case["total"], last)
        t.finish()
    last = out.getvalue().split("\r")[-1]
    check("100.0%" in last and "Task" in last and last.endswith("\n") and t.current == case["total"], "finishing prints %r", last)
    ctx.nontrivial(done > 0)


def monitor_strategy():
    return st.lists(st.sampled_from(["start", "start", "stop", "look"]), min_size=2, max_size=6)


def run_monitor(case, ctx):
    import psutil
    from valori.utils import ResourceMonitor
    t0_ = time.time()
    m = ResourceMonitor()
    check(m.get_summary() == {}, "summary before anything: %r", m.get_summary())
    on = False
    for op in case:
        if op == "start":
            m.start_monitoring(interval=0.001)
            on = True
            t0, n = time.time(), len(m.resource_data)
            held = []
            for more in (1, 2, 3):
                while len(m.resource_data) < n + more and time.time() - t0 < 30:
                    time.sleep(0.001)
                if more < 3:
                    # memory grows from one measurement to the next
                    held.append(np.ones(1 << 20))
            check(len(m.resource_data) > n, "no measurement in 30 s")
            del held
            ctx.nontrivial(True)
        elif op == "stop":
            m.stop_monitoring()
            check(m.monitoring is False and not (m.monitor_thread and m.monitor_thread.is_alive()), "monitoring goes on after stop")
            on = False
        elif not on and m.resource_data:
            s = m.get_summary()
            for k in ("memory", "cpu"):
                check(s[k]["min"] <= s[k]["avg"] + 1e-9 and s[k]["avg"] <= s[k]["max"] + 1e-9, "summary %r", s)
            data = m.resource_data
            for k, f in (("memory", "memory_mb"), ("cpu", "cpu_percent")):
                v = [d[f] for d in data]
                check((s[k]["min"], s[k]["max"]) == (min(v), max(v)) and abs(s[k]["avg"] - sum(v) / len(v)) <= 1e-9 * max(v), "summary %r of %r", s, v)
            check(s["duration"] == data[-1]["timestamp"] - data[0]["timestamp"] and all(t0_ <= d["timestamp"] <= time.time() for d in data),
                  "summary %r", s)
            rss = psutil.Process().memory_info().rss / 2**20
            check(rss / 8 < s["memory"]["max"] < rss * 8, "%r MB in use, measured %r", rss, s["memory"])
            path = os.path.join(ctx.tmp(), "r.json")
            m.save_report(path)
            with open(path) as f:
                check(json.load(f) == {"summary": s, "data": m.resource_data}, "the report differs from the data")
            ctx.event("report")
    m.stop_monitoring()
    check(sum(t.name.startswith("Thread-") and "_monitor_loop" in t.name for t in threading.enumerate()) == 0, "a monitoring thread is left")


TESTS = [Test("batches", strategy, run, quick=1200, thorough=16000, shards=6),
         Test("tracker", tracker_strategy, run_tracker, quick=200, thorough=1000),
         Test("monitor", monitor_strategy, run_monitor, quick=40, thorough=400)]
