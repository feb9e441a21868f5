"""C33: operations from several threads behave as if done one after another."""
import contextlib
import copy
import os

import numpy as np
from hypothesis import strategies as st

from harness import sched
from harness.core import Test, Violation, check

PROPERTY = "C33"
LEVEL = "exploration"
RULE = ("Two or three threads with 1-3 operations each over one client (five index types, three storages) or one memory or hybrid storage, run "
        "one line at a time under a generated schedule of up to 12 thread changes; some sequential order of the operations that respects what finished "
        "before what began must explain every result and the final contents. Non-trivial: a thread change inside an operation of another thread.")


def schedule():
    gap = st.one_of(st.integers(1, 12), st.integers(1, 60), st.integers(1, 300))
    return st.one_of(st.tuples(st.just("lines"), st.lists(st.tuples(gap, st.integers(0, 1)), min_size=1, max_size=12)),
                     st.tuples(st.just("locks"), st.lists(st.tuples(st.integers(1, 6), st.integers(0, 1)), min_size=1, max_size=12)))


def strategy():
    rec = st.sampled_from([0, 0, 0, 1, 1, 2, 3, 4, 5])
    op = st.one_of(st.tuples(st.just("insert"), st.integers(1, 3)), st.tuples(st.just("update"), rec, st.booleans()), st.tuples(st.just("update"), rec, st.booleans()),
                   st.tuples(st.just("delete"), rec), st.tuples(st.just("delete all"), st.lists(rec, min_size=2, max_size=3, unique=True)),
                   st.just(("search",)), st.just(("search",)), st.just(("stats",)))
    return st.fixed_dictionaries({"index": st.sampled_from(["flat", "flat", "ivf", "ivf", "hnsw", "hnsw", "lsh", "annoy"]), "storage": st.sampled_from(["memory", "hybrid", "disk"]), "before": st.integers(0, 4),
                                  "threads": st.lists(st.lists(op, min_size=1, max_size=3), min_size=2, max_size=3), "plan": schedule()})


def point(serial):
    """A vector of its own for every version of every record."""
    return np.array([np.cos(serial * 0.7), np.sin(serial * 0.7), serial / 7.0])


def counted(c):
    s = c.get_stats()["index"]
    return s["vector_count"] if "vector_count" in s else s["num_vectors"]


class Record:
    """One operation: when it ran, what it was and what it gave."""

    def __init__(self, thread, op):
        self.thread, self.op, self.start, self.end, self.result, self.error = thread, op, None, None, None, None


def explain(ops, state, apply, final, limit=200000):
    """Is there a sequential order, respecting real time, that explains all results and the final state?"""
    n = len(ops)
    before = [[j for j in range(n) if ops[j].end is not None and ops[i].start is not None and ops[j].end <= ops[i].start] for i in range(n)]
    seen = set()
    budget = [limit]

    def go(done, state):
        budget[0] -= 1
        if budget[0] < 0:
            return True  # not decided
        if len(done) == n:
            return final(state)
        key = (done, tuple(sorted(state.items())))
        if key in seen:
            return False
        seen.add(key)
        for i in range(n):
            if i not in done and all(j in done for j in before[i]):
                for s in apply(ops[i], state):
                    if go(done | {i}, s):
                        return True
        return False
    return go(frozenset(), state)


def run(case, ctx):
    from valori import VectorDBClient
    from valori.exceptions import ValoriError
    from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex, LSHIndex
    from valori.storage import DiskStorage, HybridStorage, MemoryStorage
    import valori.utils.batch_manager  # noqa: F401
    sched.cooperate()
    d = os.path.join(ctx.tmp(), "d")
    store = {"memory": lambda: MemoryStorage({}), "disk": lambda: DiskStorage({"data_dir": d}),
             "hybrid": lambda: HybridStorage({"disk": {"data_dir": d}, "memory_limit": 2})}[case["storage"]]()
    exact = case["index"] in ("flat", "ivf", "hnsw")
    ix = {"flat": FlatIndex, "ivf": IVFIndex, "hnsw": HNSWIndex, "lsh": LSHIndex, "annoy": AnnoyIndex}[case["index"]](
        {"metric": "euclidean", "n_clusters": 2, "n_probes": 2, "m": 8, "num_hash_tables": 4, "hash_size": 2, "num_projections": 2, "num_trees": 3})
    c = VectorDBClient(store, ix)
    c.initialize()
    ctx.on_close(c.close)
    serial, initial, slots = [0], {}, []

    def fresh():
        serial[0] += 1
        return serial[0]
    for _ in range(case["before"]):
        s = fresh()
        i = c.insert(point(s)[None], [{"s": s}])[0]
        initial[i] = s
        slots.append(i)
    slots += ["gone-%d" % i for i in range(6 - len(slots))]
    q = np.array([0.3, 0.2, 0.1])
    recs, clock = [], [0]

    def tick():
        clock[0] += 1
        return clock[0]

    def worker(t, ops):
        def go():
            for op in ops:
                r = Record(t, op)
                recs.append(r)
                if op[0] == "insert":
                    r.serials = [fresh() for _ in range(op[1])]
                elif op[0] == "update":
                    r.serials = [fresh()]
                r.start = tick()
                try:
                    if op[0] == "insert":
                        r.result = c.insert(np.array([point(s) for s in r.serials]), [{"s": s} for s in r.serials])
                    elif op[0] == "update":
                        r.result = c.update(slots[op[1]], point(r.serials[0]), {"s": r.serials[0]})
                    elif op[0] == "delete":
                        r.result = c.delete([slots[op[1]]])
                    elif op[0] == "delete all":
                        r.result = c.delete([slots[x] for x in op[1]])
                    elif op[0] == "search":
                        r.result = c.search(q, 50)
                    else:
                        r.result = counted(c)
                except ValoriError as e:
                    r.error = e
                r.end = tick()
        return go
    s = sched.Schedule([worker(t, ops) for t, ops in enumerate(case["threads"])], case["plan"][1], case["plan"][0])
    s.run()
    overlaps = any(a.thread != b.thread and a.start < b.end and b.start < a.end for a in recs for b in recs)
    ctx.nontrivial(s.switches > 0 and overlaps)
    ctx.event("switches %d" % min(s.switches, 5))

    def told():
        return "; ".join("thread %d %s-%s %r -> %s" % (r.thread, r.start, r.end, r.op, short(r)) for r in recs)

    def short(r):
        if r.error is not None:
            return repr(r.error)
        if r.op[0] == "search":
            return [(str(x["id"])[:4], x["metadata"]) for x in r.result]
        return r.result
    for r in recs:
        if case["index"] == "annoy" and r.op[0] == "search" and r.error is not None:
            r.error, r.result = None, []  # changed since it was built
        if case["index"] in ("lsh", "annoy") and r.op[0] == "update" and "not found" in str(r.error):
            r.error, r.result = None, False
        check(r.error is None, "an operation failed among other threads': %s", told())
        if r.op[0] == "search":
            for x in r.result:
                v = point(x["metadata"]["s"])
                d = np.linalg.norm(v - q)
                d = d if exact else 1 / (1 + d)
                check(abs(x["distance"] - d) < 1e-4, "a search mixes versions of a record: %r; %s", x, told())
            check(len({str(x["id"]) for x in r.result}) == len(r.result), "a search lists a record twice: %s", told())

    def apply(r, state):
        op, res = r.op[0], r.result
        if op == "insert":
            s = dict(state)
            s.update(zip(res, r.serials))
            if len(set(res)) == len(r.serials):
                yield s
        elif op == "update":
            i = slots[r.op[1]]
            if res is (i in state):
                s = dict(state)
                if i in s:
                    s[i] = r.serials[0]
                yield s
        elif op == "delete":
            i = slots[r.op[1]]
            if res is (i in state):
                s = dict(state)
                s.pop(i, None)
                yield s
        elif op == "delete all":
            ids = {slots[x] for x in r.op[1]}
            if res is (ids <= set(state)):
                yield {k: v for k, v in state.items() if k not in ids}
        elif op == "search":
            found = {str(x["id"]): x["metadata"]["s"] for x in res}
            if (found == state) if exact else (found.items() <= state.items()):
                yield state
        elif res == len(state):
            yield state

    def contents():
        if case["index"] == "annoy" and counted(c):
            ix.build()
        elif case["index"] == "annoy":
            return {}
        res = c.search(q, 50)
        found = {str(x["id"]): x["metadata"]["s"] for x in res}
        check(len(found) == len(res), "the collection lists a record twice: %s", told())
        if not exact:
            return found
        stored = {i: store.retrieve_vector(i) for i in store.list_vectors()}
        check({i: m["s"] for i, (v, m) in stored.items()} == found, "the storage holds %r, searching finds %r: %s", {i[:4]: m for i, (v, m) in stored.items()}, found, told())
        for i, (v, m) in stored.items():
            check(np.allclose(v, point(m["s"])), "the storage mixes versions of %r: %s", i, told())
        check(counted(c) == len(found), "%d records counted, %d there: %s", counted(c), len(found), told())
        return found
    final = contents()
    count = counted(c)
    check(explain(recs, initial, apply, 
                  lambda s: s == final if exact else len(s) == count and final.items() <= s.items()),
          "no order of the operations explains the results %s and the final %r", told(), final)


def storage_strategy():
    rec = st.sampled_from("aaabbcd")
    op = st.one_of(st.tuples(st.just("store"), rec), st.tuples(st.just("store"), rec), st.tuples(st.just("update"), rec, st.booleans()), st.tuples(st.just("update"), rec, st.booleans()),
                   st.tuples(st.just("delete"), rec), st.tuples(st.just("retrieve"), rec), st.tuples(st.just("retrieve"), rec), st.just(("list",)), st.just(("stats",)))
    return st.fixed_dictionaries({"storage": st.sampled_from(["memory", "hybrid"]), "limit": st.integers(1, 4), "before": st.lists(rec, max_size=4, unique=True),
                                  "threads": st.lists(st.lists(op, min_size=1, max_size=3), min_size=2, max_size=3), "plan": schedule()})


def run_storage(case, ctx):
    from valori.storage import HybridStorage, MemoryStorage
    sched.cooperate()
    d = os.path.join(ctx.tmp(), "d")
    o = MemoryStorage({}) if case["storage"] == "memory" else HybridStorage({"disk": {"data_dir": d}, "memory_limit": case["limit"]})
    o.initialize()
    ctx.on_close(o.close)
    serial, recs, clock = [0], [], [0]

    def fresh():
        serial[0] += 1
        return serial[0]
    initial = {}
    for i in case["before"]:
        s = fresh()
        o.store_vector(i, point(s), {"s": s})
        initial[i] = (s, s)

    def tick():
        clock[0] += 1
        return clock[0]

    def worker(t, ops):
        def go():
            for op in ops:
                r = Record(t, op)
                recs.append(r)
                r.serial = fresh()
                r.start = tick()
                if op[0] == "store":
                    r.result = o.store_vector(op[1], point(r.serial), {"s": r.serial})
                elif op[0] == "update":
                    r.result = o.update_vector(op[1], point(r.serial), {"s": r.serial} if op[2] else None)
                elif op[0] == "delete":
                    r.result = o.delete_vector(op[1])
                elif op[0] == "retrieve":
                    got = o.retrieve_vector(op[1])
                    r.result = got if got is None else (got[0].tolist(), (got[1] or {}).get("s", 0))
                elif op[0] == "list":
                    r.result = sorted(o.list_vectors())
                else:
                    r.result = o.get_stats()
                r.end = tick()
        return go
    s = sched.Schedule([worker(t, ops) for t, ops in enumerate(case["threads"])], case["plan"][1], case["plan"][0])
    s.run()
    overlaps = any(a.thread != b.thread and a.start < b.end and b.start < a.end for a in recs for b in recs)
    ctx.nontrivial(s.switches > 0 and overlaps)
    ctx.event("switches %d" % min(s.switches, 5))

    def told():
        return "; ".join("thread %d %s-%s %r -> %r" % (r.thread, r.start, r.end, r.op, r.result if r.op[0] != "stats" else "...") for r in recs)

    def apply(r, state):
        op, res = r.op[0], r.result
        if op == "store":
            if res is True:
                yield dict(state, **{r.op[1]: (r.serial, r.serial)})
        elif op == "update":
            i = r.op[1]
            if res is (i in state):
                yield dict(state, **{i: (r.serial, r.serial if r.op[2] else 0)}) if i in state else state
        elif op == "delete":
            if res is (r.op[1] in state):
                yield {k: v for k, v in state.items() if k != r.op[1]}
        elif op == "retrieve":
            v = state.get(r.op[1])
            if (res is None) if v is None else (res is not None and np.allclose(res[0], point(v[0])) and res[1] == v[1]):
                yield state
        elif op == "list":
            if res == sorted(state):
                yield state
        elif case["storage"] != "memory" or res["vector_count"] == len(state):
            yield state
    final = {}
    for i in o.list_vectors():
        got = o.retrieve_vector(i)
        check(got is not None, "%r is listed but not there: %s", i, told())
        final[i] = (tuple(np.round(got[0], 9)), (got[1] or {}).get("s", 0))
    for i in "abcd":
        check((o.retrieve_vector(i) is not None) == (i in final), "%r is there but not listed: %s", i, told())
    check(len(o.list_vectors()) == len(final), "the list is %r: %s", o.list_vectors(), told())
    check(explain(recs, initial, apply, lambda s: {i: (tuple(np.round(point(v), 9)), m) for i, (v, m) in s.items()} == final),
          "no order of the operations explains the results %s and the final %r", told(), final)
    # what is there survives on disk
    o.close()
    if case["storage"] == "hybrid":
        o.initialize()
        check(sorted(o.list_vectors()) == sorted(final), "after closing, %r of %r are there: %s", sorted(o.list_vectors()), sorted(final), told())
        for i, (v, m) in final.items():
            got = o.retrieve_vector(i)
            check(np.allclose(got[0], v) and (got[1] or {}).get("s", 0) == m, "after closing, %r is another version: %s", i, told())


TESTS = [Test("client", strategy, run, quick=3200, thorough=40000, shards=6), Test("storage", storage_strategy, run_storage, quick=6000, thorough=60000, shards=6)]
