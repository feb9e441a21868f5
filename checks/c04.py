"""C04: a crash or a failing disk during a storage write damages at most that one record's write."""
import copy
import os
import shutil

import numpy as np
from hypothesis import strategies as st

from harness import faultfs
from harness.core import Test, check
from harness.gens import decode_vec, id_pool, metas, raw_vec, same_array, same_value
from checks.c01 import make

PROPERTY = "C04"
LEVEL = "fault_enumeration"
RULE = ("A case is a disk or hybrid storage prepared by a few stores, then one store/update/delete (vector and "
        "metadata generated, sometimes metadata that cannot be serialised), or one insert of up to 4 rows, update or "
        "delete of up to 3 records through a client with a flat, IVF or HNSW index. Every file-system event of that "
        "operation is failed in turn (process death before it, death half-way through a write, one I/O error, "
        "an error half-way, disk full from there on); each evaluation is one case, each class 'fault:*' "
        "counts single injected faults. Non-trivial: a case with at least three fault points.")
ASSUMPTIONS = ["a crash keeps every completed file-system call in order (process death, not power loss)"]


class Unserialisable:
    def __reduce__(self):
        raise TypeError("cannot be serialised")

    def __deepcopy__(self, memo):
        return self


def strategy():
    i = st.integers(0, 3)
    m = st.one_of(metas, metas, st.just("UNSERIALISABLE"))
    return st.fixed_dictionaries({
        "backend": st.sampled_from(["disk", "hybrid"]),
        "reopen_as": st.sampled_from(["disk", "hybrid"]),
        "limit": st.integers(1, 3),
        "ids": id_pool(4),
        "setup": st.lists(st.one_of(
            st.tuples(st.just("store"), i, raw_vec(), metas),
            st.tuples(st.just("store"), i, raw_vec(), metas),
            st.tuples(st.just("delete"), i)), max_size=5),
        "op": st.one_of(
            st.tuples(st.just("store"), i, raw_vec(), m),
            st.tuples(st.just("store"), i, raw_vec(), m),
            st.tuples(st.just("update"), i, raw_vec(), m),
            st.tuples(st.just("delete"), i))})


def apply(s, op, ids):
    i = ids[op[1] % len(ids)]
    if op[0] == "delete":
        return s.delete_vector(i)
    m = copy.deepcopy(op[3]) if op[3] != "UNSERIALISABLE" else {"a": 1, "x": Unserialisable()}
    f = s.store_vector if op[0] == "store" else s.update_vector
    return f(i, decode_vec(op[2]), m)


def verify(s, model, victim, old, new, what):
    """Other records exact; the victim entirely old or entirely new."""
    listed = s.list_vectors()
    check(len(set(listed)) == len(listed), "%s: ids listed twice: %r", what, listed)
    for i, (v, m) in model.items():
        if i == victim:
            continue
        got = s.retrieve_vector(i)
        check(got is not None and i in listed, "%s: record %r disappeared", what, i)
        check(same_array(got[0], v) and same_value(got[1], m), "%s: record %r became %r, was %r", what, i,
              got, (v, m))
    extra = set(listed) - set(model) - {victim}
    check(not extra, "%s: ids %r appeared", what, extra)
    got = s.retrieve_vector(victim)
    check((got is not None) == (victim in listed), "%s: %r retrieved %r but listed %r", what, victim, got, listed)
    states = [x for x in (old, new)]
    if got is None:
        check(None in states, "%s: record %r was lost (old %r, new %r)", what, victim, old, new)
    else:
        have = [x for x in states if x is not None]
        check(have, "%s: record %r exists as %r although neither state has it", what, victim, got)
        check(any(same_array(got[0], x[0]) for x in have), "%s: vector of %r is %r; old %r new %r", what,
              victim, got[0], old, new)
        check(any(same_array(got[0], x[0]) and same_value(got[1], x[1]) for x in have),
              "%s: metadata of %r is %r; old %r new %r", what, victim, got[1], old, new)
    st_ = s.get_stats()
    n = (st_["disk"] if st_["backend_type"] == "hybrid" else st_)["vector_count"]
    check(n == len(listed), "%s: vector_count %r, %d ids listed", what, n, len(listed))
    return got


def run(case, ctx):
    from valori.exceptions import StorageError
    base = os.path.join(ctx.tmp(), "base")
    ids, op = case["ids"], case["op"]
    s = make(case["backend"], base, case["limit"])
    s.initialize()
    model = {}
    for o in case["setup"]:
        i = ids[o[1] % len(ids)]
        apply(s, o, ids)
        if o[0] == "store":
            model[i] = (decode_vec(o[2]), o[3])
        else:
            model.pop(i, None)
    s.close()
    victim = ids[op[1] % len(ids)]
    old = model.get(victim)
    bad = op[0] != "delete" and op[3] == "UNSERIALISABLE"
    if op[0] == "delete" or (op[0] == "update" and old is None):
        new = None
    else:
        new = old if bad else (decode_vec(op[2]), op[3])

    def fresh(n):
        d = os.path.join(os.path.dirname(base), "t%s" % n)
        shutil.copytree(base, d)
        t = make(case["backend"], d, case["limit"])
        t.initialize()
        for i in ids:  # warms the memory layer of the hybrid storage
            t.retrieve_vector(i)
        return d, t

    d, t = fresh("count")
    outcome, value, fs = faultfs.trial(d, None, "crash", lambda: apply(t, op, ids), StorageError)
    what = "%s of %r" % (op[0], victim)
    if bad and (op[0] == "store" or old is not None):
        check(outcome == "refused", "%s with metadata that cannot be serialised gave %r", what, value)
    else:
        check(outcome == "done", "%s raised %r", what, value)
    verify(t, model, victim, new, new, what + " without faults")
    shutil.rmtree(d)
    n = len(fs.events)
    ctx.nontrivial(n >= 3)
    for at in range(n):
        for mode in faultfs.MODES:
            if mode.endswith("half") and fs.events[at] != "write":
                continue
            d, t = fresh("f")
            outcome, value, f2 = faultfs.trial(d, at, mode, lambda: apply(t, op, ids), StorageError)
            w = "%s, %s at event %d (%s of %s)" % (what, mode, at, fs.events[at], ",".join(fs.events))
            ctx.event("fault:" + mode)
            if f2.fired and mode.startswith("crash"):
                check(outcome == "crash", "harness: crash was swallowed")
            else:
                # the process lives on with the same objects
                verify(t, model, victim, old, new, w + ", same object")
                if outcome == "done" and not bad and f2.fired and value:
                    verify(t, model, victim, new, new, w + ", reported success")
            t2 = make(case["reopen_as"], d, case["limit"])
            t2.initialize()
            verify(t2, model, victim, old, new, w + ", reopened")
            # the storage stays usable: the same write now goes through
            there = t2.retrieve_vector(victim) is not None
            try:
                r = apply(t2, op, ids)
                check(r is (op[0] == "store" or there), "%s: retry returned %r", w, r)
                verify(t2, model, victim, new, new, w + ", after a retry")
            except StorageError:
                check(bad, "%s: retry failed", w)
                verify(t2, model, victim, old, new, w + ", after a retry")
            if op[0] == "store" and not bad:
                t3 = make("disk", d, 1)
                t3.initialize()
                verify(t3, model, victim, new, new, w + ", after a retry, reopened")
            shutil.rmtree(d)


def client_strategy():
    kind = st.sampled_from(["flat", "ivf", "hnsw"])
    return st.fixed_dictionaries({
        "backend": st.sampled_from(["disk", "hybrid"]), "limit": st.integers(1, 3), "index": kind, "reopen_as": kind,
        "before": st.integers(0, 5), "warm": st.booleans(),
        "op": st.one_of(
            st.tuples(st.just("insert"), st.integers(1, 4), st.sampled_from([None, None, None, 0, 2])),
            st.tuples(st.just("insert"), st.integers(1, 4), st.sampled_from([None, None, None, 0, 2])),
            st.tuples(st.just("update"), st.integers(0, 4), st.booleans()),
            st.tuples(st.just("delete"), st.lists(st.integers(0, 4), min_size=1, max_size=3, unique=True)))})


def row(serial):
    return np.array([serial, serial % 3 - 1.0, 0.5])


def run_client(case, ctx):
    """What a client finds stays what is stored, whatever fails below it."""
    from valori import VectorDBClient
    from valori.exceptions import ValoriError
    from valori.indices import FlatIndex, HNSWIndex, IVFIndex
    base = os.path.join(ctx.tmp(), "base")
    q = np.array([3.0, 0.0, 0.0])

    def client(d, kind):
        ix = {"flat": FlatIndex, "ivf": IVFIndex, "hnsw": HNSWIndex}[kind]({"metric": "euclidean", "n_clusters": 3, "n_probes": 3})
        c = VectorDBClient(make(case["backend"], d, case["limit"]), ix)
        c.initialize()
        return c

    c = client(base, case["index"])
    old = {}
    for n in range(case["before"]):
        old[c.insert(row(n)[None], [{"s": n}])[0]] = (row(n), {"s": n})
    c.close()
    ids = sorted(old, key=lambda i: old[i][1]["s"])
    op = case["op"]
    bad = op[0] == "insert" and op[2] is not None and op[2] < op[1]
    rows = [(row(100 + n), {"s": 100 + n}) for n in range(op[1] if op[0] == "insert" else 0)]
    victims = [ids[j] for j in ([op[1]] if op[0] == "update" else op[1]) if j < len(ids)] if op[0] != "insert" else []
    changed = (row(200), {"s": 200} if op[-1] else None)

    def apply(c):
        if op[0] == "insert":
            return c.insert(np.array([v for v, m in rows]), [dict(m, x=Unserialisable()) if bad and n == op[2] else dict(m) for n, (v, m) in enumerate(rows)])
        if op[0] == "update":
            return c.update(ids[op[1]] if op[1] < len(ids) else "none", changed[0].copy(), copy.deepcopy(changed[1]))
        return c.delete([ids[j] if j < len(ids) else "none" for j in op[1]])

    def same(a, b):
        return same_array(a[0], b[0]) and same_value(a[1], b[1])

    def verify(c, what, exact):
        store = c.storage_backend
        stored = {i: store.retrieve_vector(i) for i in store.list_vectors()}
        check(None not in stored.values(), "%s: listed but not there: %r", what, stored)
        found = c.search(q.copy(), 50)
        check(sorted(x["id"] for x in found) == sorted(stored), "%s: searching finds %r, stored are %r", what, [x["id"] for x in found], sorted(stored))
        for x in found:
            v, m = stored[x["id"]]
            check(same_value(x["metadata"], m) and abs(x["distance"] - np.linalg.norm(q - v)) < 1e-9, "%s: %r is found for %r", what, x, (v, m))
        n = c.get_stats()["index"]["vector_count"]
        check(n == len(stored), "%s: %r counted, %d stored", what, n, len(stored))
        for i, was in old.items():
            if i in victims:
                if op[0] == "update":
                    check(i in stored and (same(stored[i], was) or same(stored[i], changed)), "%s: %r became %r, was %r", what, i, stored.get(i), was)
                else:
                    check(i not in stored or same(stored[i], was), "%s: %r became %r, was %r", what, i, stored.get(i), was)
            else:
                check(i in stored and same(stored[i], was), "%s: %r became %r, was %r", what, i, stored.get(i), was)
        new = [i for i in stored if i not in old]
        left = list(range(len(rows)))
        for i in new:
            match = [n for n in left if same(stored[i], rows[n])]
            check(match, "%s: %r appeared as %r, inserted were %r", what, i, stored[i], rows)
            left.remove(match[0])
        if exact == "old":
            check(not new and all(i in stored and same(stored[i], old[i]) for i in victims), "%s: the refused call changed %r", what, stored)
        elif exact == "new":
            check(not left or op[0] != "insert", "%s: %d of %d rows stored", what, len(new), len(rows))
            check(all(same(stored[i], changed) if op[0] == "update" else i not in stored for i in victims), "%s: not all of %r changed: %r", what, victims, stored)
        return len(new)

    def fresh():
        d = os.path.join(os.path.dirname(base), "t")
        shutil.copytree(base, d)
        t = client(d, case["index"])
        if case["warm"]:
            t.search(q, 3)
        return d, t

    d, t = fresh()
    outcome, value, fs = faultfs.trial(d, None, "crash", lambda: apply(t), ValoriError)
    what = "%s %r over %d records (%s)" % (op[0], op[1:], len(old), case["index"])
    check(outcome == ("refused" if bad else "done"), "%s: %s %r", what, outcome, value)
    verify(t, what, "old" if bad else "new")
    shutil.rmtree(d)
    n = len(fs.events)
    ctx.nontrivial(n >= 3)
    for at in range(n):
        for mode in faultfs.MODES:
            if mode.endswith("half") and fs.events[at] != "write":
                continue
            d, t = fresh()
            outcome, value, f2 = faultfs.trial(d, at, mode, lambda: apply(t), ValoriError)
            w = "%s, %s at event %d (%s of %s)" % (what, mode, at, fs.events[at], ",".join(fs.events))
            ctx.event("fault:" + mode)
            if f2.fired and mode.startswith("crash"):
                check(outcome == "crash", "harness: crash was swallowed")
                exact = None
            else:
                exact = "old" if outcome == "refused" and op[0] == "insert" and not bad else "new" if outcome == "done" and value else None
                if not bad:  # a refused row whose undoing fails as well is left to reopening
                    verify(t, w + ", same client", exact)
            t2 = client(d, case["reopen_as"])
            m = verify(t2, w + ", reopened", exact)
            t2.insert(row(300)[None], [{"s": 300}])
            check(t2.get_stats()["index"]["vector_count"] == len(t2.search(q, 50)) >= m + 1, "%s: inserting does not work afterwards", w)
            t2.close()
            shutil.rmtree(d)


TESTS = [Test("storage-faults", strategy, run, quick=320, thorough=4000, shards=8), Test("client-faults", client_strategy, run_client, quick=128, thorough=3000, shards=8)]
