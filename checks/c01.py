"""C01: every storage backend is a faithful map from ids to records."""
import copy
import os
import threading

import numpy as np
from hypothesis import strategies as st

from harness.core import Test, check
from harness.gens import (decode_vec, id_pool, oplist, raw_vec, rich_metas as metas, same_array, same_value)

PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("A case is a backend (memory, disk, hybrid with memory_limit 1..4), a pool of ids biased to "
        "look-alikes after file-name escaping, and up to 40 store/retrieve/update/delete/list/stats/"
        "reinit operations compared after every step with a dict. Non-trivial: an id is overwritten, "
        "updated or deleted and later read, or two ids of the pool collide under "
        "alnum/._- sanitising and both are stored.")


def ops(allow_reopen, draw_bulk=False):
    i = st.integers(0, 5)
    alts = [
        st.tuples(st.just("store"), i, raw_vec(), metas),
        st.tuples(st.just("store"), i, raw_vec(), metas),
        st.tuples(st.just("retrieve"), i),
        st.tuples(st.just("update"), i, raw_vec(), metas),
        st.tuples(st.just("delete"), i),
        st.tuples(st.just("list"), st.one_of(st.none(), st.integers(0, 6))),
        st.tuples(st.just("stats")),
        st.tuples(st.just("empty_id"), raw_vec(), metas),
        st.tuples(st.just("refused"), i, raw_vec(), st.sampled_from(["store_vector", "update_vector"])),
    ]
    if draw_bulk:
        alts.append(st.tuples(st.just("bulk"), st.integers(1, 300)))
    if allow_reopen:
        alts += [st.tuples(st.just("reopen"), st.sampled_from(["close", "abandon", "same"]),
                           st.sampled_from(["disk", "hybrid", "hybrid"])) for _ in range(2)]
    return oplist(st.one_of(*alts))


def case_strategy(allow_reopen=False, backends=("memory", "disk", "hybrid", "hybrid"), bulk=False):
    def build():
        return st.fixed_dictionaries({
            "backend": st.sampled_from(list(backends)),
            "limit": st.integers(1, 200) if bulk else st.integers(1, 4),
            "ids": id_pool(),
            "ops": ops(allow_reopen, bulk),
        })
    return build


def make(backend, d, limit):
    from valori.storage import DiskStorage, HybridStorage, MemoryStorage
    if backend == "memory":
        return MemoryStorage({})
    if backend == "disk":
        return DiskStorage({"data_dir": d})
    return HybridStorage({"memory": {}, "disk": {"data_dir": d}, "memory_limit": limit})


def san(s):
    return "".join(c if c.isalnum() or c in "._-" else "_" for c in s)


def check_record(got, want, what):
    if want is None:
        check(got is None, "%s: expected nothing, got %r", what, got)
        return
    check(got is not None, "%s: record is missing", what)
    check(isinstance(got, tuple) and len(got) == 2, "%s: retrieve gave %r", what, got)
    check(same_array(got[0], want[0]), "%s: vector %r (%s) is not %r (%s)", what, got[0],
          getattr(got[0], "dtype", None), want[0], want[0].dtype)
    check(same_value(got[1], want[1]), "%s: metadata %r is not %r", what, got[1], want[1])


def check_all(s, model, ids, what):
    for i in ids:
        check_record(s.retrieve_vector(i), model.get(i), "%s: id %r" % (what, i))
    listed = s.list_vectors()
    check(sorted(listed) == sorted(model), "%s: list_vectors() %r, stored ids %r", what,
          sorted(listed), sorted(model))


def megabytes(stats, kind):
    check(abs(stats[kind + "_usage_mb"] * 2 ** 20 - stats[kind + "_usage_bytes"]) < 1e-3, "%r megabytes, %r bytes", stats[kind + "_usage_mb"], stats[kind + "_usage_bytes"])


def check_stats(s, backend, model, limit, d):
    stats = s.get_stats()
    if backend == "memory":
        check(stats["vector_count"] == len(model), "vector_count %r, stored %d",
              stats["vector_count"], len(model))
        check(stats["memory_usage_bytes"] >= sum(v.nbytes for v, _ in model.values()),
              "memory_usage_bytes %r is below the stored arrays", stats["memory_usage_bytes"])
        # how the contents came about does not matter to their size
        fresh = make("memory", d, limit)
        fresh.initialize()
        for i, (v, m) in model.items():
            fresh.store_vector(i, v, copy.deepcopy(m))
        want = fresh.get_stats()["memory_usage_bytes"]
        check(stats["memory_usage_bytes"] == want, "memory_usage_bytes %r, the same records stored afresh take %r", stats["memory_usage_bytes"], want)
        megabytes(stats, "memory")
    else:
        dk = stats if backend == "disk" else stats["disk"]
        check(dk["vector_count"] == len(model), "disk vector_count %r, stored %d",
              dk["vector_count"], len(model))
        size = sum(os.path.getsize(os.path.join(r, f)) for r, _, fs in os.walk(d) for f in fs)
        check(dk["disk_usage_bytes"] == size, "disk_usage_bytes %r, files hold %d",
              dk["disk_usage_bytes"], size)
        megabytes(dk, "disk")
        check(os.path.realpath(dk["data_directory"]) == os.path.realpath(d), "data_directory %r", dk["data_directory"])
        if backend == "hybrid":
            m = stats["memory"]["vector_count"]
            check(m <= limit, "hybrid keeps %d vectors in memory, limit %d", m, limit)
            check(m <= len(model), "hybrid memory holds %d vectors, only %d stored", m, len(model))


def run(case, ctx):
    d = ctx.tmp()
    backend, limit = case["backend"], case["limit"]
    ids = case["ids"]
    s = make(backend, d, limit)
    s.initialize()
    ctx.on_close(lambda: s.close())
    model = {}
    touched = set()
    ctx.event("backend:" + backend)
    for n, op in enumerate(case["ops"]):
        k = op[0]
        what = "after step %d %s" % (n, k)
        i = ids[op[1] % len(ids)] if k in ("store", "retrieve", "update", "delete", "refused") else None
        if k == "store":
            v, m = decode_vec(op[2]), op[3]
            check(s.store_vector(i, v, copy.deepcopy(m)) is True, "store of %r did not return True", i)
            if i in model:
                touched.add(i)
                ctx.event("overwrite")
            model[i] = (v, m)
        elif k == "retrieve":
            check_record(s.retrieve_vector(i), model.get(i), "step %d: id %r" % (n, i))
            if i in touched:
                ctx.nontrivial()
        elif k == "update":
            v, m = decode_vec(op[2]), op[3]
            r = s.update_vector(i, v, copy.deepcopy(m))
            check(r is (i in model), "update of %r returned %r, present=%r", i, r, i in model)
            if i in model:
                model[i] = (v, m)
                touched.add(i)
                ctx.event("update")
        elif k == "delete":
            r = s.delete_vector(i)
            check(r is (i in model), "delete of %r returned %r, present=%r", i, r, i in model)
            if model.pop(i, None) is not None:
                touched.add(i)
                ctx.event("delete")
        elif k == "list":
            got = s.list_vectors(op[1]) if op[1] is not None else s.list_vectors()
            want = len(model) if op[1] is None else min(op[1], len(model))
            check(len(got) == want and len(set(got)) == want and set(got) <= set(model),
                  "list_vectors(%r) gave %r, stored ids %r", op[1], got, sorted(model))
        elif k == "stats":
            check_stats(s, backend, model, limit, d)
        elif k == "empty_id":
            check(s.store_vector("", decode_vec(op[1]), op[2]) is False, "store under '' was accepted")
        elif k == "refused":  # metadata that can be neither copied nor written
            from valori.exceptions import ValoriError
            try:
                r = getattr(s, op[3])(i, decode_vec(op[2]), {"lock": threading.Lock()})
            except ValoriError:
                r = False
            check(r is False, "%s of %r with metadata that cannot be kept returned %r", op[3], i, r)
            if n % 2:
                check_record(s.retrieve_vector(i), model.get(i), "%s of id %r was refused, afterwards" % (op[3], i))
            ctx.event("refused")
        elif k == "bulk":
            for j in range(op[1]):
                v, m = np.array([n, j], np.float32), {"n": n, "j": j}
                check(s.store_vector("b%d" % j, v, dict(m)) is True, "store of b%d did not return True", j)
                model["b%d" % j] = (v, m)
            check_all(s, model, list(model) + ids, what)
            ctx.event("bulk")
        elif k == "reopen":
            if op[1] != "abandon":
                s.close()
            if op[1] == "same":
                ctx.event("reopen:same " + backend)
            else:
                ctx.event("reopen:%s->%s" % (backend, op[2]))
                backend = op[2]
                s = make(backend, d, limit)
            s.initialize()
            if touched and model:
                ctx.nontrivial()
            check_all(s, model, ids, what)
            check_stats(s, backend, model, limit, d)
        # a full comparison costs memory promotion in hybrid, so it is done on some steps only:
        if n % 4 == 3:
            listed = s.list_vectors()
            check(sorted(listed) == sorted(model), "%s: list_vectors() %r, stored %r", what,
                  sorted(listed), sorted(model))
    if any(a != b and san(a) == san(b) for a in model for b in model):
        ctx.event("colliding-ids")
        ctx.nontrivial()
    check_stats(s, backend, model, limit, d)
    check_all(s, model, list(model) + ids, "at the end")
    check_stats(s, backend, model, limit, d)
    if touched:
        ctx.nontrivial()


TESTS = [
    Test("map-history", case_strategy(), run, quick=2000, shards=7),
    Test("large-history", case_strategy(bulk=True), run, quick=24, thorough=400),
]
