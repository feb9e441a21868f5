"""C03: stored records are isolated from the caller's objects, in both directions."""
import copy

import numpy as np
from hypothesis import strategies as st

from harness.core import Test, check
from harness.gens import oplist, same_value
from checks.c01 import make

PROPERTY = "C03"
LEVEL = "exploration"
RULE = ("Histories over a storage backend or over an index (flat, ivf, hnsw, lsh) in which, after "
        "every call, the arrays and nested metadata handed in and the ones handed out are overwritten "
        "in place; the stored state must stay that of a model holding deep copies. Non-trivial: a "
        "record is read after one of its aliases was mutated.")

NESTED = st.fixed_dictionaries({
    "tag": st.integers(0, 9),
    "tags": st.lists(st.integers(0, 9), min_size=1, max_size=3),
    "deep": st.fixed_dictionaries({"x": st.lists(st.integers(0, 3), min_size=1, max_size=2)}),
})
VEC = st.lists(st.integers(-4, 4), min_size=3, max_size=3)


def scribble(o):
    """Overwrite everything reachable from o, in place."""
    if isinstance(o, np.ndarray):
        if o.flags.writeable:
            o[...] = 99
    elif isinstance(o, dict):
        for v in list(o.values()):
            scribble(v)
        o["scribble"] = 1
        o.pop("tag", None)
    elif isinstance(o, list):
        for v in o:
            scribble(v)
        o.append("scribble")
    elif isinstance(o, tuple):
        for v in o:
            scribble(v)


def storage_strategy():
    i = st.integers(0, 2)
    m = st.one_of(NESTED, NESTED, st.none())
    return st.fixed_dictionaries({
        "backend": st.sampled_from(["memory", "disk", "hybrid"]),
        "limit": st.integers(1, 2),
        "ops": oplist(st.one_of(
            st.tuples(st.just("store"), i, VEC, m),
            st.tuples(st.just("update"), i, VEC, m),
            st.tuples(st.just("retrieve"), i),
            st.tuples(st.just("list")),
            st.tuples(st.just("stats")),
            st.tuples(st.just("delete"), i)), 10, 24)})


def run_storage(case, ctx):
    s = make(case["backend"], ctx.tmp(), case["limit"])
    s.initialize()
    ctx.on_close(lambda: s.close())
    model = {}
    ctx.event("storage:" + case["backend"])

    def read(i, when):
        got = s.retrieve_vector(i)
        if i not in model:
            check(got is None, "%s: %r is not stored but was returned", when, i)
            return
        check(got is not None, "%s: %r is missing", when, i)
        check(np.array_equal(got[0], model[i][0]), "%s: vector of %r became %r, stored %r", when, i,
              got[0], model[i][0])
        check(same_value(got[1], model[i][1]), "%s: metadata of %r became %r, stored %r", when, i,
              got[1], model[i][1])
        scribble(got)
        ctx.nontrivial()

    for n, op in enumerate(case["ops"]):
        if op[0] == "stats":
            scribble(s.get_stats())
            continue
        if op[0] == "list":
            ids = s.list_vectors()
            check(sorted(ids) == sorted(model), "ids %r, stored %r", ids, sorted(model))
            ids.append("ghost")
            continue
        i = "id%d" % op[1]
        if op[0] in ("store", "update"):
            v, m = np.array(op[2], float), copy.deepcopy(op[3])
            if op[0] == "store":
                s.store_vector(i, v, m)
                model[i] = (np.array(op[2], float), op[3])
            elif s.update_vector(i, v, m):
                model[i] = (np.array(op[2], float), op[3])
            scribble(v)
            scribble(m)
        elif op[0] == "delete":
            s.delete_vector(i)
            model.pop(i, None)
        read(i, "step %d %s" % (n, op[0]))
    for i in list(model):
        read(i, "end")
        read(i, "end, second read")


def index_strategy():
    m = st.one_of(NESTED, NESTED, st.none())
    return st.fixed_dictionaries({
        "index": st.sampled_from(["flat", "ivf", "hnsw", "lsh", "annoy"]),
        "backend": st.sampled_from(["memory", "disk", "hybrid"]),
        "metric": st.sampled_from(["cosine", "euclidean"]),
        "clusters": st.integers(1, 3),
        "rs": st.integers(0, 99),
        "ops": oplist(st.one_of(
            st.tuples(st.just("insert"), st.lists(st.tuples(VEC, m), min_size=1, max_size=4)),
            st.tuples(st.just("update"), st.integers(0, 9), VEC, m),
            st.tuples(st.just("search"), VEC),
            st.tuples(st.just("reopen")),
            st.tuples(st.just("delete"), st.integers(0, 9))), 6, 12)})


def make_index(case):
    from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex, LSHIndex
    if case["index"] == "annoy":
        return AnnoyIndex({"metric": "euclidean", "num_trees": 3})
    if case["index"] == "flat":
        return FlatIndex({"metric": case["metric"]})
    if case["index"] == "ivf":
        return IVFIndex({"metric": case["metric"], "n_clusters": case["clusters"],
                         "n_probes": case["clusters"]})
    if case["index"] == "hnsw":
        return HNSWIndex({"metric": case["metric"], "m": 16, "ef_search": 50})
    return LSHIndex({"metric": case["metric"], "threshold": -1.0, "num_hash_tables": 4, "hash_size": 2,
                     "num_projections": 8})


def run_index(case, ctx):
    s = make(case["backend"], ctx.tmp(), 2)
    s.initialize()
    ix = make_index(case)
    ix.initialize(s)
    ctx.event("index:" + case["index"])
    model = {}
    lsh = case["index"] in ("lsh", "annoy")
    annoy = case["index"] == "annoy"
    dead = set()
    all_ids = []

    def distance(q, v):
        q, v = np.array(q, float), np.array(v, float)
        if annoy or case["metric"] == "euclidean":
            d = float(np.linalg.norm(q - v))
            return 1 / (1 + d) if lsh else d
        nq, nv = np.linalg.norm(q), np.linalg.norm(v)
        sim = 0.0 if nq == 0 or nv == 0 else float(np.dot(q, v) / (nq * nv))
        return sim if lsh else 1 - sim

    def search(q, when):
        qa = np.array(q, float)
        if annoy:
            ix.build()
        res = ix.search(qa, 100)
        check(np.array_equal(qa, np.array(q, float)), "%s: search modified the query", when)
        scribble(qa)
        for r in res:
            i = str(r["id"])
            check(i in model, "%s: unknown id %r", when, i)
            v, m = model[i]
            want = m if m is not None else ({} if lsh else None)
            check(same_value(r["metadata"] if r["metadata"] is not None else want, want),
                  "%s: metadata of %s is %r, given %r", when, i, r["metadata"], m)
            check(abs(float(r["distance"]) - distance(q, v)) < 1e-5,
                  "%s: %s at %r, its vector is at %r", when, i, r["distance"], distance(q, v))
            ctx.nontrivial()
        scribble(res)

    for n, op in enumerate(case["ops"]):
        when = "step %d %s" % (n, op[0])
        live = sorted(model)
        if op[0] == "insert":
            vs = np.array([v for v, _ in op[1]], float)
            ms = copy.deepcopy([m if m is not None else {} for _, m in op[1]])
            before = copy.deepcopy(ms)
            ids = ix.insert(vs, ms)
            check(same_value(ms, before) and np.array_equal(vs, np.array([v for v, _ in op[1]], float)),
                  "%s modified its arguments", when)
            for i, (v, m) in zip(ids, op[1]):
                model[str(i)] = (v, m if m is not None else {})
                all_ids.append(str(i))
            scribble(vs)
            scribble(ms)
            scribble(ids)
        elif op[0] == "update" and live:
            i = live[op[1] % len(live)]
            v, m = np.array(op[2], float), copy.deepcopy(op[3] if op[3] is not None else {})
            check(ix.update(i, v, m) is True, "%s of live %r failed", when, i)
            model[i] = (op[2], op[3] if op[3] is not None else {})
            scribble(v)
            scribble(m)
        elif op[0] == "delete" and live:
            i = live[op[1] % len(live)]
            ids = [i]
            ix.delete(ids)
            check(ids == [i], "%s modified the id list", when)
            del model[i]
        elif op[0] == "reopen" and not lsh:
            ix = make_index(case)
            ix.initialize(s)
        elif op[0] == "search":
            search(op[1], when)
    for q in ([1, 0, 0], [0, 2, 1]):
        search(q, "end")
        search(q, "end, again")


TESTS = [
    Test("storage-isolation", storage_strategy, run_storage, quick=800, shards=3),
    Test("index-isolation", index_strategy, run_index, quick=1600, shards=5, rs=lambda c: c["rs"]),
]
