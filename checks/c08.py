"""C08: the HNSW graph never loses or invents records, whatever its shape."""
import numpy as np
from hypothesis import strategies as st

from harness import ixmodel
from harness.core import Test, check
from checks.c06 import cast, cloud, ref, tols

PROPERTY = "C08"
LEVEL = "exploration"
RULE = ("HNSW graphs with random level assignments (seeded per case), m from 1 to 16, ef_search from 1 to 64, grown "
        "by batches and thinned by deletes (random, oldest first, or everything returned by a search), with "
        "updates and reopening. Compared after every phase: min(k, n) distinct live results with true distances, "
        "exact when ef_search >= n, everything found by k >= n, and nothing changes on repeating a search. "
        "Non-trivial: a search over at least 10 records after deletes, with ef_search below the record count.")


def strategy():
    phase = st.one_of(
        st.tuples(st.just("insert"), st.integers(1, 40)),
        st.tuples(st.just("delete"), st.sampled_from(["random", "oldest", "newest", "found"]), st.integers(1, 25)),
        st.tuples(st.just("update"), st.integers(1, 10), st.just(0)),
        st.tuples(st.just("reopen"), st.just(0)))
    return st.fixed_dictionaries({
        "metric": st.sampled_from(["euclidean", "cosine"]),
        "m": st.sampled_from([1, 2, 3, 8, 16]),
        "ef_search": st.sampled_from([1, 2, 5, 10, 30, 64]),
        "dim": st.sampled_from([1, 2, 4, 16]),
        "cloud": st.sampled_from(["gauss", "clusters", "grid", "duplicates", "line", "offset"]),
        "dtype": st.sampled_from(["f8", "f4"]),
        "phases": st.lists(phase, min_size=1, max_size=8),
        "first": st.integers(1, 60),
        "ks": st.lists(st.integers(1, 70), min_size=1, max_size=3),
        "rs": st.integers(0, 2**31 - 1)})


def run(case, ctx):
    from valori.indices import HNSWIndex
    rng = np.random.default_rng(case["rs"])
    metric, dim, f4 = case["metric"], case["dim"], case["dtype"] == "f4"
    cfg = {"metric": metric, "m": case["m"], "ef_search": case["ef_search"], "ef_construction": 20}
    s = ixmodel.make_storage("memory", None)
    s.initialize()
    ix = HNSWIndex(dict(cfg))
    ix.initialize(s)
    live = {}
    deleted = False

    def points(m):
        return cast(cloud(case["cloud"], m, dim, rng), case["dtype"], 1)

    def probe(what):
        n = len(live)
        if not n:
            check(ix.search(np.ones(dim), 3) == [], "%s: results from an empty index", what)
            return
        ids = list(live)
        rows = np.array([live[i] for i in ids])
        pos = {i: j for j, i in enumerate(ids)}
        st_ = ix.get_stats()
        check(st_["vector_count"] == n, "%s: vector_count %r, %d live", what, st_["vector_count"], n)
        for q in (points(1)[0], rows[int(rng.integers(0, n))]):
            want, tol = ref(metric, q, rows), tols(metric, q, rows, f4)
            for k in case["ks"] + [1, n, n + 7]:
                res = ix.search(q.copy(), k)
                w = "%s: k=%d over %d records (m=%d, ef_search=%d)" % (what, k, n, case["m"], case["ef_search"])
                check(len(res) == min(k, n), "%s: %d results", w, len(res))
                got = [r["id"] for r in res]
                check(len(set(got)) == len(got), "%s: duplicates in %r", w, got)
                for r in res:
                    check(r["id"] in live, "%s: %r is not live", w, r["id"])
                    check(abs(r["distance"] - want[pos[r["id"]]]) <= tol[pos[r["id"]]], "%s: distance %r, true %r", w,
                          r["distance"], want[pos[r["id"]]])
                    check(r["metadata"] == {"v": float(live[r["id"]][0])}, "%s: metadata %r", w, r["metadata"])
                d = [r["distance"] for r in res]
                check(all(a <= b for a, b in zip(d, d[1:])), "%s: not sorted %r", w, d)
                if max(k, case["ef_search"]) >= n:
                    best = np.sort(want)[:k]
                    check(np.allclose(d, best, atol=float(tol.max()) * 2), "%s: %r, exact %r", w, d, best)
                again = [(r["id"], r["distance"]) for r in ix.search(q.copy(), k)]
                check(again == [(r["id"], r["distance"]) for r in res], "%s: a repeated search differs", w)
                if deleted and n >= 10 and case["ef_search"] < n:
                    ctx.nontrivial()
                    ctx.event("pruned-search-after-deletes")

    def insert(m):
        rows = points(m)
        for i, r in zip(ix.insert(rows, [{"v": float(r[0])} for r in rows]), rows):
            live[i] = r

    insert(case["first"])
    probe("start")
    for n, ph in enumerate(case["phases"]):
        ids = list(live)
        if ph[0] == "insert":
            insert(ph[1])
        elif ph[0] == "delete" and ids:
            m = min(ph[2], len(ids))
            if ph[1] == "random":
                gone = [ids[j] for j in rng.permutation(len(ids))[:m]]
            elif ph[1] == "oldest":
                gone = ids[:m]
            elif ph[1] == "newest":
                gone = ids[-m:]
            else:
                gone = [r["id"] for r in ix.search(points(1)[0], m)]
            check(ix.delete(list(gone)) is True, "phase %d: delete failed", n)
            for i in gone:
                del live[i]
            deleted = True
        elif ph[0] == "update":
            for _ in range(ph[1] if ids else 0):
                i, v = ids[int(rng.integers(0, len(ids)))], points(1)[0]
                check(ix.update(i, v, {"v": float(v[0])}) is True, "phase %d: update failed", n)
                live[i] = v
        elif ph[0] == "reopen":
            ix = HNSWIndex(dict(cfg))
            ix.initialize(s)
        probe("phase %d (%s)" % (n, ph[0]))


def recall_strategy():
    return st.fixed_dictionaries({
        "metric": st.sampled_from(["euclidean", "cosine"]),
        "n": st.one_of(st.integers(150, 240), st.integers(380, 420)), "dim": st.integers(3, 16),
        "delete": st.integers(0, 60), "batches": st.integers(1, 4),
        "reopen": st.booleans(), "rs": st.integers(0, 2**31 - 1)})


def run_recall(case, ctx):
    """"High recall": 40 queries x 5 neighbours, m=16, ef_search=50 (observed from 0.97 for up to 240 records, bound 0.92; from 0.94 for up to 420, bound 0.85)."""
    from valori.indices import HNSWIndex
    rng = np.random.default_rng(case["rs"])
    cfg = {"metric": case["metric"], "m": 16, "ef_search": 50}
    s = ixmodel.make_storage("memory", None)
    s.initialize()
    ix = HNSWIndex(dict(cfg))
    ix.initialize(s)
    rows = rng.standard_normal((case["n"], case["dim"]))
    ids = []
    for part in np.array_split(rows, case["batches"]):
        ids += ix.insert(part)
    live = dict(zip(ids, rows))
    gone = [ids[int(j)] for j in rng.permutation(len(ids))[:case["delete"]]]
    if gone:
        ix.delete(gone)
    for i in gone:
        del live[i]
    if case["reopen"]:
        ix = HNSWIndex(dict(cfg))
        ix.initialize(s)
    lids, lrows = list(live), np.array(list(live.values()))
    own = sum(ix.search(live[i].copy(), 1)[0]["id"] == i for i in lids[:40])
    check(own >= (35 if case["n"] <= 240 else 32), "%d of 40 stored vectors are found by searching for them, %d records, ef_search=50", own, len(live))
    hit = 0
    for q in rng.standard_normal((40, case["dim"])):
        order = np.argsort(ref(case["metric"], q, lrows))[:5]
        hit += len({lids[int(j)] for j in order} & {r["id"] for r in ix.search(q, 5)})
    ctx.event("recall-%.2f" % (hit // 10 / 20))
    ctx.nontrivial()
    check(hit / 200 >= (0.92 if case["n"] <= 240 else 0.85), "recall@5 is %.3f over 40 queries, %d records, ef_search=50", hit / 200, len(live))


TESTS = [Test("hnsw-recall", recall_strategy, run_recall, quick=96, thorough=400, shards=4, rs=lambda c: c["rs"]),
         Test("hnsw-graph", strategy, run, quick=1600, thorough=12000, shards=8, rs=lambda c: c["rs"])]
