"""C07: the IVF index: probes, clusters and self-recall."""
import numpy as np
from hypothesis import strategies as st

from harness import ixmodel
from harness.core import Test, check
from checks.c06 import cast, cloud, ref, tols

PROPERTY = "C07"
LEVEL = "exploration"
RULE = ("Random point clouds (5-90 records) inserted in several batches, partly updated and deleted, into IVF "
        "indices with 1-12 clusters; the same collection is then reopened with every number of probes. "
        "Compared: exactness when all clusters are probed or the index is untrained, monotonicity in the number "
        "of probes, recall of every stored record by its own vector with one probe (euclidean), and the cluster "
        "sizes. Non-trivial: at least two clusters, trained, with fewer probes than clusters.")


def strategy():
    return st.fixed_dictionaries({
        "metric": st.sampled_from(["euclidean", "euclidean", "cosine"]),
        "backend": st.sampled_from(["memory", "memory", "hybrid", "disk"]),
        "n": st.integers(5, 90),
        "dim": st.sampled_from([2, 3, 5, 16]),
        "cloud": st.sampled_from(["gauss", "clusters", "spheres", "offset"]),
        "dtype": st.sampled_from(["f8", "f8", "f4"]),
        "scale": st.sampled_from([1, 1e-3, 1e3]),
        "batches": st.integers(1, 5),
        "clusters": st.integers(1, 12),
        "ops": st.lists(st.sampled_from(["delete", "update", "insert", "reinsert"]), max_size=12),
        "k": st.integers(1, 12),
        "rs": st.integers(0, 2**31 - 1)})


def run(case, ctx):
    from valori.indices import IVFIndex
    rng = np.random.default_rng(case["rs"])
    n, dim, metric, c = case["n"], case["dim"], case["metric"], case["clusters"]
    f4 = case["dtype"] == "f4"

    def points(m):
        return cast(cloud(case["cloud"], m, dim, rng), case["dtype"], case["scale"])

    s = ixmodel.make_storage(case["backend"], ctx.tmp(), 5)
    s.initialize()
    ix = IVFIndex({"metric": metric, "n_clusters": c, "n_probes": 1})
    ix.initialize(s)
    live, late = {}, set()
    trained = False

    def insert(rows):
        nonlocal trained
        for i, r in zip(ix.insert(rows, [{"v": float(r[0])} for r in rows]), rows):
            live[i] = r
            if trained:
                late.add(i)
        trained = trained or len(live) >= c

    for part in np.array_split(points(n), min(case["batches"], n)):
        insert(part)
    for op in case["ops"]:
        ids = list(live)
        if op == "insert" or not ids:
            insert(points(2))
            continue
        i = ids[int(rng.integers(0, len(ids)))]
        if op == "delete":
            check(ix.delete([i]) is True, "delete failed")
            del live[i]
            late.discard(i)
        elif op == "update":
            v = points(1)[0]
            check(ix.update(i, v, {"v": float(v[0])}), "update failed")
            live[i] = v
            if trained:
                late.add(i)
        else:
            v = live.pop(i)
            ix.delete([i])
            late.discard(i)
            insert(np.array([v]))

    def partition(ix, what):
        stt = ix.get_stats()
        check(stt["trained"] is (trained if what == "edited" else len(live) >= c), "%s: trained %r", what, stt)
        if stt["trained"]:
            check(sum(stt["cluster_stats"].values()) == len(live) == stt["vector_count"],
                  "%s: clusters hold %r, %d records are live", what, stt["cluster_stats"], len(live))
            check(len(stt["cluster_stats"]) <= c, "%s: %r clusters, configured %d", what, stt["cluster_stats"], c)

    def found(ix, i, k=1):
        """Searching a record's own vector returns it (or an equal record) first."""
        res = ix.search(live[i].copy(), k)
        tol = tols(metric, live[i], np.array([live[i]]), f4)[0]
        return bool(res) and abs(res[0]["distance"]) <= tol

    partition(ix, "edited")
    # one probe finds a record by its own vector: its cluster is the nearest one
    for i in live:
        if not trained or metric == "euclidean" or i in late:
            check(found(ix, i), "record %r at %r is not found by its own vector with one probe%s", i, live[i],
                  " (added or updated after training)" if i in late else "")
    if not live:
        return
    ids = list(live)
    rows = np.array([live[i] for i in ids])
    queries = [points(1)[0], points(1)[0] * 2, rows[0], np.zeros(dim, dtype=rows.dtype)]
    previous = None
    for p in range(1, c + 2):
        ip = IVFIndex({"metric": metric, "n_clusters": c, "n_probes": p})
        ip.initialize(s)
        partition(ip, "reopened")
        now = []
        for q in queries:
            res = ip.search(q.copy(), case["k"])
            want, tol = ref(metric, q, rows), tols(metric, q, rows, f4)
            got = [r["id"] for r in res]
            check(len(set(got)) == len(got) <= min(case["k"], len(live)), "%d results: %r", len(got), got)
            for r in res:
                check(r["id"] in live, "unknown record %r", r["id"])
                j = ids.index(r["id"])
                check(abs(r["distance"] - want[j]) <= tol[j], "distance %r, should be %r", r["distance"], want[j])
                check(r["metadata"] == {"v": float(rows[j][0])}, "metadata %r of %r", r["metadata"], rows[j])
            d = [float(r["distance"]) for r in res]
            check(all(a <= b for a, b in zip(d, d[1:])), "not sorted: %r", d)
            if p >= c or len(live) < c:
                best = np.sort(want)[:case["k"]]
                check(len(d) == len(best) and np.allclose(d, best, rtol=1e-6, atol=float(tol.max()) * 2),
                      "%d of %d clusters probed: distances %r, exact %r", p, c, d, best)
            now.append(d)
        if previous is not None:
            for a, b in zip(previous, now):
                check(len(b) >= len(a) and all(y <= x + 1e-12 for x, y in zip(a, b)),
                      "%d probes gave %r, %d gave %r", p - 1, a, p, b)
        if p == 1 and len(live) >= c and metric == "euclidean":
            for i in ids:
                check(found(ip, i), "record %r at %r is not found by its own vector after reopening", i, live[i])
        previous = now
    ctx.nontrivial(c >= 2 and len(live) >= c)


TESTS = [Test("ivf-probes", strategy, run, quick=240, thorough=4000, shards=8, rs=lambda c: c["rs"])]
