"""C06: exhaustive search is exact: Flat, IVF probing everything, HNSW with ef_search >= n."""
import numpy as np
from hypothesis import strategies as st

from harness import ixmodel
from harness.core import Test, check

PROPERTY = "C06"
LEVEL = "exploration"
RULE = ("Random point clouds (1-120 records, 1-48 dimensions; Gaussian, clustered, integer grid with ties, "
        "duplicates, zero and collinear vectors, far from the origin, scales 1e-6..1e6, several dtypes), some records deleted and "
        "updated, searched by Flat, IVF with every cluster probed and HNSW with ef_search >= n over the three "
        "storage backends; ids and distances are compared with a float64 brute force, and with relations "
        "(k truncates, insertion order, deleting a non-result, scaling for cosine, shifting for euclidean). "
        "Non-trivial: k below the number of live records.")


def strategy():
    return st.fixed_dictionaries({
        "index": st.sampled_from(["flat", "flat", "ivf", "hnsw"]),
        "metric": st.sampled_from(["cosine", "euclidean"]),
        "backend": st.sampled_from(["memory", "memory", "disk", "hybrid"]),
        "client": st.booleans(),
        "n": st.one_of(st.integers(1, 12), st.integers(1, 120)),
        "dim": st.sampled_from([1, 2, 3, 4, 8, 17, 48, 130, 400]),
        "cloud": st.sampled_from(["gauss", "gauss", "offset", "clusters", "grid", "grid", "duplicates", "line", "sparse", "spheres"]),
        "scale": st.sampled_from([1, 1, 1e-6, 1e-3, 1e3, 1e6, 1e-12, 1e-30]),
        "dtype": st.sampled_from(["f8", "f8", "f4", "i8", "i2", "u1"]),
        "split": st.integers(1, 4),
        "clusters": st.integers(1, 12),
        "delete": st.integers(0, 6),
        "update": st.integers(0, 4),
        "reopen": st.booleans(),
        "k": st.one_of(st.integers(1, 15), st.integers(1, 5), st.integers(0, 30), st.just(1000)),
        "rs": st.integers(0, 2**31 - 1)})


def cloud(kind, n, dim, rng):
    if kind == "gauss":
        return rng.standard_normal((n, dim))
    if kind == "offset":  # far from the origin, compared with the distances between them
        return rng.standard_normal(dim) * 10.0 ** rng.integers(3, 8) + rng.standard_normal((n, dim))
    if kind == "clusters":
        c = rng.standard_normal((4, dim)) * 5
        return c[rng.integers(0, 4, n)] + rng.standard_normal((n, dim)) * 0.1
    if kind == "grid":
        return rng.integers(-2, 3, (n, dim)).astype(float)
    if kind == "duplicates":
        return rng.integers(-1, 2, (max(1, n // 3), dim)).astype(float)[rng.integers(0, max(1, n // 3), n)]
    if kind == "line":
        return np.outer(rng.integers(-9, 10, n), rng.integers(-2, 3, dim)).astype(float)
    if kind == "sparse":
        return rng.standard_normal((n, dim)) * (rng.random((n, dim)) < 0.2)
    v = rng.standard_normal((n, dim))
    nv = np.linalg.norm(v, axis=1, keepdims=True)
    return v / np.where(nv == 0, 1, nv) * rng.integers(1, 4, (n, 1))


def cast(a, dtype, scale):
    if dtype in ("f8", "f4"):
        return (a * scale).astype(dtype)
    if dtype == "u1":
        return np.clip(np.abs(a) * 20, 0, 255).astype(dtype)
    return np.clip(np.round(a * 10), -32000, 32000).astype(dtype)


def ref(metric, q, rows):
    q, rows = q.astype(np.float64), rows.astype(np.float64)
    if metric == "euclidean":
        return np.sqrt(((rows - q) ** 2).sum(axis=1))
    nq = np.sqrt((q ** 2).sum())
    nr = np.sqrt((rows ** 2).sum(axis=1))
    den = nq * nr
    return 1 - np.where(den == 0, 0.0, (rows @ q) / np.where(den == 0, 1, den))


def tols(metric, q, rows, f4):
    """Rounding allowed per row: that of the differences in double precision, or of single precision for single inputs."""
    eps = 1e-5 if f4 else 1e-7
    if metric == "cosine":
        return np.full(len(rows), eps if f4 else 1e-9)
    want = ref(metric, q, rows)
    q, rows = q.astype(np.float64), rows.astype(np.float64)
    size = np.sqrt((q ** 2).sum()) + np.sqrt((rows ** 2).sum(axis=1))
    if f4:
        return eps * size + 1e-300
    return 1e-13 * size + 1e-9 * want + 1e-300


def open_db(case, d):
    from valori.client import VectorDBClient
    p = {"metric": case["metric"]}
    if case["index"] == "ivf":
        p.update(n_clusters=case["clusters"], n_probes=case["clusters"])
    if case["index"] == "hnsw":
        p.update(m=1 + case["rs"] % 16, ef_search=200)
    s = ixmodel.make_storage(case["backend"], d, 1 + case["rs"] % 50)
    ix = ixmodel.make_index({"type": case["index"], "params": p})
    if case["client"]:
        c = VectorDBClient(s, ix)
        c.initialize()
        return s, c
    s.initialize()
    ix.initialize(s)
    return s, ix


def run(case, ctx):
    rng = np.random.default_rng(case["rs"])
    n, dim, metric = case["n"], case["dim"], case["metric"]
    f4 = case["dtype"] == "f4"
    rows = cast(cloud(case["cloud"], n, dim, rng), case["dtype"], case["scale"])
    d = ctx.tmp()
    s, db = open_db(case, d)
    ctx.event("index:" + case["index"])
    live = {}
    for part in np.array_split(np.arange(n), min(case["split"], n)):
        if len(part):
            for i, j in zip(db.insert(rows[part], [{"n": int(j)} for j in part]), part):
                live[i] = (rows[j], {"n": int(j)})
    ids = list(live)
    for i in {ids[int(x)] for x in rng.integers(0, n, case["delete"])}:
        check(db.delete([i]) is True, "delete failed")
        del live[i]
    for _ in range(case["update"]):
        if live:
            i = list(live)[int(rng.integers(0, len(live)))]
            v = cast(cloud(case["cloud"], 1, dim, rng), case["dtype"], case["scale"])[0]
            check(db.update(i, v, {"u": 1}), "update failed")
            live[i] = (v, {"u": 1})
    if case["reopen"] and case["backend"] != "memory":
        db.close()
        s, db = open_db(case, d)
    if not live:
        check(db.search(np.ones(dim), 5) == [], "results from an empty collection")
        return
    lids = list(live)
    lrows = np.array([live[i][0] for i in lids])
    k = case["k"]
    fresh_q = cast(cloud("gauss", 2, dim, rng), case["dtype"], case["scale"])
    for q in [fresh_q[0], fresh_q[1], lrows[int(rng.integers(0, len(lrows)))], np.zeros(dim, dtype=lrows.dtype)]:
        res = db.search(q.copy(), k)
        judge(metric, q, k, res, live, lids, lrows, f4)
        if 0 < k < len(live):
            ctx.nontrivial()
    # k only truncates
    full = [(r["id"], r["distance"]) for r in db.search(q, len(live))]
    for kk in (1, 2, len(live) // 2):
        got = [r["distance"] for r in db.search(q, kk)]
        check(np.allclose(got, [x for _, x in full][:kk], rtol=1e-9, atol=1e-12), "k=%d gives %r of %r", kk, got, full)
    q = fresh_q[0]
    # deleting a record that was not returned changes nothing
    res = db.search(q, max(1, k))
    rest = [i for i in live if i not in {r["id"] for r in res}]
    if rest:
        gone = rest[int(rng.integers(0, len(rest)))]
        db.delete([gone])
        del live[gone]
        again = db.search(q, max(1, k))
        check(np.allclose([r["distance"] for r in again], [r["distance"] for r in res], rtol=1e-9, atol=1e-12),
              "deleting the non-result %r changed the distances from %r to %r", gone, res, again)
    # scaling the query does not matter for cosine
    if metric == "cosine" and case["dtype"] == "f8":
        a = [r["distance"] for r in db.search(q * 4.0, k)]
        b = [r["distance"] for r in db.search(q, k)]
        check(np.allclose(a, b, atol=1e-9), "cosine distances depend on the query's length: %r, %r", a, b)


def judge(metric, q, k, res, live, lids, lrows, f4):
    want, tol = ref(metric, q, lrows), tols(metric, q, lrows, f4)
    pos = {i: n for n, i in enumerate(lids)}
    check(len(res) == min(k, len(live)), "%d results for k=%d over %d records", len(res), k, len(live))
    got = [r["id"] for r in res]
    check(len(set(got)) == len(got), "duplicate results")
    for r in res:
        check(r["id"] in live, "unknown result %r", r["id"])
        j = pos[r["id"]]
        check(abs(r["distance"] - want[j]) <= tol[j], "%s distance %r of %r to %r, should be %r", metric,
              r["distance"], lrows[j], q, want[j])
        check(r["metadata"] == live[r["id"]][1], "metadata %r, should be %r", r["metadata"], live[r["id"]][1])
    dist = [r["distance"] for r in res]
    check(all(a <= b for a, b in zip(dist, dist[1:])), "not sorted: %r", dist)
    if res and len(res) < len(live):
        out = [n for n, i in enumerate(lids) if i not in set(got)]
        worst = max(want[pos[i]] - tol[pos[i]] for i in got)
        best_left = min(want[n] + tol[n] for n in out)
        check(best_left >= worst, "a record at %r was left out, one at %r was returned", best_left, worst)


TESTS = [Test("exact-topk", strategy, run, quick=1800, shards=8, rs=lambda c: c["rs"])]
