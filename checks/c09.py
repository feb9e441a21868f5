"""C09: a collection on disk can be reopened by any client, with any storage-backed index type."""
import numpy as np
from hypothesis import strategies as st

from harness import ixmodel
from harness.core import Test, check
from harness.gens import id_pool, metas, same_value
from checks.c06 import cast, cloud, ref, tols

PROPERTY = "C09"
LEVEL = "exploration"
RULE = ("Chains of 2-5 sessions over one data directory; each session opens it with its own client, index type "
        "(flat, IVF, HNSW; any parameters) and backend (disk, hybrid), searches, then inserts, updates, deletes, "
        "or stores records under chosen ids directly in the storage, and closes, abandons or re-initialises; a session may "
        "also open an earlier, closed client again. "
        "Every session must see exactly the records the earlier ones left. Non-trivial: a session starts on a "
        "non-empty directory with another index type than the previous one.")


def session():
    return st.fixed_dictionaries({
        "index": st.sampled_from(["flat", "ivf", "hnsw"]),
        "metric": st.sampled_from(["cosine", "euclidean"]),
        "backend": st.sampled_from(["disk", "hybrid"]),
        "clusters": st.integers(1, 6),
        "limit": st.integers(1, 5),
        "insert": st.one_of(st.integers(0, 8), st.integers(0, 8), st.integers(0, 8), st.integers(9, 70)),
        "metas": st.lists(metas, max_size=4),
        "raw": id_pool(3),
        "delete": st.integers(0, 4),
        "update": st.integers(0, 3),
        "twice": st.booleans(),
        "end": st.sampled_from(["close", "close", "abandon", "close-reinit", "reinit"]),
        "back": st.integers(0, 3),
        "touch": st.lists(st.sampled_from(["update", "delete"]), max_size=2)})


def strategy():
    return st.fixed_dictionaries({
        "dim": st.sampled_from([1, 3, 8]),
        "cloud": st.sampled_from(["gauss", "grid", "clusters", "offset"]),
        "sessions": st.lists(session(), min_size=2, max_size=5),
        "rs": st.integers(0, 2**31 - 1)})


def open_client(se, d):
    from valori.client import VectorDBClient
    p = {"metric": se["metric"]}
    if se["index"] == "ivf":
        p.update(n_clusters=se["clusters"], n_probes=se["clusters"])
    elif se["index"] == "hnsw":
        p.update(ef_search=200, m=4)
    c = VectorDBClient(ixmodel.make_storage(se["backend"], d, se["limit"]),
                       ixmodel.make_index({"type": se["index"], "params": p}))
    c.initialize()
    return c


def look(c, se, live, dim, rng, what):
    """Search for everything; compare with the records that should be there."""
    stats = c.get_stats()
    check(stats["index"]["vector_count"] == len(live), "%s: index counts %r, %d records were left", what,
          stats["index"]["vector_count"], len(live))
    check(sorted(c.storage_backend.list_vectors()) == sorted(live), "%s: storage lists %r, left %r", what,
          sorted(c.storage_backend.list_vectors()), sorted(live))
    ids = list(live)
    for q in (rng.standard_normal(dim), live[ids[0]][0] if ids else np.ones(dim)):
        res = c.search(np.array(q), len(live) + 3)
        check(sorted(r["id"] for r in res) == sorted(live), "%s: search finds %r, left %r", what,
              sorted(r["id"] for r in res), sorted(live))
        for r in res:
            v, m = live[r["id"]]
            want, tol = ref(se["metric"], q, np.array([v]))[0], tols(se["metric"], q, np.array([v]), False)[0]
            check(abs(r["distance"] - want) <= tol, "%s: %r at distance %r, true %r", what, r["id"], r["distance"], want)
            check(same_value(r["metadata"], m), "%s: metadata of %r is %r, left %r", what, r["id"], r["metadata"], m)


def run(case, ctx):
    rng = np.random.default_rng(case["rs"])
    dim = case["dim"]
    d = ctx.tmp()
    live = {}
    last = None
    closed = []
    point = lambda: cast(cloud(case["cloud"], 1, dim, rng), "f8", 1)[0]
    for n, se in enumerate(case["sessions"]):
        what = "session %d (%s on %s)" % (n, se["index"], se["backend"])
        again = [x for x in closed[:-1] if x[1] is not None]
        if again and se.get("back", 9) < 2:
            # an earlier client is opened again, after others have changed the directory
            c, was = again[se["back"] % len(again)]
            se = dict(se, **was)
            what = "session %d (%s on %s, an earlier client)" % (n, se["index"], se["backend"])
            c.initialize()
            ctx.event("earlier-client")
        else:
            c = open_client(se, d)
        if live and last not in (None, se["index"]):
            ctx.nontrivial()
        last = se["index"]
        ctx.event("open:" + se["index"])
        look(c, se, live, dim, rng, what + " after opening")
        if se["twice"]:
            c.initialize()
            look(c, se, live, dim, rng, what + " initialised twice")
        ms = [se["metas"][j % len(se["metas"])] if se["metas"] else None for j in range(se["insert"])]
        if se["insert"]:
            rows = np.array([point() for _ in range(se["insert"])])
            for i, r, m in zip(c.insert(rows, ms), rows, ms):
                live[i] = (r, m)
        for _ in range(se["update"]):
            if live:
                i, v = list(live)[int(rng.integers(0, len(live)))], point()
                check(c.update(i, v, {"s": n}) is True, "%s: update of %r failed", what, i)
                live[i] = (v, {"s": n})
        for _ in range(se["delete"]):
            if live:
                i = list(live)[int(rng.integers(0, len(live)))]
                check(c.delete([i]) is True, "%s: delete of %r failed", what, i)
                del live[i]
        look(c, se, live, dim, rng, what + " after its edits")
        # records put in the storage directly belong to the collection once it is reopened
        for i in se["raw"]:
            v = point()
            c.storage_backend.store_vector(i, v, {"raw": n})
            live[i] = (v, {"raw": n})
        for t in se.get("touch", []):
            if live:
                i = list(live)[int(rng.integers(0, len(live)))]
                if t == "update":
                    live[i] = (point(), {"touched": n})
                    check(c.storage_backend.update_vector(i, *live[i]), "%s: update of %r in the storage failed", what, i)
                else:
                    del live[i]
                    check(c.storage_backend.delete_vector(i), "%s: delete of %r in the storage failed", what, i)
        if se["end"] in ("close", "close-reinit"):
            c.close()
        closed.append((c, {k: se[k] for k in ("index", "metric", "backend", "clusters", "limit")} if se["end"] == "close" else None))
        if se["end"] in ("close-reinit", "reinit"):
            c.initialize()
            look(c, se, live, dim, rng, what + " initialised again")


# ---- known finding: LSH and Annoy never write to the storage they are given
def run_volatile(case, ctx):
    from valori.client import VectorDBClient
    d = ctx.tmp()

    def client():
        c = VectorDBClient(ixmodel.make_storage("disk", d), ixmodel.make_index(
            {"type": case["index"], "params": {"metric": "euclidean", "num_trees": 3, "threshold": -1.0}}))
        c.initialize()
        return c

    c = client()
    c.insert(np.array([[1.0, 2.0], [3.0, 1.0]]), [{"a": 1}, {"a": 2}])
    c.close()
    c = client()
    n = c.get_stats()["index"]["num_vectors"]
    check(n == 2, "%s over disk storage: 2 records inserted, %d after reopening", case["index"], n)


TESTS = [
    Test("sessions", strategy, run, quick=500, thorough=6000, shards=8, rs=lambda c: c["rs"]),
    Test("volatile-index", lambda: st.nothing(), run_volatile, quick=0, thorough=0),
]
