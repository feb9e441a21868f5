"""C20: helpers over sets of vectors (normalization, similarity matrices, duplicates, batch search)."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Test, Violation, check

PROPERTY = "C20"
LEVEL = "exploration"
RULE = ("Sets of 0-9 vectors of 1-6 dimensions in eight dtypes, with exact, scaled, shifted and slightly perturbed copies of "
        "one another, zero and constant rows and scales 1e-9 to 1e6; thresholds around the similarities present; queries over five "
        "kinds of index with every batch size 1-8. Non-trivial: at least three rows of which one is a near copy of another.")
DT = ["<f8", "<f8", "<f4", "<f4", "<f2", "<i8", "<i4", "|i1", "|u1"]


@st.composite
def strategy(draw):
    dim = draw(st.integers(1, 6))
    n = draw(st.integers(0, 9))
    rows = []
    for i in range(n):
        kind = draw(st.sampled_from(["new", "new", "small", "copy", "copy", "scaled", "near", "zero", "const", "neg"]))
        src = draw(st.integers(0, max(0, i - 1)))
        vals = draw(st.lists(st.integers(-5, 5), min_size=dim, max_size=dim))
        rows.append((kind, src, vals, draw(st.sampled_from([2, 3, 20, 0.5]))))
    return {"dim": dim, "rows": rows, "dtype": draw(st.sampled_from(DT)), "scale": draw(st.sampled_from([1.0, 1.0, 1e-9, 1e-4, 1e6])),
            "method": draw(st.sampled_from(["l2", "l1", "max", "minmax"])),
            "metric": draw(st.sampled_from(["cosine", "euclidean", "dot"])),
            "threshold": draw(st.sampled_from([0.5, 0.9, 0.99, 0.999, 0.2, 0.0, -0.5, 2.0, 1.0])),
            "index": draw(st.sampled_from(["flat", "hnsw", "ivf", "lsh", "annoy"])),
            "k": draw(st.integers(1, 6)), "batch": draw(st.integers(1, 8))}


def build(case):
    dt = np.dtype(case["dtype"])
    out = np.zeros((len(case["rows"]), case["dim"]))
    for i, (kind, src, vals, f) in enumerate(case["rows"]):
        if kind == "new" or i == 0:
            out[i] = vals
        elif kind == "small":
            out[i] = np.array(vals) * 1e-3
        elif kind == "copy":
            out[i] = out[src]
        elif kind == "scaled":
            out[i] = out[src] * f
        elif kind == "near":
            out[i] = out[src] + np.array(vals) * 0.01
        elif kind == "const":
            out[i] = vals[0]
        elif kind == "neg":
            out[i] = -out[src]
    if dt.kind == "f":
        out = out * (case["scale"] if dt != np.float16 else 1.0)
    else:
        i = np.iinfo(dt)
        out = np.clip(np.round(out * min(i.max / 6, 1e6 * case["scale"] + 1)), max(i.min, -1e15), min(i.max, 1e15))
    return out.astype(dt)


def exact_rows(x):
    return x.astype(np.longdouble)


def run(case, ctx):
    from valori.exceptions import ValoriError
    from valori import utils as U
    x = build(case)
    keep = x.copy()
    n, dim = x.shape
    X = exact_rows(x)
    kinds = [r[0] for r in case["rows"]]
    ctx.nontrivial(n >= 3 and any(k in ("copy", "scaled", "near", "neg") for k in kinds[1:]))
    ctx.event("dtype:" + case["dtype"])
    ctx.event("metric:" + case["metric"])
    eps = float(np.finfo(x.dtype).eps) if x.dtype.kind == "f" else 1e-15

    # normalization
    m = case["method"]
    u = U.normalize_vectors(x, m)
    check(u.shape == x.shape and u.dtype.kind == "f", "normalized %r gives %r %r", x.shape, u.shape, u.dtype)
    check(u is not x and not np.shares_memory(u, x), "normalization returns the caller's memory")
    for i in range(n):
        v = X[i]
        if m == "minmax":
            v = v - v.min()
        size = {"l2": np.sqrt((v * v).sum()), "l1": np.abs(v).sum(), "max": np.abs(v).max(), "minmax": v.max()}[m]
        want = v / size if size else v * 0
        tiny = float(np.finfo(u.dtype).tiny) * eps
        check(np.all(np.abs(u[i] - want) <= 8 * eps * np.maximum(np.abs(want), eps) + 1e-14 + 2 * tiny),
              "%s-normalized row %d %r is %r, expected %r", m, i, x[i], u[i], want)
        if x.shape[0] > 1:
            alone = U.normalize_vectors(x[i:i + 1], m)[0]
            check(np.all(np.abs(alone - u[i]) <= 4 * eps), "row %d normalizes differently on its own", i)

    # similarity matrix
    metric = case["metric"]
    S = U.compute_similarity_matrix(x, metric)
    check(S.shape == (n, n), "similarity matrix of %d vectors has shape %r", n, S.shape)
    R = np.zeros((n, n), dtype=np.longdouble)
    scale = np.ones((n, n))
    for i in range(n):
        for j in range(n):
            a, b = X[i], X[j]
            if metric == "dot":
                R[i, j] = (a * b).sum()
                scale[i, j] = float(np.abs(a * b).sum())
            elif metric == "euclidean":
                R[i, j] = 1 / (1 + np.sqrt(((a - b) ** 2).sum()))
            else:
                na, nb = np.sqrt((a * a).sum()), np.sqrt((b * b).sum())
                R[i, j] = (a * b).sum() / (na * nb) if na and nb else 0
    tol = 1e-9
    if x.dtype.kind == "f" and x.dtype.itemsize < 8:
        tol = 8 * eps
    check(np.all(np.abs(S - R) <= tol * scale + 1e-300), "%s similarity of %r is %r, expected %r", metric, x, S, R.astype(float))
    check(np.all(np.abs(S - S.T) <= 1e-12 * scale), "the %s similarity matrix is not symmetric", metric)

    # duplicates: groups around the first member not yet taken
    t = case["threshold"]
    groups = U.find_duplicates(x, t, metric)
    flat = [i for g in groups for i in g]
    check(all(type(i) is int or isinstance(i, np.integer) for i in flat) and len(flat) == len(set(flat)), "groups %r overlap", groups)
    margin = tol * scale + 1e-12
    if metric == "euclidean":  # equal rows have exactly similarity 1
        margin = np.where(R == 1, -1, margin)
    elif metric == "dot" and np.all(X == np.rint(X)) and np.abs(X).max(initial=0) < 2**20:
        margin = margin * 0 - 1
    unsure = np.abs(R - t) <= margin
    if not np.any(unsure[np.triu_indices(n, 1)]):
        ctx.event("groups-judged")
        want, taken = [], set()
        for i in range(n):
            if i in taken:
                continue
            g = [i] + [j for j in range(i + 1, n) if j not in taken and R[i, j] >= t]
            taken.update(g)
            if len(g) > 1:
                want.append(g)
        check([list(map(int, g)) for g in groups] == want, "duplicates of %r at %r by %s: %r, expected %r", x, t, metric, groups, want)
        if want:
            ctx.event("duplicates")
    default = U.find_duplicates(x)
    want = U.find_duplicates(x, 0.99, "cosine")
    check(default == want, "default duplicates %r, with cosine at 0.99 %r", default, want)
    for i in range(n):
        for j in range(i + 1, n):
            if np.any(x[i]) and np.array_equal(x[i], x[j]):
                check(any(i in g and j in g for g in default), "equal rows %d and %d are not in one group: %r", i, j, default)

    # batch search: what one search after another gives
    if n:
        ix = make_index(case["index"], ctx)
        if x.dtype.kind == "f" and np.all(np.isfinite(x)):
            ix.insert(x, [{"i": i} for i in range(n)])
            if hasattr(ix, "build"):
                ix.build()
            got = U.batch_search(ix, x, k=case["k"], batch_size=case["batch"])
            check(len(got) == n, "%d result lists for %d queries", len(got), n)
            for i in range(n):
                one = ix.search(x[i], k=case["k"])
                check([(r["id"], r["metadata"]) for r in one] == [(r["id"], r["metadata"]) for r in got[i]],
                      "batch search %r, single search %r", got[i], one)
        check(U.batch_search(ix, x[:0], k=2) == [], "no queries, no results")
    check(np.array_equal(x, keep), "an argument was changed")

    for what, fn in (("normalization method", lambda: U.normalize_vectors(x, "l7")),
                     ("metric", lambda: U.compute_similarity_matrix(x, "l7")),
                     ("metric", lambda: U.find_duplicates(x, 0.5, "l7"))):
        try:
            got = fn()
        except ValoriError:
            continue
        raise Violation("unknown %s accepted: %r" % (what, got))


def make_index(kind, ctx):
    from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex, LSHIndex
    from valori.storage import MemoryStorage
    s = MemoryStorage({})
    s.initialize()
    cls, cfg = {"flat": (FlatIndex, {"metric": "euclidean"}), "hnsw": (HNSWIndex, {"metric": "euclidean", "m": 4, "ef_construction": 20, "ef_search": 20}),
                "ivf": (IVFIndex, {"metric": "euclidean", "n_clusters": 2, "n_probes": 2}),
                "lsh": (LSHIndex, {"metric": "euclidean", "num_hash_tables": 3, "hash_size": 2, "num_projections": 8}),
                "annoy": (AnnoyIndex, {"metric": "euclidean", "num_trees": 2})}[kind]
    ix = cls(cfg)
    ix.initialize(s)
    ctx.on_close(ix.close)
    return ix


def large_strategy():
    return st.fixed_dictionaries({"n": st.sampled_from([130, 300, 1030, 2100]), "dim": st.integers(1, 5), "rs": st.integers(0, 2**20),
                                  "metric": st.sampled_from(["cosine", "euclidean", "dot"]), "groups": st.integers(0, 12), "batch": st.sampled_from([1, 50, 100, 1000])})


def large_run(case, ctx):
    """Large sets of distinct integer vectors with planted copies."""
    from valori import utils as U
    rng = np.random.default_rng(case["rs"])
    n, dim = case["n"], case["dim"]
    x = np.concatenate([np.arange(n)[:, None] * 7.0 + 1, rng.integers(-3, 4, (n, dim))], axis=1)
    want = {}
    for _ in range(case["groups"]):
        i, j = sorted(int(v) for v in rng.integers(0, n, 2))
        i = next((k for k, g in want.items() if i == k or i in g), i)
        if i < j and j not in want and not any(j in g for g in want.values()):
            x[j] = x[i]
            want.setdefault(i, []).append(j)
    ctx.nontrivial(bool(want) and n > 1000)
    metric = case["metric"]
    S = U.compute_similarity_matrix(x, metric)
    norms = np.sqrt((x * x).sum(axis=1))
    if metric == "dot":
        R = x @ x.T
    elif metric == "cosine":
        R = (x @ x.T) / norms[:, None] / norms
    else:
        R = 1 / (1 + np.sqrt(np.maximum(sum((x[:, k][:, None] - x[:, k]) ** 2 for k in range(dim + 1)), 0)))
    check(S.shape == (n, n) and np.all(np.abs(S - R) <= 1e-9 * (np.abs(R) + 1)), "%s similarities of %d vectors differ", metric, n)
    u = U.normalize_vectors(x)
    check(np.all(np.abs(u - x / norms[:, None]) <= 1e-12), "normalized %d vectors differently", n)
    if metric == "euclidean":
        got = [[int(i) for i in g] for g in U.find_duplicates(x, 0.99, metric)]
        check(sorted(got) == sorted([i] + sorted(g) for i, g in want.items()), "duplicates among %d vectors %r, planted %r", n, got, want)
    ix = make_index("flat", ctx)
    ix.insert(x[:20], [{"i": i} for i in range(20)])
    got = U.batch_search(ix, x, k=1, batch_size=case["batch"])
    check(len(got) == n, "%d result lists for %d queries", len(got), n)
    for i in (0, 5, 19, n // 2, n - 1):
        near = ix.search(x[i], k=1)
        check([r["id"] for r in got[i]] == [r["id"] for r in near], "query %d of a batch gives %r, alone %r", i, got[i], near)


class Counting:
    """An index that notes the calls made to it."""

    def __init__(self, ix, log):
        self.__dict__.update(ix=ix, log=log)
        if hasattr(ix, "build"):
            self.__dict__["build"] = ix.build

    def insert(self, *a, **k):
        self.log.append("insert")
        return self.ix.insert(*a, **k)

    def search(self, query, k=10):
        self.log.append(("search", k))
        return self.ix.search(query, k)

    def __getattr__(self, name):
        if name == "build":
            raise AttributeError(name)
        return getattr(self.ix, name)


# ---- measuring helpers: they change nothing about the function they wrap --------------------

def deco_strategy():
    return st.fixed_dictionaries({
        "deco": st.sampled_from(["timing", "memory"]),
        "raises": st.sampled_from([None, "ValueError", "ImportError", "ModuleNotFoundError", "KeyError"]),
        "args": st.lists(st.integers(0, 9), max_size=3), "kw": st.dictionaries(st.sampled_from("abc"), st.integers(0, 9), max_size=2),
        "index": st.sampled_from(["flat", "hnsw", "ivf", "lsh", "annoy"]), "n": st.integers(1, 12), "q": st.integers(0, 4),
        "k": st.integers(1, 5), "rs": st.integers(0, 1000)})


def deco_run(case, ctx):
    import builtins
    import contextlib
    import io
    from valori import utils as U
    calls = []

    def f(*a, **k):
        "doc of f"
        calls.append((a, k))
        if case["raises"]:
            raise getattr(builtins, case["raises"])("boom")
        return ("result", a, k)

    g = {"timing": U.timing_decorator, "memory": U.memory_usage_decorator}[case["deco"]](f)
    check(g.__name__ == "f" and g.__doc__ == "doc of f", "the wrapper lost the name or documentation")
    want = ("raised", case["raises"]) if case["raises"] else ("result", tuple(case["args"]), case["kw"])
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            got = g(*case["args"], **case["kw"])
        except Exception as e:
            got = ("raised", type(e).__name__)
    check(got == want, "%s-decorated function gave %r, undecorated %r", case["deco"], got, want)
    check(len(calls) == 1, "%s-decorated function was called %d times", case["deco"], len(calls))
    ctx.nontrivial(bool(case["raises"] or case["args"]))
    ctx.event("raises:%s" % case["raises"])

    rng = np.random.default_rng(case["rs"])
    ix = make_index(case["index"], ctx)
    x = rng.standard_normal((case["n"], 3)).astype(np.float32)
    r = U.validate_index_performance(Counting(ix, log := []), x, rng.standard_normal((case["q"], 3)).astype(np.float32), k=case["k"])
    check(log.count("insert") == 1 and [c for c in log if isinstance(c, tuple)] == [("search", case["k"])] * case["q"],
          "measuring %d vectors and %d queries with k=%d made the calls %r", case["n"], case["q"], case["k"], log)
    for key in ("add_time", "add_throughput", "avg_search_time", "search_throughput"):
        check(np.isfinite(r[key]) and r[key] >= 0, "%s is %r", key, r[key])
    for time_, rate, n in (("add_time", "add_throughput", case["n"]), ("avg_search_time", "search_throughput", 1 if case["q"] else 0)):
        check(not r[time_] or abs(r[time_] * r[rate] - n) <= 1e-6, "%s %r, %s %r", time_, r[time_], rate, r[rate])
    found = sorted(h["metadata"]["id"] for h in ix.search(x[0], k=case["n"] + 3))
    check(found == list(range(case["n"])) or case["index"] in ("lsh", "ivf", "hnsw") and set(found) < set(range(case["n"])),
          "%d vectors measured, the index finds %r", case["n"], found)
    check(r["index_stats"] == ix.get_stats(), "index statistics %r, the index says %r", r["index_stats"], ix.get_stats())
    found = {h["metadata"]["id"] for h in ix.search(x[0], k=case["n"])}
    check(found <= set(range(case["n"])) and (case["index"] in ("lsh", "annoy") or len(found) == case["n"]),
          "after the measurement the index finds %r of %d", found, case["n"])


TESTS = [Test("vector-sets", strategy, run, quick=4000, thorough=40000, shards=6),
         Test("large-sets", large_strategy, large_run, quick=16, thorough=200, shards=2),
         Test("measuring", deco_strategy, deco_run, quick=400, thorough=3000, shards=2)]
