"""Model-based engine for vector indices: one interpreter for every index type.

A case is plain data: an index configuration, a storage backend and a list of operations.  The
model is a dict id -> (vector, metadata) kept beside the real index; every search is judged by a
validity predicate computed from that dict with naive arithmetic.
"""
import copy
import os
import math

import numpy as np
from hypothesis import strategies as st

from harness.core import Violation, check
from harness.gens import metas, oplist, same_value

SIM = ("lsh", "annoy")  # "distance" is a similarity there, best first


def make_index(cfg):
    from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex, LSHIndex
    cls = {"flat": FlatIndex, "ivf": IVFIndex, "hnsw": HNSWIndex, "lsh": LSHIndex,
           "annoy": AnnoyIndex}[cfg["type"]]
    return cls(dict(cfg["params"]))


def make_storage(backend, d, limit=3):
    from valori.storage import DiskStorage, HybridStorage, MemoryStorage
    if backend == "memory":
        return MemoryStorage({})
    if backend == "disk":
        return DiskStorage({"data_dir": d})
    return HybridStorage({"memory": {}, "disk": {"data_dir": d}, "memory_limit": limit})


# ---------------------------------------------------------------- reference metrics
def _dot(a, b):
    return math.fsum(x * y for x, y in zip(a, b))


def _norm(a):
    m = max((abs(x) for x in a), default=0.0)
    if m == 0:
        return 0.0
    return m * math.sqrt(math.fsum((x / m) ** 2 for x in a))


def ref_score(kind, metric, q, v):
    """Score of v for query q as the index documents it (lists of Python floats)."""
    if metric == "cosine":
        nq, nv = _norm(q), _norm(v)
        sim = 0.0 if nq == 0 or nv == 0 else _dot(q, v) / (nq * nv)
        return sim if kind == "lsh" else 1 - sim
    if metric == "euclidean":
        d = _norm([x - y for x, y in zip(q, v)])
        return 1 / (1 + d) if kind in SIM else d
    if metric == "manhattan":
        return 1 / (1 + math.fsum(abs(x - y) for x, y in zip(q, v)))
    if metric == "angular":
        nq, nv = _norm(q), _norm(v)
        cos = 0.0 if nq == 0 or nv == 0 else _dot(q, v) / (nq * nv)
        return max(0.0, 1 - math.sqrt(max(0.0, 2 - 2 * cos)) / 2)
    if metric == "dot":
        return max(0.0, min(1.0, _dot(q, v)))
    if metric == "hamming":  # Annoy packs one bit per component
        return 1.0 - sum((np.float32(x) > 0.5) != (np.float32(y) > 0.5) for x, y in zip(q, v))
    return None


def ref_order_key(metric, q, v):
    """Unclipped score for ranking with Annoy's dot metric."""
    return _dot(q, v) if metric == "dot" else None


def tolerance(kind, metric, q, v, f32):
    eps = 2e-5 if f32 or kind == "annoy" else 1e-7
    if metric in ("cosine",):
        return eps if f32 else 1e-9
    if metric == "angular":
        return 2e-3  # sqrt near zero of a float32 difference
    if metric == "hamming":
        return 0.0
    if metric == "dot":
        return eps * (1 + _norm(q) * _norm(v))
    if kind in SIM:
        # 1/(1+d) with |error of d| <= eps*(1+|q|+|v|)
        return eps * (1 + _norm(q) + _norm(v))
    size = _norm(q) + _norm(v)
    if f32:
        return eps * (1 + size)
    return 1e-12 * (1 + size)


# ---------------------------------------------------------------- generators
def grid(dim):
    return st.lists(st.integers(-3, 3), min_size=dim, max_size=dim)


def vec(dim):
    return st.one_of(
        grid(dim), grid(dim),
        st.lists(st.floats(-8, 8, width=32).map(lambda x: 0.0 if abs(x) < 1e-3 else x),
                 min_size=dim, max_size=dim))


def index_cfg(kinds):
    opts = []
    m2 = st.sampled_from(["cosine", "euclidean"])
    if "flat" in kinds:
        opts.append(st.fixed_dictionaries({"type": st.just("flat"), "params": st.fixed_dictionaries({"metric": m2})}))
    if "ivf" in kinds:
        opts.append(st.fixed_dictionaries({"type": st.just("ivf"), "params": st.fixed_dictionaries(
            {"metric": m2, "n_clusters": st.integers(1, 5), "n_probes": st.integers(1, 6)})}))
    if "ivf-full" in kinds:
        opts.append(st.builds(lambda m, c, extra: {"type": "ivf", "params": {
            "metric": m, "n_clusters": c, "n_probes": c + extra}}, m2, st.integers(1, 6), st.integers(0, 2)))
    if "hnsw" in kinds:
        opts.append(st.fixed_dictionaries({"type": st.just("hnsw"), "params": st.fixed_dictionaries(
            {"metric": m2, "m": st.integers(1, 16), "ef_construction": st.sampled_from([10, 200]),
             "ef_search": st.sampled_from([1, 2, 5, 50, 50])})}))
    if "lsh" in kinds:
        opts.append(st.fixed_dictionaries({"type": st.just("lsh"), "params": st.fixed_dictionaries(
            {"metric": st.sampled_from(["cosine", "euclidean", "manhattan"]),
             "num_hash_tables": st.integers(1, 6), "hash_size": st.integers(1, 12),
             "num_projections": st.integers(1, 12), "random_seed": st.integers(0, 5),
             "threshold": st.sampled_from([-1.0, -1.0, 0.0, 0.3, 0.9])})}))
    if "annoy" in kinds:
        opts.append(st.builds(lambda m, t, sk, bd: {"type": "annoy", "params": dict(
            {"metric": m, "num_trees": t, "build_on_disk": bd}, **({} if sk is None else {"search_k": sk}))},
            st.sampled_from(["angular", "euclidean", "manhattan", "dot", "hamming"]),
            st.integers(1, 6), st.sampled_from([None, None, None, 1, 1000]), st.booleans()))
    return st.one_of(*opts)


BAD = ["insert-dim", "insert-1d", "insert-3d", "insert-nan", "insert-inf", "insert-zero-dim", "search-dim",
       "search-dim1", "search-2d", "update-dim", "update-nan", "update-unknown", "delete-unknown",
       "delete-odd", "update-odd", "insert-shortmeta", "update-2d", "search-nan", "insert-nan-first",
       "search-k-negative", "search-k-odd", "search-not-array", "insert-not-array", "insert-not-numeric", "update-not-array",
       "delete-string", "insert-no-rows", "insert-metadata-dict",
       "insert-uncopyable", "insert-uncopyable", "update-uncopyable", "insert-storage-fails", "insert-storage-fails",
       "load", "save"]


def ops_strategy(dim, bad=False, reopen=True, big=False, kinds=()):
    i = st.integers(0, 30)
    rows = st.lists(st.tuples(vec(dim), metas), min_size=1, max_size=12 if big else 6)
    query = st.one_of(vec(dim), st.integers(0, 30))  # an int means: the vector of that live record
    alts = [
        st.tuples(st.just("insert"), rows, st.sampled_from(["list", "list", "short", "none"])),
        st.tuples(st.just("insert"), rows, st.just("list")),
        st.tuples(st.just("insert"), rows, st.just("list")),
        st.tuples(st.just("search"), query, st.sampled_from([0, 1, 2, 3, 5, 10, 50, 50])),
        st.tuples(st.just("search"), query, st.integers(1, 8)),
        st.tuples(st.just("delete"), st.lists(i, min_size=1, max_size=4), st.booleans()),
        st.tuples(st.just("update"), i, vec(dim), metas),
        st.tuples(st.just("update"), i, vec(dim), metas),
        st.tuples(st.just("stats")),
        st.tuples(st.just("delete_all")),
    ]
    if reopen:
        alts.append(st.tuples(st.just("reopen"), st.sampled_from(["close", "abandon", "index", "reinit"])))
    if kinds and all(k in SIM for k in kinds):
        alts.append(st.tuples(st.just("wipe"), st.sampled_from(["clear", "clear", "close-init"])))
    if list(kinds) == ["annoy"]:
        alts.append(st.tuples(st.just("save-load"), st.sampled_from(["keep", "close-first", "cleared-first"])))
    if bad:
        alts += [st.tuples(st.just("bad"), st.sampled_from(BAD)) for _ in range(4)]
    return oplist(st.one_of(*alts), 10, 30)


def case_strategy(kinds, backends=("memory", "disk", "hybrid"), bad=False, reopen=True, big=False):
    def build():
        def of_dim(dim):
            return st.fixed_dictionaries({
                "cfg": index_cfg(kinds),
                "backend": st.sampled_from(list(backends)),
                "client": st.booleans(),
                "dim": st.just(dim),
                "dtype": st.sampled_from(["f8", "f8", "f8", "f4", "i8", "u1", "i1", "f2", "i4"]),
                "also": st.lists(st.sampled_from(["f8", "f4", "i8", "u1", "i1", "f2"]), max_size=2),  # of other calls
                "scale": st.sampled_from([1, 1, 1, 0.01, 1000, 1e-9]),
                "rs": st.integers(0, 2**20),
                "crowd": st.sampled_from([0] * 20 + [30, 110, 150]),  # records inserted at once at the start
                "ops": ops_strategy(dim, bad, reopen, big, kinds),
            })
        return st.sampled_from([1, 2, 3, 3, 4, 8]).flatmap(of_dim)
    return build


# ---------------------------------------------------------------- the interpreter
class Engine:
    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.kind = case["cfg"]["type"]
        self.params = case["cfg"]["params"]
        self.metric = self.params["metric"]
        self.dtypes = [case["dtype"]] + case.get("also", [])
        self.calls = 0
        self.f32 = "f4" in self.dtypes
        self.dir = ctx.tmp()
        self.model = {}       # id -> (array, metadata)
        self.dead = []
        self.dirty = True
        self.dim = None       # dimension pinned by the stored vectors
        self.searches = 0
        self.mutated = False
        self.open()
        ctx.on_close(self.close)
        ctx.event("index:" + self.kind)

    # -- plumbing
    def open(self, storage=True):
        from valori.client import VectorDBClient
        if storage:
            self.storage = make_storage(self.case["backend"], self.dir)
        self.index = make_index(self.case["cfg"])
        if self.case["client"] and storage:
            self.client = VectorDBClient(self.storage, self.index)
            self.client.initialize()
            self.api = self.client
        else:
            if storage:
                self.storage.initialize()
            self.index.initialize(self.storage)
            self.client = None
            self.api = self.index

    def close(self):
        if self.client is not None:
            self.client.close()
        else:
            self.index.close()
            self.storage.close()

    def arr(self, values):
        scale = self.case["scale"]
        dt = self.dtypes[self.calls % len(self.dtypes)]
        if dt == "u1":
            return np.array([min(255, int(abs(x) * 60)) for x in values], dtype=dt)
        if dt == "i1":
            return np.array([max(-128, min(127, int(x * 40))) for x in values], dtype=dt)
        if dt in ("i8", "i4"):
            return np.array([int(round(x * scale)) if scale > 1 else int(round(x)) for x in values], dtype=dt)
        return np.array([x * scale for x in values], dtype=dt)

    def live(self, n):
        ids = list(self.model)
        return ids[n % len(ids)] if ids else None

    def meta_in(self, m):
        """What a record's metadata must read as later on."""
        return ({} if m is None else m) if self.kind in SIM else m

    # -- searches
    def exact(self):
        if self.kind == "flat":
            return True
        if self.kind == "ivf":
            return (len(self.model) < self.params["n_clusters"] and not self.ever_trained()) \
                or self.params["n_probes"] >= self.params["n_clusters"]
        if self.kind == "hnsw":
            return len(self.model) <= self.params["ef_search"]
        if self.kind == "annoy":
            return "search_k" not in self.params and self.metric != "hamming"
        return False

    def ever_trained(self):
        return bool(self.index.get_stats().get("trained", True))

    def raw_search(self, q, k, **kw):
        if self.kind == "annoy" and self.dirty:
            self.index.build()
            self.dirty = False
        return self.api.search(q, k, **kw)

    def search(self, q, k, when):
        q0 = q.copy()
        if self.kind == "annoy" and self.dirty:
            # edits since the last build: refuse, or answer by the live records
            from valori.exceptions import ValoriError
            try:
                res = self.api.search(q, k)
            except ValoriError:
                self.ctx.event("refused-unbuilt")
            else:
                self.judge(q, k, res, when + " without building")
        res = self.raw_search(q, k)
        check(np.array_equal(q, q0), "%s: search modified the query vector", when)
        self.judge(q, k, res, when)
        return res

    def judge(self, q, k, res, when):
        model, kind, metric = self.model, self.kind, self.metric
        check(isinstance(res, list), "%s: search returned %r", when, type(res))
        n = len(model)
        check(len(res) <= min(k, n), "%s: %d results for k=%d over %d live records", when, len(res), k, n)
        ids = [str(r["id"]) for r in res]
        check(len(set(ids)) == len(ids), "%s: duplicate ids in results %r", when, ids)
        ql = [float(x) for x in q]
        scores = []
        for r, i in zip(res, ids):
            check(i in model, "%s: result %r is not a live record%s", when, i,
                  " (it was deleted)" if i in self.dead else "")
            v, m = model[i]
            check(same_value(r["metadata"], m), "%s: metadata of %r is %r, should be %r", when, i,
                  r["metadata"], m)
            d = float(r["distance"])
            scores.append(d)
            vl = [float(x) for x in v]
            want = ref_score(kind, metric, ql, vl)
            if want is not None:
                tol = tolerance(kind, metric, ql, vl, self.f32)
                check(abs(d - want) <= tol, "%s: record %r = %r scored %r for query %r, %s gives %r", when,
                      i, vl, d, ql, metric, want)
        srt = sorted(scores, reverse=kind in SIM)
        check(scores == srt, "%s: results are not ordered best first: %r", when, scores)
        if self.exact():
            check(len(res) == min(k, n), "%s: %d results for k=%d over %d live records", when, len(res), k, n)
            self.judge_topk(ql, ids, when)
        elif kind == "hnsw":
            check(len(res) == min(k, n), "%s: %d results for k=%d over %d live records", when, len(res), k, n)
        elif kind == "lsh":
            t = self.params["threshold"]
            for d in scores:
                check(d >= t, "%s: result %r below the threshold %r", when, d, t)
            if k >= n:
                for i, (v, _) in model.items():
                    if np.array_equal(v, q) and ref_score(kind, metric, ql, ql) >= t + 1e-6:
                        check(i in ids, "%s: query equals stored record %r but it was not found in %r",
                              when, i, ids)
        self.searches += 1
        if n and k:
            self.ctx.event("search-nonempty")
            if self.mutated:
                self.ctx.nontrivial()
        return ids

    def judge_topk(self, ql, ids, when):
        """No record left out may be better than one returned (beyond rounding)."""
        if not ids or len(ids) == len(self.model):
            return
        kind, metric = self.kind, self.metric

        def key(i):
            v = [float(x) for x in self.model[i][0]]
            u = ref_order_key(metric, ql, v)
            s = u if u is not None else ref_score(kind, metric, ql, v)
            return (-s if kind in SIM else s), tolerance(kind, metric, ql, v, self.f32)
        worst, wtol = max(key(i) for i in ids)
        for i in self.model:
            if i not in ids:
                s, tol = key(i)
                check(s >= worst - tol - wtol, "%s: %r is closer to %r than a returned record (%r < %r); got %r",
                      when, i, ql, s, worst, ids)

    def sweep(self, when):
        """Ask for everything: the answer is the live set itself where the index is exhaustive."""
        if self.dim is None and not self.model:
            return
        dim = self.case["dim"]
        q = self.arr(([1, -2, 3, 1, 0, 2, -1, 1] * 2)[:dim])
        res = self.search(q, len(self.model) + 5, when)
        if self.kind in ("flat", "hnsw") or (self.kind == "ivf" and self.exact()) or \
                (self.kind == "annoy" and "search_k" not in self.params and self.metric != "hamming"):
            check({str(r["id"]) for r in res} == set(self.model), "%s: search over everything found %r, live %r",
                  when, sorted(str(r["id"]) for r in res), sorted(self.model))

    def check_counts(self, when):
        st_ = self.api.get_stats()
        ist = st_["index"] if self.client is not None else st_
        n = len(self.model)
        c = ist["num_vectors"] if self.kind in SIM else ist["vector_count"]
        check(c == n, "%s: index reports %r vectors, %d are live", when, c, n)
        if self.kind not in SIM:
            listed = self.storage.list_vectors()
            check(sorted(listed) == sorted(self.model), "%s: storage lists %r, live %r", when,
                  sorted(listed), sorted(self.model))
            for i, (v, m) in self.model.items():
                got = self.storage.retrieve_vector(i)
                check(got is not None and np.array_equal(got[0], v) and same_value(got[1], m),
                      "%s: storage holds %r for %r, should hold %r", when, got, i, (v, m))
        if self.kind == "ivf" and ist.get("trained"):
            total = sum(ist["cluster_stats"].values())
            check(total == n, "%s: clusters hold %d vectors, %d are live", when, total, n)

    def crowd(self, n):
        rng = np.random.default_rng(self.case["rs"])
        rows = [[float(x) for x in row] for row in rng.integers(-3, 4, (n, self.case["dim"]))]
        self.step(0, ("insert", [(row, {"n": j}) for j, row in enumerate(rows)], "list"))
        self.check_counts("after a crowd")
        for j in (0, n // 2, n - 1):
            self.step(j, ("search", j, [1, 10, n][j % 3]))
        self.ctx.event("crowd")

    # -- one operation
    def step(self, n, op):
        self.calls = n
        k = op[0]
        when = "step %d %s" % (n, k)
        case = self.case
        if k == "insert":
            rows = op[1]
            vs = np.array([self.arr(v) for v, _ in rows])
            ms = copy.deepcopy([m for _, m in rows])
            if op[2] == "none":
                arg, eff = None, [None] * len(rows)
            elif op[2] == "short" and self.kind not in SIM:
                arg, eff = ms[:len(ms) // 2], ms[:len(ms) // 2] + [None] * (len(ms) - len(ms) // 2)
            else:
                arg, eff = ms, ms
            ids = self.api.insert(vs, copy.deepcopy(arg))
            check(len(ids) == len(rows), "%s: %d ids for %d vectors", when, len(ids), len(rows))
            ids = [str(i) for i in ids]
            check(len(set(ids)) == len(ids) and not set(ids) & set(self.model) and not set(ids) & set(self.dead),
                  "%s: ids %r are not fresh", when, ids)
            for i, row, m in zip(ids, vs, eff):
                self.model[i] = (row.copy(), self.meta_in(m))
            self.dim, self.dirty = case["dim"], True
        elif k == "search":
            if isinstance(op[1], int):
                i = self.live(op[1])
                if i is None:
                    return
                q = self.model[i][0].copy()
            else:
                q = self.arr(op[1])
            self.search(q, op[2], when)
        elif k == "delete":
            ids = [self.live(x) for x in op[1]]
            ids = [i for i in ids if i is not None]
            if op[2] and self.dead:
                ids.append(self.dead[-1])
            if not ids:
                return
            ok = len(set(ids)) == len(ids) and all(i in self.model for i in ids)
            if self.kind in SIM and n % 3 == 0:
                # the same by position; positions that were never given mean nothing
                self.index.remove([-1, -len(self.model)] * (n % 2) + [int(i) for i in ids] + [10 ** 6])
            else:
                r = self.api.delete(list(ids))
                check(bool(r) is ok, "%s: delete(%r) returned %r, all live and distinct: %r", when, ids, r, ok)
            for i in ids:
                if self.model.pop(i, None) is not None:
                    self.dead.append(i)
            self.mutated = True
        elif k == "delete_all":
            ids = list(self.model)
            if ids:
                check(self.api.delete(list(ids)), "%s: deleting every live id failed", when)
                self.model.clear()
                self.dead += ids
                self.mutated = True
        elif k == "update":
            i = self.live(op[1])
            if i is None:
                return
            v, m = self.arr(op[2]), copy.deepcopy(op[3])
            r = self.api.update(i, v, m)
            check(bool(r), "%s: update of live %r returned %r", when, i, r)
            old = self.model[i][1]
            self.model[i] = (v, (old if op[3] is None else op[3]) if self.kind in SIM else op[3])
            self.dirty = self.mutated = True
        elif k == "stats":
            self.check_counts(when)
        elif k == "reopen":
            self.reopen(op[1], when)
        elif k == "bad":
            self.bad(op[1], when)
        elif k == "wipe":
            if op[1] == "clear":
                self.index.clear()
            elif self.client is not None:
                self.client.close()
                self.client.initialize()
            else:
                self.index.close()
                self.index.initialize(self.storage)
            self.model.clear()
            self.dead = []  # ids start again
            self.dim, self.dirty, self.mutated = None, True, True
            self.ctx.event("wiped")
            self.check_counts(when)
            self.sweep(when)
        elif k == "save-load":
            self.save_load(op[1], when)

    def save_load(self, how, when):
        if self.dirty:
            self.index.build()
            self.dirty = False
        path = os.path.join(self.dir, "saved%d.ann" % (self.searches % 3))
        self.index.save(path)
        other = make_index(self.case["cfg"])
        other.initialize(self.storage)
        if how == "close-first":
            self.index.close()
        elif how == "cleared-first":
            self.index.clear()
        other.load(path)
        if how == "keep":
            self.sweep(when + " in the saved index")
            self.index.close()
        self.index = self.api = other
        if self.client is not None:
            self.storage.close()
            self.client = None
            self.storage.initialize()
        self.mutated = True
        self.ctx.event("save-load")
        self.check_counts(when)
        self.sweep(when)

    def reopen(self, how, when):
        if self.kind in SIM:
            return
        if self.case["backend"] == "memory" or how == "index":
            # a new index over the same, still open storage
            self.index = make_index(self.case["cfg"])
            self.index.initialize(self.storage)
            self.api, self.client = self.index, None
        elif how == "reinit":
            # the same objects, closed and initialised again
            self.close()
            if self.client is not None:
                self.client.initialize()
            else:
                self.storage.initialize()
                self.index.initialize(self.storage)
        else:
            if how == "close":
                self.close()
            self.open()
        self.mutated = True
        self.ctx.event("reopen")
        self.check_counts(when)
        self.sweep(when)

    def bad(self, what, when):
        """A call the interface must refuse; afterwards nothing may have changed."""
        from valori.exceptions import ValoriError
        dim = self.case["dim"]
        have = self.dim is not None and bool(self.model)
        api = self.api
        ones = np.ones
        nan = ones((2, dim))
        nan[1, -1] = np.nan
        inf = ones((1, dim))
        inf[0, 0] = -np.inf
        i = self.live(7)
        must_raise = True
        if what == "insert-dim":
            if not have:
                return
            call = lambda: api.insert(ones((2, dim + 1)), [{}, {}])
        elif what == "insert-1d":
            call = lambda: api.insert(ones(dim), [{}] * dim)
        elif what == "insert-3d":
            call = lambda: api.insert(ones((1, 1, dim)), [{}])
        elif what == "insert-nan":
            call = lambda: api.insert(nan, [{}, {}])
        elif what == "insert-nan-first":
            # refused, and it must not pin the dimension of an empty collection either
            call = lambda: api.insert(np.full((1, dim + 2), np.nan), [{}])
        elif what == "insert-inf":
            call = lambda: api.insert(inf, [{}])
        elif what == "insert-zero-dim":
            call = lambda: api.insert(ones((2, 0)), [{}, {}])
        elif what == "insert-shortmeta":
            if self.kind not in SIM:
                return
            call = lambda: api.insert(ones((3, dim)), [{"a": 1}])
        elif what in ("search-k-negative", "search-k-odd"):
            if not have:
                return
            n = self.searches + len(self.model)
            bad_k = [-1, -2, -len(self.model), -10 ** 6][n % 4] if what == "search-k-negative" else [1.5, None, "2", 2.0, [1]][n % 5]
            call = lambda: self.raw_search(ones(dim), bad_k)
        elif what == "search-not-array":
            if not have:
                return
            q = [[1.0] * dim, None, "abc", np.array(["a"] * dim), np.array([None] * dim), np.array(1.0), 7][len(self.model) % 7]
            call = lambda: self.raw_search(q, 3)
        elif what == "insert-not-array":
            rows = [[[1.0] * dim], None, "abc", 7, np.array(1.0), [[1.0], [1.0, 2.0]]][len(self.model) % 6]
            call = lambda: api.insert(rows, None if len(self.dead) % 2 else [{}])
        elif what == "insert-not-numeric":
            rows = [np.array([["a"] * dim]), np.array([[None] * dim]), np.array([["1"] * dim], dtype=object)][len(self.model) % 3]
            call = lambda: api.insert(rows, [{}])
        elif what == "update-not-array":
            if i is None:
                return
            v = [[1.0] * dim, None, "abc", np.array(["a"] * dim), np.array([None] * dim), 7][len(self.dead) % 6]
            call = lambda: api.update(i, v, {"bad": 1})
            must_raise = None
        elif what == "delete-string":
            if i is None:
                return
            s = "".join(list(self.model)[:2]) if self.kind in SIM else i
            call = lambda: api.delete(s if len(self.model) % 2 else i)
            must_raise = None
        elif what == "insert-no-rows":
            # accepted, and adds nothing
            call = lambda: api.insert(np.zeros((0, dim)), None if len(self.dead) % 2 else [])
            must_raise = None
        elif what in ("load", "save"):
            if self.kind != "annoy":
                return
            call = self.bad_file(what)
        elif what in ("insert-uncopyable", "update-uncopyable"):
            import threading
            lock = {"a": threading.Lock()}
            n = len(self.model) % 3
            if what == "insert-uncopyable":
                call = lambda: api.insert(ones((4, dim)) * 2, [{"n": j} if j != n else lock for j in range(4)])
            else:
                if i is None:
                    return
                call = lambda: api.update(i, ones(dim) * 7, lock)
                must_raise = None
        elif what == "insert-storage-fails":
            if self.kind in SIM:
                return
            call = lambda: self.failing_insert(len(self.dead) % 3)
        elif what == "insert-metadata-dict":
            call = lambda: api.insert(ones((2, dim)), {"a": 1, "b": 2})
        elif what in ("search-dim", "search-dim1", "search-nan"):
            d = dim + 1 if what == "search-dim" else 1 if what == "search-dim1" else dim
            if not have or (what == "search-dim1" and dim == 1):
                return
            q = np.full(d, np.nan) if what == "search-nan" else ones(d)
            call = lambda: self.raw_search(q, 3)
        elif what == "search-2d":
            if not have:
                return
            call = lambda: self.raw_search(ones((1, dim)), 3)
        elif what in ("update-dim", "update-nan", "update-2d"):
            if i is None:
                return
            v = ones(dim + 1) if what == "update-dim" else nan[1] if what == "update-nan" else ones((2, dim))
            call = lambda: api.update(i, v, {"bad": 1})
            must_raise = None  # False or an error
        elif what == "update-unknown":
            call = lambda: api.update("no-such-id", ones(dim), {"bad": 1})
            must_raise = None
        elif what == "update-odd":
            odd = self.odd_id()
            call = lambda: api.update(odd, ones(dim), {"bad": 1})
            must_raise = None
        elif what == "delete-unknown":
            call = lambda: api.delete(["no-such-id"])
            must_raise = None
        elif what == "delete-odd":
            odd = self.odd_id()
            call = lambda: api.delete([odd])
            must_raise = None
        if self.kind == "annoy" and self.dirty:
            self.index.build()
            self.dirty = False
        try:
            r = call()
        except ValoriError:
            self.ctx.event("refused:" + what)
        else:
            if must_raise:
                raise Violation("%s: %s was accepted and returned %r" % (when, what, r))
            check(not r, "%s: %s reported success (%r)", when, what, r)
            self.ctx.event("refused:" + what)
        self.ctx.nontrivial(have)
        self.check_counts(when + " " + what)
        self.sweep(when + " " + what)

    def failing_insert(self, n):
        """Insert three rows into a storage that cannot store the n-th of them."""
        real, seen = self.storage.store_vector, []

        def store_vector(*a, **k):
            seen.append(1)
            if len(seen) == n + 1:
                from valori.exceptions import StorageError
                raise StorageError("disk full")
            return real(*a, **k)
        self.storage.store_vector = store_vector
        try:
            return self.api.insert(np.ones((3, self.case["dim"])) * 3, [{"n": 0}, {"n": 1}, {"n": 2}])
        finally:
            del self.storage.store_vector

    def bad_file(self, what):
        """Loading a file that is none, or saving where nothing can be saved."""
        n = len(self.model) + 3 * len(self.dead) + self.searches
        path = os.path.join(self.dir, "bad")
        if what == "save":
            path = [os.path.join(self.dir, "no", "such"), self.dir, os.path.join(self.dir, "bad", "x")][n % 3]
            if n % 3 == 2:
                open(os.path.join(self.dir, "bad"), "wb").close()
            if self.dirty:
                self.index.build()
                self.dirty = False
            return lambda: self.index.save(path)
        other = make_index({"type": "annoy", "params": {"metric": ["angular", "euclidean", "manhattan"][n % 3]}})
        other.initialize(None)
        other.insert(np.ones((2, self.case["dim"] + n % 2)), [{"other": 1}, {}])
        other.build()
        other.save(path)
        other.close()
        how = ["missing", "cut", "cut", "empty", "directory", "meta", "meta-keys", "no-meta"][n % 8]
        if how == "missing":
            os.unlink(path)
        elif how in ("cut", "no-meta"):
            with open(path, "r+b") as f:
                f.truncate(max(1, os.path.getsize(path) - 3))
            if how == "no-meta":
                os.unlink(path + ".meta")
        elif how == "empty":
            open(path, "wb").close()
        elif how == "directory":
            path = self.dir
        else:
            with open(path + ".meta", "w") as f:
                f.write('{"dimension": ' if how == "meta" else "[1]")
        return lambda: self.index.load(path)

    def odd_id(self):
        """An id that was never issued but looks like one."""
        cands = ["-1", "+0", " 0", "0 ", "00", "0_0", "1_0", "٠", "0.0", "", "-0", "999999"]
        for i in self.model:
            cands += [" " + i, i.upper() if i.upper() != i else i + "x", "0" + i]
        ok = [c for c in cands if c not in self.model and c not in self.dead]
        return ok[len(self.model) * 7 % len(ok)]


def run(case, ctx):
    e = Engine(case, ctx)
    if case.get("crowd"):
        e.crowd(case["crowd"])
    for n, op in enumerate(case["ops"]):
        e.step(n, op)
    e.check_counts("end")
    e.sweep("end")
    return e
