"""C15: every component works exactly between initialize and close."""
import hashlib
import os

import numpy as np
from hypothesis import strategies as st

from checks import estub
from harness.core import Test, Violation, check
from harness.gens import oplist

PROPERTY = "C15"
LEVEL = "exploration"
RULE = ("Histories of initialize, close and every public operation in any order over every component (three storages, five indices, three "
        "quantizers, two persistence managers, four processors, three parsers, client), with directories that cannot be created. "
        "Non-trivial: work before, between and after two sessions.")
STORAGE = ["memory", "disk", "hybrid"]
INDEX = ["flat", "ivf", "hnsw", "lsh", "annoy"]
QUANT = ["scalar", "product", "saq"]
OTHER = ["tensor", "incremental", "cleaning", "chunking", "embedding", "text", "pdf", "office", "client"]


def strategy():
    op = st.one_of(st.just(("init",)), st.just(("init",)), st.just(("close",)), st.just(("work",)), st.just(("work",)), st.just(("stats",)))
    return st.fixed_dictionaries({"what": st.sampled_from(STORAGE + INDEX + QUANT + OTHER + ["client", "client"]), "storage": st.sampled_from(STORAGE),
                                  "index": st.sampled_from(INDEX), "quantizer": st.one_of(st.none(), st.sampled_from(QUANT)), "persistence": st.sampled_from([None, "tensor"]),
                                  "ops": oplist(op, 12, 30), "seed": st.integers(0, 99), "broken": st.sampled_from([False] * 7 + [True])})


def snapshot(root):
    r = {}
    for d, ds, fs in os.walk(root):
        for f in ds:
            r[os.path.join(d, f)] = None
        for f in fs:
            with open(os.path.join(d, f), "rb") as fh:
                r[os.path.join(d, f)] = hashlib.sha256(fh.read()).hexdigest()
    return r


def make_storage(kind, d):
    from valori.storage import DiskStorage, HybridStorage, MemoryStorage
    return {"memory": lambda: MemoryStorage({}), "disk": lambda: DiskStorage({"data_dir": d}),
            "hybrid": lambda: HybridStorage({"disk": {"data_dir": d}, "memory_limit": 2})}[kind]()


def make_index(kind):
    from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex, LSHIndex
    return {"flat": FlatIndex, "ivf": IVFIndex, "hnsw": HNSWIndex, "lsh": LSHIndex, "annoy": AnnoyIndex}[kind](
        {"metric": "euclidean", "num_trees": 3, "n_clusters": 2, "n_probes": 2, "threshold": 0.0, "num_hash_tables": 3, "hash_size": 2})


def make_quantizer(kind):
    from valori.quantization import ProductQuantizer, SAQQuantizer, ScalarQuantizer
    return {"scalar": ScalarQuantizer, "product": ProductQuantizer, "saq": SAQQuantizer}[kind]({"m": 2, "k": 4, "total_bits": 16, "bits": 8})


class Storage:
    """A storage backend, or how one is driven."""

    def __init__(self, kind, d, rng):
        self.o, self.kind, self.rng, self.live, self.n = make_storage(kind, d), kind, rng, {}, 0

    def init(self, again):
        before = dict(self.live)
        self.o.initialize()
        ids = set(self.o.list_vectors())
        if self.kind == "memory":
            # nothing outlives the session; initializing again may start over, but not in part
            check(ids == set() or (again and ids == set(before)), "after initializing, %r of %r are there", ids, set(before))
            self.live = {i: before[i] for i in ids}
        else:
            check(ids == set(before), "after initializing, %r of %r are there", ids, set(before))
        for i in ids:
            check(np.array_equal(self.o.retrieve_vector(i)[0], before[i]), "record %r differs after initializing", i)

    def closed(self):
        if self.kind == "memory":
            self.live = {}

    def work(self):
        v = self.rng.normal(size=3)
        i = "id%d" % self.n
        self.n += 1
        check(self.o.store_vector(i, v, {"n": i}) is True, "storing %r failed", i)
        self.live[i] = v
        if len(self.live) > 3:
            gone = list(self.live)[0]
            check(self.o.delete_vector(gone) is True, "deleting %r failed", gone)
            del self.live[gone]
        got = self.o.retrieve_vector(i)
        check(got is not None and np.array_equal(got[0], v) and got[1] == {"n": i}, "stored %r, retrieved %r", v, got)
        check(set(self.o.list_vectors()) == set(self.live), "listed %r, expected %r", self.o.list_vectors(), set(self.live))

    def idle(self):
        v = np.ones(3)
        o = self.o
        return [("store_vector", lambda: o.store_vector("x", v, {})), ("retrieve_vector", lambda: o.retrieve_vector("id0")), ("delete_vector", lambda: o.delete_vector("id0")),
                ("update_vector", lambda: o.update_vector("id0", v, {})), ("list_vectors", lambda: o.list_vectors())]


class Index:
    def __init__(self, kind, d, rng):
        self.o, self.kind, self.rng, self.live = make_index(kind), kind, rng, {}
        self.store = make_storage("memory", d)
        self.store.initialize()

    def init(self, again):
        self.o.initialize(self.store)
        check(self.o.is_initialized() is True, "not initialized after initializing")
        self.look()

    def closed(self):
        if self.kind in ("lsh", "annoy"):  # these hold their vectors themselves
            self.live = {}
        check(self.o.is_initialized() is False, "initialized after closing")

    def look(self):
        if self.kind == "annoy":
            self.o.build()
        if self.live:
            for i, v in list(self.live.items())[-3:]:
                r = self.o.search(v, len(self.live) + 3)
                check(self.kind == "lsh" or len(r) == len(self.live), "%d of %d vectors found", len(r), len(self.live))
                check(str(r[0]["id"]) == str(i), "the vector %r is not the nearest to itself: %r", i, r)
        else:
            check(self.o.search(np.ones(3), 5) == [], "something is found in an empty index")

    def work(self):
        vs = self.rng.normal(size=(2, 3))
        ids = self.o.insert(vs, [{}, {}])
        check(len(set(ids)) == 2, "inserted two vectors as %r", ids)
        self.live.update(zip(ids, vs))
        if len(self.live) > 6:
            gone = list(self.live)[0]
            check(self.o.delete([gone]) is True, "deleting %r failed", gone)
            del self.live[gone]
        self.look()

    def idle(self):
        v, o = np.ones(3), self.o
        r = [("insert", lambda: o.insert(np.ones((1, 3)), [{}])), ("search", lambda: o.search(v, 1)), ("delete", lambda: o.delete(["0"])), ("update", lambda: o.update("0", v, {}))]
        if self.kind == "annoy":
            r.append(("build", lambda: o.build()))
        return r


class Quantizer:
    def __init__(self, kind, d, rng):
        self.o, self.rng, self.trained = make_quantizer(kind), rng, False
        self.vs = rng.normal(size=(40, 4))

    def init(self, again):
        self.o.initialize()
        if self.trained:
            try:
                ready = len(self.o.quantize(self.vs[:1])) >= 0
            except Exception:
                ready = False
            check(ready is False or again, "a quantizer is still trained after closing")
            self.trained = ready

    def closed(self):
        pass

    def work(self):
        if not self.trained:
            refuse("quantizing before training", lambda: self.o.quantize(self.vs[:1]))
            self.o.train(self.vs)
            self.trained = True
        r = self.o.dequantize(self.o.quantize(self.vs))
        check(r.shape == self.vs.shape and np.abs(r - self.vs).max() <= 2 * np.abs(self.vs).max(), "quantized and back: %r", r)

    def idle(self):
        o = self.o
        return [("train", lambda: o.train(self.vs)), ("quantize", lambda: o.quantize(self.vs)), ("dequantize", lambda: o.dequantize(np.zeros((1, 2), dtype=np.uint8)))]


class Persistence:
    def __init__(self, kind, d, rng):
        from valori.persistence import IncrementalPersistence, TensorPersistence
        self.o = {"tensor": TensorPersistence, "incremental": IncrementalPersistence}[kind]({"data_dir": d, "checkpoint_interval": 2})
        self.state, self.n = None, 0

    def init(self, again):
        self.o.initialize()
        if self.state is not None:
            check(self.o.load_state("s") == self.state, "the state after initializing is %r", self.o.load_state("s"))

    def closed(self):
        pass

    def work(self):
        self.n += 1
        self.state = {"n": self.n}
        check(self.o.save_state(self.state, "s") is True and self.o.load_state("s") == self.state, "saved %r, loaded %r", self.state, self.o.load_state("s"))

    def idle(self):
        o = self.o
        return [("save_state", lambda: o.save_state({}, "s")), ("load_state", lambda: o.load_state("s")), ("save_vectors", lambda: o.save_vectors(np.ones((1, 2)), ["a"], "v")),
                ("load_vectors", lambda: o.load_vectors("v")), ("save_index", lambda: o.save_index({}, "i")), ("load_index", lambda: o.load_index("i"))]


class Processor:
    def __init__(self, kind, d, rng):
        from valori.processors import ChunkingProcessor, CleaningProcessor, EmbeddingProcessor
        estub.install()
        self.kind = kind
        self.o = {"cleaning": CleaningProcessor, "chunking": ChunkingProcessor, "embedding": EmbeddingProcessor}[kind](
            {"model_name": "stub-4", "chunk_size": 20, "chunk_overlap": 2, "min_chunk_size": 1, "strategy": "fixed_size", "lowercase": True})

    def init(self, again):
        self.o.initialize()

    def closed(self):
        pass

    def work(self):
        r = self.o.process({"text": "Some WORDS to work on, more than one chunk"})
        check({"cleaning": lambda: r["text"] == "some words to work on, more than one chunk", "chunking": lambda: len(r["chunks"]) > 1,
               "embedding": lambda: len(r["embedding"]) == 4}[self.kind](), "processing gives %r", r)

    def idle(self):
        return [("process", lambda: self.o.process({"text": "words"}))]


class Parser:
    def __init__(self, kind, d, rng):
        from checks.c25 import pdf_bytes
        from valori.parsers import OfficeParser, PDFParser, TextParser
        self.o = {"text": TextParser, "pdf": PDFParser, "office": OfficeParser}[kind]({"chunk_size": 20, "chunk_overlap": 0})
        os.makedirs(d, exist_ok=True)
        self.path = os.path.join(d, "f" + {"text": ".txt", "pdf": ".pdf", "office": ".docx"}[kind])
        if kind == "office":
            import docx
            doc = docx.Document()
            doc.add_paragraph("some words")
            doc.save(self.path)
        else:
            with open(self.path, "wb") as f:
                f.write(pdf_bytes([["some words"]], None) if kind == "pdf" else b"some words")

    def init(self, again):
        self.o.initialize()

    def closed(self):
        pass

    def work(self):
        check("some words" in self.o.parse(self.path)["text"], "parsing gives %r", self.o.parse(self.path))

    def idle(self):
        return [("parse", lambda: self.o.parse(self.path))]


class Client:
    def __init__(self, case, d, rng):
        from valori import VectorDBClient
        self.kind, self.rng, self.live = case["index"], rng, {}
        self.store = case["storage"]
        self.quantizer = make_quantizer(case["quantizer"]) if case["quantizer"] else None
        self.persistence = Persistence("tensor", os.path.join(d, "p"), rng).o if case["persistence"] else None
        self.o = VectorDBClient(make_storage(case["storage"], os.path.join(d, "s")), make_index(case["index"]), self.quantizer, self.persistence)

    def init(self, again):
        before = dict(self.live)
        self.o.initialize()
        if self.kind in ("lsh", "annoy") or self.store == "memory":
            n = self.o.get_stats()["index"]
            n = n.get("vector_count", n.get("num_vectors"))
            check(n in (0, len(before)), "%d of %d vectors after initializing", n, len(before))
            if self.kind in ("lsh", "annoy"):
                check(n == len(before) if again else n == 0, "%d of %d vectors after initializing", n, len(before))
            if n == 0:
                self.live = {}
        self.look()

    def closed(self):
        if self.kind in ("lsh", "annoy") or self.store == "memory":
            self.live = {}
        for what, fn in (("the storage", lambda: self.o.storage_backend.list_vectors()), ("the index", lambda: self.o.index.search(np.ones(3), 1))):
            refuse(what + " after its client was closed", fn)
        if self.quantizer:
            refuse("the quantizer after its client was closed", lambda: self.quantizer.train(np.ones((40, 4))))
        if self.persistence:
            refuse("the persistence manager after its client was closed", lambda: self.persistence.load_state("s"))

    def work(self):
        ids = self.o.insert(self.rng.normal(size=(2, 3)), [{}, {}])
        check(len(set(ids)) == 2, "inserted two vectors as %r", ids)
        v = self.rng.normal(size=3)
        check(self.o.update(ids[0], v, {"u": 1}) is True and self.o.delete([ids[1]]) is True, "updating or deleting what was inserted fails")
        self.live[ids[0]] = v
        if self.kind == "annoy":
            self.o.index.build()
        self.look()
        stats = self.o.get_stats()
        check(set(stats) == {"storage", "index"} | ({"quantization"} if self.quantizer else set()) | ({"persistence"} if self.persistence else set()), "statistics %r", stats)

    def idle(self):
        o = self.o
        return [("insert", lambda: o.insert(np.ones((1, 3)), [{}])), ("search", lambda: o.search(np.ones(3), 1)), ("delete", lambda: o.delete(["0"])),
                ("update", lambda: o.update("0", np.ones(3), {})), ("get_stats", lambda: o.get_stats())]


def client_look(self):
    if self.kind == "annoy":
        self.o.index.build()
    for i, v in list(self.live.items())[-3:]:
        r = self.o.search(v, len(self.live) + 3)
        check(self.kind == "lsh" or len(r) == len(self.live), "%d of %d vectors found", len(r), len(self.live))
        check(str(r[0]["id"]) == str(i), "the vector %r is not the nearest to itself: %r", i, r)


Client.look = client_look


def refuse(what, fn):
    from valori.exceptions import ValoriError
    try:
        r = fn()
    except ValoriError:
        return
    raise Violation("%s is accepted: %r" % (what, r))


def run(case, ctx):
    what = case["what"]
    root = ctx.tmp()
    rng = np.random.default_rng(case["seed"])
    d = os.path.join(root, "data")
    if case["broken"] and (what in ("disk", "hybrid", "tensor", "incremental") or (what == "client" and (case["storage"] != "memory" or case["persistence"]))):
        return broken(case, ctx, root, d, rng)
    if what == "client":
        c = Client(case, d, rng)
    else:
        c = [k for k, kinds in ((Storage, STORAGE), (Index, INDEX), (Quantizer, QUANT), (Persistence, ("tensor", "incremental")),
                                (Processor, ("cleaning", "chunking", "embedding")), (Parser, ("text", "pdf", "office"))) if what in kinds][0](what, d, rng)
    ctx.on_close(c.o.close)
    is_open, sessions, worked = False, 0, set()
    for op, in case["ops"]:
        ctx.event("%s %s" % (op, "open" if is_open else "not open"))
        if op == "init":
            c.init(is_open)
            sessions += not is_open
            is_open = True
        elif op == "close":
            c.o.close()
            is_open = False
            c.closed()
        elif op == "work" and is_open:
            c.work()
            worked.add(sessions)
        elif op == "work":
            before = snapshot(root)
            for name, fn in c.idle():
                refuse("%s of a %s component that is not initialized" % (name, what), fn)
            check(snapshot(root) == before, "refused operations of a %s component changed its files", what)
            worked.add(-sessions)
        elif what != "client":
            s = c.o.get_stats()
            shown = s.get("initialized", s.get("status") != "not_initialized")
            check(bool(shown) is is_open, "statistics of a %s component that is %sopen: %r", what, "" if is_open else "not ", s)
    ctx.nontrivial(len([w for w in worked if w > 0]) > 1 and len(worked) > 2)


def broken(case, ctx, root, d, rng):
    """Its directory cannot be created: initialize fails with a library error and the component stays closed until it can."""
    ctx.event("broken")
    with open(d, "w") as f:
        f.write("in the way")
    what = case["what"]
    c = Client(case, d, rng) if what == "client" else (Storage if what in STORAGE else Persistence)(what, d, rng)
    ctx.on_close(c.o.close)
    refuse("initializing %s in a directory that cannot be created" % what, c.o.initialize)
    for name, fn in c.idle():
        refuse("%s of a %s component that failed to initialize" % (name, what), fn)
    with open(d) as f:
        check(f.read() == "in the way", "the file in the way was overwritten")
    os.remove(d)
    c.init(False)
    c.work()
    ctx.nontrivial(True)


TESTS = [Test("lifecycle", strategy, run, quick=2400, thorough=32000, shards=8)]
