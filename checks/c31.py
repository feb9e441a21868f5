"""C31: every template, recommendation and named configuration gives the database it promises."""
import contextlib
import copy
import io
import os
import sys
import types

import numpy as np
from hypothesis import strategies as st

from checks import estub
from harness.core import Test, Violation, check
from harness.gens import oplist

PROPERTY = "C31"
LEVEL = "exploration"
RULE = ("Calls of every factory function with and without size hints at and around every threshold, overrides of every kind, templates and "
        "recommended configurations; look-ups of every named configuration interleaved with writes into what was handed out; corpora of "
        "1-12 texts or documents over every index type. Non-trivial: an override or recommendation decides the database.")
HNSW = {"metric": "cosine", "M": 16, "ef_construction": 200, "ef_search": 50}
LSH = {"metric": "cosine", "num_hash_tables": 15, "hash_size": 20, "num_projections": 100, "threshold": 0.3}
TEMPLATES = {"small_dataset": ("flat", "memory", {}), "medium_dataset": ("annoy", "memory", {"metric": "angular", "num_trees": 10, "search_k": -1}),
             "large_dataset": ("ivf", "disk", {"metric": "cosine", "n_clusters": 1000, "n_probes": 10}), "high_dimensional": ("lsh", "memory", LSH),
             "real_time_search": ("annoy", "memory", {"metric": "angular", "num_trees": 5, "search_k": 10}), "document_search": ("hnsw", "memory", HNSW)}
INDEX = {  # settings an override can give each index type
    "flat": {"metric": ["cosine", "euclidean"]}, "hnsw": {"metric": ["cosine", "euclidean"], "m": [4, 9], "M": [5, 24], "ef_construction": [30, 90], "ef_search": [20, 70]},
    "ivf": {"metric": ["cosine", "euclidean"], "n_clusters": [2, 7], "n_probes": [1, 3]}, "lsh": {"num_hash_tables": [3, 7], "hash_size": [2, 5], "threshold": [0.0, 0.2]},
    "annoy": {"metric": ["angular", "euclidean"], "num_trees": [3, 8], "search_k": [-1, 500]}}
DEFAULTS = {"flat": {"metric": "cosine"}, "hnsw": {"metric": "cosine", "m": 16, "ef_construction": 200, "ef_search": 50},
            "ivf": {"metric": "cosine", "n_clusters": 100, "n_probes": 10}, "lsh": {"num_hash_tables": 10, "hash_size": 16, "threshold": 0.5},
            "annoy": {"num_trees": 10, "search_k": -1}}
counts = st.one_of(st.none(), st.sampled_from([0, 1, 999, 1000, 1001, 99999, 100000, 100001, 10 ** 7]), st.integers(0, 300000))
dims = st.one_of(st.none(), st.sampled_from([1, 384, 385, 768, 769, 1000, 1001, 4096]), st.integers(1, 2000))
uses = st.sampled_from(["speed", "accuracy", "memory", "balanced"])
stores = st.sampled_from(["memory", "disk", "hybrid"])


def recommended(n, dim, use, precise=True):
    """(type, settings) of the recommended index."""
    n, dim = n or 0, dim or 0
    if n < 1000:
        return "flat", {"metric": "cosine"}
    if n < 100000:
        if use == "accuracy":
            return "hnsw", dict(HNSW)
        if not precise:
            return "annoy", {"metric": "angular", "num_trees": 10, "search_k": 50}
        return "annoy", {"metric": "angular", "num_trees": 10 if use == "speed" else 20, "search_k": -1}
    if dim > 1000:
        return "lsh", dict(LSH)
    return "ivf", {"metric": "cosine", "n_clusters": min(1000, n // 100) if precise else 1000, "n_probes": 10}


def kinds():
    from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex, LSHIndex
    from valori.storage import DiskStorage, HybridStorage, MemoryStorage
    return ({"flat": FlatIndex, "hnsw": HNSWIndex, "ivf": IVFIndex, "lsh": LSHIndex, "annoy": AnnoyIndex},
            {"memory": MemoryStorage, "disk": DiskStorage, "hybrid": HybridStorage})


def settings(kind, config):
    """The settings of an index of that type with that configuration, as get_stats reports them."""
    r = dict(DEFAULTS[kind])
    c = dict(config)
    if "M" in c:
        c.setdefault("m", c["M"])
    r.update({k: v for k, v in c.items() if k in r or k == "metric"})
    return {k: v for k, v in r.items() if kind != "lsh" or k != "metric"}


def strategy():
    over = st.sampled_from(sorted(INDEX)).flatmap(lambda k: st.tuples(st.just(k), st.fixed_dictionaries({}, optional={n: st.sampled_from(v) for n, v in INDEX[k].items()})))
    return st.fixed_dictionaries({
        "how": st.sampled_from(["template", "template", "create", "create", "typed", "recommended", "named"]), "template": st.sampled_from(sorted(TEMPLATES)),
        "n": counts, "dim": dims, "use": uses, "store": st.one_of(st.none(), stores), "over": over, "index_config": st.booleans(), "retype": st.booleans(),
        "pick": st.integers(0, 50), "rows": st.integers(1, 25), "width": st.integers(2, 9), "seed": st.integers(0, 999)})


@contextlib.contextmanager
def inside(path):
    """Relative data directories end up in the scratch directory."""
    was = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(was)


def usable(client, kind, case, where):
    """Vectors put into the database are found again."""
    rng = np.random.default_rng(case["seed"])
    vs = rng.normal(size=(case["rows"], case["width"])).astype(np.float32)
    ids = client.insert(vs, [{"row": i} for i in range(len(vs))])
    check(len(set(ids)) == len(vs), "inserting %d vectors gives ids %r", len(vs), ids)
    if kind == "annoy":
        client.index.build()
    for i in range(0, len(vs), 5):
        r = client.search(vs[i], 3)
        check(r and len(r) <= 3 and all(str(x["id"]) in ids and x["metadata"] == {"row": ids.index(str(x["id"]))} for x in r), "searching %s gives %r", where, r)
        if kind in ("flat", "lsh", "hnsw") or (kind == "annoy" and client.index.search_k == -1):
            check(r[0]["metadata"]["row"] == i, "vector %d is not the nearest to itself in %s: %r", i, where, r)


def run(case, ctx):
    from valori import factory
    from valori.configs import get_config, get_recommended_config
    index_kinds, store_kinds = kinds()
    kind, over = case["over"]
    how, extra = case["how"], {}
    root = ctx.tmp()
    store = case["store"]
    data = os.path.join(root, "here")
    where = os.path.join(root, "valori_data")
    storage_config = {}
    with inside(root):
        if store == "disk" and case["pick"] % 2:
            storage_config, where = {"data_dir": data}, data
        elif store == "hybrid" and case["pick"] % 2:
            storage_config, where = {"disk": {"data_dir": data}, "memory_limit": 2}, data
        if how == "template":
            want, wstore, config = TEMPLATES[case["template"]]
            if store:
                extra["storage_type"] = wstore = store
                extra["storage_config"] = storage_config
            if case["retype"]:
                want = extra["index_type"] = kind
                extra["index_config"] = config = dict(over)
            elif case["index_config"] and kind == want:
                extra["index_config"] = config = dict(over)
            client = factory.create_from_template(case["template"], **extra)
        elif how in ("create", "typed"):
            for k, v in (("num_vectors", case["n"]), ("dimension", case["dim"]), ("storage_type", store)):
                if v is not None:
                    extra[k] = v
            wstore = store or "memory"
            if storage_config:
                extra["storage_config"] = storage_config
            extra["use_case"] = case["use"]
            want, config = recommended(case["n"], case["dim"], case["use"])
            if how == "typed":
                want, config = extra["index_type"], _ = kind, {}
            if case["index_config"] and kind == want:
                extra["index_config"] = dict(over)
                config = dict(config, **over) if how == "create" else dict(over)
            client = factory.create_vector_db(**extra)
        elif how == "recommended":
            n, dim = case["n"] or 0, case["dim"] or 1
            names = {"memory": ["memory", "memory_only"], "disk": ["disk", "disk_only"], "hybrid": ["hybrid"], None: ["memory"]}[store]
            r = get_recommended_config(n, dim, case["use"], names[case["pick"] % len(names)])
            want, config = recommended(n, dim, case["use"], precise=False)
            wstore, where = store or "memory", os.path.join(root, "valori_data")
            check(r["metadata"]["num_vectors"] == n and r["metadata"]["dimension"] == dim and r["metadata"]["use_case"] == case["use"], "metadata %r", r["metadata"])
            model = "balanced" if 384 < dim <= 768 else "high_quality" if dim > 768 else "fast_small"
            check(r["embedding"] == get_config("embedding", model), "for dimension %d the embedding is %r", dim, r["embedding"])
            check(r["index"]["type"] == want and r["storage"]["type"] == wstore, "recommended for %d vectors of dimension %d, %s: %r", n, dim, case["use"], r)
            client = factory.create_vector_db(index_type=r["index"]["type"], index_config=r["index"]["config"],
                                              storage_type=r["storage"]["type"], storage_config=r["storage"]["config"])
        else:
            from valori.configs import list_configs
            flat = [(s, n) for s, ns in sorted(list_configs("index").items()) for n in ns]
            sub, name = flat[case["pick"] % len(flat)]
            config = get_config("index", name)
            check(get_config("index", sub)[name] == config, "the configuration %r differs from that in %r", name, sub)
            want = name.split("_")[0]
            sname = sorted(list_configs("storage")["storage"])[case["seed"] % 3]
            s = get_config("storage", sname)
            wstore, where = s["type"], os.path.join(root, "valori_data")
            check(sname.startswith(wstore), "storage %r is of type %r", sname, wstore)
            client = factory.create_vector_db(index_type=want, index_config=config, storage_type=s["type"], storage_config=s["config"])
        ctx.on_close(client.close)
        ctx.event(how)
        ctx.nontrivial(bool(extra) or how == "recommended")
        told = "%s %r" % (case["template"] if how == "template" else how, extra)
        check(type(client.index) is index_kinds[want], "%s gives a %s, expected %s", told, type(client.index).__name__, want)
        check(type(client.storage_backend) is store_kinds[wstore], "%s gives a %s, expected %s", told, type(client.storage_backend).__name__, wstore)
        stats = client.get_stats()
        got = {k: stats["index"].get(k) for k in settings(want, config)}
        check(got == settings(want, config), "%s gives an index with %r, expected %r", told, got, settings(want, config))
        if wstore == "hybrid":
            limit = storage_config.get("memory_limit", 10000) if how in ("template", "create", "typed") else 10000
            check(client.storage_backend.memory_limit == limit, "memory limit %r, expected %r", client.storage_backend.memory_limit, limit)
        usable(client, want, case, told)
        # Annoy and LSH hold their vectors themselves
        if wstore == "disk" and want in ("flat", "ivf", "hnsw"):
            check(any(f for _, _, f in os.walk(where)), "nothing is stored below %s", where)
        check(set(os.listdir(root)) <= {os.path.basename(where)}, "%s leaves %r behind", told, os.listdir(root))
        # nothing a user does to this database reaches the next one
        config_now = client.index.config
        config_now.clear()
        config_now.update(metric="nonsense", num_trees=-1)
        client.close()
        if how == "template":
            client = factory.create_from_template(case["template"], storage_type="memory")
            want, _, config = TEMPLATES[case["template"]]
        else:
            want, config = recommended(5000, 10, "accuracy")
            client = factory.create_vector_db(5000, 10, "accuracy")
        ctx.on_close(client.close)
        got = {k: client.get_stats()["index"].get(k) for k in settings(want, config)}
        check(got == settings(want, config), "after using one database the next has %r, expected %r", got, settings(want, config))
    for bad in (lambda: factory.create_vector_db(index_type="nosuch"), lambda: factory.create_vector_db(5, 5, storage_type="nosuch"),
                lambda: factory.create_from_template("nosuch")):
        try:
            bad()
        except ValueError:
            continue
        raise Violation("an unknown index, storage or template name is accepted")


PRISTINE = {}


def pristine():
    """Every named configuration as it is before anything was handed out."""
    if not PRISTINE:
        from valori import configs
        for c, v in (("index", configs.INDEX_CONFIGS), ("storage", configs.STORAGE_CONFIGS), ("document", configs.DOCUMENT_CONFIGS),
                     ("embedding", configs.EMBEDDING_CONFIGS), ("application", configs.APPLICATION_CONFIGS), ("performance", configs.PERFORMANCE_CONFIGS)):
            PRISTINE[c] = copy.deepcopy(v)
    return PRISTINE


def scribble(x):
    if isinstance(x, dict):
        for v in x.values():
            scribble(v)
        x.clear()
        x["scribbled"] = True
    elif isinstance(x, list):
        x.clear()


def configs_strategy():
    op = st.one_of(st.tuples(st.sampled_from(["get", "write", "write"]), st.sampled_from(["index", "storage", "document", "embedding", "application", "performance", "nosuch"]),
                             st.integers(0, 40)), st.tuples(st.sampled_from(["list", "listwrite"]), st.sampled_from([None, "index", "storage", "application", "nosuch"]), st.just(0)))
    return st.fixed_dictionaries({"ops": oplist(op, 8, 30), "pipeline": st.sampled_from(["text_processing", "pdf_processing", "office_processing", "advanced_processing"]),
                                  "words": st.lists(st.sampled_from(["alpha", "the", "<b>beta</b>", "Gamma.", "delta\n\n"]), min_size=3, max_size=400)})


def run_configs(case, ctx):
    from valori.configs import get_config, list_configs
    want = pristine()

    def names(category):
        v = want[category]
        return {s: list(c) for s, c in v.items()} if category == "index" else list(v)
    for op, category, i in case["ops"]:
        name = None
        try:
            if op in ("get", "write"):
                if category == "nosuch":
                    get_config(category, "x")
                    raise Violation("the category 'nosuch' exists")
                listed = list_configs(category)
                if category == "index":
                    known = list(want["index"]) + [n for c in want["index"].values() for n in c]
                    check(listed == names("index"), "index configurations listed: %r", listed)
                else:
                    known = list(want[category])
                    check(listed == {category: known}, "%s configurations listed: %r", category, listed)
                name = (known + ["nosuch", "", "Balanced"])[i % (len(known) + 3)]
                got = get_config(category, name)
                check(name in known, "the %s configuration %r exists", category, name)
                right = want[category][name] if name in want[category] else [c[name] for c in want["index"].values() if name in c][0]
                check(got == right, "the %s configuration %r is %r, expected %r", category, name, got, right)
                if op == "write":
                    scribble(got)
                    ctx.nontrivial(True)
            else:
                r = list_configs(category)
                if category is None:
                    check(r == {c: names(c) for c in want}, "everything listed: %r", r)
                if op == "listwrite":
                    scribble(r)
        except ValueError:
            check(category == "nosuch" or (name is not None and name not in known), "%s of %r refused", op, category)
    # a processing configuration runs as it says
    estub.install()
    from valori.processors import ChunkingProcessor, CleaningProcessor, EmbeddingProcessor, ProcessingPipeline
    cfg = get_config("document", case["pipeline"])
    p = ProcessingPipeline(cfg)
    with contextlib.redirect_stdout(io.StringIO()):
        p.initialize()
    ctx.on_close(p.close)
    text = " ".join(case["words"])
    data = {"text": text, "metadata": {}, "structure": {"type": "raw_text"}}
    for n, c in (("cleaning", CleaningProcessor), ("chunking", ChunkingProcessor), ("embedding", EmbeddingProcessor)):
        s = c(copy.deepcopy(want["document"][case["pipeline"]]["processors"][n]))
        s.initialize()
        data = s.process(data)
    r = p.process_text(text)
    check(r["text"] == data["text"] and [c["text"] for c in r.get("chunks", [])] == [c["text"] for c in data.get("chunks", [])]
          and np.array_equal(r["embedding"], data["embedding"]), "%s gives %r", case["pipeline"], r)
    have = set(want["document"][case["pipeline"]]["parsers"])
    for parser, ext in (("text", ".txt"), ("pdf", ".pdf"), ("office", ".docx")):
        check((ext in p.get_supported_formats()) == (parser in have), "formats of %s: %r", case["pipeline"], p.get_supported_formats())
    check(cfg == want["document"][case["pipeline"]], "the pipeline changed its configuration")
    # an embedding configuration names the dimension of its model
    for n, c in want["embedding"].items():
        if "dimension" in c:
            check(c["dimension"] == estub.dim_of(c["model_name"]), "embedding %r has dimension %r", n, c["dimension"])


def corpus_strategy():
    word = st.sampled_from(["alpha", "beta", "gamma", "delta", "one", "two", "three"])
    text = st.lists(word, min_size=1, max_size=5).map(" ".join)
    value = st.one_of(st.integers(0, 9), text, st.lists(st.integers(0, 3), max_size=3))
    doc = st.tuples(text, st.dictionaries(st.sampled_from(["title", "year", "tags", "text_length", "doc_id"]), value, max_size=3))
    return st.fixed_dictionaries({"docs": st.lists(doc, min_size=1, max_size=12), "index": st.one_of(st.none(), st.sampled_from(sorted(INDEX))),
                                  "store": st.one_of(st.none(), st.just("memory"), st.just("disk")), "dim": st.sampled_from([3, 8, 40]), "over": st.booleans(),
                                  "k": st.integers(1, 5), "what": st.sampled_from(["semantic", "hybrid", "document", "image"]),
                                  "chunk": st.integers(10, 60), "overlap": st.integers(0, 9)})


def images():
    """Stand-ins for the image libraries: an image is a file whose content is its text."""
    torch = types.ModuleType("torch")
    torch.cuda = types.SimpleNamespace(is_available=lambda: False)
    torch.no_grad = contextlib.nullcontext

    class Tensor:
        def __init__(self, a):
            self.a = np.asarray(a, dtype=np.float32)

        def unsqueeze(self, d):
            return Tensor(np.expand_dims(self.a, d))

        def to(self, device):
            return self

        def cpu(self):
            return self

        def norm(self, dim=-1, keepdim=False):
            return Tensor(np.linalg.norm(self.a, axis=dim, keepdims=keepdim))

        def numpy(self):
            return self.a

        def __truediv__(self, o):
            return Tensor(self.a / o.a)
    clip = types.ModuleType("clip")
    clip.load = lambda name, device=None: (types.SimpleNamespace(encode_image=lambda t: t), lambda text: Tensor(estub.vector(text, 6)))
    pil = types.ModuleType("PIL")

    def read(path):
        with open(path, encoding="utf-8") as f:
            return f.read()
    pil.Image = types.SimpleNamespace(open=read)
    return {"torch": torch, "clip": clip, "PIL": pil, "PIL.Image": pil.Image}


def run_corpus(case, ctx):
    from valori import factory
    estub.install()
    index_kinds, store_kinds = kinds()
    model = "stub-%d" % case["dim"]
    docs = [dict(m, text=t) for t, m in case["docs"]]
    texts = [t for t, _ in case["docs"]]
    keep = copy.deepcopy(docs)
    root = ctx.tmp()
    kw, config = {}, None
    if case["store"]:
        kw["storage_type"] = case["store"]
        if case["store"] == "disk":
            kw["storage_config"] = {"data_dir": os.path.join(root, "data")}
    default = {"semantic": "annoy", "hybrid": "hnsw", "document": "annoy", "image": "hnsw"}[case["what"]]
    kind = case["index"] or default
    if case["index"] and (case["what"] != "hybrid" or case["over"]):
        kw["index_type"] = kind
    else:
        kind = default
    wants = {"annoy": {"num_trees": 20, "search_k": -1}, "hnsw": HNSW}.get(kind, {}) if case["what"] == "document" else HNSW if case["what"] == "hybrid" else {}
    if case["over"]:
        wants = {"flat": {"metric": "euclidean"}, "hnsw": {"metric": "euclidean", "m": 7}, "annoy": {"metric": "euclidean", "num_trees": 4},
                 "ivf": {"metric": "euclidean", "n_clusters": 3}, "lsh": {"num_hash_tables": 4, "hash_size": 3, "threshold": 0.1}}[kind]
        kw["index_config"] = dict(wants)
    ctx.event(case["what"])
    ctx.nontrivial(len(set(texts)) > 1)

    def shape(client):
        ctx.on_close(client.close)
        check(type(client.index) is index_kinds[kind] and type(client.storage_backend) is store_kinds[case["store"] or "memory"],
              "a %s over a %s, expected %s and %s", type(client.index).__name__, type(client.storage_backend).__name__, kind, case["store"])
        got = {k: client.get_stats()["index"].get(k) for k in settings(kind, wants)}
        check(got == settings(kind, wants), "%s database with %r: %r", case["what"], kw, got)

    def same_direction(a, b, dim):
        a, b = estub.vector(a, dim), estub.vector(b, dim)
        return np.dot(a, b) >= 0.9999 * np.linalg.norm(a) * np.linalg.norm(b)
    with contextlib.redirect_stdout(io.StringIO()):
        if case["what"] == "semantic":
            client = factory.create_semantic_search_db(list(texts), model, **kw)
        elif case["what"] == "hybrid":
            client = factory.create_hybrid_search_db(docs, model, **kw)
        elif case["what"] == "image":
            paths = []
            for i, t in enumerate(texts):
                paths.append(os.path.join(root, "i%d.png" % i))
                if i == 0 or i % 4 != 3:
                    with open(paths[-1], "w", encoding="utf-8") as f:
                        f.write(t)
            was = {n: sys.modules.get(n) for n in images()}
            sys.modules.update(images())
            try:
                client = factory.create_image_search_db(paths, **kw)
            finally:
                for n, m in was.items():
                    sys.modules.pop(n, None)
                    if m is not None:
                        sys.modules[n] = m
        else:
            return document(case, ctx, factory, shape, kw, model, texts, kind, same_direction)
    check(docs == keep, "creating the database changed the documents")
    shape(client)
    dim = 6 if case["what"] == "image" else case["dim"]

    def query(text):
        v = estub.vector(text, dim)
        return v / np.linalg.norm(v, axis=-1, keepdims=True) if case["what"] == "image" else v
    live = [i for i in range(len(texts)) if case["what"] != "image" or i == 0 or i % 4 != 3]
    for i in live:
        r = client.search(query(texts[i]), case["k"])
        check(r and len(r) <= case["k"], "%d results for %r", len(r), texts[i])
        for x in r:
            m = x["metadata"]
            if case["what"] == "image":
                j = m["image_id"]
                check(j in live and m["image_path"] == paths[j], "metadata %r of images %r", m, paths)
            elif case["what"] == "hybrid":
                j = m["doc_id"]
                right = {"text": texts[j], "text_length": len(texts[j]), "model_used": model, "embedding_dimension": dim}
                right.update(case["docs"][j][1])
                right["doc_id"] = j
                check(m == right, "metadata %r of document %d, expected %r", m, j, right)
            else:
                check(m["text"] in texts and m["text_length"] == len(m["text"]), "metadata %r", m)
        m = r[0]["metadata"]
        best = texts[m["image_id"]] if case["what"] == "image" else m["text"]
        check(same_direction(best, texts[i], dim), "searching for %r finds %r first", texts[i], best)
    wide = client.search(query(texts[0]), len(texts) + 5)
    if kind in ("flat", "annoy", "hnsw"):
        check(len(wide) == len(live) == len({x["id"] for x in wide}), "%d of %d entries found", len(wide), len(live))


def document(case, ctx, factory, shape, kw, model, texts, kind, same_direction):
    """create_document_db"""
    from valori.processors import ChunkingProcessor, CleaningProcessor, EmbeddingProcessor
    if kind == "annoy" and not case["over"] and case["index"] is None and case["k"] == 1:
        client, p = factory.create_document_db(model)
        size, overlap = 1000, 100
        case = dict(case, store=None)
        check(type(client.storage_backend).__name__ == "MemoryStorage", "a %s", type(client.storage_backend).__name__)
    else:
        size, overlap = case["chunk"], case["overlap"]
        client, p = factory.create_document_db(model, chunk_size=size, chunk_overlap=overlap, **kw)
        shape(client)
    ctx.on_close(client.close)
    ctx.on_close(p.close)
    text = " ".join(texts)
    path = os.path.join(ctx.tmp(), "d.md")
    with open(path, "w", encoding="utf-8") as f:
        f.write("<i>%s</i>" % text)
    data = {"text": text, "metadata": {}, "structure": {"type": "raw_text"}}
    for c, o in ((CleaningProcessor, {"normalize_whitespace": True, "remove_html": True, "lowercase": False}),
                 (ChunkingProcessor, {"strategy": "semantic", "chunk_size": size, "chunk_overlap": overlap}),
                 (EmbeddingProcessor, {"model_name": model, "normalize_embeddings": True, "cache_embeddings": True})):
        s = c(o)
        s.initialize()
        data = s.process(data)
    r = p.process_text(text)
    check([c["text"] for c in r["chunks"]] == [c["text"] for c in data["chunks"]] and np.allclose(r["embedding"], data["embedding"], atol=1e-6),
          "the pipeline of a document database gives %r, expected %r", r, data)
    r = p.process_document(path)
    check(r["text"].split() == text.split(), "a file gives %r", r["text"])
    check({".txt", ".pdf", ".docx"} <= set(p.get_supported_formats()), "formats %r", p.get_supported_formats())
    client.insert(np.array(r["embedding"]).reshape(1, -1), [r["metadata"]])
    if kind == "annoy":
        client.index.build()
    found = client.search(np.array(p.process_text(text)["embedding"]), 3)
    check(len(found) == 1 and found[0]["metadata"]["file_name"] == "d.md", "the document is not found: %r", found)


TESTS = [Test("databases", strategy, run, quick=800, thorough=8000, shards=4), Test("configs", configs_strategy, run_configs, quick=240, thorough=3000, shards=2),
         Test("corpora", corpus_strategy, run_corpus, quick=480, thorough=6000, shards=2)]
