"""C28: the embedding processor gives every text its model's embedding, cached or not."""
import contextlib
import copy

import numpy as np
from hypothesis import strategies as st

from checks import estub
from harness.core import Test, Violation, check
from harness.gens import oplist

PROPERTY = "C28"
LEVEL = "exploration"
RULE = ("Histories of single documents, chunked documents, batches, statistics, cache clearing and writes into returned arrays over "
        "one processor, for stand-in models of dimension 1-40 with both interfaces, every cache and normalization setting and batch sizes "
        "1-9, up to 300 texts at once; texts repeat, share long beginnings, are blank, or have a zero embedding. Non-trivial: a text is embedded again after an array was written into.")
TEXTS = ["alpha", "beta", "gamma delta", "zero one", "alpha ", "test", "", "  ", "\n", "\u00e9", "\u65e5\u672c", "x" * 600, "Alpha", "beta\n", "a_b", "a", "b_a", "tiny", "tiny two", "e\u0301", "w " * 1500, "w " * 1500 + "end", "w " * 1499 + "W "]
SPOTS = [("m " * n)[:spot * 2 * n // 4] + c + ("m " * n)[spot * 2 * n // 4:] for n in (40, 800) for spot in range(1, 4) for c in "xy"]  # differ in the middle only
text = st.one_of(st.sampled_from(TEXTS), st.sampled_from(TEXTS[:6]), st.sampled_from(SPOTS), st.text(st.characters(blacklist_categories=("Cs",)), max_size=5))


def strategy():
    op = st.one_of(
        st.tuples(st.just("text"), text), st.tuples(st.just("text"), text),
        st.tuples(st.just("doc"), st.one_of(st.none(), text), st.one_of(st.none(), st.lists(text, max_size=4))),
        st.tuples(st.just("batch"), st.lists(text, max_size=12)), st.tuples(st.just("batch"), st.lists(text, max_size=12)),
        st.tuples(st.sampled_from(["batch", "doc"]), st.tuples(st.sampled_from([60, 257, 300]), st.sampled_from([0, 0, 1000]))),
        st.tuples(st.just("scribble"), st.integers(0, 20)), st.just(("stats",)), st.just(("dim",)), st.just(("clear",)), st.just(("reopen",)))
    return st.fixed_dictionaries({
        "type": st.sampled_from(["sentence_transformers", "sentence_transformers", "openai", "huggingface"]), "dim": st.sampled_from([1, 3, 8, 40]),
        "normalize": st.one_of(st.none(), st.booleans()), "cache": st.one_of(st.none(), st.booleans()), "batch": st.integers(1, 9), "max_length": st.sampled_from([None, 512, 5]), "device": st.sampled_from([None, None, "cpu", "auto"]),
        "ops": oplist(op, 12, 40)})


def run(case, ctx):
    with estub.transformers() if case["type"] == "huggingface" or case["device"] == "auto" else contextlib.nullcontext():
        history(case, ctx)


def history(case, ctx):
    from valori.exceptions import ValoriError
    from valori.processors import EmbeddingProcessor
    estub.install()
    model = "stub-%d" % case["dim"]
    dim = 12 if case["type"] == "openai" else case["dim"]
    cut = None
    if case["type"] == "huggingface":
        dim = max(3, dim)
        model, cut = "stub-%d" % dim, case["max_length"] or 512
    cfg = {"model_name": model, "model_type": case["type"], "batch_size": case["batch"]}
    if case["normalize"] is not None:
        cfg["normalize_embeddings"] = case["normalize"]
    if case["cache"] is not None:
        cfg["cache_embeddings"] = case["cache"]
    if case["max_length"]:
        cfg["max_length"] = case["max_length"]
    if case["device"]:
        cfg["device"] = case["device"]
    norm, cached = case["normalize"] is not False, case["cache"] is not False
    p = EmbeddingProcessor(cfg)

    def refused(what, fn):
        try:
            r = fn()
        except ValoriError:
            return
        raise Violation("%s was accepted: %r" % (what, r))

    def right(t, v, what):
        raw = np.zeros(dim) if not t.strip() else estub.vector(t[:cut], dim).astype(np.float64)
        want = estub.unit(raw) if norm else raw
        v = np.asarray(v)
        check(v.shape == (dim,), "%s of %r has shape %r, the model has dimension %d", what, t, v.shape, dim)
        check(np.allclose(v, want, rtol=1e-5, atol=(1e-6 if cut is None else 1e-4) * min(1.0, np.abs(want).max())), "%s of %r is %r, expected %r", what, t, v, want)
    refused("work before initialize", lambda: p.process({"text": "x"}))
    refused("a batch before initialize", lambda: p.batch_process(["x"]))
    check(p.get_embedding_dimension() == 0, "dimension before initialize")
    p.initialize()
    ctx.event("type:" + case["type"])
    got, cache, scribbled, hits = [], set(), False, 0
    low = high = 0
    for op in case["ops"]:
        kind = op[0]
        if len(op) == 2 and isinstance(op[1], tuple):
            # many different texts at once
            many = ["t%d" % (i + op[1][1]) for i in range(op[1][0])]
            op = ("batch", many) if kind == "batch" else ("doc", None, many)
        if kind in ("text", "doc"):
            t, chunks = (op[1], None) if kind == "text" else (op[1], op[2])
            data = {"metadata": {"k": [1]}, "other": 3}
            if t is not None:
                data["text"] = t
            if chunks is not None:
                data["chunks"] = [{"id": i, "text": c, "metadata": {}} for i, c in enumerate(chunks)]
            keep = copy.deepcopy(data)
            before = len(estub.CALLS)
            blank = [not x.strip() for x in ([t] if t is not None else []) + (chunks or [])]
            out = p.process(data)
            check(data == keep, "the document was changed: %r", data)
            check({k: v for k, v in out.items() if k not in ("embedding", "chunk_embeddings")} == keep, "other fields changed: %r", out)
            check(("embedding" in out) == (t is not None) and ("chunk_embeddings" in out) == (chunks is not None), "fields %r", list(out))
            new = [x for x in dict.fromkeys(([t] if t is not None else []) + (chunks or [])) if x.strip() and x not in cache]
            if cached and not any(blank):
                check(len(estub.CALLS) - before <= len(new), "%d model calls for %d new texts", len(estub.CALLS) - before, len(new))
            n = sum(bool(x.strip()) for x in ([t] if t is not None else []) + (chunks or []))
            low += len(new) if cached else n
            high += len(new) if cached else n
            if t is not None:
                if scribbled and t in cache:
                    ctx.nontrivial(True)
                right(t, out["embedding"], "embedding")
                got.append(out["embedding"])
            if chunks is not None:
                check(len(out["chunk_embeddings"]) == len(chunks), "%d embeddings of %d chunks", len(out["chunk_embeddings"]), len(chunks))
                for c, v in zip(chunks, out["chunk_embeddings"]):
                    right(c, v, "chunk embedding")
                    got.append(v)
            if cached:
                for x in ([t] if t is not None else []) + (chunks or []):
                    if x.strip():
                        hits += x in cache
                        cache.add(x)
        elif kind == "batch":
            keep, was = list(op[1]), hits
            out = p.batch_process(list(op[1]))
            check(len(out) == len(keep), "%d embeddings of a batch of %d", len(out), len(keep))
            for t, v in zip(keep, out):
                right(t, v, "batch embedding")
            if case["type"] != "sentence_transformers" and cached:
                for x in keep:
                    if x.strip():
                        hits += x in cache
                        cache.add(x)
            ctx.event("batch")
            n = sum(bool(x.strip()) for x in keep)
            if case["type"] != "sentence_transformers":
                n -= hits - was
            low += n
            high += n + (len(keep) - n if case["type"] == "sentence_transformers" else 0)
        elif kind == "scribble":
            if got:
                v = got[op[1] % len(got)]
                if v.flags.writeable:
                    v[:] = 7.5
                    scribbled = True
        elif kind == "clear":
            p.clear_cache()
            cache.clear()
            hits = 0
        elif kind == "dim":
            check(p.get_embedding_dimension() == dim, "dimension %r, the model has %d", p.get_embedding_dimension(), dim)
        elif kind == "stats":
            a, b = p.get_stats(), p.get_stats()
            check(a == b, "asking for statistics changes them: %r, then %r", a, b)
            check(a["embedding_dimension"] == dim and a["initialized"] is True and a["model_name"] == model and a["model_type"] == case["type"] and (a["device"] == "cpu" or case["type"] == "openai")
                  and a["normalize_embeddings"] is norm and a["cache_embeddings"] is cached, "statistics %r", a)
            total = a["cache_hits"] + a["embeddings_generated"]
            check(low <= a["embeddings_generated"] == a["texts_processed"] <= high, "statistics %r, %d to %d texts were embedded", a, low, high)
            check(a["cache_hits"] == hits, "%r cache hits, %d texts came from the cache", a["cache_hits"], hits)
            check(a["embeddings_generated"] >= 0 and abs(a["cache_hit_rate"] - (hits / total if total else 0)) < 1e-9, "cache hit rate %r", a)
            check(a["cache_size"] == len(cache), "cache size %r after embedding %r", a["cache_size"], sorted(cache))
        else:
            p.close()
            refused("work after close", lambda: p.process({"text": "x"}))
            refused("a batch after close", lambda: p.batch_process(["x"]))
            p.initialize()
            ctx.event("reopen")
    bad = EmbeddingProcessor({"model_type": "word2vec"})
    refused("an unknown model type", bad.initialize)
    refused("work after a failed initialize", lambda: bad.process({"text": "x"}))


TESTS = [Test("embedding", strategy, run, quick=5000, thorough=60000, shards=8)]
