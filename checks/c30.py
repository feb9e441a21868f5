"""C30: the processing pipeline is the composition of its configured stages."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from checks import estub
from checks.pdata import texts
from harness.core import Test, Violation, check

PROPERTY = "C30"
LEVEL = "exploration"
RULE = ("Pipelines of every subset of stages and parsers with generated options over generated text, Markdown and PDF files and raw "
        "texts, single and in batches with missing, unsupported and broken files among them, before, between and after re-initialization; "
        "the reference applies stand-alone stages in order. Non-trivial: at least two stages over a text of several chunks.")
EXT = [".txt", ".md", ".pdf", ".xyz"]


def strategy():
    stage = st.fixed_dictionaries({}, optional={
        "cleaning": st.fixed_dictionaries({}, optional={"lowercase": st.booleans(), "remove_html": st.booleans(), "normalize_whitespace": st.booleans()}),
        "chunking": st.one_of(st.fixed_dictionaries({"strategy": st.sampled_from(["fixed_size", "semantic", "sliding_window"]),
                                                     "chunk_size": st.integers(20, 60), "chunk_overlap": st.integers(0, 10), "min_chunk_size": st.just(1)}),
                              st.sampled_from([{}, {"min_chunk_size": 1}])),
        "embedding": st.one_of(st.fixed_dictionaries({"model_name": st.sampled_from(["stub-4", "stub-9"])}, optional={"normalize_embeddings": st.booleans()}),
                               st.just({}))})
    parsers = st.fixed_dictionaries({}, optional={n: st.fixed_dictionaries({"chunk_size": st.integers(10, 60), "chunk_overlap": st.integers(0, 9)})
                                                  for n in ("text", "text2", "pdf", "office")})
    return st.fixed_dictionaries({
        "processors": stage, "parsers": st.one_of(parsers, st.just({"text": {"chunk_size": 30, "chunk_overlap": 0}}), st.none()),
        "files": st.lists(st.tuples(texts(n=25), st.sampled_from([".txt", ".txt", ".md", ".pdf", ".xyz", "missing", "broken"]),
                                    st.sampled_from([None, None, None, "text", "pdf", "nosuch"])), max_size=4),
        "raw": st.lists(st.tuples(texts(n=25), st.one_of(st.none(), st.just({"src": [1]}))), max_size=3),
        "twice": st.one_of(st.lists(st.integers(0, 3), max_size=3), st.lists(st.integers(0, 3), max_size=3), st.lists(st.integers(0, 3), max_size=12)), "again": st.booleans()})


def close_to(a, b):
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return np.shape(a) == np.shape(b) and np.allclose(a, b, rtol=1e-6, atol=1e-9)
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(close_to(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close_to(x, y) for x, y in zip(a, b))
    return a == b


def run(case, ctx):
    from valori.exceptions import ValoriError
    from valori.parsers import OfficeParser, PDFParser, TextParser
    from valori.processors import ChunkingProcessor, CleaningProcessor, EmbeddingProcessor, ProcessingPipeline
    from checks.c25 import pdf_bytes
    estub.install()
    root = ctx.tmp()
    stages = {"cleaning": CleaningProcessor, "chunking": ChunkingProcessor, "embedding": EmbeddingProcessor}
    kinds = {"text": TextParser, "pdf": PDFParser, "office": OfficeParser}
    cfg = {"processors": case["processors"]}
    parsers = case["parsers"] or {}
    if case["parsers"] is not None:
        cfg["parsers"] = parsers
    keepcfg = copy.deepcopy(cfg)
    names = [n for n in stages if n in case["processors"]]

    def refused(what, fn):
        try:
            r = fn()
        except ValoriError:
            return
        raise Violation("%s was accepted: %r" % (what, r))

    def chain(data):
        for n in names:
            p = stages[n](copy.deepcopy(case["processors"][n]))
            p.initialize()
            data = p.process(data)
        return data

    def doc_want(path, name):
        """What processing the file must give, or None if it must fail."""
        ext = os.path.splitext(path)[1].lower()
        if name is None:
            fit = [n for n in ("office", "pdf", "text") if n in parsers and ext in kinds[n]({}).get_supported_formats()]
            if not fit:
                return None
            name = fit[0]
        elif name not in parsers or name not in kinds:
            return None
        p = kinds[name](copy.deepcopy(parsers[name]))
        p.initialize()
        try:
            return chain(p.parse(path))
        except ValoriError:
            return None

    def without(r):
        return {k: v for k, v in r.items() if k != "pipeline_metadata"}

    def good(r, want, what):
        check(close_to(without(r), want), "%s gives\n%r\nits stages one by one give\n%r", what, without(r), want)
        pm = r["pipeline_metadata"]
        check(pm["processors_used"] == [stages[n].__name__ for n in names] and pm["processing_complete"] is True, "pipeline metadata %r", pm)
        if len(names) > 1 and len(want.get("chunks") or []) > 1:
            ctx.nontrivial(True)

    files = []
    for i, (text, ext, name) in enumerate(case["files"]):
        path = os.path.join(root, "f%d%s" % (i, {"missing": ".txt", "broken": ".pdf"}.get(ext, ext)))
        if ext == ".pdf":
            raw = pdf_bytes([[w for w in text.split() if w.isascii()][:6], ["second page"]], None)
        else:
            raw = text.encode("utf-8") if ext != "broken" else b"no pdf"
        if ext != "missing":
            with open(path, "wb") as f:
                f.write(raw)
        files.append((path, name))
    p = ProcessingPipeline(cfg)
    refused("work before initialize", lambda: p.process_text("x"))
    refused("a file before initialize", lambda: p.process_document(os.path.join(root, "f")))
    refused("a batch before initialize", lambda: p.batch_process_documents([]))
    check(p.get_supported_formats() == [] and p.get_pipeline_info() == {"initialized": False}, "information before initialize")

    def session():
        formats = sorted({e for n in parsers if n in kinds for e in kinds[n]({}).get_supported_formats()})
        check(p.get_supported_formats() == formats, "supported formats %r with the parsers %r", p.get_supported_formats(), sorted(parsers))
        info = p.get_pipeline_info()
        check(info["initialized"] is True and [x["name"] for x in info["processors"]] == [stages[n].__name__ for n in names]
              and info["supported_formats"] == formats, "pipeline information %r", info)
        wants = []
        for path, name in files:
            want = doc_want(path, name)
            if want is None:
                refused("the file %r" % path, lambda: p.process_document(path, name))
                ctx.event("refused")
            else:
                r = p.process_document(path, name)
                good(r, want, "processing %r with %r" % (path, name))
                check(r["pipeline_metadata"]["file_path"] == str(path), "pipeline metadata %r", r["pipeline_metadata"])
            wants.append(doc_want(path, None))
        order = list(range(len(files))) + [i for i in case["twice"] if i < len(files)]
        res = p.batch_process_documents([files[i][0] for i in order])
        check(len(res) == len(order), "%d results for %d files", len(res), len(order))
        for i, r in zip(order, res):
            path, want = files[i][0], wants[i]
            if want is None:
                check("error" in r and r["file_path"] == path and r["pipeline_metadata"]["processing_failed"] is True and "text" not in r,
                      "a file that cannot be processed gives %r", r)
            else:
                good(r, want, "processing %r in a batch" % path)
        for text, meta in case["raw"]:
            keep = copy.deepcopy(meta)
            want = chain({"text": text, "metadata": copy.deepcopy(meta) or {}, "structure": {"type": "raw_text"}})
            r = p.process_text(text, meta)
            good(r, want, "processing %r" % text)
            check(meta == keep, "processing changed the metadata it was given")
            ctx.event("raw")
    p.initialize()
    session()
    if case["again"]:
        p.initialize()
        ctx.event("initialized-twice")
    else:
        p.close()
        refused("work after close", lambda: p.process_text("x"))
        refused("a batch after close", lambda: p.batch_process_documents([]))
        check(p.get_pipeline_info() == {"initialized": False}, "information after close")
        p.initialize()
    session()
    p.close()
    check(cfg == keepcfg, "the configuration was changed")
    # a pipeline that cannot start, and can after its configuration was corrected
    bad = ProcessingPipeline({"processors": dict(case["processors"], cleaning={}, chunking={"chunk_size": 0})})
    refused("an unusable stage", bad.initialize)
    refused("work after a failed initialize", lambda: bad.process_text("x"))
    bad.config["processors"]["chunking"] = {"strategy": "fixed_size"}
    bad.initialize()
    check([x["name"] for x in bad.get_pipeline_info()["processors"]] ==
          [stages[n].__name__ for n in stages if n in set(names) | {"cleaning", "chunking"}], "stages after a failed initialize: %r", bad.get_pipeline_info())


def vectors_strategy():
    return st.fixed_dictionaries({"files": st.lists(st.tuples(texts(n=12), st.sampled_from([".txt", ".md", ".xyz", "missing"])), max_size=5),
                                  "name": st.sampled_from([None, None, "text", "nosuch"]), "dim": st.sampled_from([3, 7]),
                                  "texts": st.lists(st.text(max_size=6), min_size=1, max_size=6)})


def run_vectors(case, ctx):
    """create_vectors_from_files and create_vectors_from_text."""
    import contextlib
    import io
    from valori.processors import CleaningProcessor
    from valori.utils.helpers import create_vectors_from_files, create_vectors_from_text
    estub.install()
    root = ctx.tmp()
    paths, want = [], []
    clean = CleaningProcessor({})
    clean.initialize()
    for i, (text, ext) in enumerate(case["files"]):
        path = os.path.join(root, "v%d%s" % (i, ".txt" if ext == "missing" else ext))
        if ext != "missing":
            with open(path, "wb") as f:
                f.write(text.encode("utf-8"))
        paths.append(path)
        if case["name"] != "nosuch" and ext in (".txt", ".md"):
            t = clean.process({"text": text.replace("\r\n", "\n")})["text"]
            want.append((path, t))
    model = "stub-%d" % case["dim"]
    with contextlib.redirect_stdout(io.StringIO()):
        vs, ms = create_vectors_from_files(paths, parser_name=case["name"], embedding_model=model)
    check(vs.ndim == 2 and len(vs) == len(ms) == len(want), "%r vectors and %d metadata for %d readable files", vs.shape, len(ms), len(want))
    for v, m, (path, t) in zip(vs, ms, want):
        check(m["file_name"] == os.path.basename(path), "metadata %r of %r", m, path)
        w = estub.unit(estub.vector(t, case["dim"])) if t.strip() else np.zeros(case["dim"])
        check(v.shape == w.shape and np.allclose(v, w, rtol=1e-5, atol=1e-6), "the vector of %r is %r, expected %r", t, v, w)
    ctx.nontrivial(len(want) > 1)
    vs, ms = create_vectors_from_text(list(case["texts"]), model, batch_size=2)
    check(vs.shape == (len(case["texts"]), case["dim"]) and vs.dtype == np.float32 and len(ms) == len(vs), "vectors %r", vs.shape)
    for t, v, m in zip(case["texts"], vs, ms):
        check(np.array_equal(v, estub.vector(t, case["dim"])) and m["text"] == t and m["text_length"] == len(t) and m["model_used"] == model
              and m["embedding_dimension"] == case["dim"], "the text %r became %r with %r", t, v, m)


TESTS = [Test("pipeline", strategy, run, quick=3200, thorough=32000, shards=8),
         Test("vectors", vectors_strategy, run_vectors, quick=600, thorough=6000, shards=4)]
