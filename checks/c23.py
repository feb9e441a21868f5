"""C23: chunking covers the text with genuine stretches of it."""
import copy

from hypothesis import strategies as st

from harness.core import Test, Violation, check
from harness.gens import oplist

PROPERTY = "C23"
LEVEL = "exploration"
RULE = ("Texts assembled from words, sentence ends, newlines, blank lines, runs of spaces, long unbroken words and non-ASCII, 0-400 "
        "characters; every strategy; chunk sizes 1-120 with overlaps, minimum and maximum sizes around them, other separators; sizes of 200-5000 over "
        "texts of thousands of characters; one processor over several documents, refused configurations and inputs. Non-trivial: at least two chunks.")

PIECES = ["word ", "a", "bc ", "Lorem ipsum ", "end. ", "what? ", "no! ", "\n", "\n\n", "\n\n\n", "   ", "\t", " \n \n ", "x" * 30,
          "é", "日本語", "1.5", "...", " . ", "\r\n", "averyveryverylongwordindeed ", "\u2003", "e\u0301 "]


def texts():
    return st.one_of(st.lists(st.sampled_from(PIECES), max_size=60).map("".join),
                     st.lists(st.sampled_from(PIECES[:12]), max_size=120).map("".join),
                     st.lists(st.sampled_from(["Some words here. ", "paragraph\n\n", "more\n", "text ", "x" * 25]), min_size=3, max_size=40).map("".join))


def strategy():
    return st.fixed_dictionaries({
        "strategy": st.sampled_from(["fixed_size", "semantic", "sliding_window"]),
        "size": st.one_of(st.integers(1, 12), st.integers(5, 60), st.integers(20, 120)),
        "overlap": st.one_of(st.just(0), st.integers(0, 30), st.integers(0, 119)),
        "min": st.one_of(st.sampled_from([0, 1, 1]), st.integers(0, 20)),
        "max": st.one_of(st.none(), st.integers(0, 60)),  # above the chunk size
        "seps": st.one_of(st.none(), st.none(), st.lists(st.sampled_from(["\n\n", "\n", ". ", " ", "x", "é", "word "]), max_size=3)),
        "docs": oplist(texts(), 2, 4),
        "extra": st.sampled_from([{}, {"metadata": {"a": [1]}}, {"chunks": [{"text": "old", "id": 9}], "structure": {"type": "t"}}])})


def large_strategy():
    """Sizes as in the default configuration, thousands of characters."""
    part = st.tuples(st.sampled_from(["Some words make a sentence. ", "short\n", "word ", "x", "\n\n", "Why is that so? ", "no " * 20 + "\n\n",
                                      "日本語、", "   ", "a line of text without an end\n", "mid.dle"]), st.sampled_from([1, 1, 2, 9, 60, 300, 700]))
    return st.fixed_dictionaries({
        "strategy": st.sampled_from(["fixed_size", "semantic", "sliding_window"]),
        "size": st.one_of(st.sampled_from([1000, 1000, 500, 2000, 2001, 5000]), st.integers(200, 3000)),
        "overlap": st.one_of(st.sampled_from([0, 100, 100]), st.integers(0, 900)),
        "min": st.sampled_from([0, 1, 50, 50, 120]), "max": st.sampled_from([None, None, None, 0, 500]),
        "seps": st.one_of(st.none(), st.none(), st.none(), st.lists(st.sampled_from(["\n\n", "\n", ". ", "? "]), min_size=1, max_size=3)),
        "docs": oplist(st.lists(part, min_size=1, max_size=9).map(lambda l: "".join(t * n for t, n in l)), 1, 2),
        "extra": st.just({})})


def nonspace(s):
    return sum(not c.isspace() for c in s)


def run(case, ctx):
    from valori.exceptions import ValoriError
    from valori.processors import ChunkingProcessor
    size = case["size"]
    overlap = min(case["overlap"], size - 1)
    mn = min(case["min"], size)
    mx = None if case["max"] is None else size + case["max"]
    how = case["strategy"]
    cfg = {"strategy": how, "chunk_size": size, "chunk_overlap": overlap, "min_chunk_size": mn}
    if mx is not None:
        cfg["max_chunk_size"] = mx
    if case["seps"] is not None:
        cfg["separators"] = case["seps"]
    p = ChunkingProcessor(cfg)

    def refused(what, fn):
        try:
            r = fn()
        except ValoriError:
            return
        raise Violation("%s was accepted: %r" % (what, r))
    refused("work before initialize", lambda: p.process({"text": "x"}))
    p.initialize()
    refused("a document without text", lambda: p.process({"metadata": {}}))
    for bad in ({"chunk_size": 0}, {"chunk_size": -3}, {"chunk_size": 5, "chunk_overlap": 5}, {"chunk_size": 5, "chunk_overlap": 9},
                {"chunk_size": 50, "chunk_overlap": 1, "max_chunk_size": 49}, {"chunk_size": 50, "chunk_overlap": 1, "min_chunk_size": 51}):
        refused("configuration %r" % bad, lambda: ChunkingProcessor(bad).initialize())
    limit = mx if mx is not None else max(2000, size)
    made = chars = 0
    for text in case["docs"]:
        data = dict(copy.deepcopy(case["extra"]), text=text)
        keep = copy.deepcopy(data)
        out = p.process(data)
        check(data == keep, "the document was changed")
        check({k: v for k, v in out.items() if k != "chunks"} == {k: v for k, v in keep.items() if k != "chunks"},
              "other fields changed: %r", out)
        chunks = out["chunks"]
        check(p.process(data)["chunks"] == chunks, "the same text chunks differently the second time")
        made += 2 * len(chunks)
        chars += 2 * len(text)
        ctx.nontrivial(len(chunks) > 1)
        ctx.event(how if len(chunks) > 1 else how + ":single")
        pos = end = -1
        ids = [c["id"] for c in chunks]
        check(ids == sorted(set(ids)), "ids %r are not ascending", ids)
        covered = 0
        gaps = []
        for c in chunks:
            s, e = c["start_pos"], c["end_pos"]
            check(0 <= s < e <= len(text), "chunk %r of a text of %d", c, len(text))
            check(c["text"] == text[s:e].strip(), "chunk %r, the text at %d:%d is %r", c["text"], s, e, text[s:e])
            check(c["length"] == len(c["text"]) and mn <= c["length"] <= limit and c["text"], "chunk %r outside %d..%d", c, mn, limit)
            check(c["metadata"]["strategy"] == how, "chunk metadata %r", c["metadata"])
            check(s > pos and (e > end or how == "sliding_window" and e >= end), "chunk %d:%d after %d:%d", s, e, pos, end)
            if how != "semantic":
                check(e - s <= size, "chunk %d:%d is longer than %d", s, e, size)
            elif e - s > size:
                # too long only because of one paragraph, with nothing but the overlap before it
                head = text[s:e].rstrip().rpartition("\n\n")[0].strip()
                check(len(head) <= overlap or any(len(x.strip()) > limit for x in text.split("\n\n")), "chunk %r is longer than %d", c, size)
            if end >= 0:
                check(end - s <= overlap, "chunks %d:%d and %d:%d overlap by more than %d", pos, end, s, e, overlap)
            if s > covered:
                gaps.append((covered, s))
            covered = max(covered, e)
            pos, end = s, e
        if covered < len(text):
            gaps.append((covered, len(text)))
        # only what is too short for a chunk may be missing
        for a, b in gaps:
            lost = nonspace(text[a:b])
            if mn <= 1:
                check(lost == 0, "%r at %d:%d is in no chunk", text[a:b], a, b)
            elif mn <= size // 2 - 1 and how == "semantic" or mn <= size - 2 and how == "fixed_size" and \
                    not any(w in text for w in ("  ", "\n", "\t", "\u2003")):
                ctx.event("gap")
                check(lost < mn, "%r at %d:%d is in no chunk, chunks need %d", text[a:b], a, b, mn)
        if how == "sliding_window":
            step = size - overlap
            check(all(c["start_pos"] % step == 0 and c["end_pos"] == min(len(text), c["start_pos"] + size) for c in chunks),
                  "windows %r do not start every %d characters", [(c["start_pos"], c["end_pos"]) for c in chunks], step)
            want = [i for i in range(0, len(text), step) if mn <= len(text[i:i + size].strip()) and text[i:i + size].strip()]
            check([c["start_pos"] for c in chunks] == want, "windows %r, expected %r", [c["start_pos"] for c in chunks], want)
        elif how == "fixed_size":
            for i, c in enumerate(chunks):
                # a chunk that stops short of its size stops right behind a separator
                seps = ["\n\n", "\n", ". ", "! ", "? ", " "] if case["seps"] is None else case["seps"]
                window = text[c["start_pos"]:c["start_pos"] + size]
                could = any(window.rfind(x) > max(mn, overlap) for x in seps)
                if (could or c["end_pos"] - c["start_pos"] < size) and c["end_pos"] < len(text):
                    ctx.event("break:%s" % could)
                    check(any(text[:c["end_pos"]].endswith(x) for x in seps), "chunk %r ends in the middle", c)
                if c["end_pos"] - c["start_pos"] < size and c["end_pos"] < len(text):
                    check(c["end_pos"] - c["start_pos"] > mn, "chunk %r was cut below the minimum", c)
                # (whitespace alone is no chunk, and chunks below the minimum leave a hole in the ids)
                last = chunks[i - 1]["end_pos"]
                if i and ids[i] == ids[i - 1] + 1 and nonspace(text[last - overlap:last]):
                    check(last - c["start_pos"] == overlap, "chunks overlap by %d, configured %d", last - c["start_pos"], overlap)
        else:
            # every paragraph that fits is whole in some chunk
            for par in text.split("\n\n"):
                par = par.strip()
                if par and mn <= len(par) <= min(size, limit):
                    check(any(par in c["text"] for c in chunks), "paragraph %r is whole in no chunk of %r", par, [c["text"] for c in chunks])
    st_ = p.get_stats()
    check(st_["chunks_created"] == made and st_["total_characters_processed"] == chars and st_["strategy"] == how
          and st_["chunk_size"] == size and st_["chunk_overlap"] == overlap, "statistics %r after %d chunks of %d characters", st_, made, chars)
    p.close()
    refused("work after close", lambda: p.process({"text": "x"}))
    q = ChunkingProcessor({"strategy": "paragraphs"})
    q.initialize()
    refused("an unknown strategy", lambda: q.process({"text": "x"}))


TESTS = [Test("chunking", strategy, run, quick=8000, thorough=100000, shards=8),
         Test("large", large_strategy, run, quick=1600, thorough=20000, shards=8)]
