"""C24: the text parser gives back what the file says, whatever its encoding, and chunks that cover it."""
import os
from pathlib import Path

from hypothesis import strategies as st

from checks.pdata import check_chunks, texts
from harness.core import Test, Violation, check

PROPERTY = "C24"
LEVEL = "exploration"
RULE = ("Text files of 0-500 characters (words, sentence ends, all three line endings, accents, CJK, emoji, sequences that look like "
        "other encodings) written in UTF-8 with and without BOM, UTF-16, UTF-32 and four legacy encodings and read with 'auto' (Unicode "
        "files, and legacy ones chardet recognises; up to 400 kB) or the encoding named; chunk sizes 1-200 with any overlap; suffixes in both cases; missing, oversized and foreign files. "
        "Non-trivial: non-ASCII text, or at least two chunks.")
EXPLICIT = ["utf-8", "utf-16", "utf-16-le", "latin-1", "cp1252", "shift_jis", "koi8-r"]
AUTO = ["utf-8", "utf-8", "utf-8", "utf-8-sig", "utf-16", "utf-32"]


LEGACY = [("koi8-r", "Привет мир, как дела. Все хорошо, спасибо. "), ("cp1251", "Привет мир, как дела. Все хорошо, спасибо. "),
          ("shift_jis", "これは日本語の文章です。"), ("euc_jp", "これは日本語の文章です。"), ("gb2312", "这是中文文本, 很好。")]


def strategy():
    return st.fixed_dictionaries({
        "text": texts(), "ahead": st.sampled_from([0] * 20 + [4000, 20000, 70000, 250000, 400000]), "lang": st.sampled_from([None, None, None, "en", "EN", "none"]),
        "legacy": st.sampled_from([None] * 11 + [0, 1, 2, 3, 4]), "auto": st.booleans(), "enc": st.integers(0, 6),
        "eol": st.sampled_from(["\n", "\n", "\r\n", "\r"]),
        "suffix": st.sampled_from([".txt", ".md", ".rst", ".log", ".csv", ".TXT", ".Md"]),
        "stem": st.sampled_from(["a", "a.b", "é", "a b"]),
        "size": st.one_of(st.integers(1, 20), st.integers(10, 200)), "overlap": st.one_of(st.just(0), st.integers(0, 20), st.integers(0, 250)),
        "as_path": st.booleans(), "limit": st.sampled_from([None, None, 0, -1, 10**6])})


def run(case, ctx):
    from valori.exceptions import ValoriError
    from valori.parsers import TextParser
    root = ctx.tmp()
    text = case["text"]
    if case["lang"]:
        line = {"en": "the cat and the dog walked by on foot but in rain, to the house with it. ",
                "EN": "The Cat And The Dog Walked By ON Foot But IN Rain, TO The House WITH It. ", "none": "1234 5678 "}[case["lang"]]
        text = line * (120 // len(line) + 1) + (text if case["lang"] != "none" else "")
    size = case["size"]
    if case["ahead"]:
        # far into the file
        size *= 1 + case["ahead"] // 10000
        text = ("plain words, " * 7 + "\n") * (case["ahead"] // 92) + text
    enc = AUTO[case["enc"] % len(AUTO)] if case["auto"] else EXPLICIT[case["enc"]]
    if case["auto"] and case["legacy"] is not None:
        enc, line = LEGACY[case["legacy"]]
        text += line * (3 + case["size"])
    raw = text.replace("\n", case["eol"]).encode(enc, "ignore")
    if enc == "utf-8" and raw.startswith(b"\xef\xbb\xbf"):
        raw = b"x" + raw
    text = raw.decode(enc).replace("\r\n", "\n").replace("\r", "\n")
    path = os.path.join(root, case["stem"] + case["suffix"])
    with open(path, "wb") as f:
        f.write(raw)
    cfg = {"encoding": "auto" if case["auto"] else enc, "chunk_size": size, "chunk_overlap": case["overlap"]}
    if case["limit"] is not None:  # relative to the file
        cfg["max_file_size"] = len(raw) + case["limit"]
    p = TextParser(cfg)

    def refused(what, fn):
        try:
            r = fn()
        except ValoriError:
            return
        raise Violation("%s was accepted: %r" % (what, r))
    name = Path(path) if case["as_path"] else path
    refused("parsing before initialize", lambda: p.parse(name))
    p.initialize()
    check(p.can_parse(name) is True, "can_parse(%r) is %r", path, p.can_parse(name))
    if case["limit"] == -1:
        refused("a file over the size limit", lambda: p.parse(name))
        p.max_file_size = 10**9
    ctx.event(("auto:" if case["auto"] else "named:") + enc)
    if case["auto"] and enc not in AUTO:
        # judged when the detector recognises the encoding
        import chardet
        found = chardet.detect(raw)["encoding"]
        try:
            seen = raw.decode(found, "replace") if found else None
        except LookupError:
            seen = None
        if seen is None or seen.replace("\r\n", "\n").replace("\r", "\n") != text:
            return
        ctx.event("legacy")
    r = p.parse(name)
    ctx.nontrivial(not text.isascii() or len(r["chunks"]) > 1)
    check(r["text"] == text, "%r written as %s reads %r (as %r)", text, enc, r["text"], r["metadata"].get("encoding"))
    m = r["metadata"]
    check(m["file_name"] == os.path.basename(path) and m["file_size"] == len(raw) and m["file_type"] == "text", "metadata %r", m)
    check(r["structure"]["paragraphs"] == text.count("\n\n") + 1 and r["structure"]["type"] == "plain_text", "structure %r", r["structure"])
    if len(text) <= 100:
        check(m["language"] == "unknown", "language %r of %r", m["language"], text)
    elif case["lang"] and not case["ahead"] and text.isascii():
        check(m["language"] == ("unknown" if case["lang"] == "none" else "en"), "language %r of %r", m["language"], text)
    check_chunks(r["chunks"], text, size, case["overlap"], False, ctx, [".", "\n"])
    check(p.parse(path) == r, "parsing twice gives different results")
    with open(path, "rb") as f:
        check(f.read() == raw, "the file was changed")
    refused("a missing file", lambda: p.parse(path + ".txt"))
    other = os.path.join(root, "x.pdf")
    with open(other, "wb") as f:
        f.write(raw)
    check(p.can_parse(other) is False, "can_parse('x.pdf')")
    refused("another format", lambda: p.parse(other))
    os.mkdir(os.path.join(root, "d.txt"))
    refused("a directory", lambda: p.parse(os.path.join(root, "d.txt")))
    s = p.get_stats()
    check(s["initialized"] is True and s["supported_formats"] == p.get_supported_formats() and ".txt" in s["supported_formats"], "statistics %r", s)
    p.close()
    refused("parsing after close", lambda: p.parse(name))


TESTS = [Test("text-files", strategy, run, quick=6000, thorough=60000, shards=8)]
