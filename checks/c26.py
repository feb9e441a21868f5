"""C26: text cleaning against an independent step-by-step reference."""
import copy
import unicodedata

from hypothesis import strategies as st

from harness.core import Test, Violation, check
from harness.gens import oplist

PROPERTY = "C26"
LEVEL = "exploration"
RULE = ("Documents assembled from words, whitespace of every kind, punctuation, accented, decomposed, full-width and other-script "
        "characters, tags and entities, with chunks and other fields, some repeated up to 3000 times; every combination of the cleaning options, custom character "
        "patterns and word lengths. Non-trivial: cleaning changes at least two kinds of segment.")
# (raw, what remains of it once markup is gone)
TEXT = ["word ", "The", " and ", "of", "a", " WILL ", "It", "x" * 12, "y" * 55, "caf\u00e9 ", "e\u0301t\u00e9", "na\u00efve", "\u0130", "\ufb01sh", "\uff21\uff11",
        "\u00bd", "\u2026", "\u2014", "\u65e5\u672c", "\ud55c", "\U0001f600", "stra\u00dfe ", "snake_case", "3.5", "1,000", "-", "?!", ";:", "#@$", "\"q\"", "(x)", "50%",
        " ", "  ", "\n", "\r\n", "\t", "\u00a0", "\u2003", "\u200b", "\n\n", "\x0b", "&", " & "]
MARK = [("<b>", ""), ("</b>", ""), ("<br/>", ""), ("<a href=\"x y\">", ""), ("<p\nclass='z'>", ""), ("<!-- note -->", ""),
        ("&lt;", "<"), ("&gt;", ">"), ("&amp;", "&"), ("&quot;", "\""), ("&#39;", "'"), ("&nbsp;", "\u00a0"), ("&eacute;", "\u00e9"),
        ("&#x41;", "A"), ("&hellip;", "\u2026"), ("&#8211;", "\u2013"), ("&amp;lt;", "&lt;"), ("&amp;amp;", "&amp;"), ("&lt;b&gt;", "<b>"),
        ("<a href=\"" + "u" * 300 + "\">", "")]
PATTERNS = [None, None, r"[0-9]", r"[aeiou]+", "\u00e9"]
BASIC = {"a", "an", "and", "are", "as", "at", "be", "by", "for", "from", "has", "he", "in", "is", "it", "its", "of", "on", "that", "the",
         "to", "was", "will", "with"}

segment = st.one_of(st.sampled_from(TEXT), st.sampled_from(TEXT[:11]), st.sampled_from(MARK),
                    st.text(st.characters(blacklist_categories=("Cs", "Cc"), blacklist_characters="<>&;#"), max_size=6))
document = st.one_of(oplist(segment, 10, 25), oplist(segment, 10, 25), st.just([]))


def strategy():
    return st.fixed_dictionaries({
        "opts": st.fixed_dictionaries({}, optional={k: st.booleans() for k in (
            "remove_html", "normalize_whitespace", "remove_special_chars", "normalize_unicode", "remove_extra_spaces", "lowercase",
            "remove_stopwords")}),
        "pattern": st.sampled_from(PATTERNS),
        "words": st.one_of(st.none(), st.tuples(st.integers(0, 5), st.integers(3, 60))),
        # how often the text is repeated
        "times": st.sampled_from([1] * 40 + [30, 200, 3000]),
        "docs": st.lists(st.tuples(st.one_of(st.none(), document, document, document), st.one_of(
            st.none(), st.lists(st.one_of(document, document, st.sampled_from(["same", "padded"])), max_size=3))),
                         min_size=1, max_size=4)})


def raw(doc):
    return "".join(s if isinstance(s, str) else s[0] for s in doc)


def plain(doc):
    return "".join(s if isinstance(s, str) else s[1] for s in doc)


def special(text, pattern):
    """Replaces what the pattern matches by blanks."""
    text = unicodedata.normalize("NFC", text)
    if pattern == r"[aeiou]+":
        out = []
        for c in text:
            if c in "aeiou":
                if out[-1:] == [None]:
                    continue
                out.append(None)
            else:
                out.append(c)
        return "".join(" " if c is None else c for c in out)
    if pattern == r"[0-9]":
        hit = "0123456789".__contains__
    elif pattern is not None:
        hit = pattern.__eq__
    else:
        def hit(c):
            return not (c.isalnum() or c == "_" or c.isspace() or c in "-.,!?;:")
    return "".join(" " if hit(c) else c for c in text)


def squeeze(text):
    out = []
    for c in text:
        if c != " " or out[-1:] != [" "]:
            out.append(c)
    return "".join(out)


def reference(doc, o, pattern, words):
    if not raw(doc):
        return raw(doc)
    text = plain(doc) if o.get("remove_html", True) else raw(doc)
    uni = o.get("normalize_unicode", True)
    if uni:
        text = unicodedata.normalize("NFKD", text)
    if o.get("remove_special_chars", False):
        text = special(text, pattern)
        if uni:
            text = unicodedata.normalize("NFKD", text)
    if o.get("normalize_whitespace", True):
        text = " ".join(text.split())
    if o.get("remove_extra_spaces", True):
        text = squeeze(text)
    if o.get("lowercase", False):
        text = text.lower()
    if o.get("remove_stopwords", False):
        lo, hi = words or (1, 50)
        text = " ".join(w for w in text.split() if w.lower() not in BASIC and lo <= len(w) <= hi)
    return text


def run(case, ctx):
    from valori.exceptions import ValoriError
    from valori.processors import CleaningProcessor
    o, pattern, words = case["opts"], case["pattern"], case["words"]
    cfg = dict(o)
    if pattern is not None:
        cfg["special_chars_pattern"] = pattern
    if words is not None:
        cfg["min_word_length"], cfg["max_word_length"] = words
    keepcfg = copy.deepcopy(cfg)
    p = CleaningProcessor(cfg)

    def refused(what, fn):
        try:
            r = fn()
        except ValoriError:
            return
        raise Violation("%s was accepted: %r" % (what, r))
    refused("work before initialize", lambda: p.process({"text": "x"}))
    p.initialize()
    before = after = 0
    for n, (doc, chunks) in enumerate(case["docs"]):
        doc = doc and doc * (case["times"] if not n else 1)
        if chunks is not None:
            # chunks of the same text as the document
            chunks = [{"same": doc or [], "padded": ["  "] + (doc or []) + ["\n"]}.get(c, c) if isinstance(c, str) else c for c in chunks]
        data = {"metadata": {"a": [1, " <b>x</b> "]}, "title": " <i>T</i>  "}
        if doc is not None:
            data["text"] = raw(doc)
        if chunks is not None:
            data["chunks"] = [{"id": i, "text": raw(c), "start_pos": 3, "metadata": {"k": "  <b> "}} for i, c in enumerate(chunks)] + [{"id": 99}] * (len(chunks) != 1)
        keep = copy.deepcopy(data)
        out = p.process(data)
        check(data == keep, "the document was changed: %r to %r", keep, data)
        want = copy.deepcopy(keep)
        if doc is not None:
            want["text"] = reference(doc, o, pattern, words)
            before += len(raw(doc))
            after += len(want["text"])
            kinds = {s for s in set(doc) if s != reference([s], o, pattern, words)}
            ctx.nontrivial(len(kinds) > 1)
        if chunks is not None:
            for c, d in zip(want["chunks"], chunks):
                c["text"] = reference(d, o, pattern, words)
        check(out.get("text") == want.get("text"), "%r cleans to %r, expected %r", data.get("text"), out.get("text"), want.get("text"))
        check(out == want, "%r cleans to %r, expected %r", data, out, want)
        check(p.process(data) == out, "the same document cleans differently the second time")
        if doc is not None:
            before += len(raw(doc))
            after += len(out["text"])
            for k in o:
                ctx.event("%s=%s" % (k, o[k]))
        s = p.get_stats()
        check(s["documents_processed"] == 2 * n + 2 and s["total_characters_before"] == before and s["total_characters_after"] == after
              and s["characters_removed"] == before - after and s["compression_ratio"] == (after / before if before else 0),
              "statistics %r after %d documents of %d, then %d characters", s, 2 * n + 2, before, after)
    check(cfg == keepcfg, "the configuration was changed")
    p.close()
    refused("work after close", lambda: p.process({"text": "x"}))


TESTS = [Test("cleaning", strategy, run, quick=8000, thorough=100000, shards=8)]
