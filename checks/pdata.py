"""Shared by the parser checks."""
from hypothesis import strategies as st

from harness.core import check

PIECES = ["word ", "a", "bc ", "Lorem ipsum ", "end. ", "\n", "\n\n", "\n\n\n", "   ", "\t", "x" * 30, "é", "日本語", "1.5", "...",
          "the and of to ", "~{", "<b>", "Straße ", "\u2003", "😀", "ÿþ", "ï»¿x", "Ł", "—",
          "+AOk-t+AOk-", "\x1b[31m", "\x0c"]


def texts(pieces=PIECES, n=50):
    return st.one_of(st.lists(st.sampled_from(pieces), max_size=n).map("".join),
                     st.lists(st.sampled_from(pieces[:10]), max_size=2 * n).map("".join), st.text(
                         st.characters(blacklist_categories=("Cs", "Cc")), max_size=30))


def check_chunks(chunks, text, size, overlap, always, ctx, breaks):
    """The chunks of a parser: stretches of the text that cover it."""
    if not always and len(text) <= size:
        check(chunks == [], "a text of %d characters for chunks of %d was split: %r", len(text), size, chunks)
        return
    if len(chunks) > 1:
        ctx.event("split")
    check([c["id"] for c in chunks] == list(range(len(chunks))), "chunk ids %r", [c["id"] for c in chunks])
    pos = end = covered = 0
    for i, c in enumerate(chunks):
        s, e = c["start_pos"], c["end_pos"]
        check(0 <= s < e <= len(text) and e - s <= size, "chunk %d:%d of %d characters, chunk size %d", s, e, len(text), size)
        check(c["text"] == text[s:e].strip() and c["text"], "chunk %r, the text at %d:%d is %r", c["text"], s, e, text[s:e])
        check(not i or (s > pos and e > end), "chunk %d:%d after %d:%d", s, e, pos, end)
        check(not text[covered:s].strip(), "%r at %d:%d is in no chunk", text[covered:s], covered, s)
        if i:
            check(end - s <= max(0, overlap), "chunks %d:%d and %d:%d overlap by more than %d", pos, end, s, e, overlap)
            if overlap < size and text[end - overlap:end].strip():
                check(end - s == overlap, "chunks %d:%d and %d:%d overlap by %d, configured %d", pos, end, s, e, end - s, overlap)
        if e < len(text):
            could = any(text.rfind(b, s, s + size) > s + max(size // 2, overlap) for b in breaks)
            check(e - s == size and not could or any(text[:e].endswith(b) for b in breaks) and could, "chunk %d:%d %r is cut in the wrong place", s, e, c["text"])
        pos, end, covered = s, e, max(covered, e)
    check(not text[covered:].strip(), "the end %r is in no chunk", text[covered:])
