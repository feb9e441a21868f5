"""C25: office and PDF parsers give back the document's text, tables and structure, and chunks that cover it."""
import datetime
import os
import re

from hypothesis import strategies as st

from checks.pdata import check_chunks
from harness.core import Test, Violation, check

PROPERTY = "C25"
LEVEL = "exploration"
RULE = ("Generated Word documents (paragraphs with breaks and styles, tables), workbooks (several sheets, hidden and chart sheets, all cell types, "
        "formulas, gaps), presentations (slides with titles and several shapes, some without text) and PDF files (several pages, empty pages, metadata); "
        "some of 60 times the length; any chunk size and overlap; truncated, foreign, oversized and missing files. Non-trivial: at least two blocks of text.")
WORDS = ["alpha", "beta", "Straße", "日本", "x" * 30, "3.5", "a<b", "&amp;", "é", "the", "Zürich", "😀", "-", "\"q\""]
words = st.lists(st.sampled_from(WORDS), max_size=8)
para = st.one_of(words.map(" ".join), words.map(" ".join), st.tuples(words, words).map(lambda t: " ".join(t[0]) + "\n" + " ".join(t[1])),
                 words.map(lambda w: "  " + "\t".join(w) + " "))
cell = st.one_of(st.none(), st.sampled_from(WORDS), st.integers(-5, 10**6), st.floats(-10, 10).map(lambda x: round(x, 3)), st.booleans(), st.just(0), st.just(""),
                 st.just("  pad "), st.sampled_from(["@2024-01-02T03:04:05", "@1999-12-31T00:00:00", "=1+1"]))


def strategy():
    doc = st.one_of(
        st.tuples(st.just("docx"), st.lists(st.tuples(para, st.sampled_from(["Normal", "Heading 1", "List Bullet"])), max_size=8),
                  st.lists(st.integers(1, 4).flatmap(lambda n: st.lists(st.lists(para, min_size=n, max_size=n), min_size=1, max_size=3)), max_size=2)),
        st.tuples(st.just("xlsx"), st.lists(st.tuples(st.sampled_from(["S", "Data 1", "é", "z"]), st.one_of(st.just("chart"), st.lists(
            st.lists(cell, max_size=4), max_size=5), st.lists(st.lists(cell, max_size=4), max_size=5))), min_size=1, max_size=4,
            unique_by=lambda t: t[0])),
        st.tuples(st.just("pptx"), st.lists(st.lists(para, max_size=3), max_size=5)),
        st.tuples(st.just("pdf"), st.lists(st.lists(st.integers(0, 9), max_size=9), min_size=1, max_size=6),
                  st.dictionaries(st.sampled_from(["Title", "Author", "Subject", "Creator", "Producer", "CreationDate", "ModDate"]),
                                  st.sampled_from(["T (1)", "An Author", "D:20240101000000Z", ""]), max_size=4)))
    return st.fixed_dictionaries({
        "doc": doc, "size": st.one_of(st.integers(1, 20), st.integers(20, 150), st.just(1000)),
        "overlap": st.one_of(st.just(0), st.integers(0, 15), st.integers(0, 160)),
        "many": st.sampled_from([1] * 15 + [7, 60]), "tables": st.booleans(), "upper": st.booleans(), "pad": st.sampled_from([0] * 9 + [300000]), "filler": st.sampled_from([0, 0, 0, 199, 201, 450]),
        "deco": st.integers(0, 7), "hide": st.lists(st.integers(0, 3), max_size=2), "cut": st.floats(0, 0.9)})


def esc(s):
    return s.replace("\\", "\\\\").replace("(", "\\(").replace(")", "\\)")


def pdf_bytes(pages, info, pad=0):
    """A minimal PDF: pages is a list of lists of lines."""
    objs = [b"<< /Type /Catalog /Pages 2 0 R >>", b"", b"<< /Type /Font /Subtype /Type1 /BaseFont /Helvetica >>"]
    kids = []
    for lines in pages:
        c = "BT /F1 12 Tf 14 TL 72 720 Td " + "".join("(%s) Tj T* " % esc(x) for x in lines) + "ET"
        objs.append(("<< /Length %d >>\nstream\n%s\nendstream" % (len(c), c)).encode("latin-1"))
        objs.append(("<< /Type /Page /Parent 2 0 R /MediaBox [0 0 612 792] /Resources << /Font << /F1 3 0 R >> >> /Contents %d 0 R >>"
                     % len(objs)).encode())
        kids.append("%d 0 R" % len(objs))
    objs[1] = ("<< /Type /Pages /Kids [%s] /Count %d >>" % (" ".join(kids), len(kids))).encode()
    trailer = "/Root 1 0 R"
    if info:
        objs.append(("<< %s >>" % " ".join("/%s (%s)" % (k, esc(v)) for k, v in info.items())).encode())
        trailer += " /Info %d 0 R" % len(objs)
    out, offs = b"%PDF-1.4\n%" + b"x" * pad + b"\n", []
    for i, o in enumerate(objs):
        offs.append(len(out))
        out += b"%d 0 obj\n%s\nendobj\n" % (i + 1, o)
    x = len(out)
    out += b"xref\n0 %d\n0000000000 65535 f \n" % (len(objs) + 1) + b"".join(b"%010d 00000 n \n" % o for o in offs)
    return out + ("trailer\n<< /Size %d %s >>\nstartxref\n%d\n%%%%EOF\n" % (len(objs) + 1, trailer, x)).encode()


def write(doc, path, pad=0, deco=0, hide=()):
    kind = doc[0]
    if kind == "docx":
        import docx
        d = docx.Document()
        for text, style in doc[1]:
            d.add_paragraph(text, style=style)
        for t in doc[2]:
            tb = d.add_table(rows=len(t), cols=len(t[0]))
            for i, row in enumerate(t):
                for j, v in enumerate(row):
                    tb.cell(i, j).text = v
        d.save(path)
    elif kind == "xlsx":
        import openpyxl
        w = openpyxl.Workbook()
        w.remove(w.active)
        for name, rows in doc[1]:
            if rows == "chart":
                from openpyxl.chart import BarChart
                w.create_chartsheet(name).add_chart(BarChart())
                continue
            s = w.create_sheet(name)
            for i, row in enumerate(rows):
                for j, v in enumerate(row):
                    if isinstance(v, str) and v.startswith("@"):
                        v = datetime.datetime.fromisoformat(v[1:])
                    if v is not None:
                        s.cell(i + 1, j + 1, v)
        if not w.worksheets:
            w.create_sheet("last")
        for h in hide if not w.chartsheets else ():
            if h < len(w.worksheets) and sum(x.sheet_state == "visible" for x in w.worksheets) > 1:
                w.worksheets[h].sheet_state = "veryHidden" if deco & 1 else "hidden"
        if not w.chartsheets:
            w.active = [x.sheet_state == "visible" for x in w.worksheets].index(True)
        w.save(path)
    elif kind == "pptx":
        import pptx
        p = pptx.Presentation()
        for shapes in doc[1]:
            s = p.slides.add_slide(p.slide_layouts[5 if deco & 1 else 6])
            for i, t in enumerate(shapes):
                if deco & 2:  # shapes without text
                    s.shapes.add_connector(1, 0, 0, 100, 100)
                    s.shapes.add_textbox(0, 0, 100, 100)
                if not i and deco & 1:
                    s.shapes.title.text_frame.text = t
                elif deco & 4:
                    s.shapes.add_shape(1, 0, 0, 100, 100).text_frame.text = t
                else:
                    s.shapes.add_textbox(0, 0, 100, 100).text_frame.text = t
        p.save(path)
    else:
        pages = [["p%dw%d filler%s text" % (i, j, "y" * 5 * n) for j, n in enumerate(p)] for i, p in enumerate(doc[1])]
        with open(path, "wb") as f:
            f.write(pdf_bytes(pages, doc[2], pad))


def tokens(s):
    return s.split()


def run(case, ctx):
    from valori.exceptions import ValoriError
    from valori.parsers import OfficeParser, PDFParser
    doc = case["doc"]
    kind = doc[0]
    if case["filler"]:
        # long enough for a reading time
        line = " ".join(["w%d" % i for i in range(case["filler"])])
        doc = (kind, list(doc[1]) + {"docx": [(line, "Normal")], "pptx": [[line]], "xlsx": [], "pdf": [[0] * (case["filler"] // 3)]}[kind]) + tuple(doc[2:])
    if case["many"] > 1:
        # longer documents: more paragraphs, rows, slides and pages, more and longer tables
        doc = (kind, [(n, r if r == "chart" else r * case["many"]) for n, r in doc[1]] if kind == "xlsx" else list(doc[1]) * case["many"]) + tuple(
            [t * case["many"] for t in doc[2]] + doc[2] * min(9, case["many"]) if kind == "docx" else x for x in doc[2:])
    root = ctx.tmp()
    path = os.path.join(root, "doc." + (kind.upper() if case["upper"] else kind))
    write(doc, path, case["pad"], case.get("deco", 0), case.get("hide", ()))
    cls = PDFParser if kind == "pdf" else OfficeParser
    size, overlap = case["size"], case["overlap"]
    p = cls({"chunk_size": size, "chunk_overlap": overlap, "extract_tables": case["tables"]})

    def refused(what, fn):
        try:
            r = fn()
        except ValoriError:
            return
        raise Violation("%s was accepted: %r" % (what, r))
    refused("parsing before initialize", lambda: p.parse(path))
    p.initialize()
    check(p.can_parse(path) is True, "can_parse(%r)", path)
    r = p.parse(path)
    text, m, s = r["text"], r["metadata"], r["structure"]
    check(m["file_name"] == os.path.basename(path) and m["file_size"] == os.path.getsize(path), "metadata %r", m)
    ctx.event(kind)
    if kind == "docx":
        paras = [t.strip() for t, _ in doc[1] if t.strip()]
        check(text == "\n".join(paras), "paragraphs %r read %r", paras, text)
        check(m["num_paragraphs"] == len(paras) == s["paragraphs"], "metadata %r", m)
        check([(i["text_length"], i["style"]) for i in m["paragraphs_info"]] == [(len(t.strip()), y) for t, y in doc[1] if t.strip()],
              "paragraph information %r", m["paragraphs_info"])
        check([i["paragraph_number"] for i in m["paragraphs_info"]] == [i + 1 for i, (t, _) in enumerate(doc[1]) if t.strip()],
              "paragraph numbers %r", m["paragraphs_info"])
        want = [[[c.strip() for c in row] for row in t] for t in doc[2]] if case["tables"] else []
        check([t["data"] for t in m["tables_info"]] == want and m["num_tables"] == len(want) == s["tables"], "tables %r read %r", want,
              m["tables_info"])
        check(all(t["rows"] == len(w) and t["columns"] == len(w[0]) and t["table_number"] == i + 1
                  for i, (t, w) in enumerate(zip(m["tables_info"], want))), "tables %r", m["tables_info"])
        ctx.nontrivial(len(paras) > 1)
    elif kind == "xlsx":
        sheets, infos = [], []
        for name, rows in doc[1]:
            if rows == "chart":
                ctx.event("chart-sheet")
                continue
            # formulas that were never calculated have no value
            rows = [[None if v == "=1+1" else v for v in row] for row in rows]
            lines = [" | ".join(cell_text(v) for v in row if v is not None and v != "") for row in rows]
            lines = [x for x, row in zip(lines, rows) if any(v is not None and v != "" for v in row)]
            if lines:
                sheets.append("Sheet: %s\n%s" % (name, "\n".join(lines)))
                infos.append((name, len("\n".join(lines))))
        check(text == "\n\n".join(sheets), "sheets %r read %r", sheets, text)
        names = [n for n, _ in doc[1]] + (["last"] if all(rows == "chart" for _, rows in doc[1]) else [])
        check(m["num_sheets"] == len(names) == s["sheets"] and m["sheet_names"] == names, "sheet names %r of %r", m["sheet_names"], names)
        check([(i["sheet_name"], i["text_length"]) for i in m["sheets_info"]] == infos, "sheet information %r", m["sheets_info"])
        import openpyxl
        w = openpyxl.load_workbook(path)
        sizes = [(w[n].max_row, w[n].max_column) for n, _ in infos]
        check([(i["max_row"], i["max_column"]) for i in m["sheets_info"]] == sizes and s["total_cells"] == sum(a * b for a, b in sizes),
              "sheets of %r cells, reported %r and %r", sizes, m["sheets_info"], s)
        ctx.nontrivial(len(sheets) > 1)
    elif kind == "pptx":
        slides = [(i, [t.strip() for t in shapes if t.strip()]) for i, shapes in enumerate(doc[1])]
        slides = [(i, x) for i, x in slides if x]
        want = "\n\n".join("Slide %d: %s" % (i + 1, "\n".join(x)) for i, x in slides)
        check(text == want, "slides %r read %r", want, text)
        check(m["num_slides"] == len(doc[1]) == s["slides"], "metadata %r", m)
        check([(i["slide_number"], i["shapes_with_text"], i["text_length"]) for i in m["slides_info"]]
              == [(i + 1, len(x), len("\n".join(x))) for i, x in slides],
              "slide information %r", m["slides_info"])
        ctx.nontrivial(len(slides) > 1)
    else:
        full = [i for i, lines in enumerate(doc[1]) if lines]
        want = [w for i, lines in enumerate(doc[1]) for j, n in enumerate(lines) for w in ("p%dw%d" % (i, j), "filler" + "y" * 5 * n, "text")]
        check(tokens(text) == want, "pages %r read %r", want, text)
        check(m["num_pages"] == len(doc[1]) == s["pages"] and m["num_pages_with_text"] == len(full) == s["pages_with_text"], "metadata %r", m)
        check([i["page_number"] for i in m["page_metadata"]] == [i + 1 for i in full], "page numbers %r", m["page_metadata"])
        info = doc[2] or {}
        for k, n in (("Title", "title"), ("Author", "author"), ("Subject", "subject"), ("Creator", "creator"), ("Producer", "producer"),
                     ("CreationDate", "creation_date"), ("ModDate", "modification_date")):
            check(m[n] == info.get(k, ""), "document information %r, %s read %r", info, k, m[n])
        first = [(text.index("p%dw0" % i), i + 1) for i in full]

        def page(pos):
            return max([n for at, n in first if at <= pos], default=full[0] + 1)
        for c in r["chunks"]:
            at = c["start_pos"] + len(text[c["start_pos"]:]) - len(text[c["start_pos"]:].lstrip())
            check(c["page_number"] in (page(at), page(c["start_pos"])) and c["metadata"]["source_page"] == c["page_number"],
                  "chunk %r at %d is on page %d, reported as %r", c["text"], at, page(at), c["page_number"])
        if len(full) > 1 and len(r["chunks"]) > 1:
            ctx.event("pdf:pages")
        ctx.nontrivial(len(full) > 1)
    check(m["file_type"] == {"xlsx": "excel"}.get(kind, kind), "file type %r of %s", m["file_type"], kind)
    if kind != "xlsx":
        check(s["estimated_reading_time"] == len(text.split()) // 200, "%d words take %r minutes", len(text.split()), s["estimated_reading_time"])
    check_chunks(r["chunks"], text, size, overlap, kind != "pdf", ctx, ["\n\n"] if kind == "pdf" else ["\n"])
    check(p.parse(path) == r, "parsing twice gives different results")
    # files that are not what they seem
    with open(path, "rb") as f:
        raw = f.read()
    bad = os.path.join(root, "bad." + kind)
    if kind != "pdf":
        with open(bad, "wb") as f:
            f.write(raw[:int(len(raw) * case["cut"])])
        refused("a truncated file", lambda: p.parse(bad))
    with open(bad, "wb") as f:
        f.write(b"plain text")
    refused("a file that is no " + kind, lambda: p.parse(bad))
    refused("a missing file", lambda: p.parse(path + "." + kind))
    txt = os.path.join(root, "x.txt")
    with open(txt, "wb") as f:
        f.write(raw)
    check(p.can_parse(txt) is False, "can_parse('x.txt')")
    refused("another format", lambda: p.parse(txt))
    q = cls({})
    q.initialize()
    check(q.parse(path)["text"] == text, "a parser without configuration reads another text")
    q = cls({"max_file_size": len(raw) - 1})
    q.initialize()
    refused("a file over the size limit", lambda: q.parse(path))
    q = cls({"max_file_size": len(raw)})
    q.initialize()
    check(q.parse(path)["text"] == text, "a file of exactly the size limit")
    p.close()
    refused("parsing after close", lambda: p.parse(path))


def cell_text(v):
    if isinstance(v, str) and v.startswith("@"):
        return v[1:].replace("T", " ")
    if isinstance(v, float) and v == int(v):
        return str(int(v)) if not str(v).startswith("-0") else "0"
    return str(v)


TESTS = [Test("documents", strategy, run, quick=960, thorough=12000, shards=8)]
