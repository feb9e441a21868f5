"""C27: the parser registry picks the right parser through any history of additions and removals."""
import os

from hypothesis import strategies as st

from harness.core import Test, Violation, check
from harness.gens import oplist

PROPERTY = "C27"
LEVEL = "exploration"
RULE = ("Histories of up to 40 additions (also over an existing name, also failing ones), removals, priority changes, closes and "
        "re-initializations over configured and custom parsers with overlapping formats; after each step every path is resolved "
        "and parsed, with and without a named parser, and compared with a model. Non-trivial: a path with two suitable parsers.")
EXTS = [".txt", ".md", ".pdf", ".docx", ".aa", ".bb", ".TXT"]
NAMES = ["text", "pdf", "office", "docling", "one", "two", "three"]
FORMATS = {"text": [".txt", ".md", ".rst", ".py", ".js", ".html", ".css", ".json", ".xml", ".csv"]}


def strategy():
    formats = st.lists(st.sampled_from([".txt", ".md", ".pdf", ".aa", ".bb"]), max_size=4, unique=True)
    name = st.sampled_from(NAMES)
    op = st.one_of(
        st.tuples(st.just("add"), name, formats, st.sampled_from(["ok", "ok", "ok", "fails"])),
        st.tuples(st.just("add"), name, formats, st.sampled_from(["ok", "ok", "ok", "fails"])),
        st.tuples(st.just("remove"), name), st.tuples(st.just("priority"), name, st.integers(-2, 6)),
        st.just(("close",)), st.just(("init",)), st.just(("init",)))
    return st.fixed_dictionaries({"config": st.dictionaries(st.sampled_from(["text", "pdf", "office", "docling", "one", "unknown"]),
                                                            st.fixed_dictionaries({"chunk_size": st.integers(5, 40)}), max_size=4),
                                  "late": st.sampled_from([False, False, False, True]), "ops": oplist(op, 10, 40)})


def run(case, ctx):
    from valori.exceptions import ValoriError
    from valori.parsers import ParserRegistry
    from valori.parsers.base import DocumentParser
    from valori.parsers import OfficeParser, PDFParser, TextParser
    root = ctx.tmp()
    paths = [os.path.join(root, "f" + e) for e in EXTS]
    for p in paths:
        with open(p, "w") as f:
            f.write("some text of the file, and then some more of it\n" * 3)
    closed, made = [], []

    class Custom(DocumentParser):
        def __init__(self, config):
            super().__init__(config)
            self.tag, self.formats, self.fails = config["tag"], config["formats"], config["fails"]

        def initialize(self):
            made.append(self.tag)
            if self.fails:
                raise ValueError("cannot start")
            self._initialized = True

        def parse(self, path):
            return {"text": "parsed by %d" % self.tag, "metadata": {}, "path": str(path)}

        def get_supported_formats(self):
            return list(self.formats)

        def can_parse(self, path):
            return os.path.splitext(str(path))[1].lower() in self.formats

        def close(self):
            closed.append(self.tag)
            super().close()

    def refused(what, fn):
        try:
            r = fn()
        except ValoriError:
            return
        raise Violation("%s was accepted: %r" % (what, r))
    builtin = {"text": TextParser, "pdf": PDFParser, "office": OfficeParser}
    reg = ParserRegistry({"parsers": case["config"]})
    active = {}          # name -> ("custom", tag, formats) or ("builtin", class, config)
    classes = {"text", "pdf", "office", "docling"}
    custom = {}          # names whose class is a custom one
    prio = dict(reg.parser_priorities)
    init = False
    tag = 0

    def formats_of(e):
        return e[2] if e[0] == "custom" else e[1]({}).get_supported_formats()

    def look():
        if not init:
            for p in paths[:2]:
                refused("get_parser of an uninitialized registry", lambda: reg.get_parser(p))
                refused("parse_document of an uninitialized registry", lambda: reg.parse_document(p))
            check(reg.get_supported_formats() == [], "formats of an uninitialized registry: %r", reg.get_supported_formats())
            check(reg.get_parser_info() == {"parsers": {}}, "information of an uninitialized registry: %r", reg.get_parser_info())
            return
        fm = sorted({x for e in active.values() for x in formats_of(e)})
        check(reg.get_supported_formats() == fm, "supported formats %r, expected %r", reg.get_supported_formats(), fm)
        info = reg.get_parser_info()
        check(info["initialized"] is True and info["supported_formats"] == fm, "information %r", info)
        check({n for n, x in info["parsers"].items() if x["available"]} == set(active), "available parsers %r, expected %r",
              info["parsers"], sorted(active))
        check(set(info["parsers"]) == set(active) | classes, "known parsers %r, expected %r", sorted(info["parsers"]), sorted(set(active) | classes))
        for n, x in info["parsers"].items():
            check(x["supported_formats"] == (formats_of(active[n]) if n in active else []), "information on %r: %r", n, x)
        for p in paths:
            ext = os.path.splitext(p)[1].lower()
            fit = {n: e for n, e in active.items() if ext in formats_of(e)}
            if not fit:
                refused("get_parser(%r)" % p, lambda: reg.get_parser(p))
                refused("parse_document(%r)" % p, lambda: reg.parse_document(p))
                continue
            top = max(prio.get(n, 0) for n in fit)
            best = [n for n in fit if prio.get(n, 0) == top]
            ctx.nontrivial(len(fit) > 1)
            got = reg.get_parser(p)
            names = [n for n, x in reg.parsers.items() if x is got]
            check(names and names[0] in best, "%r is parsed by %r, the best of %r are %r", p, names, sorted(fit), best)
            e = active[names[0]]
            if e[0] == "custom":
                r = reg.parse_document(p)
                check(r["text"] == "parsed by %d" % e[1] and r["path"] == p, "%r was parsed by another parser: %r", p, r)
            elif e[1] is TextParser:
                alone = TextParser(e[2])
                alone.initialize()
                check(reg.parse_document(p) == alone.parse(p), "%r parses differently through the registry", p)
                ctx.event("text")
        for n in NAMES:
            if n not in active:
                refused("the parser %r" % n, lambda: reg.get_parser(paths[0], n))
                refused("the parser %r" % n, lambda: reg.parse_document(paths[0], n))
            else:
                g = reg.get_parser(paths[4], n)
                check(g is reg.parsers[n], "get_parser(name=%r) is another parser", n)
                if active[n][0] == "custom":
                    check(reg.parse_document(paths[4], n)["text"] == "parsed by %d" % active[n][1], "parse_document(name=%r) used another parser", n)
                elif active[n][1] is not None:
                    refused("a format %r cannot parse" % n, lambda: reg.parse_document(paths[4], n))

    look()
    for op in ([] if case["late"] else [("init",)]) + case["ops"]:
        kind = op[0]
        if kind == "add":
            tag += 1
            cfg = {"tag": tag, "formats": op[2], "fails": op[3] == "fails"}
            if op[3] == "fails":
                refused("a parser that cannot start", lambda: reg.add_parser(op[1], Custom, cfg))
                ctx.event("add:fails")
            else:
                reg.add_parser(op[1], Custom, cfg)
                active[op[1]] = ("custom", tag, op[2])
                classes.add(op[1])
                custom[op[1]] = True
                check(made[-1] == tag, "the added parser was not initialized")
        elif kind == "remove":
            n = len(closed)
            reg.remove_parser(op[1])
            e = active.pop(op[1], None)
            check(closed[n:] == ([e[1]] if e and e[0] == "custom" else []), "removing %r closed %r", op[1], closed[n:])
            classes.discard(op[1])
            custom.pop(op[1], None)
        elif kind == "priority":
            reg.parser_priorities[op[1]] = op[2]
            prio[op[1]] = op[2]
        elif kind == "close":
            n = len(closed)
            reg.close()
            check(sorted(closed[n:]) == sorted(e[1] for e in active.values() if e[0] == "custom"), "closing the registry closed %r of %r",
                  closed[n:], active)
            active.clear()
            init = False
            ctx.event("close")
        elif kind == "init":
            if init:
                continue
            reg.initialize()
            init = True
            for n, c in case["config"].items():
                if n in builtin and n in classes and n not in custom:
                    active[n] = ("builtin", builtin[n], c)
        look()
    reg.close()


TESTS = [Test("registry", strategy, run, quick=2400, thorough=30000, shards=8)]
