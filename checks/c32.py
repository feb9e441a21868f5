"""C32: analysis, inspection, profiling and logging report what happened, once, and change nothing."""
import contextlib
import io
import json
import logging
import math
import os
import re
import time

import numpy as np
from hypothesis import strategies as st

from harness.core import Test, Violation, check
from harness.gens import oplist

PROPERTY = "C32"
LEVEL = "exploration"
RULE = ("Vector sets of 0-30 (rarely 1,100) rows with zero, constant, repeated, opposite and non-finite rows in every dtype; histories of inserts, "
        "deletes and updates over all five index types inspected after each step; profiled, decorated and analysed calls that succeed and raise; logger "
        "histories before and after set-up. Non-trivial: zero or non-finite rows, deletions, exceptions, or a second set-up.")


def strategy():
    row = st.one_of(st.tuples(st.sampled_from(["zero", "const", "nearly", "tiny", "unit", "same", "opposite", "nan", "inf", "-inf"]), st.integers(0, 9)),
                    st.tuples(st.just("random"), st.integers(0, 99)), st.tuples(st.just("random"), st.integers(0, 99)))
    return st.fixed_dictionaries({"rows": st.lists(row, max_size=30), "dim": st.integers(1, 8), "dtype": st.sampled_from(["<f4", "<f8", "<i4", "<i2", "|i1"]),
                                  "many": st.sampled_from([False] * 19 + [True]), "order": st.sampled_from(["C", "F"])})


def near(a, b, tol=1e-4):
    if math.isnan(b) or math.isnan(a):
        return math.isnan(a) and math.isnan(b)
    return a == b or abs(a - b) <= tol * max(1, abs(a), abs(b))


def build(case):
    rows = []
    integer = case["dtype"][1] == "i"
    d = case["dim"]
    for kind, s in case["rows"]:
        r = np.random.default_rng(s)
        if kind == "const":
            v = np.full(d, s - 4.0)
        elif kind == "nearly" and not integer:
            v = (s + 1.0) * (1 + 2e-6 * (np.arange(d) % 2))
        elif kind == "tiny" and not integer:
            v = r.integers(-9, 9, d) * 2.0 ** -30
        elif kind == "unit":
            v = np.eye(d)[s % d]
        elif kind in ("same", "opposite") and rows:
            v = rows[s % len(rows)] * (1 if kind == "same" else -1)
        elif kind in ("nan", "inf", "-inf") and not integer:
            v = r.integers(-9, 9, d).astype(float)
            v[s % d] = float(kind)
        elif kind == "random":
            v = r.integers(-100, 100, d) / (1.0 if integer else 8.0)
        else:
            v = np.zeros(d)
        rows.append(v)
    return np.asarray(np.array(rows).reshape(len(rows), d), dtype=case["dtype"], order=case["order"])


def run(case, ctx):
    from valori.utils import VectorAnalyzer
    vs = build(case)
    if case["many"] and len(vs):
        vs = np.resize(vs, (1100, case["dim"]))
    keep = vs.copy()
    a = VectorAnalyzer()
    out = io.StringIO()
    with np.errstate(all="ignore"):
        r = a.analyze_vectors(vs)
        with contextlib.redirect_stdout(out):
            a.print_analysis(vs)
    check(np.array_equal(vs, keep, equal_nan=vs.dtype.kind == "f"), "analysing changed the vectors")
    if not len(vs):
        check("error" in r and out.getvalue().strip(), "the analysis of nothing is %r", r)
        return
    x = vs.astype(np.float64)
    finite = np.isfinite(x).all()
    b = r["basic_stats"]
    check(b["count"] == len(vs) and b["dimension"] == case["dim"] and near(b["memory_size_mb"] * 1048576, float(vs.nbytes)), "basic statistics %r of %r", b, vs.shape)
    with np.errstate(all="ignore"):
        wants = {"mean": x.mean(), "std": x.std(), "min": x.min(), "max": x.max(), "sparsity": (x == 0).sum() / x.size}
        for k, w in wants.items():
            check(near(b[k], float(w)), "%s is %r, expected %r, of %r", k, b[k], w, vs.tolist()[:9])
        norms = np.sqrt((x * x).sum(axis=1))
        for k, f in (("mean", np.mean), ("std", np.std), ("min", np.min), ("max", np.max)):
            check(near(r["distribution"]["norms"][k], float(f(norms))), "%s of norms is %r, expected %r", k, r["distribution"]["norms"][k], f(norms))
        d = r["distribution"]["dimension_stats"]
        for k, w in (("mean_of_means", x.mean(axis=0).mean()), ("std_of_means", x.mean(axis=0).std()), ("mean_of_stds", x.std(axis=0).mean()), ("std_of_stds", x.std(axis=0).std())):
            check(near(d[k], float(w), 1e-3), "%s is %r, expected %r", k, d[k], w)
    q = r["quality"]
    nan, inf = int(np.isnan(x).sum()), int(np.isinf(x).sum())
    const = sum(len(set(v)) == 1 for v in x.tolist() if not np.isnan(v).any())
    zero = int((~x.any(axis=1)).sum())
    check((q["nan_values"], q["inf_values"], q["constant_vectors"], q["zero_vectors"]) == (nan, inf, const, zero),
          "quality %r, expected %r, of %r", q, (nan, inf, const, zero), vs.tolist()[:9])
    score = max(0.0, 1 - 0.5 * (nan + inf) / x.size - 0.3 * const / len(x) - 0.2 * zero / len(x))
    check(near(q["quality_score"], score), "quality score %r, expected %r", q["quality_score"], score)
    ctx.nontrivial(zero > 0 or not finite)
    s = r["similarity"]
    ctx.event("finite" if finite else "non-finite")
    if finite:
        n = x / np.where(norms == 0, 1, norms)[:, None]
        sims = (n @ n.T)[np.triu_indices(len(x), k=1)]
        if len(x) <= 1000:
            if not len(sims):
                check(s["high_similarity_pairs"] == s["low_similarity_pairs"] == 0 and all(math.isfinite(v) for v in s["similarity_stats"].values()),
                      "similarities of one vector: %r", s)
            else:
                for k, f in (("mean", np.mean), ("std", np.std), ("min", np.min), ("max", np.max)):
                    check(near(s["similarity_stats"][k], float(f(sims)), 1e-3), "%s of similarities is %r, expected %r, of %r", k, s["similarity_stats"][k], f(sims), vs.tolist())
                for k, pick in (("high_similarity_pairs", sims > 0.95), ("low_similarity_pairs", sims < -0.5)):
                    sure = int((pick & (abs(sims - 0.95) > 1e-5) & (abs(sims + 0.5) > 1e-5)).sum())
                    slack = int(((abs(sims - 0.95) <= 1e-5) | (abs(sims + 0.5) <= 1e-5)).sum())
                    check(sure <= s[k] <= sure + slack, "%s is %r, expected %d, of %r", k, s[k], sure, vs.tolist())
        else:
            st_ = s["similarity_stats"]
            check(sims.min() - 1e-4 <= st_["min"] <= st_["mean"] + 1e-4 and st_["mean"] <= st_["max"] + 1e-4 and st_["max"] <= sims.max() + 1e-4, "sampled similarities %r", s)
            check(s["high_similarity_pairs"] + s["low_similarity_pairs"] <= 1000 * 999 // 2, "sampled pairs %r", s)
    text = out.getvalue()
    check("Zero vectors: %s" % format(zero, ",") in text and "Count: %s" % format(len(vs), ",") in text, "the printed analysis is %r", text)


def inspect_strategy():
    op = st.one_of(st.tuples(st.just("insert"), st.integers(1, 12)), st.tuples(st.just("delete"), st.lists(st.integers(0, 60), min_size=1, max_size=6)),
                   st.tuples(st.just("delete"), st.just(list(range(3)))), st.tuples(st.just("update"), st.integers(0, 60)), st.just(("build",)))
    return st.fixed_dictionaries({"index": st.sampled_from(["flat", "ivf", "hnsw", "lsh", "annoy"]), "dim": st.integers(1, 6), "seed": st.integers(0, 99),
                                  "ops": st.lists(op, max_size=10)})


def run_inspect(case, ctx):
    from valori.indices import AnnoyIndex, FlatIndex, HNSWIndex, IVFIndex, LSHIndex
    from valori.storage import MemoryStorage
    from valori.utils import IndexInspector
    cls = {"flat": FlatIndex, "ivf": IVFIndex, "hnsw": HNSWIndex, "lsh": LSHIndex, "annoy": AnnoyIndex}[case["index"]]
    config = {"n_clusters": 2, "num_hash_tables": 3} if case["index"] in ("ivf", "lsh") else {}
    ix, store = cls(dict(config)), MemoryStorage({})
    store.initialize()
    insp = IndexInspector(ix)
    check(insp.inspect_index()["initialized"] is False, "an index is initialized before it is")
    ix.initialize(store)
    ctx.on_close(ix.close)
    rng = np.random.default_rng(case["seed"])
    ids, live = [], {}

    def vectors(n):
        return rng.normal(size=(n, case["dim"])).astype(np.float32) + 2

    def look():
        info = insp.inspect_index()
        stats = ix.get_stats()
        check(info["type"] == cls.__name__ and info["initialized"] is True and info["configuration"] == config, "inspection %r", info)
        check({k: str(v) for k, v in info["stats"].items()} == {k: str(v) for k, v in stats.items()}, "inspection shows %r, statistics are %r", info["stats"], stats)
        if "vector_info" in info:
            v = info["vector_info"]
            check(v["count"] == len(live), "%d vectors inspected in a %s index of %d: %r", v["count"], case["index"], len(live), v)
            if live:
                check(v["dimension"] == case["dim"], "dimension %r", v)
                some = np.array(list(live.values()), dtype=np.float64)
                if len(live) <= 100:
                    check(near(v["sample_stats"]["mean"], float(some.mean()), 1e-3) and near(v["sample_stats"]["std"], float(some.std()), 1e-3), "sample statistics %r", v)
        else:
            check(case["index"] in ("flat", "ivf"), "nothing about the vectors of a %s index", case["index"])
        if case["index"] == "lsh":
            h = info["hash_info"]
            check(h["table_count"] == 3 and h["total_entries"] == 3 * len(live), "hash tables %r with %d vectors", h, len(live))
            tables = getattr(ix, "hash_tables", None)
            if tables is not None:
                check(h["total_buckets"] == sum(len(t) for t in tables), "hash tables %r of %r", h, tables)
            check(near(h["avg_entries_per_bucket"], h["total_entries"] / max(h["total_buckets"], 1)), "hash tables %r", h)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            insp.print_inspection()
        said = out.getvalue()
        check("Index Type: %s" % cls.__name__ in said, "printed inspection %r", said)
        lines = [("count", info["vector_info"]["count"])] if live and "vector_info" in info else []
        lines += [(k, info["hash_info"][k]) for k in ("table_count", "total_buckets", "total_entries") if case["index"] == "lsh"]
        lines += list(config.items()) + [(k, v) for k, v in stats.items() if type(v) is int]
        for k, v in lines:
            check("%s: %s\n" % (k, v) in said, "the inspection %r does not print %s: %r", said, k, v)
        check({k: str(v) for k, v in ix.get_stats().items()} == {k: str(v) for k, v in stats.items()}, "inspecting changed the index")
    look()
    for op, *args in case["ops"]:
        if op == "insert":
            vs = vectors(args[0])
            new = ix.insert(vs, [{} for _ in vs])
            ids += new
            live.update(zip(new, vs))
        elif op == "delete" and ids:
            gone = list(dict.fromkeys(ids[i % len(ids)] for i in args[0]))
            gone = [i for i in gone if i in live]
            if gone:
                ix.delete(gone)
                for i in gone:
                    del live[i]
                ctx.nontrivial(True)
        elif op == "update" and ids and ids[args[0] % len(ids)] in live:
            v = vectors(1)[0]
            ix.update(ids[args[0] % len(ids)], v, {})
            live[ids[args[0] % len(ids)]] = v
        elif op == "build" and case["index"] == "annoy":
            ix.build()
        ctx.event(op)
        look()


class Boom(Exception):
    pass


def tools_strategy():
    measure = st.tuples(st.just("measure"), st.lists(st.sampled_from(["insert", "search", "x y"]), min_size=1, max_size=3), st.sampled_from([0, 0, 3]), st.booleans())
    query = st.tuples(st.just("query"), st.lists(st.integers(-9, 9), min_size=1, max_size=5), st.lists(st.integers(0, 50), max_size=6), st.integers(1, 9), st.integers(0, 40))
    many = st.tuples(st.just("query"), st.just([1, 2]), st.just([3]), st.just(2), st.integers(0, 40), st.sampled_from([30, 120, 1100]))
    call = st.tuples(st.just("call"), st.sampled_from(["array", "list", "none", "raise"]), st.integers(0, 3))
    return st.fixed_dictionaries({"ops": oplist(st.one_of(measure, measure, measure, query, query, query, call, call, many), 8, 25)})


def run_tools(case, ctx):
    import psutil
    from valori.utils import PerformanceProfiler, QueryAnalyzer, debug_function
    p, qa = PerformanceProfiler(), QueryAnalyzer()
    check(p.get_summary() == {} and "error" in qa.analyze_query_patterns(), "something is reported before anything happened")
    count, slept, queries, began = {}, {}, [], time.time()
    for op, *args in case["ops"]:
        if op == "measure":
            names, ms, fails = args
            try:
                with contextlib.ExitStack() as s:
                    for n in names:
                        s.enter_context(p.measure(n))
                    time.sleep(ms / 1000)
                    if fails:
                        raise Boom("x")
                check(not fails, "measuring swallowed an exception")
            except Boom:
                check(fails, "measuring raised")
                ctx.nontrivial(True)
            for n in names:
                count[n] = count.get(n, 0) + 1
                slept[n] = slept.get(n, 0) + ms / 1000
        elif op == "query":
            v, ds, k, t = args[:4]
            for _ in range(args[4] if len(args) > 4 else 0):
                qa.analyze_query(np.ones(2), [{"id": "x", "distance": 1.0, "metadata": {}}], 2, t / 8 + 1)
                queries.append((t / 8 + 1, 1))
            v = np.array(v, dtype=np.float32)
            res = [{"id": str(i), "distance": d / 4, "metadata": {}} for i, d in enumerate(ds)]
            a = qa.analyze_query(v, res, k, t / 8)
            q, r = a["query_stats"], a["result_stats"]
            f = v.astype(float)
            check(near(q["vector_norm"], float(np.sqrt((f * f).sum()))) and near(q["vector_mean"], float(f.mean())) and near(q["vector_std"], float(f.std())), "query statistics %r of %r", q, v)
            check(r["count"] == len(ds) and r["expected_count"] == k and r["search_time"] == t / 8, "result statistics %r", r)
            if ds:
                d = np.array(ds) / 4
                check(near(r["distance_mean"], float(d.mean())) and near(r["distance_std"], float(d.std())) and r["distance_min"] == d.min() and r["distance_max"] == d.max(),
                      "result statistics %r of %r", r, ds)
            queries.append((t / 8, len(ds)))
        else:
            calls = []
            what, n = args

            @debug_function
            def probe(*a, **k):
                calls.append((a, k))
                if what == "raise":
                    raise Boom("boom")
                return {"array": np.ones(n), "list": [n], "none": None}[what]
            out, start = io.StringIO(), time.time()
            with contextlib.redirect_stdout(out):
                try:
                    r = probe(*range(n), key=n)
                    check(what != "raise" and (np.array_equal(r, np.ones(n)) if what == "array" else r == {"list": [n], "none": None}[what]), "a decorated call gives %r", r)
                except Boom as e:
                    check(what == "raise" and str(e) == "boom", "a decorated call raises %r", e)
            check(calls == [(tuple(range(n)), {"key": n})] and probe.__name__ == "probe", "calls %r", calls)
            t = out.getvalue()
            took = [float(x) for x in re.findall(r" (\d+\.\d+)s", t)]
            check(len(took) == 1 and took[0] <= time.time() - start + 0.001, "%r printed for a call of %r s", took, time.time() - start)
            check("boom" in t or what != "raise", "printed %r", t)
            check("(%d,)" % n in t or what != "array", "printed %r for an array of %d", t, n)
            check(t.count("DEBUG: Calling") == 1 and ("ERROR" in t) == (what == "raise") and ("SUCCESS" in t) == (what != "raise"), "printed %r", t)
        ctx.event(op)
    s = p.get_summary()
    check({k: v["count"] for k, v in s.items()} == count, "measured %r, summary %r", count, s)
    for n, v in s.items():
        for part in ("duration", "memory"):
            m = v[part]
            check(m["min"] <= m["avg"] + 1e-9 and m["avg"] <= m["max"] + 1e-9 and near(m["total"], m["avg"] * v["count"], 1e-6), "summary %r", v)
        raw = p.measurements[n]
        for part, k in (("duration", "duration"), ("memory", "memory_delta")):
            m, a = v[part], [x[k] for x in raw]
            check((m["min"], m["max"]) == (min(a), max(a)) and near(m["total"], sum(a), 1e-9), "summary %r of %r", m, a)
        check(v["duration"]["max"] <= time.time() - began + 1e-3, "%r measured in %r s", v["duration"], time.time() - began)
        check(max(abs(v["memory"]["min"]), abs(v["memory"]["max"])) < psutil.Process().memory_info().rss / 2**21, "work that allocates nothing: %r", v["memory"])
        check(v["duration"]["total"] >= slept[n] * 0.9 - 1e-3, "%r measured for work of %r s", v["duration"], slept[n])
    path = os.path.join(ctx.tmp(), "report.json")
    p.save_report(path)
    with open(path) as f:
        report = json.load(f)
    check(report["summary"] == json.loads(json.dumps(s, default=str)) and {k: len(v) for k, v in report["raw_data"].items()} == count, "the report differs from the summary")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        p.print_summary()
    check(all("Count: %d" % c in out.getvalue() for c in count.values()), "printed %r", out.getvalue())
    r = qa.analyze_query_patterns()
    if queries:
        t, c = np.array([q[0] for q in queries]), np.array([q[1] for q in queries])
        check(r["total_queries"] == len(queries), "patterns %r", r)
        for part, a in (("search_time", t), ("result_count", c)):
            check(near(r[part]["mean"], float(a.mean())) and near(r[part]["std"], float(a.std())) and r[part]["min"] == a.min() and r[part]["max"] == a.max(), "patterns %r of %r", r, queries)


LEVELS = ["DEBUG", "INFO", "WARNING", "ERROR"]


def logging_strategy():
    op = st.one_of(st.tuples(st.just("get"), st.sampled_from("abc"), st.sampled_from([None, None, "DEBUG", "INFO", "ERROR", "warning"])),
                   st.tuples(st.just("log"), st.sampled_from("abc"), st.sampled_from(LEVELS)), st.tuples(st.just("log"), st.sampled_from("abc"), st.sampled_from(LEVELS)),
                   st.tuples(st.just("helper"), st.sampled_from(["debug", "info", "warning", "error", "search", "index", "operation", "performance", "memory"])),
                   st.tuples(st.just("setup"), st.sampled_from([None, "DEBUG", "INFO", "warning", "ERROR"]), st.booleans()))
    return st.fixed_dictionaries({"ops": oplist(op, 8, 25), "tool": st.lists(st.tuples(st.sampled_from(LEVELS), st.booleans()), min_size=1, max_size=3)})


@contextlib.contextmanager
def fresh():
    """Python's logging as in a new process, and back."""
    root = logging.getLogger()
    was = (root.handlers[:], root.level, dict(root.manager.loggerDict))
    root.handlers[:] = []
    root.setLevel(logging.WARNING)
    root.manager.loggerDict.clear()
    disabled = root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        yield root
    finally:
        logging.disable(disabled)
        for lg in [root] + list(root.manager.loggerDict.values()):
            for h in getattr(lg, "handlers", []):
                h.close()
        root.handlers[:] = was[0]
        root.setLevel(was[1])
        root.manager.loggerDict.clear()
        root.manager.loggerDict.update(was[2])


def run_logging(case, ctx):
    import valori.utils.logging as vl
    tmp = ctx.tmp()
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()), fresh():
        vl.setup_logging({})  # forget loggers of earlier cases
        logging.getLogger().handlers[:] = []
        logging.getLogger().setLevel(logging.WARNING)
        app, file, own, serial = None, None, {}, 0
        for op, *args in case["ops"]:
            if op == "setup":
                level, to_file = args
                cfg = {} if level is None else {"level": level}
                if to_file:
                    file = os.path.join(tmp, "logs", "f%d.log" % serial)
                    cfg.update(log_to_file=True, log_file=file)
                else:
                    file = None
                keep = dict(cfg)
                vl.setup_logging(cfg or None)
                check(cfg == keep, "setting up logging changed its configuration")
                ctx.nontrivial(app is not None)
                app = (level or "INFO").upper()
            elif op == "get":
                name, level = args
                lg = vl.get_logger("valori_check_" + name, level) if level else vl.get_logger("valori_check_" + name)
                check(lg is logging.getLogger("valori_check_" + name), "another logger is returned")
                if name not in own or (app and level):
                    own[name] = level.upper() if level else None
            else:
                serial += 1
                text = "message-%d-end" % serial
                parts = [text]
                if op == "log":
                    name, level = args
                    if name not in own:
                        continue
                    getattr(logging.getLogger("valori_check_" + name), level.lower())(text)
                    limit = own[name] or app or "INFO"
                    if own[name] and app:  # the handlers of the application have its level
                        limit = max(own[name], app, key=LEVELS.index)
                else:
                    kind = args[0]
                    level = {"debug": "DEBUG", "warning": "WARNING", "error": "ERROR"}.get(kind, "INFO")
                    if kind in ("debug", "info", "warning"):
                        getattr(vl, "log_" + kind)(text, **({"extra": 1} if serial % 2 else {}))
                    elif kind == "error":
                        vl.log_error(ValueError("bad"), text)
                    elif kind == "search":
                        vl.log_search_query(3, serial, 2, 0.0123456789)
                        parts = ["'query_vector_dim': 3", "'k': %d" % serial, "'results_count': 2", "'duration': 0.0123456789"]
                    elif kind == "index":
                        vl.log_index_stats("flat", 12345, note=text)
                        parts += ["'index_type': 'flat'", "'vector_count': 12345"]
                    elif kind == "operation":
                        vl.log_vector_operation("insert", 3, 4, note=text)
                        parts += ["'operation': 'insert'", "'vector_count': 3", "'vector_dim': 4"]
                    elif kind == "memory":
                        vl.log_memory_usage(text, 1048576, 3 * 1048576 if serial % 2 else 0)
                        parts += [": 2.00 MB" if serial % 2 else ": -1.00 MB"]
                    else:
                        vl.log_performance(text, 0.0123456789, items=serial)
                        parts += ["'duration': 0.0123456789", "'items': %d" % serial]
                    limit = app or "INFO"
                shown = sum(all(x in line for x in parts) for line in out.getvalue().splitlines())
                want = int(LEVELS.index(level) >= LEVELS.index(limit))
                check(shown == want, "a %s message (%s %r) with level %s is logged %d times", level, op, args, limit, shown)
                if file:
                    for h in logging.getLogger().handlers:
                        h.flush()
                    check(os.path.exists(file), "no log file")
                    with open(file) as f:
                        shown = sum(all(x in line for x in parts) for line in f)
                    check(shown == want, "a %s message with level %s is written %d times to the log file", level, limit, shown)
            ctx.event(op)
    # the other set-up
    from valori.utils.debugging import setup_logging
    files = {}
    with fresh():
        for i, (level, to_file) in enumerate(case["tool"]):
            err = io.StringIO()
            with contextlib.redirect_stderr(err):
                lg = setup_logging(level, os.path.join(tmp, "t%d.log" % i) if to_file else None)
                for n in LEVELS:
                    lg.log(getattr(logging, n), "text-%s" % n)
            want = ["text-%s" % n for n in LEVELS[LEVELS.index(level):]]
            got = [x.rsplit(" - ", 1)[1] for x in err.getvalue().splitlines()]
            check(got == want, "after %d set-ups with level %s the log is %r", i + 1, level, got)
            files[i] = want if to_file else []
            for j in files:
                name = os.path.join(tmp, "t%d.log" % j)
                wrote = []
                if os.path.exists(name):
                    with open(name) as f:
                        wrote = [x.rsplit(" - ", 1)[1] for x in f.read().splitlines()]
                check(wrote == files[j], "after %d set-ups the log file of set-up %d has %r, expected %r", i + 1, j + 1, wrote, files[j])


TESTS = [Test("analysis", strategy, run, quick=1600, thorough=24000, shards=2), Test("inspection", inspect_strategy, run_inspect, quick=800, thorough=8000, shards=2),
         Test("tools", tools_strategy, run_tools, quick=400, thorough=4000, shards=2), Test("logging", logging_strategy, run_logging, quick=600, thorough=8000, shards=2)]
