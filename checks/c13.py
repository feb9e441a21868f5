"""C13: persistence managers give back exactly what was last saved, across reopening."""
import copy
import json
import os
import pickle
import shutil

import numpy as np
from hypothesis import strategies as st

from harness.core import Test, check
from harness.gens import DTYPES, json_values, metas, oplist, same_value

PROPERTY = "C13"
LEVEL = "exploration"
RULE = ("Histories of save/load of states, vectors (any dtype, memory order, id type) and index data under "
        "several paths, close+initialize and fresh managers over the same directory, for the tensor manager "
        "(plain and compressed) and the incremental one; every load, the counters and the operation log are "
        "compared with a dict. Non-trivial: something is loaded after having been saved twice or after a reopen.")

FPATHS = ["s.pkl", "sub/s.pkl", "a", "a.tmp", "a b.pkl", "é.pkl", "checkpoint_x.pkl", "deep/er/s", ".h", "s.pkl.tmp"]
VPATHS = ["v.npz", "w", "sub/w", "w.tmp", "v.npz.tmp", "u.v.w", "ü.npz", "deep/v.NPZ"]


def arrays():
    def build(dt):
        kind = np.dtype(dt).kind
        el = (st.floats(width=16 if dt == "<f2" else 32) if kind == "f" else st.integers(0, 255))
        return st.tuples(st.just(dt), st.sampled_from("CF"), st.integers(0, 3), st.lists(el, max_size=12))
    return st.sampled_from(DTYPES).flatmap(build)


def mk_array(a):
    dt, order, rows, vals = a
    if rows:
        vals = vals[:len(vals) // rows * rows]
        return np.array(np.array(vals, dtype=dt).reshape(rows, -1), order=order)
    return np.zeros((0, 3), dtype=dt)


IDS = st.one_of(
    st.lists(st.text(max_size=4), max_size=4),
    st.lists(st.integers(-5, 2**40), max_size=4),
    st.integers(9, 40).map(lambda n: ["id%d" % i for i in range(n)]),
    st.integers(9, 14).map(lambda n: list(range(n))),
    st.lists(st.sampled_from(["a", "a\x00", "\x00", "", "1", "é", "aa"]), max_size=4),
    st.lists(st.one_of(st.integers(0, 9), st.text(max_size=2), st.none(), st.tuples(st.integers(0, 2), st.integers(0, 2))),
             max_size=4))

VALUE = st.one_of(
    st.tuples(metas, st.one_of(st.none(), arrays()), st.one_of(
        json_values, st.binary(max_size=5), st.frozensets(st.integers(0, 5), max_size=3))),
    # Values that differ and take the same room, empty ones, keys that are paths
    st.tuples(st.just("plain"), st.one_of(
        st.just({}), st.integers(0, 9).map(lambda n: {"n": n}),
        st.dictionaries(st.sampled_from(FPATHS + ["state", "data", "vectors", "i/s.pkl", "path"]),
                        st.one_of(st.none(), st.integers(0, 9), st.just({}), st.lists(st.integers(0, 2), max_size=2)),
                        min_size=1, max_size=3))))


def mk_value(v):
    if v[0] == "plain":
        return copy.deepcopy(v[1])
    m, a, x = copy.deepcopy(v)
    return {"meta": m, "arr": None if a is None else mk_array(a), "extra": x, "pair": (1, "x")}


def same(a, b):
    if isinstance(a, (frozenset, set, bytes)):
        return type(a) is type(b) and a == b
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return same_value(a, b)


def strategy():
    f, v = st.integers(0, len(FPATHS) - 1), st.integers(0, len(VPATHS) - 1)
    few = st.integers(0, 2)
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["tensor", "tensor", "incremental", "incremental", "incremental"]),
        "compression": st.booleans(),
        "interval": st.sampled_from([1, 2, 3, 100]),
        "ops": oplist(st.one_of(
            st.tuples(st.just("save_state"), f, VALUE, few),
            st.tuples(st.just("save_state"), few, VALUE, few),
            st.tuples(st.just("save_index"), few, VALUE, few),
            st.tuples(st.just("save_vectors"), v, arrays(), IDS),
            st.tuples(st.just("save_vectors"), few, arrays(), IDS),
            st.tuples(st.just("load_state"), f),
            st.tuples(st.just("load_index"), few),
            st.tuples(st.just("load_vectors"), v),
            st.tuples(st.just("bad_state"), few),
            st.tuples(st.just("bad_index"), few),
            st.tuples(st.just("reopen"), st.sampled_from(["close", "new", "new", "moved"])),
            st.tuples(st.just("stats"))), 10, 30)})


def make(case, d):
    from valori.persistence import IncrementalPersistence, TensorPersistence
    if case["kind"] == "tensor":
        p = TensorPersistence({"data_dir": d, "compression": case["compression"]})
    else:
        p = IncrementalPersistence({"data_dir": d, "checkpoint_interval": case["interval"]})
    p.loads_found = 0   # what this check counted, compared with the manager's own counter
    return p


class Model:
    def __init__(self, kind):
        self.kind = kind
        self.files = {}     # path -> value (states and index data of the tensor manager share it)
        self.state = None   # latest state of the incremental manager
        self.vectors = {}
        self.log = []

    def apply(self, op):
        if op[0] == "save_state":
            if self.kind == "tensor":
                self.files[FPATHS[op[1]]] = mk_value(op[2])
            else:
                self.state = mk_value(op[2])
            self.log.append(("save_state", FPATHS[op[1]], mk_value(op[2])))
        elif op[0] == "save_index":
            self.files["i/" + FPATHS[op[1]]] = mk_value(op[2])
            self.log.append(("save_index", "i/" + FPATHS[op[1]], None))
        elif op[0] == "save_vectors":
            self.vectors[VPATHS[op[1]]] = (mk_array(op[2]), list(op[3]))
            self.log.append(("save_vectors", VPATHS[op[1]], (len(mk_array(op[2])), list(op[3]))))


def do_save(p, op):
    if op[0] == "save_state":
        v = mk_value(op[2])
        r = p.save_state(v, FPATHS[op[1]])
    elif op[0] == "save_index":
        v = mk_value(op[2])
        r = p.save_index(v, "i/" + FPATHS[op[1]])
    else:
        v = {"arr": mk_array(op[2]), "ids": list(op[3])}
        r = p.save_vectors(v["arr"], v["ids"], VPATHS[op[1]])
        v["ids"].append("later")
    scribble(v)
    return r


def scribble(v):
    """Change a value that was handed over or handed out: what is stored must not follow."""
    if isinstance(v, np.ndarray):
        if v.flags.writeable:
            v[...] = 0
    elif isinstance(v, list):
        v.append("later")
    elif isinstance(v, dict):
        scribble(v.get("arr"))
        v["extra"] = "later"
        v.pop("n", None)


def expect_state(p, path, want, what):
    got = p.load_state(path)
    check(same(got, want), "%s: load_state(%r) gave %r, last saved %r", what, path, got, want)
    p.loads_found += got is not None
    scribble(got)


def expect_index(p, path, want, what):
    got = p.load_index(path)
    check(same(got, want), "%s: load_index(%r) gave %r, last saved %r", what, path, got, want)
    p.loads_found += got is not None
    scribble(got)


def expect_vectors(p, path, want, what):
    got = p.load_vectors(path)
    if want is None:
        check(got is None or tuple(got) == (None, None), "%s: load_vectors(%r) gave %r, nothing was saved", what,
              path, got)
        return
    check(got is not None and len(got) == 2 and got[0] is not None,
          "%s: load_vectors(%r) gave %r, saved %r", what, path, got, want)
    check(got[0].shape == want[0].shape and got[0].dtype == want[0].dtype
          and np.ascontiguousarray(got[0]).tobytes() == np.ascontiguousarray(want[0]).tobytes(),
          "%s: vectors %r, saved %r", what, got[0], want[0])
    check(same_value(list(got[1]), want[1]), "%s: ids %r, saved %r", what, got[1], want[1])
    p.loads_found += 1
    scribble(got[0])
    scribble(got[1])


def check_all(p, m, what):
    for i in FPATHS:
        if m.kind == "tensor":
            expect_state(p, i, m.files.get(i), what)
        expect_index(p, "i/" + i, m.files.get("i/" + i), what)
    if m.kind != "tensor":
        expect_state(p, "any.pkl", m.state, what)
    for i in VPATHS:
        expect_vectors(p, i, m.vectors.get(i), what)


def check_stats(p, m, d, case, saves, what):
    s = p.get_stats()
    files = [os.path.join(r, f) for r, _, fs in os.walk(d) for f in fs]
    check(s["disk_usage_bytes"] == sum(os.path.getsize(f) for f in files), "%s: disk usage %r", what, s)
    if m.kind == "tensor":
        check(s["file_count"] == len(files) == len(m.files) + len(m.vectors), "%s: %r files, saved under %r", what,
              s["file_count"], sorted(m.files) + sorted(m.vectors))
        check(s["save_count"] == saves, "%s: save_count %r, %d saves succeeded", what, s["save_count"], saves)
        check(s["load_count"] == p.loads_found, "%s: load_count %r, %d loads gave something", what, s["load_count"],
              p.loads_found)
        return
    n = len(m.log)
    states = sum(1 for o, _, _ in m.log if o == "save_state")
    check(s["operation_count"] == n and s["logged_operations"] == n,
          "%s: operation_count %r, logged %r, %d operations succeeded", what, s["operation_count"],
          s["logged_operations"], n)
    check(s["checkpoint_count"] == states, "%s: %r checkpoints, %d states saved", what, s["checkpoint_count"], states)
    check(0 <= n - s["last_checkpoint"] < case["interval"] or n == 0,
          "%s: %d operations, last checkpoint at %r, interval %d", what, n, s["last_checkpoint"], case["interval"])
    with open(os.path.join(d, "operations.log"), encoding="utf-8") as f:
        entries = [json.loads(x) for x in f if x.strip()]
    got = [(e["operation"], e["data"]["path"]) for e in entries]
    check(got == [x[:2] for x in m.log], "%s: the log lists %r, performed %r", what, got, m.log)
    for e, (o, _, x) in zip(entries, m.log):
        if o == "save_vectors":
            check(e["data"]["vector_count"] == x[0], "%s: logged %r for %d vectors", what, e, x[0])
            check(e["data"]["ids"] == json.loads(json.dumps(x[1][:10], default=str)), "%s: logged %r for ids %r", what, e, x[1])
        elif o == "save_state":
            with open(os.path.join(d, os.path.basename(e["data"]["checkpoint"])), "rb") as f:
                kept = pickle.load(f)
            check(same(kept, x), "%s: the checkpoint of operation %d holds %r, saved was %r", what, e["operation_id"], kept, x)
    check([e["operation_id"] for e in entries] == list(range(n)), "%s: operation ids %r", what,
          [e["operation_id"] for e in entries])


def run(case, ctx):
    from valori.exceptions import PersistenceError
    d = os.path.join(ctx.tmp(), "store")
    p = make(case, d)
    p.initialize()
    m = Model(case["kind"])
    saves, again, reopened = 0, set(), False
    ctx.event("manager:" + case["kind"])
    for n, op in enumerate(case["ops"]):
        what = "step %d %s" % (n, op[0])
        if op[0].startswith("save"):
            check(do_save(p, op) is True, "%s did not return True", what)
            key = (op[0], op[1])
            if key in again:
                ctx.nontrivial()
            again.add(key)
            m.apply(op)
            saves += 1
        elif op[0].startswith("bad"):
            f, path = (p.save_state, FPATHS[op[1]]) if op[0] == "bad_state" else (p.save_index, "i/" + FPATHS[op[1]])
            try:
                f({"a": 1, "f": (lambda: 0)}, path)
            except PersistenceError:
                pass
            else:
                check(False, "%s: data that cannot be serialised was accepted", what)
        elif op[0] == "load_state":
            want = m.files.get(FPATHS[op[1]]) if m.kind == "tensor" else m.state
            expect_state(p, FPATHS[op[1]], want, what)
        elif op[0] == "load_index":
            expect_index(p, "i/" + FPATHS[op[1]], m.files.get("i/" + FPATHS[op[1]]), what)
        elif op[0] == "load_vectors":
            expect_vectors(p, VPATHS[op[1]], m.vectors.get(VPATHS[op[1]]), what)
        elif op[0] == "reopen":
            if op[1] == "close":
                p.close()
                p.initialize()
            else:
                if op[1] == "moved":
                    p.close()
                    shutil.move(d, d + "-")
                    d += "-"
                p = make(case, d)
                p.initialize()
                saves = 0
            if m.log:
                ctx.nontrivial()
            reopened = True
            check_all(p, m, what)
            check_stats(p, m, d, case, saves, what)
        elif op[0] == "stats":
            check_stats(p, m, d, case, saves, what)
    check_all(p, m, "end")
    check_stats(p, m, d, case, saves, "end")


def run_long(case, ctx):
    """Many saves: every checkpoint and log entry stays, numbers grow past two and three digits."""
    small = [("save_state", 0, ("plain", {"n": 0})), ("save_vectors", 0, ("<f4", "C", 1, [1.0]), ["a"]),
             ("save_index", 0, ("plain", {"n": 0}))]
    ops = []
    for kind, n in case["runs"]:
        for i in range(n):
            op = small[kind]
            ops.append(op if kind == 1 else op[:2] + (("plain", {"n": len(ops)}),))
        ops.append(("reopen", "new"))
    ctx.nontrivial()
    run(dict(case, ops=ops), ctx)


def strategy_long():
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["tensor", "incremental", "incremental", "incremental"]), "compression": st.booleans(),
        "interval": st.sampled_from([1, 10, 100]),
        "runs": st.lists(st.tuples(st.sampled_from([0, 0, 1, 2]), st.integers(1, 60)), min_size=1, max_size=3)})


TESTS = [Test("save-load-history", strategy, run, quick=1600, shards=5),
         Test("long-history", strategy_long, run_long, quick=90, shards=3)]
