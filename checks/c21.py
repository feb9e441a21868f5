"""C21: vectors saved to a file load back as saved."""
import copy
import json
import os
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from harness.core import Test, Violation, check
from harness.gens import DTYPES, json_values, oplist, same_value

PROPERTY = "C21"
LEVEL = "exploration"
RULE = ("Histories of saves (npz, pickle, JSON; arrays of six dtypes, any shape including empty, both memory orders, NaN and "
        "infinities; JSON metadata) and loads over a handful of paths, with refused calls in between. Non-trivial: a load of a path "
        "that was saved at least twice, or of a non-empty array.")
STEMS = ["v", "sub.dir", "a b", "é", "v.json", "v.npz", ".h"]
SUF = {"npz": ".npz", "pickle": ".pkl", "json": ".json"}


MORE = [">f4", ">f8", ">i2", "|b1", "<u8", "<i8"]
WIDE = ("<u8", "<i8", ">i2")


def arrays():
    def build(dt):
        kind = np.dtype(dt).kind
        el = (st.floats(width=16 if dt == "<f2" else 32) if kind == "f" else
              st.integers(0, 255) if kind == "u" else st.integers(-2**15, 2**15 - 1) if dt == ">i2" else st.integers(-2**31, 2**31 - 1))
        if kind == "b":
            el = st.booleans()
        elif dt in WIDE:
            el = st.one_of(el, st.integers(np.iinfo(dt).min, np.iinfo(dt).max), st.sampled_from([np.iinfo(dt).min, np.iinfo(dt).max]))
        elif dt in ("<f8", ">f8"):
            el = st.floats()
        return st.tuples(st.just(dt), st.sampled_from("CF"), st.integers(0, 3), st.integers(0, 4), st.lists(el, min_size=12, max_size=12))
    return st.sampled_from(DTYPES + MORE).flatmap(build)


def mk(a):
    dt, order, n, d, vals = a
    return np.array(np.array(vals[:n * d], dtype=dt).reshape(n, d), order=order)


def strategy():
    p = st.tuples(st.integers(0, 2), st.sampled_from(["npz", "pickle", "json"]))
    far = st.tuples(st.integers(0, len(STEMS) - 1), st.sampled_from(["npz", "pickle", "json"]))
    path = st.one_of(p, p, far)
    meta = st.lists(st.dictionaries(st.text(max_size=4), json_values, max_size=3), max_size=4)
    return st.fixed_dictionaries({"ops": oplist(st.one_of(
        st.tuples(st.just("save"), path, arrays(), meta, st.booleans()),
        st.tuples(st.just("save"), path, arrays(), meta, st.booleans()),
        st.tuples(st.just("load"), path, st.booleans()),
        st.tuples(st.just("bad-format"), path),
        st.tuples(st.just("cut"), path, st.integers(0, 9)),
        st.tuples(st.just("bad-suffix"), st.integers(0, 2)),
        st.tuples(st.just("plain-json"), arrays(), meta)), 8, 20)})


def run(case, ctx):
    from valori.exceptions import ValoriError
    from valori.utils import load_vectors_from_file, save_vectors_to_file
    root = ctx.tmp()
    model, count = {}, {}

    def name(p, as_path):
        s = os.path.join(root, STEMS[p[0]] + SUF[p[1]])
        return Path(s) if as_path else s

    def load(p, as_path):
        """(numpy itself writes the other byte order as the native one when it pickles)"""
        with open(name(p, False), "rb") as f:
            data = f.read()
        v, m = load_vectors_from_file(name(p, as_path))
        with open(name(p, False), "rb") as f:
            check(f.read() == data, "loading changed the file")
        wv, wm = model[p]
        check(isinstance(v, np.ndarray) and v.dtype.newbyteorder("=") == wv.dtype.newbyteorder("=")
              and v.shape == wv.shape, "saved %r %r as %s, loaded %r %r", wv.dtype,
              wv.shape, p[1], getattr(v, "dtype", None), np.shape(v))
        check(np.array_equal(v, wv, equal_nan=wv.dtype.kind == "f") and np.array_equal(np.signbit(v), np.signbit(wv) | False)
              if wv.dtype.kind == "f" and not np.isnan(wv).any() else np.array_equal(v, wv, equal_nan=wv.dtype.kind == "f"),
              "saved %r as %s, loaded %r", wv, p[1], v)
        check(same_value(m, wm), "saved metadata %r as %s, loaded %r", wm, p[1], m)
        ctx.nontrivial(count[p] > 1 or wv.size > 0)
        ctx.event("load:" + p[1])

    for op in case["ops"]:
        if op[0] == "save":
            v, m = mk(op[2]), copy.deepcopy(op[3])
            kv, km = v.copy(), copy.deepcopy(m)
            r = save_vectors_to_file(v, m, name(op[1], op[4]), op[1][1])
            check(r is None and np.array_equal(v, kv, equal_nan=v.dtype.kind == "f") and same_value(m, km), "saving changed its arguments")
            model[op[1]] = (kv, km)
            count[op[1]] = count.get(op[1], 0) + 1
        elif op[0] == "load":
            if op[1] in model:
                load(op[1], op[2])
            else:
                try:
                    load_vectors_from_file(name(op[1], op[2]))
                except (OSError, ValoriError):
                    continue
                raise Violation("loaded %r, which was never saved" % (op[1],))
        elif op[0] == "cut":
            if op[1] in model:
                with open(name(op[1], False), "rb") as f:
                    data = f.read()
                # (what ends a JSON or pickle file may be dispensable: cut into the contents)
                part = data[:int(len(data) * op[2] / 10)]
                cut = os.path.join(root, "cut" + SUF[op[1][1]])
                with open(cut, "wb") as f:
                    f.write(part)
                try:
                    got = load_vectors_from_file(cut)
                except Exception:
                    ctx.event("cut:" + op[1][1])
                else:
                    raise Violation("a %s file cut to %d of %d bytes loads as %r" % (op[1][1], len(part), len(data), got))
                with open(cut, "rb") as f:
                    check(f.read() == part, "loading a cut off file changed it")
        elif op[0] == "bad-format":
            try:
                save_vectors_to_file(np.ones((1, 2)), [{}], name(op[1], False), "xml")
            except ValoriError:
                continue
            raise Violation("unknown format accepted")
        elif op[0] == "bad-suffix":
            p = os.path.join(root, STEMS[op[1]] + ".xyz")
            with open(p, "w") as f:
                f.write("{}")
            try:
                load_vectors_from_file(p)
            except ValoriError:
                continue
            raise Violation("a file of unknown suffix was loaded")
        else:  # JSON written by something else: vectors and metadata only
            v = mk(op[1])
            if not np.all(np.isfinite(v.astype(float))) or v.size == 0:
                continue
            p = os.path.join(root, "plain.json")
            with open(p, "w") as f:
                json.dump({"vectors": v.tolist(), "metadata": op[2]}, f)
            gv, gm = load_vectors_from_file(p)
            check(gv.shape == v.shape and np.array_equal(gv, v), "plain JSON %r loaded as %r", v, gv)
            check(same_value(gm, op[2]), "plain JSON metadata")
    for p in model:
        load(p, False)


TESTS = [Test("vector-files", strategy, run, quick=2000, thorough=20000, shards=6)]
