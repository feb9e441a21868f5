"""C22: validators accept exactly the valid values and refuse the rest with ValidationError."""
import json
import math

import numpy as np
from hypothesis import strategies as st

from harness.core import Test, Violation, check
from harness.gens import json_values

PROPERTY = "C22"
LEVEL = "exploration"
RULE = ("Arguments near the border of validity: arrays of 0-3 axes in eleven dtypes (text, objects, booleans) with NaN, infinities, "
        "zero rows and limits around their size; configurations with keys, types and ranges around their values; ids, k, metrics "
        "and metadata of right and wrong types. Each verdict is compared with an independent one. Non-trivial: a refused value, or an "
        "accepted one with at least two constraints in force.")
DT = ["<f8", "<f4", "<f2", "<i8", "|u1", "|i1", "|b1", "<U3", "object", "|S2", "<M8[s]"]
WORSE = [float("nan"), float("inf"), -float("inf")]
METRICS = ["cosine", "euclidean", "dot_product", "manhattan", "chebyshev", "hamming", "jaccard"]


def arrays():
    shape = st.one_of(st.tuples(st.integers(0, 4)), st.tuples(st.integers(0, 3), st.integers(0, 4)),
                      st.tuples(st.integers(1, 3), st.integers(1, 4)), st.just(()), st.tuples(st.sampled_from([100, 150, 257]), st.integers(1, 2)),
                      st.tuples(st.integers(1, 2), st.sampled_from([100, 300])), st.tuples(st.sampled_from([100, 300])), st.tuples(st.integers(0, 2), st.integers(1, 2), st.integers(1, 2)))
    return st.tuples(st.just("array"), st.sampled_from(DT[:4] * 3 + DT), shape,
                     st.lists(st.tuples(st.one_of(st.integers(0, 11), st.integers(0, 300)), st.one_of(st.just(0), st.integers(-5, 5), st.sampled_from(WORSE), st.sampled_from(
                         [16, 128, 64, 1e-200, -1e-170, 5e-324, 1e308, -1e308, 65504, -65504, 2**62, 2**63 - 1, 60000]))), max_size=4),
                     st.one_of(st.integers(0, 1), st.sampled_from([-1, 16])))


notarrays = st.tuples(st.just("other"), st.sampled_from([None, 1, "x", [1.0, 2.0], (1.0,), [[1.0]], {}]))
junk = st.sampled_from([None, True, 1.5, 2.0, 3.0, "x", "", "  ", [], [1], {}, (1,), -1, 0, 1, 7, 10**20, b"x"])
vals = st.one_of(st.integers(-3, 8), st.floats(-3, 8), st.sampled_from(WORSE), junk)
keys = st.sampled_from(["a", "b", "c", "d"])
TYPES = {"int": int, "str": str, "float": float, "list": list, "num": (int, float)}


CIRCLE = []
CIRCLE.append(CIRCLE)


def strategy():
    lim = st.one_of(st.none(), st.integers(0, 5))
    metas = st.one_of(st.none(), junk, st.dictionaries(st.text(max_size=4), json_values, max_size=3),
                      st.dictionaries(st.one_of(st.text(max_size=3), st.integers(0, 3)), st.one_of(json_values, st.sampled_from(
                          [b"x", {1, 2}, (1, 2), {1: 2}, {"a": {3}}, [b""], float("nan"), {(1, 2): 3}, {"k": {(): 1}}, 1j, CIRCLE, {"c": CIRCLE}, object,
                           [[b"x"]], 10**400])), max_size=3))
    idl = st.one_of(st.text(max_size=3), st.integers(-2, 3), st.sampled_from([" ", "\t\n", "a", "a", "1", "2", "0", None, 1.5, b"x", True]))
    return st.one_of(
        st.tuples(st.sampled_from(["vector", "vectors"]), st.one_of(arrays(), arrays(), arrays(), notarrays), lim, lim,
                  st.one_of(st.none(), st.none(), st.sampled_from(DT[:4])), st.booleans()),
        st.tuples(st.just("config"), st.one_of(st.dictionaries(keys, vals, max_size=4), st.dictionaries(keys, vals, max_size=4), junk),
                  st.one_of(st.none(), st.lists(keys, max_size=3)), st.one_of(st.none(), st.lists(keys, max_size=4)),
                  st.one_of(st.none(), st.dictionaries(keys, st.sampled_from(sorted(TYPES)), max_size=3)),
                  st.one_of(st.none(), st.dictionaries(keys, st.tuples(st.integers(-3, 3), st.integers(0, 8)), max_size=3))),
        st.tuples(st.just("metric"), st.one_of(st.sampled_from(METRICS), st.sampled_from(["Cosine", " cosine", "l2", "", "dot"]), junk)),
        st.tuples(st.just("k"), st.one_of(st.integers(-3, 12), junk), st.one_of(st.none(), st.integers(0, 12))),
        st.tuples(st.just("id"), idl),
        st.tuples(st.just("ids"), st.one_of(st.lists(idl, max_size=4), st.lists(st.text("abc", min_size=1, max_size=2), max_size=6), junk)),
        st.tuples(st.just("metadata"), metas))


def mk(a):
    if a[0] == "other":
        return a[1]
    _, dt, shape, puts, base = a
    x = np.full(shape, base).astype(dt) if dt != "object" else np.full(shape, base, dtype=object)
    if x.size and x.dtype.kind in "fiubO":
        flat = x.reshape(-1)
        for i, v in puts:
            if x.dtype.kind == "O" or v == v and abs(v) != math.inf or x.dtype.kind == "f":
                if x.dtype.kind in "iu":
                    v = max(np.iinfo(x.dtype).min, min(np.iinfo(x.dtype).max, int(v)))
                elif x.dtype.kind == "f" and math.isfinite(v):
                    v = max(np.finfo(x.dtype).min, min(np.finfo(x.dtype).max, np.float64(v)))
                flat[i % x.size] = v
    return x


def json_ok(v):
    try:
        json.dumps(v)
        return True
    except (TypeError, ValueError):
        return False


def verdict(case):
    """True / False / None (not judged)."""
    what = case[0]
    if what in ("vector", "vectors"):
        x = mk(case[1])
        _, _, lo, hi, dt, allow_zero = case
        if not isinstance(x, np.ndarray) or x.ndim != (1 if what == "vector" else 2) or x.size == 0:
            return False
        if x.dtype.kind not in "biuf":
            return False
        dim = x.shape[-1]
        if (lo is not None and dim < lo) or (hi is not None and dim > hi) or (dt is not None and x.dtype != np.dtype(dt)):
            return False
        if not np.all(np.isfinite(x)):
            return False
        return bool(allow_zero or np.all(np.any(x != 0, axis=-1)))
    if what == "config":
        _, c, req, allowed, types, ranges = case
        if not isinstance(c, dict):
            return False
        if any(k not in c for k in req or []) or (allowed is not None and any(k not in allowed for k in c)):
            return False
        for k, t in (types or {}).items():
            if k in c and not isinstance(c[k], TYPES[t]):
                return False
        for k, (lo, hi) in (ranges or {}).items():
            if k in c and type(c[k]) is bool:
                return None
            if k in c and isinstance(c[k], (int, float)) and not lo <= c[k] <= hi:
                return False
        return True
    if what == "metric":
        return isinstance(case[1], str) and case[1] in METRICS
    if what == "k":
        if type(case[1]) is bool:
            return None
        return isinstance(case[1], int) and case[1] > 0 and (case[2] is None or case[1] <= case[2])
    if what == "id":
        return None if type(case[1]) is bool else isinstance(case[1], int) or (isinstance(case[1], str) and bool(case[1].strip()))
    if what == "ids":
        if not isinstance(case[1], list) or not case[1]:
            return False
        if any(type(i) is bool for i in case[1]):
            return None
        return all(verdict(("id", i)) for i in case[1]) and len({(type(i), i) for i in case[1]}) == len(case[1])
    m = case[1]
    return m is None or (isinstance(m, dict) and all(isinstance(k, str) and json_ok(v) for k, v in m.items()))


def run(case, ctx):
    from valori.exceptions import ValidationError
    from valori.utils import validation as V
    import valori.utils as U
    what = case[0]
    want = verdict(case)
    if what in ("vector", "vectors"):
        x = mk(case[1])
        before = x.copy() if isinstance(x, np.ndarray) else x
        kw = dict(min_dim=case[2], max_dim=case[3], dtype=None if case[4] is None else np.dtype(case[4]), allow_zero=case[5])
        fn = getattr(U, "validate_" + what)
        call = lambda: fn(x, **kw)
        strong = sum(v is not None for v in kw.values()) >= 2
    elif what == "config":
        types = None if case[4] is None else {k: TYPES[t] for k, t in case[4].items()}
        call = lambda: U.validate_config(case[1], required_keys=case[2], allowed_keys=case[3], value_types=types, value_ranges=case[5])
        strong = sum(bool(v) for v in case[2:]) >= 2
    elif what == "k":
        call = lambda: V.validate_k(case[1], case[2]) if case[2] is not None else V.validate_k(case[1])
        strong = case[2] is not None
    else:
        call = lambda: getattr(V, "validate_" + what)(case[1])
        strong = bool(case[1])
    shown = repr(case)
    try:
        got = call()
        check(got is True, "validate_%s returned %r", what, got)
    except ValidationError as e:
        got = False
        check(str(e), "empty message")
    check(repr(case) == shown, "the validator changed its argument")
    if what in ("vector", "vectors") and isinstance(x, np.ndarray):
        check(x.tobytes() == before.tobytes() or x.dtype.kind == "O", "the validator changed its argument")
    if want is None:
        return
    ctx.event("%s:%s" % (what, "valid" if want else "refused"))
    ctx.nontrivial(not want or strong)
    check(got == want, "validate_%s %s %r", what, "accepted" if got else "refused", case[1:] if what[:6] != "vector" else (x,) + case[2:])


TESTS = [Test("validation", strategy, run, quick=40000, thorough=120000, shards=6)]
