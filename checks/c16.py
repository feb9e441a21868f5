"""C16: scalar quantization."""
import numpy as np
from hypothesis import strategies as st

from checks.qdata import data_cfg, make
from harness.core import Test, Violation, check

PROPERTY = "C16"
LEVEL = "exploration"
RULE = ("Training sets of 1-60 vectors (eight shapes, eight dtypes, three scales, constant columns, duplicates) and "
        "1-62 bits; encoded: the training set, fresh vectors, vectors out of range, NaN and infinity. Non-trivial: at "
        "least two training vectors with a non-constant dimension.")


def strategy():
    return st.fixed_dictionaries({
        "bits": st.one_of(st.integers(1, 16), st.integers(1, 62), st.sampled_from([1, 8, 24, 25, 31, 32, 33, 53, 54])),
        "data": data_cfg([1, 2, 3, 7], 60),
        "qdtype": st.sampled_from(["same", "f8", "f4"]),
        "retrain": st.sampled_from([None, "reinit", "again"]),
        "bad": st.lists(st.sampled_from(["train-1d", "train-nan", "train-inf", "train-empty", "quantize-1d", "quantize-dim",
                                         "quantize-dim1", "dequantize-dim", "dequantize-3d"]), max_size=3)})


def cos_distance(q, v):
    nq, nv = np.linalg.norm(q), np.linalg.norm(v)
    return 1.0 if nq == 0 or nv == 0 else 1 - float(np.dot(q, v)) / (nq * nv)


def query_forms(q):
    """The query as given, as a row, longer (the excess is ignored) and shorter (zeros are missing)."""
    yield q, q
    yield q.reshape(1, -1), q
    yield np.concatenate([q, q[:1] * 0 + 3]), q
    if len(q) > 1:
        yield q[:-1], np.concatenate([q[:-1], q[:1] * 0])


def refused(what, fn):
    from valori.exceptions import ValoriError
    try:
        r = fn()
    except ValoriError:
        return
    raise Violation("%s was accepted and returned %r" % (what, r))


def train(qz, x):
    """Train on an array that its owner goes on using afterwards."""
    given = x.copy(order="K")
    qz.train(given)
    check(np.array_equal(x, given), "training changed the vectors")
    given[...] = 1


def run(case, ctx):
    from valori.quantization import ScalarQuantizer
    bits = case["bits"]
    x = make(case["data"], n=case.get("n"))
    n, dim = x.shape
    qz = ScalarQuantizer({"bits": bits})
    qz.initialize()
    refused("quantize before training", lambda: qz.quantize(x))
    refused("dequantize before training", lambda: qz.dequantize(np.zeros((1, dim), dtype=int)))
    if case["retrain"]:
        qz.train(make(case["data"], salt=5) * 2.0)
        if case["retrain"] == "reinit":
            qz.initialize()
            refused("quantize after initialising again", lambda: qz.quantize(x))
    train(qz, x)
    xf = x.astype(float)
    lo, hi = xf.min(axis=0), xf.max(axis=0)
    ctx.nontrivial(n > 1 and bool(np.any(hi > lo)))
    ctx.event("dtype:" + case["data"]["dtype"])
    ctx.event("bits:%s" % ("1-8" if bits <= 8 else "9-24" if bits <= 24 else "25-53" if bits <= 53 else "54+"))
    step = (hi - lo) / float(min(2**bits - 1, 2**53))
    big = np.maximum(np.abs(lo), np.abs(hi))

    def tol(d):
        eps = np.finfo(d).eps if np.dtype(d).kind == "f" else 0
        return big * (eps * 2 + 1e-14) + 1e-300

    def enc(v):
        v0 = v.copy()
        c = qz.quantize(v)
        check(np.array_equal(v, v0, equal_nan=v.dtype.kind == "f"), "quantize changed its input")
        check(c.shape == v.shape and c.dtype.kind in "iu", "codes %r %r for vectors %r", c.shape, c.dtype, v.shape)
        check(np.all(c >= 0) and np.all(c <= 2**bits - 1), "codes outside 0..2^%d-1: %r", bits, c)
        return c

    def body():
        # inside the trained range: half a step
        fresh = make(case["data"], 2 * n if "n" in case else 12, salt=1)
        if case["qdtype"] != "same":
            fresh = fresh.astype(case["qdtype"])
        for v in (x, fresh):
            c = enc(v)
            d = qz.dequantize(c)
            check(d.shape == v.shape and d.dtype.kind == "f", "dequantized %r %r for %r", d.shape, d.dtype, v.shape)
            want = np.clip(v.astype(float), lo, hi)
            err = np.abs(d.astype(float) - want)
            # (a dimension that was constant in training has no range to speak of)
            check(np.all((err <= step / 2 * (1 + 1e-9) + tol(d.dtype)) | ((hi == lo) & (v.astype(float) != lo))),
                  "%d bits over %r..%r: %r comes back as %r, half a step is %r", bits, lo, hi, v, d, step / 2)
            # encoding what was decoded changes nothing (as long as the decoded dtype tells the steps apart)
            if np.all((step > 8 * tol(d.dtype)) | (hi == lo)):
                check(np.array_equal(enc(d), c), "re-encoding %r gives %r, was %r", d, enc(d), c)
            # rows are independent of each other
            for j in range(min(3, len(v))):
                check(np.array_equal(enc(v[j:j + 1])[0], c[j]), "row %d encodes differently on its own", j)
                check(np.array_equal(qz.dequantize(c[j])[0], d[j]), "row %d decodes differently on its own", j)
            # order is preserved in every dimension
            for k in range(dim) if dim < 20 else (0, dim // 2, dim - 1):
                o = np.argsort(v[:, k].astype(float), kind="stable")
                check(np.all(np.diff(c[o, k].astype(object)) >= 0), "codes are not monotone in dimension %d", k)
            # asymmetric distance is the cosine distance to the decoded vector
            q = fresh[0]
            for j in range(min(4, len(v))):
                for qf, qe in query_forms(q) if j == 0 else [(q, q)]:
                    got, ref = qz.compute_distance(qf, c[j]), cos_distance(qe.astype(float), d[j].astype(float))
                    check(isinstance(got, float) and abs(got - ref) <= 1e-5, "query %r: distance %r, cosine distance %r", qf, got, ref)
        # outside the range: the nearest end
        span = np.where(hi > lo, hi - lo, 1.0)
        out = np.stack([lo - 3 * span, hi + 3 * span])
        c = enc(out)
        check(np.all(c[0] == 0), "below the range: %r", c)
        top = qz.dequantize(c)[1].astype(float)
        check(np.all((np.abs(top - hi) <= tol(qz.dequantize(c).dtype) + step / 2) | (hi == lo)),
              "above the range decodes to %r, the end is %r", top, hi)
        bad = np.stack([np.full(dim, np.nan), np.full(dim, np.inf), np.full(dim, -np.inf)])
        ends = enc(np.stack([hi, hi, lo]))
        c = enc(bad)
        off = np.abs(c[1].astype(float) - ends[1].astype(float))
        check(np.all((off <= 2.0**bits * 1e-15) | (hi == lo)) and np.all(c[2] == ends[2]), "infinities encode to %r, the ends to %r", c, ends)
        s = qz.get_stats()
        check(s["bits"] == bits and s["trained"] is True and s["dimensions"] == dim, "statistics %r", s)
        check(abs(s["compression_ratio"] - 32.0 / bits) < 1e-9, "statistics %r", s)
        return enc(x)

    before = body()
    for b in case["bad"]:
        ctx.event("refused:" + b)
        y = np.ones((2, dim))
        if b in ("train-nan", "train-inf"):
            y[1, 0] = np.nan if b == "train-nan" else np.inf
        refused(b, {
            "train-1d": lambda: qz.train(np.ones(dim)), "train-nan": lambda: qz.train(y), "train-inf": lambda: qz.train(y),
            "train-empty": lambda: qz.train(np.ones((0, dim + 1))),
            "quantize-1d": lambda: qz.quantize(np.ones(dim)), "quantize-dim": lambda: qz.quantize(np.ones((2, dim + 1))),
            "quantize-dim1": lambda: qz.quantize(np.ones((2, 1 if dim > 1 else 2))),
            "dequantize-dim": lambda: qz.dequantize(np.zeros((2, dim + 1), dtype=np.int32)),
            "dequantize-3d": lambda: qz.dequantize(np.zeros((1, 2, dim), dtype=np.int32))}[b])
    if case["bad"]:
        check(np.array_equal(body(), before), "refused calls changed the quantizer")
    qz.close()
    refused("quantize after close", lambda: qz.quantize(x))


def large_strategy():
    """Many vectors, many dimensions."""
    return st.one_of([st.fixed_dictionaries({
        "bits": st.sampled_from([1, 8, 8, 16, 33]), "data": data_cfg(dims, 60, dtypes=("f8", "f4", "f4", "f2", "u1")),
        "n": st.sampled_from(ns), "qdtype": st.just("same"), "retrain": st.sampled_from([None, "again"]), "bad": st.just([])})
        for dims, ns in (([1, 2, 5], [127, 129, 300, 1001, 2500]), ([128, 300, 768, 1100], [1, 2, 40]))])


TESTS = [Test("scalar", strategy, run, quick=8000, thorough=40000, shards=6),
         Test("scalar-large", large_strategy, run, quick=60, thorough=1000, shards=2)]
