"""C17: product quantization."""
import numpy as np
from hypothesis import strategies as st

from checks.c16 import query_forms, refused, train
from checks.qdata import data_cfg, make
from harness.core import Test, check

PROPERTY = "C17"
LEVEL = "exploration"
RULE = ("Training sets of 1-120 vectors (seven shapes, eight dtypes), 1-6 subvectors, 1-300 centroids; encoded: the "
        "training set, fresh vectors, codewords. The codebook is read back by decoding every code. Non-trivial: more "
        "than one centroid and more than one distinct training vector.")


def strategy():
    return st.integers(1, 6).flatmap(lambda m: st.fixed_dictionaries({
        "m": st.just(m),
        "k": st.one_of(st.integers(1, 12), st.sampled_from([16, 255, 256, 257, 300])),
        "data": data_cfg([m, 2 * m, 3 * m], 40, kinds=["gauss", "grid", "clusters", "constcol", "dups", "offset", "far"]),
        "retrain": st.sampled_from([None, "reinit", "again"]),
        "bad": st.lists(st.sampled_from(["train-1d", "train-nan", "train-inf", "train-empty", "train-dim", "quantize-1d",
                                         "quantize-dim", "quantize-dim-", "dequantize-dim", "dequantize-3d"]), max_size=3)}))


def run(case, ctx):
    from valori.quantization import ProductQuantizer
    m, k = case["m"], case["k"]
    x = make(case["data"], n=case.get("n"))
    n, dim = x.shape
    sub = dim // m
    qz = ProductQuantizer({"m": m, "k": k})
    qz.initialize()
    refused("quantize before training", lambda: qz.quantize(x))
    refused("dequantize before training", lambda: qz.dequantize(np.zeros((1, m), dtype=np.uint8)))
    if case["retrain"]:
        qz.train(np.repeat(make(case["data"], n=2, salt=5) * 2.0, 2 if case["retrain"] == "reinit" else 1, axis=1))
        if case["retrain"] == "reinit":
            qz.initialize()
            refused("quantize after initialising again", lambda: qz.quantize(x))
    train(qz, x)
    xf = x.astype(float)
    distinct = max(len(np.unique(xf[:, i * sub:(i + 1) * sub], axis=0)) for i in range(m))
    s = qz.get_stats()
    ek = s["effective_k"]
    check(ek == min(k, n), "%r codes per subvector for k=%d and %d vectors", ek, k, n)
    check(s["dimensions"] == dim and s["subvector_dimensions"] == sub and s["trained"] is True, "statistics %r", s)
    ctx.nontrivial(ek > 1 and distinct > 1)
    ctx.event("k-vs-n:%s" % ("k<n" if k < n else "k>=n"))
    mag = float(np.abs(xf).max())

    book = qz.dequantize(np.repeat(np.arange(ek)[:, None], m, axis=1)).astype(float).reshape(ek, m, sub)

    def enc(v):
        v0 = v.copy()
        c = qz.quantize(v)
        check(np.array_equal(v, v0), "quantize changed its input")
        check(c.shape == (len(v), m) and c.dtype.kind in "iu", "codes %r %r for vectors %r", c.shape, c.dtype, v.shape)
        check(np.all(c.astype(int) >= 0) and np.all(c.astype(int) < ek), "codes outside 0..%d: %r", ek - 1, c)
        return c

    def body():
        fresh = make(case["data"], case["fresh"] if "n" in case else 10, salt=1)
        for what, v in (("training", x), ("fresh", fresh), ("codeword", book.reshape(ek, dim)[:20])):
            c = enc(v)
            d = qz.dequantize(c)
            check(d.shape == v.shape and d.dtype.kind == "f", "dequantized %r %r for %r", d.shape, d.dtype, v.shape)
            # decoding assembles the codewords
            for i in range(m):
                check(np.array_equal(d.astype(float).reshape(len(v), m, sub)[:, i], book[c[:, i].astype(int), i]),
                      "decoding is not made of the codewords of subvector %d", i)
            # each code is the nearest codeword
            vf = v.astype(float).reshape(len(v), m, sub)
            dist = ((vf[:, None] - book[None]) ** 2).sum(axis=3)  # (n, ek, m)
            got = np.take_along_axis(dist, c.astype(int)[:, None, :], axis=1)[:, 0]
            best = dist.min(axis=1)
            slack = 1e-5 * ((np.abs(vf).max() + mag) ** 2 * 1e-1 + best)
            check(np.all(got <= best + slack), "%s vector not encoded by its nearest codeword: %r against %r", what, got, best)
            if what == "codeword":
                check(np.allclose(d, v, rtol=1e-5, atol=1e-6 * (1 + mag)), "codeword %r decodes to %r", v, d)
            for j in range(min(3, len(v))):
                check(np.array_equal(enc(v[j:j + 1])[0], c[j]), "row %d encodes differently on its own", j)
                check(np.array_equal(qz.dequantize(c[j])[0], d[j]), "row %d decodes differently on its own", j)
                for q, qe in query_forms(fresh[j]):
                    dd, ref = qz.compute_distance(q, c[j]), float(np.linalg.norm(qe.astype(float) - d[j].astype(float)))
                    check(isinstance(dd, float) and abs(dd - ref) <= 1e-5 * (1 + ref + mag), "query %r: distance %r, Euclidean %r", q, dd, ref)
        c = enc(x)
        err = ((qz.dequantize(c).astype(float) - xf) ** 2).sum()
        base = ((xf - xf.mean(axis=0)) ** 2).sum()
        check(err <= base * (1 + 1e-4) + 1e-5 * mag**2 * x.size, "training error %r, the mean alone has %r", err, base)
        if distinct <= k and n <= k:
            check(err <= 1e-6 * mag**2 * x.size + 1e-12, "as many centroids as vectors, but the error is %r for %r", err, x)
        return c

    before = body()
    for b in case["bad"]:
        ctx.event("refused:" + b)
        y = np.ones((2, dim))
        if b in ("train-nan", "train-inf"):
            y[1, 0] = np.nan if b == "train-nan" else np.inf
        if b == "train-dim" and m == 1:
            continue
        if b == "quantize-dim-" and dim == 1:
            continue
        refused(b, {
            "train-1d": lambda: qz.train(np.ones(dim)), "train-nan": lambda: qz.train(y), "train-inf": lambda: qz.train(y),
            "train-empty": lambda: qz.train(np.ones((0, 2 * dim))), "train-dim": lambda: qz.train(np.ones((4, dim + 1))),
            "quantize-1d": lambda: qz.quantize(np.ones(dim)), "quantize-dim": lambda: qz.quantize(np.ones((2, dim + m))),
            "quantize-dim-": lambda: qz.quantize(np.ones((2, dim - 1))),
            "dequantize-dim": lambda: qz.dequantize(np.zeros((2, m + 1), dtype=np.uint8)),
            "dequantize-3d": lambda: qz.dequantize(np.zeros((1, 2, m), dtype=np.uint8))}[b])
    if case["bad"]:
        check(np.array_equal(body(), before), "refused calls changed the quantizer")
    # training is a function of the data alone
    other = ProductQuantizer({"m": m, "k": k})
    other.initialize()
    other.train(x)
    check(np.array_equal(other.quantize(x), before), "training twice on the same data gives two encodings")
    qz.close()
    refused("quantize after close", lambda: qz.quantize(x))


def large_strategy():
    """More codes than fit in a byte; many vectors; many dimensions."""
    return st.one_of([st.fixed_dictionaries({
        "m": st.sampled_from(ms), "k": st.sampled_from(ks), "n": st.sampled_from(ns), "fresh": st.sampled_from([10, 700, 1100]),
        "data": data_cfg(dims, 40, dtypes=("f8", "f4"), kinds=["gauss", "clusters", "offset", "far"]), "retrain": st.just(None), "bad": st.just([])})
        for ms, ks, ns, dims in (([1, 2], [255, 256, 257, 300], [255, 256, 258, 320], [2, 4]), ([1, 2], [2, 5], [1025, 1500], [2, 4]),
                                 ([4, 16], [3, 8], [30], [64, 192]))])


TESTS = [Test("product", strategy, run, quick=700, thorough=8000, shards=6),
         Test("product-large", large_strategy, run, quick=26, thorough=400, shards=2)]
