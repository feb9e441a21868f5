"""C18: segmented and adjusted quantization (SAQ)."""
import numpy as np
from hypothesis import strategies as st

from checks.c16 import cos_distance, query_forms, refused, train
from checks import qdata
from checks.qdata import data_cfg
from harness.core import Test, check

PROPERTY = "C18"
LEVEL = "exploration"
RULE = ("Training sets of 1-40 vectors (seven shapes, eight dtypes) of 1-9 dimensions, 1-10 segments, 1-300 bits, any "
        "rescoring depth; encoded: the training set and fresh vectors; searches with rescoring. Non-trivial: at least two "
        "segments and three distinct training vectors.")


def make(c, *a, **k):
    """Half-precision values small enough to lose digits are left out: the tolerances are relative."""
    x = qdata.make(c, *a, **k)
    return np.where(np.abs(x) < 1e-3, np.float16(0), x) if c["dtype"] == "f2" else x


def strategy():
    return st.fixed_dictionaries({
        "bits": st.one_of(st.integers(1, 24), st.sampled_from([64, 128, 300])),
        "segments": st.integers(1, 10),
        "iters": st.integers(0, 4),
        "rescore": st.sampled_from([1, 2, 5, 50]),
        "data": data_cfg([1, 2, 3, 4, 6, 9], 40),
        "retrain": st.sampled_from([None, "reinit", "again"]),
        "k": st.integers(1, 12),
        "form": st.integers(0, 3),
        "bad": st.lists(st.sampled_from(["train-1d", "train-nan", "train-inf", "train-empty", "quantize-1d", "quantize-dim",
                                         "quantize-dim-", "dequantize-dim", "dequantize-3d"]), max_size=3)})


def search(qz, case, x, cx, dx, query, effective):
    """The best of the candidates by exact distance; the candidates are the best by code."""
    n, q, xf = len(x), effective.astype(float), x.astype(float)
    idx, dist = qz.search_with_rescoring(query, cx, case["k"])
    idx = [int(i) for i in idx]
    depth = min(case["rescore"], n)
    check(len(idx) == min(case["k"], depth) == len(dist), "%d results for k=%d, rescoring %d of %d", len(idx), case["k"],
          case["rescore"], n)
    check(len(set(idx)) == len(idx) and all(0 <= i < n for i in idx), "indices %r of %d", idx, n)
    exact = np.array([cos_distance(q, v) for v in xf])
    approx = np.array([cos_distance(q, v) for v in dx])
    check(np.all(np.abs(np.asarray(dist, float) - exact[idx]) <= 1e-5), "distances %r, exact %r", dist, exact[idx])
    check(np.all(np.diff(np.asarray(dist, float)) >= 0), "distances are not ascending: %r", dist)
    cut = np.sort(approx)[depth - 1]
    check(np.all(approx[idx] <= cut + 1e-5), "result %r is not among the %d best by code", idx, depth)
    worst = max(exact[idx])
    for j in range(n):
        if approx[j] < cut - 1e-5 and j not in idx:
            check(len(idx) == case["k"] and exact[j] >= worst - 1e-5,
                  "candidate %d at %r was left out of %r", j, exact[j], list(zip(idx, dist)))


def run(case, ctx):
    from valori.exceptions import ValoriError
    from valori.quantization import SAQQuantizer
    x = make(case["data"])
    n, dim = x.shape
    bits, segs = case["bits"], min(case["segments"], dim)

    def new():
        q = SAQQuantizer({"total_bits": bits, "n_segments": case["segments"], "adjustment_iters": case["iters"],
                          "rescore_top_k": case["rescore"]})
        q.initialize()
        return q

    qz = new()
    refused("quantize before training", lambda: qz.quantize(x))
    refused("dequantize before training", lambda: qz.dequantize(np.zeros((1, segs), dtype=int)))
    refused("search before training", lambda: qz.search_with_rescoring(x[0], np.zeros((1, segs), dtype=int), 1))
    if bits < segs:
        # not even one bit per segment
        try:
            qz.train(x)
        except ValoriError:
            return
    if case["retrain"] and bits >= 3:
        small = dict(case["data"], dim=1 + dim // 2)
        qz.train(make(small, n=3, salt=5) / 2)
        if case["retrain"] == "reinit":
            qz.initialize()
            refused("quantize after initialising again", lambda: qz.quantize(x))
    train(qz, x)
    xf = x.astype(float)
    mean, std = xf.mean(axis=0), xf.std(axis=0)
    std = np.where(std <= 1e-6 * (np.abs(mean) + 1e-300), 1.0, std)
    mag = np.abs(xf).max(axis=0) + std
    s = qz.get_stats()
    bounds = [(int(a), int(b)) for a, b in s["segment_boundaries"]]
    check(bounds[0][0] == 0 and bounds[-1][1] == dim and all(a[1] == b[0] for a, b in zip(bounds, bounds[1:]))
          and all(a < b for a, b in bounds), "segments %r do not partition %d dimensions", bounds, dim)
    check(len(bounds) == segs, "%d segments, configured %d over %d dimensions", len(bounds), case["segments"], dim)
    if bits >= segs:
        check(sum(s["segment_bits"]) == bits and min(s["segment_bits"]) >= 1, "bits %r of %d", s["segment_bits"], bits)
    check(s["dimensions"] == dim and s["trained"] is True and s["total_bits"] == bits, "statistics %r", s)
    check(abs(s["compression_ratio"] - dim * 32 / bits) < 1e-9 * dim * 32, "compression ratio %r", s["compression_ratio"])
    ctx.nontrivial(segs > 1 and len(np.unique(xf, axis=0)) > 2)
    ctx.event("segments:%d" % segs)
    eps = 3e-5 if case["data"]["dtype"] not in ("f2",) else 2e-2

    def enc(v):
        v0 = v.copy()
        c = qz.quantize(v)
        check(np.array_equal(v, v0), "quantize changed its input")
        check(c.shape == (len(v), segs) and c.dtype.kind in "iu", "codes %r %r for vectors %r", c.shape, c.dtype, v.shape)
        check(np.all(c >= 0), "negative code %r", c)
        return c

    def body():
        fresh = make(case["data"], 8, salt=1)
        cx = enc(x)
        books = [np.unique(cx[:, i]) for i in range(segs)]
        # codewords in use, decoded: books[i][j] -> values of segment i
        words = []
        for i, (a, b) in enumerate(bounds):
            rows = np.repeat(cx[:1], len(books[i]), axis=0)
            rows[:, i] = books[i]
            words.append(qz.dequantize(rows).astype(float)[:, a:b])
        for what, v in (("training", x), ("fresh", fresh)):
            c = enc(v)
            d = qz.dequantize(c)
            check(d.shape == v.shape and d.dtype.kind == "f", "dequantized %r %r for %r", d.shape, d.dtype, v.shape)
            vf, df = v.astype(float), d.astype(float)
            for i, (a, b) in enumerate(bounds):
                # distances in standardised units
                z = (vf[:, a:b] - mean[a:b]) / std[a:b]
                got = (((df[:, a:b] - vf[:, a:b]) / std[a:b]) ** 2).sum(axis=1)
                alt = (((vf[:, None, a:b] - words[i][None]) / std[a:b]) ** 2).sum(axis=2).min(axis=1)
                unit = (mag[a:b] / std[a:b]).max()
                slack = eps * ((np.abs(z).max() + unit) ** 2 + 1)
                check(np.all(got <= alt + slack), "%s vector: segment %d decodes at %r, another codeword lies at %r", what, i, got, alt)
            for j in range(min(3, len(v))):
                alone = qz.dequantize(enc(v[j:j + 1])).astype(float)[0]
                g = (((alone - vf[j]) / std) ** 2).sum()
                h = (((df[j] - vf[j]) / std) ** 2).sum()
                check(abs(g - h) <= eps * (1 + h + ((mag / std).max()) ** 2), "row %d is encoded differently on its own", j)
                check(np.array_equal(qz.dequantize(c[j])[0], d[j]), "row %d decodes differently on its own", j)
                for q, qe in query_forms(fresh[j]):
                    dd, ref = qz.compute_distance(q, c[j]), cos_distance(qe.astype(float), df[j])
                    check(isinstance(dd, float) and abs(dd - ref) <= 1e-5, "query %r: distance %r, cosine distance %r", q, dd, ref)
        dx = qz.dequantize(cx).astype(float)
        if all(2**min(b, 30) >= n for b in s["segment_bits"]):
            ctx.event("lossless")
            # (training vectors closer than the square root of the precision may share a code)
            check(np.all(np.abs(dx - xf) <= max(2e-3, 3 * eps) * mag), "a code for every training vector, but %r comes back as %r", x, dx)
        mse = (((dx - xf) / std) ** 2).mean()
        check(mse <= ((xf - mean) ** 2 / std**2).mean() * (1 + 1e-3) + eps * ((mag / std).max()) ** 2,
              "training error %r exceeds that of the mean", mse)
        # search: the best of the candidates by exact distance
        search(qz, case, x, cx, dx, *list(query_forms(fresh[0]))[case["form"] % (4 if dim > 1 else 3)])
        return cx

    before = body()
    for b in case["bad"]:
        ctx.event("refused:" + b)
        y = np.ones((2, dim))
        if b in ("train-nan", "train-inf"):
            y[1, 0] = np.nan if b == "train-nan" else np.inf
        if b == "quantize-dim-" and dim == 1:
            continue
        refused(b, {
            "train-1d": lambda: qz.train(np.ones(dim)), "train-nan": lambda: qz.train(y), "train-inf": lambda: qz.train(y),
            "train-empty": lambda: qz.train(np.ones((0, dim + 1))),
            "quantize-1d": lambda: qz.quantize(np.ones(dim)), "quantize-dim": lambda: qz.quantize(np.ones((2, dim + 1))),
            "quantize-dim-": lambda: qz.quantize(np.ones((2, dim - 1))),
            "dequantize-dim": lambda: qz.dequantize(np.zeros((2, segs + 1), dtype=np.int32)),
            "dequantize-3d": lambda: qz.dequantize(np.zeros((1, 2, segs), dtype=np.int32))}[b])
    if case["bad"]:
        check(np.array_equal(body(), before), "refused calls changed the quantizer")
    # training is a function of the data alone, not of what the object was trained on before
    other = new()
    other.train(x)
    check(np.array_equal(other.quantize(x), before), "a fresh quantizer trained on the same data encodes differently")
    qz.close()
    refused("quantize after close", lambda: qz.quantize(x))


def large_strategy():
    return st.fixed_dictionaries({
        "n": st.sampled_from([999, 1000, 1001, 1030, 2001]),
        "bits": st.integers(4, 10),
        "rescore": st.sampled_from([1, 5, 50, 1500]),
        "data": data_cfg([2, 4, 8], 40, dtypes=("f8", "f4"), kinds=["gauss", "offset", "far"]),
        "k": st.sampled_from([1, 10, 1200]),
        "form": st.integers(0, 3)})


def run_large(case, ctx):
    from valori.quantization import SAQQuantizer
    x = make(case["data"], n=case["n"])
    qz = SAQQuantizer({"total_bits": case["bits"], "n_segments": 2, "rescore_top_k": case["rescore"]})
    qz.initialize()
    train(qz, x)
    cx = qz.quantize(x)
    ctx.nontrivial(case["n"] > 1000)
    ctx.event("vectors:%s" % (">1000" if case["n"] > 1000 else "<=1000"))
    q = x[-1] * 1.01
    search(qz, case, x, cx, qz.dequantize(cx).astype(float), *list(query_forms(q))[case["form"]])


TESTS = [Test("saq", strategy, run, quick=800, thorough=8000, shards=8),
         Test("saq-large", large_strategy, run_large, quick=32, thorough=400, shards=8)]
