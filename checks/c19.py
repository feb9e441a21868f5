"""C19: similarity and distance functions against exact rational arithmetic."""
import math
from fractions import Fraction as F

import numpy as np
from hypothesis import strategies as st

from harness.core import Test, Violation, check

PROPERTY = "C19"
LEVEL = "exploration"
RULE = ("Triples of vectors of 1-8 dimensions in eight dtypes (mixed within a case) and three memory layouts, values from small "
        "integers, the dtype's limits and floats between 1e-100 and 1e100; batches of 0-5 vectors. Non-trivial: two "
        "different non-zero vectors.")
DT = ["<f8", "<f8", "<f4", "<f2", "<i8", "<i4", "|i1", "|u1"]


def value(dt):
    if dt in ("<f8", "<f4"):
        big = 1e100 if dt == "<f8" else 1e30
        return st.one_of(st.integers(-4, 4).map(float), st.floats(-10, 10, width=32, allow_subnormal=False),
                         st.sampled_from([0.0, -0.0, 1.0, big, -big, 1 / big, 3e-15, 1e8, 0.1]))
    if dt == "<f2":
        return st.one_of(st.integers(-4, 4).map(float), st.sampled_from([65504.0, -65504.0, 300.0, 6e-5, -6e-5, 6e-8]))
    i = np.iinfo(dt)
    lim = min(i.max, 2**53)
    return st.one_of(st.integers(max(-4, i.min), 4), st.sampled_from([max(i.min, -lim), lim, lim // 2, lim // 3]))


@st.composite
def vec(draw, n):
    dt = draw(st.sampled_from(DT))
    base = draw(st.sampled_from(["any", "any", "any", "zero", "const"]))
    if base == "zero":
        v = [0] * n
    elif base == "const":
        v = [draw(value(dt))] * n
    else:
        v = draw(st.lists(value(dt), min_size=n, max_size=n))
    return dt, draw(st.sampled_from(["C", "rev", "ro", "stride"])), v


def arr(c):
    dt, layout, v = c
    a = np.array(v, dtype=dt)
    if layout == "rev":
        a = a[::-1].copy()[::-1]
    elif layout == "stride":
        b = np.zeros(2 * len(a), dtype=dt)
        b[::2] = a
        a = b[::2]
    elif layout == "ro":
        a.setflags(write=False)
    return a


@st.composite
def strategy(draw):
    n = draw(st.integers(1, 8))
    vs = [draw(vec(n)) for _ in range(3)]
    if draw(st.integers(0, 3)) == 0:  # parallel or opposite vectors, exactly
        k = draw(st.sampled_from([1, 2, -1, -4]))
        vs[0] = ("<f8", "C", [float(x) for x in arr(vs[0])])
        vs[1] = ("<f8", "C", [k * x for x in vs[0][2]])
    elif draw(st.integers(0, 5)) == 0:  # nearly the same vector
        vs[0] = ("<f8", "C", [float(x) for x in arr(vs[0])])
        rel = draw(st.lists(st.sampled_from([0.0, 1e-9, -1e-9, 1e-7, 3e-6, -1e-12]), min_size=n, max_size=n))
        vs[1] = ("<f8", "C", [x * (1 + r) for x, r in zip(vs[0][2], rel)])
    return {"vs": vs, "other": draw(vec(draw(st.integers(1, 8).filter(lambda m: m != n)))),
            "na": draw(st.integers(1, 5)), "nb": draw(st.integers(1, 5)), "norm": draw(st.sampled_from(["l1", "l2", "max"]))}


def ex(a):
    return [F(float(x)) if a.dtype.kind == "f" else F(int(x)) for x in a]


def fsqrt(f):
    """Square root of a non-negative Fraction, correctly rounded enough."""
    if f == 0:
        return 0.0
    e = 0
    n, d = f.numerator, f.denominator
    sh = max(0, 240 - (n.bit_length() - d.bit_length())) // 2 * 2
    return math.ldexp(float(math.isqrt((n << sh) // d)), -(sh // 2)) if sh < 2000 else float(F(math.isqrt((n << sh) // d), 1 << (sh // 2)))


def close(got, want, scale, what, a, b):
    """scale: the size of the terms that were summed."""
    got = float(got)
    check(abs(got - want) <= 1e-12 * scale + 1e-290, "%s of %r and %r is %r, exactly it is %r", what, a, b, got, want)


def ref(a, b):
    A, B = ex(a), ex(b)
    dot = sum(x * y for x, y in zip(A, B))
    na, nb = fsqrt(sum(x * x for x in A)), fsqrt(sum(x * x for x in B))
    diffs = [abs(x - y) for x, y in zip(A, B)]
    pa, pb = [x > 0 for x in A], [x > 0 for x in B]
    union = sum(x or y for x, y in zip(pa, pb))
    big = [abs(x) + abs(y) for x, y in zip(A, B)]
    return {"dot_product": (float(dot), float(sum(abs(x * y) for x, y in zip(A, B)))),
            "euclidean_distance": (fsqrt(sum(d * d for d in diffs)), float(sum(big))),
            "euclidean_distance_squared": (float(sum(d * d for d in diffs)), float(sum(d * (d + g) for d, g in zip(diffs, big)))),
            "manhattan_distance": (float(sum(diffs)), float(sum(big))),
            "chebyshev_distance": (float(max(diffs)), float(max(big))),
            "hamming_distance": (float(sum(x != y for x, y in zip(pa, pb))), 0.0),
            "jaccard_similarity": (sum(x and y for x, y in zip(pa, pb)) / union if union else 1.0, 1e-3),
            "jaccard_distance": (1 - (sum(x and y for x, y in zip(pa, pb)) / union if union else 1.0), 1e-3),
            "cosine_similarity": (0.0 if na == 0 or nb == 0 else float(F(dot) / (F(na) * F(nb))), 1.0),
            "cosine_distance": (1.0 if na == 0 or nb == 0 else 1 - float(F(dot) / (F(na) * F(nb))), 1.0)}


def run(case, ctx):
    from valori.utils import similarity as S
    import valori.utils as U
    vs = [arr(c) for c in case["vs"]]
    a, b, c = vs
    keep = [v.copy() for v in vs]
    ctx.nontrivial(bool(np.any(a)) and bool(np.any(b)) and not np.array_equal(a, b))
    for x, y in ((a, b), (b, c), (a, a)):
        r = ref(x, y)
        for name, (want, scale) in r.items():
            f = getattr(S, name)
            got = f(x, y)
            check(np.ndim(got) == 0, "%s returned %r", name, got)
            close(got, want, scale, name, x, y)
            check(abs(float(f(y, x)) - float(got)) <= 1e-12 * scale, "%s is not symmetric for %r and %r", name, x, y)
            if name.endswith("distance") or name.endswith("squared"):
                check(float(got) >= 0, "%s of %r and %r is negative: %r", name, x, y, got)
            if name.startswith("cosine_sim"):
                check(-1 <= float(got) <= 1, "cosine similarity of %r and %r is %r", x, y, got)
            if name.startswith("jaccard"):
                check(0 <= float(got) <= 1, "%s of %r and %r is %r", name, x, y, got)
    for name in ("euclidean_distance", "manhattan_distance", "chebyshev_distance", "hamming_distance", "jaccard_distance"):
        f = getattr(S, name)
        check(float(f(a, a)) == 0, "%s of %r to itself is %r", name, a, f(a, a))
        ab, bc, ac = float(f(a, b)), float(f(b, c)), float(f(a, c))
        check(ac <= (ab + bc) * (1 + 1e-12) + 1e-290, "%s: triangle %r %r %r", name, ab, bc, ac)
    for name in ("cosine_similarity", "euclidean_distance", "dot_product"):
        check(float(getattr(U, name)(a, b)) == float(getattr(S, name)(a, b)), "valori.utils.%s differs", name)

    # batches equal the single calls
    rows = lambda m, off: np.stack([vs[(i + off) % 3].astype(float) for i in range(m)])
    A, B = rows(case["na"], 0), rows(case["nb"], 1)
    m = S.batch_cosine_similarity(A, B)
    check(m.shape == (len(A), len(B)), "batch of %d and %d gives shape %r", len(A), len(B), m.shape)
    for i in range(len(A)):
        for j in range(len(B)):
            want = ref(A[i], B[j])["cosine_similarity"][0]
            close(m[i, j], want, 1.0, "batch cosine", A[i], B[j])
            check(-1 <= m[i, j] <= 1, "batch cosine %r", m[i, j])
    n0 = np.stack([a, a])
    m = S.batch_cosine_similarity(n0, b.reshape(1, -1))
    close(m[0, 0], ref(a, b)["cosine_similarity"][0], 1.0, "batch cosine", a, b)
    check(S.batch_cosine_similarity(np.zeros((0, len(a))), B).shape == (0, len(B)), "empty batch")

    # normalising
    for v in vs:
        for norm in (case["norm"],):
            u = S.normalize_vector(v, norm)
            V = ex(v)
            size = {"l1": sum(abs(x) for x in V), "max": max(abs(x) for x in V), "l2": F(fsqrt(sum(x * x for x in V)))}[norm]
            check(u.shape == v.shape, "normalized shape %r", u.shape)
            eps = float(np.finfo(u.dtype).eps) if u.dtype.kind == "f" else 0
            tiny = float(np.finfo(u.dtype).tiny) if u.dtype.kind == "f" else 0
            for x, y in zip(V, u):
                want = float(x / size) if size else 0.0
                check(abs(float(y) - want) <= 4 * eps * abs(want) + 4 * eps * tiny + 1e-300, "%s-normalized %r is %r", norm, v, u)
            if size == 0:
                check(not np.any(u), "normalized zero vector %r", u)
            check(not np.shares_memory(u, v), "normalizing returns the caller's memory")
    for v, k in zip(vs, keep):
        check(np.array_equal(v, k), "an argument was changed: %r was %r", v, k)

    # malformed arguments
    o = arr(case["other"])

    def bad(what, fn):
        try:
            got = fn()
        except ValueError:
            return
        raise Violation("%s was accepted: %r" % (what, got))
    for name in ref(a, b):
        f = getattr(S, name)
        bad(name + " of different lengths", lambda: f(a, o))
        bad(name + " of a 2D array", lambda: f(a.reshape(1, -1), b))
        bad(name + " of a 2D array", lambda: f(a, b.reshape(-1, 1)))
    bad("batch of different widths", lambda: S.batch_cosine_similarity(A, np.ones((2, A.shape[1] + 1))))
    bad("batch of 1D", lambda: S.batch_cosine_similarity(A, B[0]))
    bad("normalize 2D", lambda: S.normalize_vector(A))
    bad("unknown norm", lambda: S.normalize_vector(a, "l3"))


@st.composite
def long_strategy(draw):
    """Many dimensions and large batches, drawn from a seed."""
    n = draw(st.sampled_from([100, 128, 256, 260, 300, 520, 769]))
    rng = np.random.default_rng(draw(st.integers(0, 2**20)))
    vs = []
    for i in range(3):
        dt = draw(st.sampled_from(["<f8", "<f4", "<f2", "|i1", "|u1", "<i4"]))
        kind = draw(st.sampled_from(["gauss", "gauss", "positive", "negative", "copy", "opposite", "sparse", "offset"]))
        v = rng.standard_normal(n)
        if kind in ("positive", "negative"):
            v = (1 + np.abs(v)) * (1 if kind == "positive" else -1)
        elif kind in ("copy", "opposite") and vs:
            v = arr(vs[0]).astype(float) / 10 * (1 if kind == "copy" else -1)
        elif kind == "sparse":
            v = np.where(rng.random(n) < 0.02, v, 0)
        elif kind == "offset":
            v = v / 10 + 5
        v = np.clip(v * 10, 0 if dt == "|u1" else -120, 120).astype(dt)
        vs.append((dt, draw(st.sampled_from(["C", "rev", "ro", "stride"])), v.tolist()))
    return {"vs": vs, "other": ("<f8", "C", [1.0] * (n - 1)), "na": draw(st.sampled_from([1, 3, 70, 130])), "nb": draw(st.sampled_from([1, 2])),
            "norm": draw(st.sampled_from(["l1", "l2", "max"]))}


TESTS = [Test("long-vectors", long_strategy, run, quick=120, thorough=2000, shards=6), Test("similarity", strategy, run, quick=4000, thorough=60000, shards=8)]
