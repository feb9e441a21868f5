"""C10: the LSH index."""
import numpy as np
from hypothesis import strategies as st

from harness import ixmodel
from harness.core import Test, check

PROPERTY = "C10"
LEVEL = "exploration"
RULE = ("LSH configurations (1-6 tables, hash_size 1-12 against 1-12 projections, three metrics, thresholds) "
        "driven by insert/update/delete/search histories against a dict. Non-trivial: a search with k>0 "
        "over a non-empty index after an update or delete; for the metamorphic test, a candidate set with "
        "at least two members.")
rs = lambda c: c["rs"]


def run(case, ctx):
    e = ixmodel.run(case, ctx)
    p = e.params
    if not e.model:
        return
    for q in [v for v, _ in list(e.model.values())[:3]] + [e.arr(([2, -1, 1, 3] * 2)[:case["dim"]])]:
        n = len(e.model) + 3
        ql = [float(x) for x in q]
        everything = e.index.search(q, n, threshold=-2.0)
        e2 = [(r["id"], r["distance"]) for r in everything]
        if len(e2) > 1:
            ctx.nontrivial()
            ctx.event("metamorphic-search")
        # repeating a search gives the same answer
        check([(r["id"], r["distance"]) for r in e.index.search(q, n, threshold=-2.0)] == e2,
              "the same search gave two answers")
        # a threshold only filters
        for t in (0.0, 0.25, e2[0][1] if e2 else 0.5, e2[len(e2) // 2][1] if e2 else 0.5):
            got = [(r["id"], r["distance"]) for r in e.index.search(q, n, threshold=t)]
            check(sorted(got) == sorted(x for x in e2 if x[1] >= t),
                  "threshold %r gave %r, the unfiltered result is %r", t, got, e2)
        # k only truncates
        for k in (0, 1, 2, 3):
            got = [r["distance"] for r in e.index.search(q, k, threshold=-2.0)]
            check(got == [d for _, d in e2][:k], "k=%d gave %r, all results are %r", k, got, e2)
        # near misses: no hash differs by more than two bits when hash_size <= 2
        if p["hash_size"] <= 2:
            check(e2, "no candidate for %r although every bucket is within two bits", ql)
    # the same seed and the same vectors give the same index
    ids = sorted(e.model, key=int)
    a, b = ixmodel.make_index(case["cfg"]), ixmodel.make_index(case["cfg"])
    rows = np.array([e.model[i][0] for i in ids])
    for ix in (a, b):
        ix.initialize(None)
    a.insert(rows, [{} for _ in ids])
    for r in rows:
        b.insert(np.array([r]), [{}])
    q = e.arr(([1, 1, -2, 2] * 2)[:case["dim"]])
    ra = [(r["id"], r["distance"]) for r in a.search(q, 999, threshold=-2.0)]
    rb = [(r["id"], r["distance"]) for r in b.search(q, 999, threshold=-2.0)]
    check(sorted(ra) == sorted(rb), "one batch and single inserts differ: %r, %r", ra, rb)
    # ... and an index that was edited answers like one built directly from the survivors
    live = sorted((d for i, d in ((str(r["id"]), r["distance"]) for r in e.index.search(q, 999, threshold=-2.0))))
    check(np.allclose(live, sorted(d for _, d in ra), atol=1e-6),
          "after the history the index scores %r, one built from the same records %r", live, ra)


TESTS = [
    Test("lsh-history", ixmodel.case_strategy(["lsh"], backends=("memory",), reopen=False), run,
         quick=1200, shards=4, rs=rs),
]
