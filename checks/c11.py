"""C11: the Annoy index."""
import os
import tempfile

from hypothesis import strategies as st

from harness import ixmodel
from harness.core import Test, check

PROPERTY = "C11"
LEVEL = "exploration"
RULE = ("Annoy configurations (1-6 trees, five metrics, with and without search_k, on disk or not) driven by "
        "insert/build/update/delete/delete-all/search/save/load/clear histories against a dict with naive metrics, searching also "
        "before the trees are rebuilt, and looking for temporary files left behind. "
        "Non-trivial: a search with k>0 over a non-empty index after an update or delete.")
rs = lambda c: c["rs"]


def run(case, ctx):
    d = ctx.tmp()
    old, tempfile.tempdir = tempfile.tempdir, d
    try:
        e = ixmodel.run(case, ctx)
        e.close()
        check(not os.listdir(d), "temporary files left after closing: %r", os.listdir(d))
    finally:
        tempfile.tempdir = old


# ---- known finding: save keeps metadata as JSON, which has no integer keys and no tuples
def run_saved(case, ctx):
    import numpy as np
    path = os.path.join(ctx.tmp(), "x.ann")
    a = ixmodel.make_index({"type": "annoy", "params": {"metric": "euclidean", "num_trees": 2}})
    a.initialize()
    a.insert(np.array([[1.0, 2.0]]), [case["meta"]])
    a.build()
    a.save(path)
    b = ixmodel.make_index({"type": "annoy", "params": {"metric": "euclidean", "num_trees": 2}})
    b.initialize()
    b.load(path)
    got = b.search(np.array([1.0, 2.0]), 1)[0]["metadata"]
    a.close()
    b.close()
    check(got == case["meta"], "metadata %r saved, %r loaded", case["meta"], got)


TESTS = [
    Test("annoy-history", ixmodel.case_strategy(["annoy"], backends=("memory",), reopen=False), run, quick=1600, shards=8, rs=rs),
    Test("saved-metadata", lambda: st.nothing(), run_saved, quick=0, thorough=0),
]
