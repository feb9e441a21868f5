"""C12: refused calls."""
from harness import ixmodel
from harness.core import Test

PROPERTY = "C12"
LEVEL = "exploration"
RULE = ("Histories over every index type into which calls that must be refused are mixed: wrong dimension or "
        "rank, NaN/infinite values, zero-dimensional vectors, too few metadata, unknown and look-alike ids. "
        "After each one the records, counters and search results are compared with the model. Non-trivial: "
        "a refused call against a non-empty collection.")
rs = lambda c: c["rs"]
TESTS = [
    Test("refused-" + k[0], ixmodel.case_strategy(k, bad=True, backends=("memory", "disk") if k[0] not in ("lsh", "annoy") else ("memory",)), ixmodel.run, quick=400, shards=1, rs=rs)
    for k in (["flat"], ["ivf", "ivf-full"], ["hnsw"], ["lsh"], ["annoy"])
]
