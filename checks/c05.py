"""C05: what search returns, after any history, over the storage-backed indices."""
from harness import ixmodel
from harness.core import Test

PROPERTY = "C05"
LEVEL = "exploration"
RULE = ("Histories of insert/update/delete/delete-all/reopen/search over flat, IVF and HNSW indices with "
        "any storage backend, directly or through the client, judged against a dict with naive metrics. "
        "Non-trivial: a search with k>0 over a non-empty collection after an update, delete or reopen.")
rs = lambda c: c["rs"]
TESTS = [
    Test("flat-history", ixmodel.case_strategy(["flat"]), ixmodel.run, quick=900, shards=2, rs=rs),
    Test("ivf-history", ixmodel.case_strategy(["ivf", "ivf-full"]), ixmodel.run, quick=900, shards=3, rs=rs),
    Test("hnsw-history", ixmodel.case_strategy(["hnsw"]), ixmodel.run, quick=900, shards=2, rs=rs),
]
