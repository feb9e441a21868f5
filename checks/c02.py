"""C02: disk and hybrid storage are durable across close/reopen and across backends."""
import os
import pickle

import numpy as np
from hypothesis import strategies as st

from harness.core import Test, check
from harness.gens import metas
from checks import c01

PROPERTY = "C02"
LEVEL = "exploration"
RULE = ("Histories of store/update/delete/retrieve over disk and hybrid backends interleaved with "
        "reopening the data directory, after a close or after abandoning the old object, as either "
        "backend; after each reopen every id, the id listing and the counters are compared with a "
        "dict. Non-trivial: an id is overwritten, updated or deleted, or a reopen follows such a write.")


def old_strategy():
    rec = st.tuples(st.sampled_from(["a", "b", "c-1", "d.e"]), st.lists(st.floats(width=32, allow_nan=False), max_size=4), metas)
    return st.fixed_dictionaries({
        "backend": st.sampled_from(["disk", "hybrid"]),
        "records": st.lists(rec, max_size=4, unique_by=lambda r: r[0]),
        "ops": st.lists(st.tuples(st.sampled_from(["store", "update", "delete", "reopen"]), rec), max_size=6)})


def run_old(case, ctx):
    """Directories of earlier versions keep the metadata in metadata/<id>.pkl beside vectors/<id>.npy."""
    d = ctx.tmp()
    model = {}
    for sub in ("vectors", "metadata"):
        os.makedirs(os.path.join(d, sub))
    for i, v, m in case["records"]:
        v = np.array(v, np.float32)
        np.save(os.path.join(d, "vectors", i + ".npy"), v)
        if m is not None:
            with open(os.path.join(d, "metadata", i + ".pkl"), "wb") as f:
                pickle.dump(m, f)
        model[i] = (v, m)
    s = c01.make(case["backend"], d, 2)
    s.initialize()
    ids = ["a", "b", "c-1", "d.e"]
    c01.check_all(s, model, ids, "in the older directory")
    for k, (i, v, m) in case["ops"]:
        v = np.array(v, np.float32)
        if k == "store" or k == "update":
            r = (s.store_vector if k == "store" else s.update_vector)(i, v, m)
            check(r is (k == "store" or i in model), "%s of %r returned %r", k, i, r)
            if r:
                model[i] = (v, m)
                ctx.nontrivial()
        elif k == "delete":
            check(s.delete_vector(i) is (i in model), "wrong result of delete")
            model.pop(i, None)
        else:
            s.close()
            s = c01.make(case["backend"], d, 2)
            s.initialize()
        c01.check_all(s, model, ids, "after " + k)
    s.close()


TESTS = [
    Test("reopen-history", c01.case_strategy(True, ("disk", "hybrid")), c01.run, quick=2000, shards=6),
    Test("large-history", c01.case_strategy(True, ("disk", "hybrid"), True), c01.run, quick=16, thorough=400),
    Test("older-directory", old_strategy, run_old, quick=80),
]
