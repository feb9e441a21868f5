"""C14: a crash or a failing disk during a save leaves each saved item old or new, never torn or lost."""
import os
import shutil

from hypothesis import strategies as st

from harness import faultfs
from harness.core import Test, check
from checks import c13

PROPERTY = "C14"
LEVEL = "fault_enumeration"
RULE = ("A case is a persistence manager (tensor plain/compressed, incremental with checkpoint interval 1..100) "
        "prepared by a few saves, then one save of a state, vectors or an index. Every file-system event of it is "
        "failed in turn (process death before it or half-way through a write, one I/O error, disk full from there "
        "on), then everything is loaded by a fresh manager, and the history continues with further saves. "
        "Non-trivial: at least three fault points.")
ASSUMPTIONS = ["a crash keeps every completed file-system call in order (process death, not power loss)"]


def strategy():
    few = st.integers(0, 2)
    save = st.one_of(
        st.tuples(st.just("save_state"), few, c13.VALUE, few),
        st.tuples(st.just("save_state"), few, c13.VALUE, few),
        st.tuples(st.just("save_index"), few, c13.VALUE, few),
        st.tuples(st.just("save_vectors"), few, c13.arrays(), c13.IDS))
    return st.fixed_dictionaries({
        "kind": st.sampled_from(["tensor", "incremental", "incremental"]),
        "compression": st.booleans(),
        "interval": st.sampled_from([1, 2, 100]),
        "setup": st.lists(save, max_size=5),
        "reopen": st.booleans(),
        "op": save,
        "after": st.tuples(save, save)})


def key_of(kind, op):
    if op[0] == "save_state":
        return ("state", c13.FPATHS[op[1]] if kind == "tensor" else None)
    if op[0] == "save_index":
        return ("index", "i/" + c13.FPATHS[op[1]])
    return ("vectors", c13.VPATHS[op[1]])


def all_keys(kind):
    ks = [("index", "i/" + x) for x in c13.FPATHS[:3]] + [("vectors", x) for x in c13.VPATHS[:3]]
    return ks + ([("state", x) for x in c13.FPATHS[:3]] if kind == "tensor" else [("state", None)])


def value_of(op):
    return (c13.mk_array(op[2]), list(op[3])) if op[0] == "save_vectors" else c13.mk_value(op[2])


def load(p, key):
    if key[0] == "state":
        return p.load_state(key[1] or "any")
    if key[0] == "index":
        return p.load_index(key[1])
    got = p.load_vectors(key[1])
    return None if got is None or got[0] is None else (got[0], list(got[1]))


def equal(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return (a[0].shape == b[0].shape and a[0].dtype == b[0].dtype and a[0].tobytes() == b[0].tobytes()
                and c13.same_value(a[1], b[1]))
    return c13.same(a, b)


def verify(p, kind, want, victim, new, what):
    """Every key holds what was saved; the victim may hold the new value instead."""
    for k in all_keys(kind):
        got, old = load(p, k), want.get(k)
        if equal(got, old) or (k == victim and equal(got, new)):
            continue
        check(False, "%s: %s %r reads %r; before %r%s", what, k[0], k[1], got, old,
              ", being saved %r" % (new,) if k == victim else "")


def run(case, ctx):
    from valori.exceptions import PersistenceError
    kind = case["kind"]
    base = os.path.join(ctx.tmp(), "base")
    p = c13.make(case, base)
    p.initialize()
    want = {}
    for op in case["setup"]:
        c13.do_save(p, op)
        want[key_of(kind, op)] = value_of(op)
    op = case["op"]
    victim, new = key_of(kind, op), value_of(op)

    def fresh():
        d = os.path.join(os.path.dirname(base), "t")
        shutil.copytree(base, d)
        t = c13.make(case, d)
        t.initialize()
        return d, t

    d, t = fresh()
    outcome, value, fs = faultfs.trial(d, None, "crash", lambda: c13.do_save(t, op), PersistenceError)
    check(outcome == "done" and value is True, "%s gave %r", op[0], value)
    shutil.rmtree(d)
    n = len(fs.events)
    ctx.nontrivial(n >= 3)
    for at in range(n):
        for mode in faultfs.MODES:
            if mode.endswith("half") and fs.events[at] != "write":
                continue
            d, t = fresh()
            outcome, value, f2 = faultfs.trial(d, at, mode, lambda: c13.do_save(t, op), PersistenceError)
            w = "%s, %s at event %d (%s of %s)" % (op[0], mode, at, fs.events[at], ",".join(fs.events))
            ctx.event("fault:" + mode)
            now = dict(want)
            if outcome == "done":
                check(value is True, "%s: returned %r", w, value)
                now[victim] = new
            if outcome != "crash":
                verify(t, kind, now, victim, new, w + ", same object")
            if outcome == "crash" or case["reopen"]:
                t = c13.make(case, d)
                t.initialize()
            verify(t, kind, now, victim, new, w + ", reopened")
            if victim not in now or not equal(load(t, victim), now[victim]):
                now[victim] = load(t, victim)
            # life goes on: later saves win, other items stay
            for o in case["after"]:
                check(c13.do_save(t, o) is True, "%s: later %s failed", w, o[0])
                now[key_of(kind, o)] = value_of(o)
                verify(t, kind, now, None, None, w + ", then " + o[0])
            t = c13.make(case, d)
            t.initialize()
            verify(t, kind, now, None, None, w + ", then saved and reopened")
            if kind == "incremental":
                check_log(d, case, w)
            shutil.rmtree(d)


def check_log(d, case, what):
    """Every completed save is in the log, in order, as a line of its own."""
    import json
    got = []
    with open(os.path.join(d, "operations.log"), encoding="utf-8") as f:
        for line in f:
            try:
                e = json.loads(line)
                got.append((e["operation"], e["data"]["path"], e["operation_id"]))
            except ValueError:
                pass  # the torn line of the interrupted save itself
    names = lambda ops: [(o[0], key_of("tensor", o)[1]) for o in ops]
    opt = [x[:2] for x in got]
    pre, post = names(case["setup"]), names(case["after"])
    check(opt in (pre + post, pre + names([case["op"]]) + post),
          "%s: the log lists %r; completed %r then %r", what, opt, pre, post)
    nums = [x[2] for x in got]
    check(nums == sorted(set(nums)), "%s: operation ids %r do not increase", what, nums)


TESTS = [Test("persistence-faults", strategy, run, quick=200, thorough=3000, shards=8)]
