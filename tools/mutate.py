"""Mutation testing: which small changes of the code under test do the checks miss?
usage: tools/mutate.py FILE:CHECK[,CHECK...] [...] [--n N] [--width W] [--seed S] [--out FILE]
Every mutant runs in a scratch copy of /repo; survivors are written to --out with their diff."""
import ast
import copy
import json
import os
import random
import subprocess
import sys
import tempfile
import difflib
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
        ast.Is: ast.IsNot, ast.IsNot: ast.Is}
ARITH = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Add, ast.Pow: ast.Mult}


def quiet(node):
    """Statements whose change shows only in messages."""
    s = ast.unparse(node)
    return isinstance(node, ast.Raise) or s.startswith(("self.logger", "logger", "logging", "print", "import", "from", "warnings"))


def sites(tree):
    """[(describe, apply)] where apply changes the tree in place."""
    out = []

    def visit(node, parent, field, idx, fn):
        def put(new, what):
            def go():
                if idx is None:
                    setattr(parent, field, new)
                else:
                    getattr(parent, field)[idx] = new
            out.append((node, fn, what, go))
        if isinstance(node, ast.stmt) and quiet(node):
            return
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fn = node.name
        if fn is not None:
            if isinstance(node, ast.Compare) and type(node.ops[0]) in SWAP:
                n = copy.deepcopy(node)
                n.ops[0] = SWAP[type(node.ops[0])]()
                put(n, "cmp")
            if isinstance(node, ast.BoolOp):
                n = copy.deepcopy(node)
                n.op = ast.And() if isinstance(node.op, ast.Or) else ast.Or()
                put(n, "boolop")
                for i in range(len(node.values)):
                    n = copy.deepcopy(node)
                    del n.values[i]
                    put(n if len(n.values) > 1 else n.values[0], "boolop-drop")
            if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
                put(copy.deepcopy(node.operand), "unary")
            if isinstance(node, ast.BinOp) and type(node.op) in ARITH and not (isinstance(node.left, ast.JoinedStr) or isinstance(node.right, ast.Constant) and isinstance(node.right.value, str)):
                n = copy.deepcopy(node)
                n.op = ARITH[type(node.op)]()
                put(n, "arith")
                put(copy.deepcopy(node.left), "arith-left")
            if isinstance(node, ast.Constant) and not isinstance(parent, ast.Expr):
                if isinstance(node.value, bool):
                    put(ast.Constant(not node.value), "bool")
                elif isinstance(node.value, int):
                    put(ast.Constant(node.value + 1), "int+1")
                elif isinstance(node.value, float):
                    put(ast.Constant(node.value * 2 or 1.0), "float*2")
            if isinstance(node, ast.Call):
                f = node.func
                if isinstance(f, ast.Attribute) and f.attr in ("copy", "deepcopy", "sorted", "list", "dict", "set", "float", "lower", "strip", "astype", "asarray", "array", "ascontiguousarray", "resolve"):
                    put(copy.deepcopy(f.value if not node.args or f.attr in ("astype",) else node.args[0]), "unwrap")
                if isinstance(f, ast.Name) and f.id in ("list", "dict", "set", "sorted", "float", "int", "str", "abs", "max", "min", "tuple") and node.args:
                    put(copy.deepcopy(node.args[0]), "unwrap")
                for i, k in enumerate(node.keywords):
                    n = copy.deepcopy(node)
                    del n.keywords[i]
                    put(n, "drop-kw")
            if isinstance(node, (ast.If, ast.While)) and isinstance(node, ast.If):
                n = copy.deepcopy(node)
                n.test = ast.Constant(False)
                put(n, "if-false")
                n = copy.deepcopy(node)
                n.test = ast.Constant(True)
                put(n, "if-true")
            if isinstance(node, ast.IfExp):
                put(copy.deepcopy(node.body), "ifexp")
                put(copy.deepcopy(node.orelse), "ifexp")
            if isinstance(node, (ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
                if not (isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name)):
                    put(ast.Pass(), "drop-stmt")
            if isinstance(node, ast.Break):
                put(ast.Continue(), "break")
            if isinstance(node, ast.Continue):
                put(ast.Pass(), "continue")
            if isinstance(node, ast.With) and "lock" in ast.unparse(node.items[0]):
                pass
            if isinstance(node, ast.Try) and node.finalbody:
                n = copy.deepcopy(node)
                n.finalbody = [ast.Pass()]
                put(n, "drop-finally")
        for fld, v in ast.iter_fields(node):
            if fld in ("annotation", "returns", "decorator_list", "type_comment"):
                continue
            if isinstance(v, list):
                for i, c in enumerate(v):
                    if isinstance(c, ast.AST) and not (isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant)):
                        visit(c, node, fld, i, fn)
            elif isinstance(v, ast.AST):
                visit(v, node, fld, None, fn)

    visit(tree, None, None, None, None)
    return out


def one(job):
    path, checks, k = job
    with open("/repo/src/valori/" + path, newline="") as f:
        src = f.read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    node, fn, what, go = sites(tree)[k]
    line = getattr(node, "lineno", 0)
    go()
    try:
        new = ast.unparse(ast.fix_missing_locations(tree))
        compile(new, path, "exec")
    except Exception as e:
        return None
    if new == base:
        return None
    diff = [l for l in difflib.unified_diff(base.splitlines(), new.splitlines(), lineterm="", n=1) if not l.startswith(("---", "+++", "@@"))]
    with tempfile.TemporaryDirectory(prefix="mut-") as t:
        os.makedirs(t + "/r")
        subprocess.run("cp -a /repo/src %s/r/src" % t, shell=True, check=True)
        with open(t + "/r/src/valori/" + path, "w") as f:
            f.write(new)
        for c in checks:
            env = dict(os.environ, VERIF_REPO=t + "/r", VERIF_SEED="1", VERIF_FAST="1", TMPDIR=t, VERIF_OUT=t)
            try:
                r = subprocess.run(["./run.sh", c], cwd=here, env=env, capture_output=True, text=True, timeout=600)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
            if rc != 0:
                return dict(file=path, line=line, fn=fn, what=what, diff=diff, killed=c, rc=rc)
    return dict(file=path, line=line, fn=fn, what=what, diff=diff, killed=None)


def main():
    a = sys.argv[1:]
    opt = {"--n": "30", "--width": "4", "--seed": "1", "--out": "/tmp/survivors.txt"}
    for o in opt:
        if o in a:
            i = a.index(o)
            opt[o] = a[i + 1]
            del a[i:i + 2]
    rnd = random.Random(int(opt["--seed"]))
    jobs = []
    for spec in a:
        path, checks = spec.split(":")
        with open("/repo/src/valori/" + path) as f:
            n = len(sites(ast.parse(f.read())))
        ks = list(range(n))
        rnd.shuffle(ks)
        frac = opt["--n"]
        m = int(n * float(frac[:-1]) / 100) if frac.endswith("%") else int(frac)
        jobs += [(path, checks.split(","), k) for k in ks[:m]]
    killed = total = 0
    with open(opt["--out"], "a") as out, ThreadPoolExecutor(int(opt["--width"])) as ex:
        for r in ex.map(one, jobs):
            if r is None:
                continue
            total += 1
            if r["killed"]:
                killed += 1
                if r["rc"] != 1:
                    print("rc %s from %s on %s:%s %s %s" % (r["rc"], r["killed"], r["file"], r["line"], r["what"], r["diff"]), flush=True)
            else:
                out.write("%s:%s %s [%s]\n%s\n\n" % (r["file"], r["line"], r["fn"], r["what"], "\n".join(r["diff"])))
                out.flush()
    print("%d mutants, %d killed, %d survived" % (total, killed, total - killed))


if __name__ == "__main__":
    main()
