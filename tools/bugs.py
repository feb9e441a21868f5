"""Run each seeded bug's check against a scratch copy of /repo with the bug applied.
usage: tools/bugs.py [--seeds 1,2] [--width N] [ID-prefix ...]"""
import json
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
seeds = ["1"]
width = 3
if "--seeds" in args:
    i = args.index("--seeds")
    seeds = args[i + 1].split(",")
    del args[i:i + 2]
if "--width" in args:
    i = args.index("--width")
    width = int(args[i + 1])
    del args[i:i + 2]


def one(b):
    d = os.path.join(here, "seeded", b)
    prop = json.load(open(d + "/meta.json"))["property"]
    with tempfile.TemporaryDirectory(prefix="bug-") as t:
        def sh(c, **k):
            return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
        sh("git clone -q /repo %s/r" % t)
        a = sh("git apply %s/patch.diff" % d, cwd=t + "/r")
        if a.returncode:
            return "%-45s patch does not apply: %s" % (b, a.stderr[:200])
        out = []
        for s in seeds:
            r = sh("./run.sh " + prop, cwd=here, env=dict(os.environ, VERIF_REPO=t + "/r", VERIF_SEED=s))
            out.append("caught" if r.returncode == 1 and "VIOLATION property=" + prop in r.stdout
                       else "MISSED" if r.returncode == 0 else "ERROR %s" % r.stderr[-300:])
        return "%-45s %s  %s" % (b, prop, " ".join(out))


bugs = sorted(b for b in os.listdir(os.path.join(here, "seeded")) if not args or any(b.startswith(a) for a in args))
with ThreadPoolExecutor(width) as ex:
    for line in ex.map(one, bugs):
        print(line, flush=True)
