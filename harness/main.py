import importlib
import os
import resource
import sys
import zipfile
import glob
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def ensure_deps():
    """Hypothesis is not in the repository's venv: unpack its wheel beside us."""
    deps = os.path.join(VERIF, ".deps")
    marker = os.path.join(deps, "ok")
    if not os.path.exists(marker):
        os.makedirs(deps, exist_ok=True)
        for pat in ("hypothesis-*-cp312-cp312-*.whl", "sortedcontainers-*.whl"):
            for w in glob.glob(os.path.join("/opt/veriftools/wheels", pat)):
                with zipfile.ZipFile(w) as z:
                    z.extractall(deps)
        open(marker, "w").close()
    os.environ.setdefault("HYPOTHESIS_STORAGE_DIRECTORY", os.path.join(deps, "hyp"))
    sys.path.insert(0, deps)


def main():
    argv = sys.argv[1:]
    ensure_deps()
    if argv == ["setup"]:
        import hypothesis
        print("hypothesis", hypothesis.__version__)
        return 0
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    warnings.simplefilter("ignore")
    import logging
    from harness import core

    sys.path.insert(0, core.SRC)
    import numpy as np
    np.seterr(all="ignore")
    import valori

    assert os.path.abspath(valori.__file__).startswith(core.SRC + os.sep), valori.__file__
    logging.disable(logging.CRITICAL)
    if argv[0] == "replay":
        return core.replay(argv[1])
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module("checks." + prop.lower())
    return core.run_property(mod, tier, seed)


if __name__ == "__main__":
    sys.exit(main())
