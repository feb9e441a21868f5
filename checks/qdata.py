"""Data sets for the quantizer checks."""
import numpy as np
from hypothesis import strategies as st

KINDS = ["gauss", "grid", "clusters", "constcol", "dups", "offset", "far", "skew"]


def data_cfg(dims, nmax, dtypes=("f8", "f8", "f4", "f4", "f2", "i4", "u1", "i1"), kinds=KINDS):
    return st.fixed_dictionaries({
        "kind": st.sampled_from(kinds),
        "n": st.one_of(st.integers(1, 6), st.integers(1, nmax)),
        "dim": st.sampled_from(dims),
        "dtype": st.sampled_from(list(dtypes)),
        "scale": st.sampled_from([1.0, 1.0, 1e-3, 1e3]),
        "layout": st.sampled_from(["C", "C", "F", "strided", "readonly", "swapped"]),
        "rs": st.integers(0, 2**20)})


def make(c, n=None, salt=0):
    """An (n, dim) array of the configured dtype; finite whatever the dtype."""
    rng = np.random.default_rng([c["rs"], salt])
    n = c["n"] if n is None else n
    d = c["dim"]
    k = c["kind"]
    x = rng.standard_normal((n, d))
    if k == "grid":
        x = rng.integers(-3, 4, (n, d)).astype(float)
    elif k == "clusters":
        x = rng.integers(-2, 3, (n, d)) * 3 + 0.05 * x
    elif k == "constcol":
        x[:, rng.random(d) < 0.5] = 1.25
    elif k == "dups":
        x = x[rng.integers(0, max(1, n // 2), n)]
    elif k == "offset":
        x = x + 50
    elif k == "far":  # from the origin, compared with the distances between them
        x = x + rng.standard_normal(d) * 10.0 ** rng.integers(2, 6)
    elif k == "skew":
        x = x * 10.0 ** rng.integers(-3, 4, d)
    dt = np.dtype(c["dtype"])
    x = x * c["scale"]
    if dt.kind == "f":
        if dt == np.float16:
            x = np.clip(x, -3e4, 3e4)
    elif dt == np.uint8:
        x = np.clip(np.abs(x) * 60, 0, 255)
    elif dt == np.int8:
        x = np.clip(x * 60, -128, 127)
    else:
        x = np.clip(x * 10, -1e6, 1e6)
    return lay(x.astype(dt), c.get("layout", "C"))


def lay(x, layout):
    """The same values in another memory layout."""
    if layout == "F":
        return np.asfortranarray(x)
    if layout == "strided":
        y = np.zeros((2 * len(x), x.shape[1] + 1), dtype=x.dtype)
        y[::2, 1:] = x
        return y[::2, 1:]
    if layout == "swapped":
        return x.astype(x.dtype.newbyteorder())
    if layout == "readonly":
        x.flags.writeable = False
    return x
