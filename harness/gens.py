"""Shared generators.  Everything yields plain data; decode_* turn it into arrays."""
import numpy as np
from hypothesis import strategies as st

# Identifiers: every non-empty string is a legal id.  The pool is biased to ids that look
# alike after escaping/sanitising/case folding/unicode normalisation, to path syntax, and to
# suffixes the backends use themselves.
TRICKY = [
    "a", "A", "a/b", "a_b", "a b", "a%2Fb", "a%b", "a%25b", "a\\b", "a:b", "a*b", "a?b",
    ".", "..", "../x", ".._x", "/abs", "_abs", "x.npy", "x", "x.pkl", "x.npy.npy", "x.tmp",
    "x.", ".x", "é", "e\u0301", "e_", "日本", "日本/", "日本_", "%", "%25", "_", "__",
    "a\nb", "a\x00b", "-", "~", "a~b", "#", "con", "1", "01", "ⅷ", "²", "x y/z", "x_y_z",
    "a[b]", "a[c]", "*", "?", "[a]", "tmp", "ß", "ss", "K", "k", "a+b", "a=b", "a,b",
]

ids = st.one_of(
    st.sampled_from(TRICKY),
    st.sampled_from(TRICKY),
    st.text(st.characters(exclude_categories=("Cs",)), min_size=1, max_size=8),
    st.text("ab/_.%-", min_size=1, max_size=4),
)


def id_pool(n=6):
    return st.lists(ids, min_size=1, max_size=n, unique=True)


DTYPES = ["<f8", "<f4", "<i8", "<i4", "<f2", "|u1"]
RARE_DTYPES = [">f8", ">i4", "|b1", "<c16", "<u8", "|i1"]


@st.composite
def raw_vec(draw, min_dim=0, max_dim=6):
    """(dtype, layout, values): an array of any numeric dtype and memory layout."""
    dt = draw(st.sampled_from(DTYPES * 2 + RARE_DTYPES))
    n = draw(st.integers(min_dim, max_dim))
    kind = np.dtype(dt).kind
    if kind == "f":
        el = st.one_of(st.integers(-4, 4).map(float),
                       st.floats(width=16 if dt == "<f2" else 32, allow_nan=True, allow_infinity=True))
    elif kind == "u":
        el = st.integers(0, 255)
    elif kind == "b":
        el = st.booleans()
    elif kind == "c":
        el = st.tuples(st.integers(-4, 4), st.integers(-4, 4)).map(lambda x: complex(*x))
    elif dt == "|i1":
        el = st.integers(-128, 127)
    else:
        el = st.integers(-5, 2**31 - 1)
    vals = draw(st.lists(el, min_size=n, max_size=n))
    layout = draw(st.sampled_from(["C", "C", "C", "rev", "stride", "readonly", "2d", "F", "T", "0d"]))
    return (dt, layout, vals)


def decode_vec(v):
    dt, layout, vals = v
    a = np.array(vals, dtype=dt)
    if layout == "rev":
        a = np.ascontiguousarray(a[::-1])[::-1]
    elif layout == "stride":
        b = np.zeros(len(a) * 2, dtype=dt)
        b[::2] = a
        a = b[::2]
    elif layout == "readonly":
        a.setflags(write=False)
    elif layout in ("2d", "F", "T"):
        a = a.reshape((2, -1) if len(a) and len(a) % 2 == 0 else (-1, 1))
        a = np.asfortranarray(a) if layout == "F" else a.T if layout == "T" else a
    elif layout == "0d":
        a = a[:1].reshape(()) if len(a) else a
    return a


scalars = st.one_of(st.none(), st.booleans(), st.integers(-3, 10**6),
                    st.floats(allow_nan=False), st.text(max_size=6))
json_values = st.recursive(
    scalars,
    lambda c: st.one_of(st.lists(c, max_size=3), st.dictionaries(st.text(max_size=4), c, max_size=3)),
    max_leaves=6)
metas = st.one_of(st.none(), st.just({}), st.dictionaries(st.text(max_size=5), json_values, max_size=3))
# metadata that JSON cannot hold (still literals, so that replays can be read back)
rich_metas = st.one_of(metas, metas, metas, st.dictionaries(
    st.one_of(st.text(max_size=3), st.integers(-2, 9), st.tuples(st.integers(0, 2), st.text(max_size=1))),
    st.one_of(st.binary(max_size=4), st.tuples(scalars, scalars), st.frozensets(st.integers(0, 3), min_size=1).map(set),
              json_values, st.text(min_size=200, max_size=300)), max_size=3))


def same_array(a, b):
    return (isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape
            and a.tobytes() == b.tobytes())


def same_value(a, b):
    """Equality that does not confuse 1, 1.0 and True."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a.keys()) == list(b.keys()) and all(same_value(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same_value(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if isinstance(a, np.ndarray):
        return same_array(a, b)
    return a == b


def oplist(el, short=12, long=40):
    """Operation sequences: Hypothesis keeps plain lists short, so ask for long ones too."""
    return st.one_of(st.lists(el, min_size=1, max_size=short),
                     st.lists(el, min_size=long // 3, max_size=long))
