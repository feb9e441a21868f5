"""Stand-ins for embedding libraries that are not installed: deterministic models of known dimension."""
import contextlib
import hashlib
import sys
import types

import numpy as np

CALLS = []  # texts every encode/create call was given


def vector(text, dim, dtype="<f4"):
    """The raw embedding of a text: small integers, all zero for texts that start with 'zero', far smaller with 'tiny'."""
    if text.startswith("zero"):
        return np.zeros(dim, dtype=dtype)
    h = hashlib.sha256(text.encode("utf-8", "surrogatepass")).digest()
    v = np.frombuffer((h * 8)[:dim], dtype=np.uint8).astype(dtype) - 100
    return v * np.asarray(2.0 ** -40, dtype) if text.startswith("tiny") else v


def dim_of(name):
    """stub-N has N dimensions; real models have their own."""
    if name.startswith("stub-"):
        return int(name.rsplit("-", 1)[1])
    return 768 if "mpnet" in name else 384


class SentenceTransformer:
    def __init__(self, name, *a, **k):
        self.dim = dim_of(name)
        self.where = None

    def to(self, device):
        self.where = device
        return self

    def encode(self, texts, **k):
        CALLS.append(texts)
        if isinstance(texts, str):
            return vector(texts, self.dim)
        if not len(texts):
            return np.zeros((0, self.dim), dtype="<f4")
        return np.stack([vector(t, self.dim) for t in texts])

    def get_sentence_embedding_dimension(self):
        return self.dim


class Embedding:
    @staticmethod
    def create(input, model=None, **k):
        CALLS.append(input)
        one = [input] if isinstance(input, str) else list(input)
        return {"data": [{"embedding": [float(x) for x in vector(t, 12)]} for t in one]}


class Tensor(np.ndarray):
    """As much of a tensor as pooling needs."""
    where = "cpu"

    def to(self, *a, **k):
        r = self.view(Tensor)
        r.where = a[0] if a else k.get("device", "cpu")
        return r

    def mean(self, dim=None, keepdim=False, **k):
        return np.asarray(self).mean(axis=k.get("axis", dim), keepdims=keepdim).view(Tensor)

    def sum(self, dim=None, keepdim=False, **k):
        return np.asarray(self).sum(axis=k.get("axis", dim), keepdims=keepdim).view(Tensor)

    def squeeze(self, dim=None):
        return np.asarray(self).squeeze(axis=dim).view(Tensor)

    def unsqueeze(self, dim):
        return np.expand_dims(np.asarray(self), dim).view(Tensor)

    def cpu(self):
        return self.to("cpu")

    def detach(self):
        return self

    def float(self):
        return np.asarray(self).astype("<f4").view(Tensor)

    def size(self, dim=None):
        return self.shape if dim is None else self.shape[dim]

    def numpy(self):
        if self.where != "cpu":
            raise TypeError("can't convert a device tensor to numpy")
        return np.asarray(self)


class Tokenizer:
    """One token per character."""

    @classmethod
    def from_pretrained(cls, name, *a, **k):
        return cls()

    def __call__(self, text, return_tensors=None, truncation=False, max_length=None, padding=False, **k):
        CALLS.append(text)
        one = [text] if isinstance(text, str) else list(text)
        one = [[ord(c) for c in t][:max_length if truncation else None] for t in one]
        ids = np.array(one)
        return {"input_ids": ids.view(Tensor), "attention_mask": np.ones_like(ids).view(Tensor)}


class AutoModel:
    def __init__(self, name):
        self.dim, self.where = dim_of(name), "disk"

    @classmethod
    def from_pretrained(cls, name, *a, **k):
        return cls(name)

    def to(self, device):
        self.where = device
        return self

    def eval(self):
        return self

    def __call__(self, input_ids, attention_mask=None, **k):
        if self.where != "cpu" or input_ids.where != "cpu":
            raise RuntimeError("tensors on %r and %r" % (self.where, input_ids.where))
        if input_ids.shape[1] > 512:
            raise IndexError("index out of range in self")
        v = np.stack([vector("".join(map(chr, np.asarray(row))), self.dim) for row in input_ids])
        n = input_ids.shape[1]
        # the tokens' states differ, their mean is the vector
        h = v[:, None, :] + (np.arange(n, dtype="<f4") - (n - 1) / 2)[None, :, None] * np.where(
            (v != 0).any(1) & (abs(v) < 1).all(1), np.float32(2.0 ** -40), np.float32(1))[:, None, None]
        return types.SimpleNamespace(last_hidden_state=h.astype("<f4").view(Tensor), pooler_output=h[:, 0].astype("<f4").view(Tensor))


@contextlib.contextmanager
def transformers():
    """Stand-ins for torch and transformers, for a while."""
    torch = types.ModuleType("torch")
    torch.Tensor, torch.no_grad, torch.inference_mode = Tensor, contextlib.nullcontext, contextlib.nullcontext
    torch.cuda = types.SimpleNamespace(is_available=lambda: False)
    torch.device = lambda x: x
    tr = types.ModuleType("transformers")
    tr.AutoModel, tr.AutoTokenizer = AutoModel, Tokenizer
    sys.modules["torch"], sys.modules["transformers"] = torch, tr
    try:
        yield
    finally:
        del sys.modules["torch"], sys.modules["transformers"]


def install():
    """Puts the stand-ins in place of the libraries for this process."""
    if "sentence_transformers" not in sys.modules:
        m = types.ModuleType("sentence_transformers")
        m.SentenceTransformer = SentenceTransformer
        sys.modules["sentence_transformers"] = m
    if "openai" not in sys.modules:
        m = types.ModuleType("openai")
        m.Embedding = Embedding
        sys.modules["openai"] = m
    del CALLS[:]


def unit(v):
    v = np.asarray(v, dtype=np.float64)
    n = np.sqrt((v * v).sum())
    return v / n if n else v
