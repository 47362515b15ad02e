"""
Embeddings as values. `spec_value` turns the parameters a case was built from into the
specification's value; `snap_*` project live objects, through the public API only, into
the same shape.
"""
import numpy as np

import gen
from drivers.subword import mk_vocab, spec_vocab, rand_vocab
from rec import cps, exc, f32, js, u64

# ---- parameters -> objects -----------------------------------------------


def mk_storage(s, r=None, given=None):
    """
    The storage object of parameters s; r: also vary the memory layout of arrays;
    given: a list that gets the arrays the object is made from.
    """
    from finalfusion.storage import NdArray, QuantizedArray
    from finalfusion.storage.quantized import PQ
    def lay(a):
        a = gen.layouts(r, a) if r is not None else a
        if given is not None:
            given.append(a)
        return a
    if s["kind"] == "nd":
        return NdArray(lay(s["m"].copy()))
    sub = lay3(r, s["sub"].copy())
    if given is not None:
        given.append(sub)
    pq = PQ(sub, None if s["proj"] is None else lay(s["proj"].copy()))
    return QuantizedArray(pq, lay(s["codes"].copy()),
                          None if s["norms"] is None else lay(s["norms"].copy()))


def lay3(r, a):
    if r is None:
        return a
    k = r.randrange(4)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        return a.astype(a.dtype.newbyteorder('>'))
    return a


def mk_norms(n, r=None, given=None):
    from finalfusion.norms import Norms
    a = gen.layouts(r, n.copy()) if r is not None else n.copy()
    if given is not None:
        given.append(a)
    return Norms(a)


def mk_meta(m, given=None):
    from finalfusion.metadata import Metadata
    import copy
    m = copy.deepcopy(m)
    if given is not None:
        given.append(m)
    return Metadata(m)


def mk_embeddings(ff, p, r=None, given=None):
    from finalfusion import Embeddings
    return Embeddings(storage=mk_storage(p["storage"], r, given), vocab=mk_vocab(ff, p["vocab"], given),
                      norms=None if p.get("norms") is None else mk_norms(p["norms"], r, given),
                      metadata=None if p.get("meta") is None else mk_meta(p["meta"], given))


def scribble(given):
    """Change, in place, what objects were made from."""
    for x in given:
        if isinstance(x, np.ndarray):
            if x.size and x.flags.writeable:
                x[...] = np.where(x == 1, 0, 1).astype(x.dtype)
        elif isinstance(x, list):
            x.append("scribbled")
            x[0] = "scribbled too"
        elif isinstance(x, dict):
            for v in list(x.values()):
                if isinstance(v, (dict, list)) and v:
                    scribble([v])
            x["scribbled"] = 1


# ---- parameters -> specification values ----------------------------------


def spec_storage(s):
    if s["kind"] == "nd":
        return {"kind": "nd", "cols": int(s["m"].shape[1]), "rows": f32(s["m"])}
    return {"kind": "pq", "cols": int(s["sub"].shape[0] * s["sub"].shape[2]),
            "ncent": int(s["sub"].shape[1]), "sub": f32(s["sub"]),
            "proj": [] if s["proj"] is None else [f32(s["proj"])],
            "norms": [] if s["norms"] is None else [f32(s["norms"])],
            "codes": s["codes"].tolist()}


def spec_value(p):
    """[meta, vocab, storage, norms], each [] or [value]; metadata as canonical text."""
    return {"meta": [] if p.get("meta") is None else [js(p["meta"])],
            "vocab": [] if p.get("vocab") is None else [spec_vocab(p["vocab"])],
            "storage": [] if p.get("storage") is None else [spec_storage(p["storage"])],
            "norms": [] if p.get("norms") is None else [f32(p["norms"])]}


# ---- random parameters -----------------------------------------------------


def bound(v):
    n = len(v["words"])
    if v["kind"] == "bucket":
        return n + 2 ** v["b"]
    if v["kind"] == "fasttext":
        return n + v["b"]
    if v["kind"] == "explicit":
        t = v.get("table") or {g: i for i, g in enumerate(v["ngrams"])}
        return n + (max(t.values()) + 1 if t else 0)
    return n


def rand_nd(r, rows, cols=None, data="bits"):
    cols = r.choice([0, 1, 1, 2, 3, 4, 5, 7]) if cols is None else cols
    m = {"bits": gen.bit_matrix, "int": gen.int_matrix, "nice": gen.nice_matrix}[data](r, rows, cols)
    return {"kind": "nd", "m": m}


def normal(r, lo=-20, hi=20):
    """A normal float32 with a moderate exponent, any mantissa."""
    e = r.randint(lo, hi) + 127
    return (r.getrandbits(1) << 31) | (e << 23) | r.getrandbits(23)


def normals(r, shape):
    n = int(np.prod(shape))
    return np.array([normal(r) if r.random() > 0.05 else 0 for _ in range(n)],
                    dtype='<u4').view('<f4').reshape(shape)


def rand_pq(r, rows, q=None, s=None, k=None, data="bits", proj=None, norms=None):
    """
    Quantized storage whose vectors the specification can compute exactly: any bits without
    projection and norms, normal floats with norms, integers with a projection.
    """
    q = r.randint(1, 4) if q is None else q
    s = r.randint(1, 3) if s is None else s
    k = r.choice([1, 2, 3, 5, 7]) if k is None else k
    proj = r.random() < 0.4 if proj is None else proj
    norms = r.random() < 0.5 if norms is None else norms
    d = q * s
    if proj or data == "int":
        sub = gen.int_matrix(r, q * k, s, -6, 6).reshape(q, k, s)
    elif norms:
        sub = normals(r, (q, k, s))
    else:
        sub = gen.bit_matrix(r, q * k, s).reshape(q, k, s)
    pm = gen.int_matrix(r, d, d, -3, 3) if proj else None
    nm = None
    if norms:
        nm = normals(r, (rows,)) if data != "int" else \
            np.array([2.0 ** r.randint(0, 2) for _ in range(rows)], dtype=np.float32)
    codes = np.array([[r.randrange(k) for _ in range(q)] for _ in range(rows)],
                     dtype=np.uint8).reshape(rows, q)
    return {"kind": "pq", "sub": sub, "proj": pm, "norms": nm, "codes": codes}


METAS = [
    {}, {"a": "b"}, {"num": 0, "neg": -17, "big": 2 ** 40}, {"t": True, "f": False},
    {"float": 1.5, "exp": 1e-12}, {"ü": "grüße 語 😀", "empty": ""},
    {"quote": 'say "hi"', "tab": "a\tb", "nl": "a\nb"},
    {"list": [1, 2, 3], "strs": ["a", "ä"], "el": []},
    {"table": {"x": 1, "y": {"z": "deep"}}, "top": 1},
    {"with space": "v", "dotted.key": "w"}, {"FiFu": "FiFu"},
    {" lead": " x", "trail ": "x ", " ": "\t"}, {"#": "# no comment", "a=b": "[t]", "[t]": "a = 1", "'": "'"},
    {"UPPER": 1, "upper": 2, "Upper": 3, "1": 4, "-": 5}, {"nl": "\n", "crlf": "a\r\nb", "bs": "\\", "uni": "\u2028"},
    {"mixed": {"a": [], "b": {}, "c": ""}, "floats": [1.5, -0.25], "nested": [[1, 2], [3]]}, {"max": 2**63 - 1, "min": -2**63},
    {"date": "2020-01-01", "k" * 300: "v" * 300},
]


def rand_meta(r):
    import copy
    import toml
    while True:
        m = {}
        for _ in range(r.randint(1, 3)):
            m.update(copy.deepcopy(r.choice(METAS)))
        if r.random() < 0.3:
            m[gen.word(r, 6, nospace=True, minlen=1)] = gen.word(r, 9)
        try:
            if toml.loads(toml.dumps(m)) == m:      # the TOML library itself is trusted
                return m
        except Exception:
            pass


def rand_params(r, kinds=("simple", "bucket", "fasttext", "explicit"), storages=("nd", "pq"),
                data="bits", n=None, norms=None, meta=None, cols=None, **kw):
    """Parameters of random valid embeddings."""
    v = rand_vocab(r, n=n, small=True, kinds=kinds, **kw)
    rows = bound(v)
    k = r.choice(list(storages))
    if k == "pq" and rows == 0:
        k = "nd"
    p = {"vocab": v}
    p["storage"] = rand_nd(r, rows, cols, data) if k == "nd" else rand_pq(r, rows, data=data)
    nw = len(v["words"])
    if r.random() < 0.5 if norms is None else norms:
        p["norms"] = gen.bit_matrix(r, nw, 1).reshape(nw) if data == "bits" else \
            np.array([r.choice([0.5, 1, 2, 3, 0.25, 7, 10]) for _ in range(nw)], dtype=np.float32)
    if r.random() < 0.4 if meta is None else meta:
        p["meta"] = rand_meta(r)
    return p


# ---- live objects -> values ------------------------------------------------


def snap_vocab(v):
    from finalfusion.vocab import SimpleVocab, FinalfusionBucketVocab, FastTextVocab, ExplicitVocab
    kind = {SimpleVocab: "simple", FinalfusionBucketVocab: "bucket", FastTextVocab: "fasttext",
            ExplicitVocab: "explicit"}[type(v)]
    d = {"kind": kind, "words": [cps(w) for w in v.words]}
    if [v.word_index.get(w) for w in v.words] != list(range(len(v.words))) \
            or len(v.word_index) != len(v.words):
        d["badindex"] = True
    if kind == "simple":
        return d
    ix = v.subword_indexer
    d["lo"], d["hi"] = int(v.min_n), int(v.max_n)
    if kind == "bucket":
        d["buckets"] = int(ix.buckets_exp)
    elif kind == "fasttext":
        d["buckets"] = u64(ix.n_buckets)
    else:
        d["ngrams"] = [cps(g) for g in ix.ngrams]
        d["table"] = [int(ix.ngram_index[g]) for g in ix.ngrams]
    if int(v.upper_bound) != len(v.words) + int(ix.upper_bound):
        d["badbound"] = True
    return d


def snap_storage(s):
    from finalfusion.storage import NdArray, QuantizedArray
    if type(s) is NdArray:
        a = np.asarray(s)
        return {"kind": "nd", "shape": [int(x) for x in s.shape],
                "rows": f32(a.view(np.ndarray)) if a.size else [[] for _ in range(a.shape[0])]}
    if type(s) is QuantizedArray:
        q = s.quantizer
        a = np.asarray(s)
        return {"kind": "pq", "shape": [int(x) for x in s.shape], "sub": f32(q.subquantizers),
                "proj": [] if q.projection is None else [f32(q.projection)],
                "qlen": int(s.quantized_len), "ncent": int(q.n_centroids),
                "rlen": int(q.reconstructed_len), "rows": f32(a)}
    raise TypeError(type(s).__name__)


def snap_norms(n):
    from finalfusion.norms import Norms
    if type(n) is not Norms or n.ndim != 1:
        raise TypeError(type(n).__name__)
    return f32(np.asarray(n))


def snap_meta(m):
    from finalfusion.metadata import Metadata
    if type(m) is not Metadata:
        raise TypeError(type(m).__name__)
    return js(dict(m))


def snap(e):
    """Whole embeddings."""
    return {"meta": [] if e.metadata is None else [snap_meta(e.metadata)],
            "vocab": [snap_vocab(e.vocab)], "storage": [snap_storage(e.storage)],
            "norms": [] if e.norms is None else [snap_norms(e.norms)],
            "nwords": int(e.n_words), "dims": int(e.dims),
            "chunks": [int(c.chunk_identifier()) for c in e.chunks()]}


def t_snap(fn):
    """Tagger for one of the snapshot functions."""
    def tag(v):
        return {"t": "val", "v": fn(v)}
    return tag


class Table:
    """Distinct values of a behaviour, so that repeated snapshots are written once."""
    def __init__(self):
        self.vals, self.ids = [], {}

    def put(self, v):
        import json
        k = json.dumps(v, sort_keys=True)
        if k not in self.ids:
            self.vals.append(v)
            self.ids[k] = len(self.vals)
        return self.ids[k]

    def tag(self, fn):
        def tag(v):
            return {"t": "ref", "v": self.put(fn(v))}
        return tag


def file_bytes(path):
    with open(path, "rb") as f:
        return list(f.read())
