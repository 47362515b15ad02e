"""
An independent encoder for finalfusion files (with the fields' places, for targeted
corruption). The specification checks its output: nothing here is trusted.
"""
import struct

import numpy as np

IDS = {"simple": 1, "nd": 2, "bucket": 3, "pq": 4, "meta": 5, "norms": 6, "fasttext": 7, "explicit": 8}


class Enc:
    def __init__(self):
        self.b = bytearray()
        self.fields = []         # (offset, size, name)

    def num(self, v, size, name):
        self.fields.append((len(self.b), size, name))
        self.b += int(v).to_bytes(size, "little")

    def raw(self, bs, name):
        self.fields.append((len(self.b), len(bs), name))
        self.b += bs

    def string(self, s, name):
        bs = s if isinstance(s, bytes) else s.encode("utf-8")
        self.num(len(bs), 4, name + " length")
        self.raw(bs, name)

    def floats(self, a, name):
        self.raw(np.ascontiguousarray(np.asarray(a).astype('<f4')).tobytes(), name)

    def pad(self):
        n = 4 - len(self.b) % 4
        self.raw(b"\0" * n, "padding")

    def chunk(self, ident, body):
        self.num(ident, 4, "chunk id")
        at = len(self.b)
        self.num(0, 8, "chunk length")
        body()
        self.b[at:at + 8] = (len(self.b) - at - 8).to_bytes(8, "little")

    def vocab(self, v, o):
        ws = o.get("words", v["words"])
        self.num(o.get("n_words", len(ws)), 8, "n_words")
        lo, hi = o.get("lo", v.get("lo")), o.get("hi", v.get("hi"))
        if v["kind"] == "explicit":
            ng = o.get("ngrams", v["ngrams"])
            t = v.get("table") or {g: i for i, g in enumerate(v["ngrams"])}
            tab = o.get("table", [t.get(g, 0) for g in ng])
            self.num(o.get("n_ngrams", len(ng)), 8, "n_ngrams")
        if v["kind"] != "simple":
            self.num(lo, 4, "min_n")
            self.num(hi, 4, "max_n")
        if v["kind"] in ("bucket", "fasttext"):
            self.num(o.get("b", v["b"]), 4, "buckets")
        for w in ws:
            self.string(w, "word")
        if v["kind"] == "explicit":
            for g, i in zip(ng, tab):
                self.string(g, "ngram")
                self.num(i, 8, "ngram index")

    def storage(self, s, o):
        if s["kind"] == "nd":
            m = o.get("m", s["m"])
            self.num(o.get("rows", m.shape[0]), 8, "rows")
            self.num(o.get("cols", m.shape[1]), 4, "cols")
            self.num(o.get("type", 10), 4, "type")
            self.pad()
            self.floats(m, "data")
            return
        codes = o.get("codes", s["codes"])
        norms = o.get("pqnorms", s["norms"])
        q, k, d = s["sub"].shape
        self.num(s["proj"] is not None, 4, "projection flag")
        self.num(norms is not None, 4, "norms flag")
        self.num(o.get("q", q), 4, "quantized_len")
        self.num(o.get("cols", q * d), 4, "reconstructed_len")
        self.num(o.get("k", k), 4, "n_centroids")
        self.num(o.get("rows", codes.shape[0]), 8, "rows")
        self.num(o.get("type", 1), 4, "type")
        self.num(o.get("type2", 10), 4, "type")
        self.pad()
        if s["proj"] is not None:
            self.floats(s["proj"], "data")
        self.floats(s["sub"], "data")
        if norms is not None:
            self.floats(norms, "data")
        self.raw(codes.astype(np.uint8).tobytes(), "codes")

    def norms(self, n, o):
        n = o.get("norms", n)
        self.num(o.get("n_norms", len(n)), 8, "n_norms")
        self.num(o.get("ntype", 10), 4, "type")
        self.pad()
        self.floats(n, "data")


def ident(p, what):
    return {"meta": 5, "norms": 6}.get(what) or IDS[p[what]["kind"]]


def encode(p, order, meta=b"", over=None):
    """
    The file with the parts `order` (list of "meta", "vocab", "storage", "norms") of the
    parameters p; `over` replaces single fields.
    """
    o = over or {}
    e = Enc()
    e.raw(o.get("magic", b"FiFu"), "magic")
    e.num(o.get("version", 0), 4, "version")
    ids = o.get("ids", [ident(p, w) for w in order])
    e.num(o.get("n_chunks", len(ids)), 4, "n_chunks")
    for i in ids:
        e.num(i, 4, "header id")
    for w in order:
        body = {"meta": lambda: e.raw(meta, "metadata"),
                "vocab": lambda: e.vocab(p["vocab"], o),
                "storage": lambda: e.storage(p["storage"], o),
                "norms": lambda: e.norms(p["norms"], o)}[w]
        e.chunk(o.get("id " + w, ident(p, w)), body)
    return bytes(e.b), e.fields
