"""Drivers for C18 (word2vec), C19 (text), C20 (fastText), C21 (malformed UTF-8)."""
import resource
import struct

import numpy as np

import gen
import snap
from rec import *  # noqa
from drivers.embed import int_params, small_pq
from drivers.format import path_arg
from drivers.subword import py_ngrams

WS = " \t\n\r\x0b\x0c"


def vec_bits(m):
    m = np.asarray(m, dtype=np.float32)
    return f32(m) if m.size else [[] for _ in range(m.shape[0])]


def plain_words(r, n, maxlen=8):
    """Distinct words free of ASCII whitespace and NUL, Unicode spaces and odd characters included."""
    ws = gen.words(r, n, maxlen, nospace=True, minlen=0 if r.random() < 0.2 else 1)
    if ws and r.random() < 0.06:
        w = r.choice(["\ufeff", "\u2028", "\x85", "\x1c"]) + ws[0]       # at the start of a file
        ws = [w] + [x for x in ws[1:] if x != w] if w not in ws else ws
    return ws


def plain(w):
    return not any(c in WS for c in w)


def write_case(r):
    """Embeddings to be written; whether the specification can follow vectors through a reload."""
    k = r.random()
    cols = r.choice([1, 1, 2, 3, 4, 6])
    if k < 0.25:            # any bits, no norms
        p = snap.rand_params(r, data="bits", norms=False, cols=cols, storages=("nd", "nd", "pq"))
        trip = False
    elif k < 0.5:           # moderate values, no norms
        p = snap.rand_params(r, data="nice", norms=False, cols=cols, storages=("nd",))
        trip = True
    elif k < 0.75:          # normal floats times normal norms
        p = snap.rand_params(r, data="nice", norms=False, cols=cols, storages=("nd",))
        rows = snap.bound(p["vocab"])
        p["storage"] = {"kind": "nd", "m": snap.normals(r, (rows, cols))}
        p["norms"] = snap.normals(r, (len(p["vocab"]["words"]),))
        trip = True
    else:                   # quantized
        p = snap.rand_params(r, data="int", norms=False, storages=("nd",))
        rows = snap.bound(p["vocab"])
        if rows:
            p["storage"] = small_pq(r, rows) if r.random() < 0.6 else \
                snap.rand_pq(r, rows, proj=False, norms=True)
        trip = rows > 0
        if r.random() < 0.6:
            p["norms"] = np.array([r.choice([1, 2, 3, 0.5, -1, 5]) for _ in p["vocab"]["words"]], dtype=np.float32)
            if p["storage"]["kind"] == "pq" and p["storage"]["norms"] is not None and \
                    p["storage"]["sub"].dtype == np.float32 and not float(abs(p["storage"]["sub"]).max()).is_integer():
                trip = False
    n = len(p["vocab"]["words"])
    if r.random() < 0.6:    # words that can be read back
        p["vocab"]["words"] = plain_words(r, n)
    if p["storage"]["kind"] == "nd" and p["storage"]["m"].shape[1] == 0:
        return write_case(r)
    if any(0xd800 <= ord(c) < 0xe000 for w in p["vocab"]["words"] for c in w):
        return write_case(r)
    return p, trip and all(map(plain, p["vocab"]["words"]))


def long_words(r):
    """Words around and beyond the buffer sizes of the file layers."""
    ns = [63, 64, 65, 127, 128, 255, 256, 257, 512, 1000, 1023, 1024, 1025]
    out = ["x" * n for n in r.sample(ns, 5)] + ["ä" * r.choice(ns), "語" * r.choice(ns), "😀" * 70]
    out += ["y" * r.choice([4095, 4096, 4097, 5000]), "z" * r.choice([8191, 8192, 8193, 9000]), "a"]
    r.shuffle(out)
    return out


def put(f, b):
    with open(f, "wb") as o:
        o.write(bytes(b))


# ---- C18 -------------------------------------------------------------------

def w2v_bytes(words, m, nl):
    b = ("%d %d\n" % m.shape).encode()
    for w, v in zip(words, m):
        b += (w if isinstance(w, bytes) else w.encode()) + b" " + v.astype('<f4').tobytes() + (b"\n" if nl else b"")
    return b


def c18(ctx):
    from finalfusion.compat import load_word2vec, write_word2vec
    r = ctx.rng
    f = ctx.tmp / "v.w2v"
    load = lambda: run(lambda: load_word2vec(path_arg(r, f)), snap.t_snap(snap.snap))

    def write(p, trip):
        e = snap.mk_embeddings(ctx.ff, p, r)
        if f.exists() and r.random() < 0.5:
            f.unlink()
        write_word2vec(path_arg(r, f), e)
        return {"op": "C18", "act": "write", "e": snap.spec_value(p), "b": snap.file_bytes(f), "trip": trip,
                "res": load() if trip else {"t": "none"}}

    def foreign(ws, m, nl):
        b = w2v_bytes(ws, m, nl)
        put(f, b)
        return {"op": "C18", "act": "load", "words": [cps(w) for w in ws], "vecs": vec_bits(m), "cols": m.shape[1],
                "nl": nl, "b": list(b), "res": load()}

    def cuts(ws, m, nl, ns=None):
        b = w2v_bytes(ws, m, nl)
        tab = snap.Table()
        out = []
        for n in range(len(b)) if ns is None else ns:
            put(f, b[:n])
            out.append({"n": n, "res": run(lambda: load_word2vec(str(f)), tab.tag(snap.snap))})
        return {"op": "C18", "act": "cuts", "words": [cps(w) for w in ws], "vecs": vec_bits(m), "cols": m.shape[1],
                "len": len(b), "vals": tab.vals, "cuts": out}

    # vectors whose bytes look like text, spaces and newlines
    tricky = np.array([0x3e0a0a0a, 0x40202020, 0x3f0a200a, 0x310d0d0d, 0x410a2020], dtype='<u4').view('<f4')
    for nl in ctx.mine([True, False]):
        m = tricky.reshape(5, 1)
        yield [foreign(["a", "ä", "語", "<", "0"], m, nl), cuts(["a", "ä", "語", "<", "0"], m, nl)]
    for k in ctx.mine(range(2)):
        n = 130
        ws = ["w%d" % i for i in range(n)]
        m = gen.nice_matrix(r, n, 3)
        yield [foreign(ws, m, k == 0)]
        p = {"vocab": {"kind": "simple", "words": ws}, "storage": {"kind": "nd", "m": m},
             "norms": np.array([r.choice([1, 2, 3, 0.7, -1.3]) for _ in ws], np.float32)}
        yield [write(p, True)]
        ws = ["a", "b", "c"]
        m = gen.nice_matrix(r, 3, 120, zero=0.3)
        yield [foreign(ws, m, k == 0), write({"vocab": {"kind": "simple", "words": ws}, "storage": {"kind": "nd", "m": m}}, True)]
        # long words, many rows
        ws = long_words(r)
        m = gen.nice_matrix(r, len(ws), 2)
        yield [foreign(ws, m, k == 0), write({"vocab": {"kind": "simple", "words": ws}, "storage": {"kind": "nd", "m": m}}, True)]
        ws = ["w%d" % i for i in range(1100)]
        m = gen.nice_matrix(r, len(ws), 3)
        yield [foreign(ws, m, k == 0)]
        yield [write({"vocab": {"kind": "simple", "words": ws}, "storage": {"kind": "nd", "m": m}}, True)]
        ws = ["v%d" % i for i in range(270)]
        m = gen.nice_matrix(r, len(ws), 64)
        yield [foreign(ws, m, k == 0)]
        cut = sorted(r.sample(range(len(w2v_bytes(ws, m, k == 0))), 12))
        yield [cuts(ws, m, k == 0, cut)]
    for _ in range(ctx.size(260, 6000)):
        h = [write(*write_case(r))]
        n, d = r.randint(0, 6), r.choice([1, 1, 2, 3, 5])
        h.append(foreign(plain_words(r, n), gen.nice_matrix(r, n, d), r.random() < 0.5))
        yield h
    for _ in range(ctx.size(40, 600)):
        n, d = r.randint(1, 4), r.choice([1, 1, 2, 3])
        yield [cuts(plain_words(r, n, 5), gen.nice_matrix(r, n, d), r.random() < 0.5)]


# ---- C19 -------------------------------------------------------------------

def numeral(r, x):
    """A numeral for the float32 x, in one of many notations."""
    x = np.float32(x)
    y = float(x)
    k = r.randrange(9)
    if k == 0:
        return str(x)
    if k == 1:
        return repr(y)
    if k == 2:
        return "%.9g" % y
    if k == 3:
        return "%.12e" % y
    if k == 4:
        return "%.9E" % y
    if k == 5 and abs(y) < 1e6 and (y == 0 or abs(y) > 1e-3):
        return "%.20f" % y
    if k == 6 and y == int(y) and abs(y) < 1e9:
        return "%d" % y
    if k == 7 and y >= 0:
        return "+%.10g" % y
    if k == 8 and 0 < abs(y) < 1 and abs(y) > 1e-3:
        return ("%.15f" % y).replace("0.", ".", 1)
    return "%.17g" % y


def c19(ctx):
    from finalfusion.compat import load_text, load_text_dims, write_text, write_text_dims
    r = ctx.rng
    f = ctx.tmp / "v.txt"
    load = lambda dims: run(lambda: (load_text_dims if dims else load_text)(path_arg(r, f)), snap.t_snap(snap.snap))

    def write(p, trip):
        dims = r.random() < 0.5
        sep = r.choice([" ", " ", "\t", "  ", " \t", "||", "\u3000", ""])
        e = snap.mk_embeddings(ctx.ff, p, r)
        if f.exists() and r.random() < 0.5:
            f.unlink()
        w = write_text_dims if dims else write_text
        if sep == " " and r.random() < 0.5:
            w(path_arg(r, f), e)
        else:
            w(path_arg(r, f), e, sep)
        n = len(p["vocab"]["words"])
        trip = trip and sep.strip() == "" and sep not in ("\u3000", "") and (dims or n > 0)
        return {"op": "C19", "act": "write", "e": snap.spec_value(p), "b": snap.file_bytes(f), "dims": dims,
                "sep": list(sep.encode()), "trip": trip, "res": load(dims) if trip else {"t": "none"}}

    def event(lines, vecs, header, sep):
        b = b"" if not header else ("%d %d\n" % tuple(header)).encode()
        for w, toks in lines:
            b += w.encode() + (sep + " ".join(toks)).encode() + b"\n"
        put(f, b)
        return {"op": "C19", "act": "load", "lines": [[cps(w), [list(t.encode()) for t in toks]] for w, toks in lines],
                "vecs": [f32(np.asarray(v, np.float32)) for v in vecs], "cols": len(lines[0][1]) if lines else header[1],
                "sep": list(sep.encode()), "header": header, "b": list(b), "res": load(bool(header))}

    def foreign(n, d, bad):
        m = gen.nice_matrix(r, n, d) if n < 200 else gen.int_matrix(r, n, d)
        ws = plain_words(r, n)
        lines = [(w, [numeral(r, x) for x in v]) for w, v in zip(ws, m)]
        header = [n, d] if r.random() < 0.5 or n == 0 or (bad and n == 1) else []
        sep = r.choice([" ", "\t"])
        if bad == "more" and n:
            i = r.randrange(1 if not header and n > 1 else 0, n)
            lines[i] = (lines[i][0], lines[i][1] + ["1.5"] * r.choice([1, d]))
        elif bad == "less" and n and d > 1:
            i = r.randrange(1 if not header and n > 1 else 0, n)
            lines[i] = (lines[i][0], lines[i][1][:r.randint(1, d - 1)])
        elif bad == "rows" and n:
            header = [n + r.choice([1, 1, 2, 10, 1000]), d]
        elif bad == "cols" and n:
            header = [n, d + r.choice([1, -1, 5]) if d > 1 else d + 1]
        elif bad == "one" and n and d > 1:          # a single component
            i = r.randrange(1 if not header and n > 1 else 0, n)
            lines[i] = (lines[i][0], lines[i][1][:1])
        return event(lines, m, header, sep)

    # the exact rounding of written numbers, all exponents
    for k in ctx.mine(range(6)):
        bits = [(e << 23) | r.choice([0, 1, 0x7fffff, 0x400000, r.getrandbits(23)]) | (r.getrandbits(1) << 31)
                for e in range(k, 255, 6)] + [1, 2, 0x7fffff, 0x80000000, 0x7f7fffff, 0x00800000]
        m = np.array(bits, dtype='<u4').view('<f4').reshape(-1, 1)
        ws = ["w%d" % i for i in range(len(bits))]
        yield [write({"vocab": {"kind": "simple", "words": ws}, "storage": {"kind": "nd", "m": m}}, False)]
    for k in ctx.mine(range(2)):
        ws = ["a", "b", "c"]
        m = gen.nice_matrix(r, 3, 120, zero=0.3)        # long lines
        yield [write({"vocab": {"kind": "simple", "words": ws}, "storage": {"kind": "nd", "m": m}}, True)]
        yield [foreign(120, 2, "")]
        yield [foreign(600, 1, "")]
        for bad in ("more", "less", "rows", "cols", "one"):
            yield [foreign(260, 2, bad)]
        ws = long_words(r)
        m = gen.nice_matrix(r, len(ws), 3)
        yield [write({"vocab": {"kind": "simple", "words": ws}, "storage": {"kind": "nd", "m": m}}, True)]
        yield [event([(w, [numeral(r, x) for x in v]) for w, v in zip(ws, m)], m, [len(ws), 3] if k else [], " ")]
        ws = ["w%d" % i for i in range(1030)]
        m = gen.int_matrix(r, len(ws), 1)
        yield [write({"vocab": {"kind": "simple", "words": ws}, "storage": {"kind": "nd", "m": m}}, True)]
    for _ in range(ctx.size(160, 4000)):
        while True:
            p, trip = write_case(r)
            s = p["storage"]
            if s["kind"] == "nd" and not np.isfinite(s["m"]).all():
                continue
            if s["kind"] == "pq" and not np.isfinite(s["sub"]).all():
                continue
            break
        h = [write(p, trip)]
        h.append(foreign(r.randint(0, 6), r.choice([1, 1, 2, 3, 5]), ""))
        h.append(foreign(r.randint(1, 6), r.choice([1, 2, 3, 5]), r.choice(["more", "less", "rows", "cols", "one"])))
        yield h


# ---- C20 -------------------------------------------------------------------

def ft_hash(s):
    h = 2166136261
    for b in s.encode():
        h = ((h ^ (b if b < 128 else b | 0xffffff00)) * 16777619) & 0xffffffff
    return h


class Ft:
    """A fastText model file."""
    def __init__(self, r, n=None, cols=None, wild=True, hi=8, words=None, buckets=None):
        n = len(words) if words is not None else r.randint(0, 4) if n is None else n
        self.words = [w.encode() for w in plain_words(r, n, 5)]
        if r.random() < 0.2 and n:
            self.words[0] = (self.words[0].decode() + " \n x").encode()
            if len(set(self.words)) < n:
                self.words[0] = b"q q"
        lo = r.randint(1, 4)
        up = lo + r.randint(0, 3)
        buckets = r.choice([1, 2, 3, 7, 16]) if buckets is None else buckets
        cols = r.choice([1, 2, 3, 4]) if cols is None else cols
        self.cfg = [cols] + [r.choice([0, 1, 5, 300]) for _ in range(5)] + [r.randint(1, 3), r.randint(1, 3), buckets, lo, up,
                                                                            r.choice([0, 100])]
        self.thr = struct.pack("<d", r.choice([0.0, 1e-4, 0.5]))
        self.magic, self.version, self.labels, self.prune, self.quant = 793712314, 12, 0, -1, 0
        self.types = [0] * n
        self.freqs = [r.choice([0, 1, 1000, 2 ** 40, -1]) for _ in range(n)]
        self.m = gen.int_matrix(r, n + buckets, cols, -hi, hi)
        if r.random() < 0.15:
            self.m[:] = 0
        if words is not None:
            self.words = words
        if wild:        # buckets that no word uses hold anything
            used = {ft_hash(g) % buckets for w in self.words for g in py_ngrams(w.decode(), lo, up)}
            for k in range(buckets):
                if k not in used:
                    self.m[n + k] = gen.bit_matrix(r, 1, cols)[0]

    def head(self):
        n = len(self.words)
        b = struct.pack("<ii", self.magic, self.version) + struct.pack("<12i", *self.cfg) + self.thr
        b += struct.pack("<iiiqq", n, n, self.labels, 12345, self.prune)
        for w, q, t in zip(self.words, self.freqs, self.types):
            b += w + b"\0" + struct.pack("<qb", q, t)
        return b + struct.pack("<bqq", self.quant, *self.m.shape)

    def bytes(self):
        return self.head() + self.m.astype('<f4').tobytes()


INTS = ["dims", "window_size", "epoch", "min_count", "ns", "word_ngrams", "buckets", "min_n", "max_n", "lr_update_rate"]


def ft_meta(e):
    m = e.metadata
    return {"ints": [int(m[k]) for k in INTS], "loss": str(m["loss"]), "model": str(m["model"]),
            "thr": list(struct.pack("<d", m["sampling_threshold"])), "n": len(m)}


def c20(ctx):
    from finalfusion.compat import load_fasttext, write_fasttext
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    r = ctx.rng
    f, g = ctx.tmp / "m.bin", ctx.tmp / "w.bin"

    def load(f, box=None):
        def go():
            e = load_fasttext(path_arg(r, f))
            if box is not None:
                box.append(e)
            return e
        return run(go, snap.t_snap(snap.snap))

    def load_event(b, what):
        put(f, b)
        box = []
        res = load(f, box)
        meta = []
        if box and res["t"] == "val":
            try:
                meta = [ft_meta(box[0])]
            except Exception as x:       # the specification sees it as other metadata
                meta = [{"ints": [], "loss": type(x).__name__, "model": "", "thr": [], "n": 0}]
        return {"op": "C20", "act": "load", "b": list(b), "what": what, "res": res, "meta": meta}

    def written(e):
        if g.exists():
            g.unlink()
        res = run(lambda: write_fasttext(path_arg(r, g), e), lambda _: {"t": "bytes", "v": snap.file_bytes(g)})
        return res, load(g) if res["t"] == "bytes" else {"t": "none"}

    def trip(m):
        b = m.bytes()
        put(f, b)
        box = []
        res = load(f, box)
        w, again = written(box[0]) if box else ({"t": "none"}, {"t": "none"})
        return {"op": "C20", "act": "trip", "b": list(b), "res": res, "w": w, "again": again}

    def ft_params():
        p = int_params(r, n=r.randint(0, 4), hi=6, kinds=("fasttext",), norms=False)
        if p["storage"]["kind"] == "pq" and p["storage"]["proj"] is not None:
            p["storage"]["proj"] = None
        p["vocab"]["words"] = plain_words(r, len(p["vocab"]["words"]), 5)
        if r.random() < 0.6:
            p["norms"] = np.array([r.randint(1, 3) for _ in p["vocab"]["words"]], dtype=np.float32)
        return p

    def write_event(p):
        e = snap.mk_embeddings(ctx.ff, p, r)
        if p["vocab"]["kind"] == "fasttext":
            res, again = written(e)
            return {"op": "C20", "act": "write", "e": snap.spec_value(p), "res": res, "again": again,
                    "before": [], "after": []}
        before = r.choice([None, b"", b"keep me", bytes(range(256))])
        if g.exists():
            g.unlink()
        if before is not None:
            put(g, before)
        state = lambda: [-1] if not g.exists() else snap.file_bytes(g)
        s0 = state()
        res = run(lambda: write_fasttext(path_arg(r, g), e), lambda _: {"t": "val"})
        return {"op": "C20", "act": "write", "e": snap.spec_value(p), "res": res, "again": {"t": "none"},
                "before": s0, "after": state()}

    def refusals():
        def mk(**kw):
            m = Ft(r, n=r.randint(1, 3), wild=False)
            for k, v in kw.items():
                setattr(m, k, v)
            return m
        yield load_event(mk(magic=793712313).bytes(), "magic")
        yield load_event(mk(version=r.choice([11, 13, 0, -12])).bytes(), "version")
        yield load_event(mk(labels=r.choice([1, 2, -1])).bytes(), "supervised")
        yield load_event(mk(prune=r.choice([0, 1, 5])).bytes(), "pruned")
        yield load_event(mk(quant=r.choice([1, 2, -1])).bytes(), "quantized")
        m = mk()
        m.types[r.randrange(len(m.types))] = r.choice([1, 2, -1])
        yield load_event(m.bytes(), "label entry")
        m = mk()
        m.words[-1] = m.words[0]
        yield load_event(m.bytes(), "duplicate word")
        m = mk()
        m.words[0] = r.choice([b"\xff", b"a\xc3", b"\xed\xa0\x80"])
        yield load_event(m.bytes(), "malformed text")
        m = mk()
        b, h = m.bytes(), len(m.head())
        for _ in range(8):
            o = r.randrange(h)
            x = bytearray(b)
            x[o] = r.choice([x[o] ^ (1 << r.randrange(8)), r.randrange(256)])
            yield load_event(bytes(x), "byte")

    for k in ctx.mine(range(3)):        # many words, many buckets, long words
        ws = [w.encode() for w in ["w%d" % i for i in range(300)]]
        m = Ft(r, cols=2, hi=3, words=ws, buckets=[1000, 40, 7][k])
        yield [load_event(m.bytes(), "model"), trip(m)]
        ws = [("q" * n).encode() for n in (63, 64, 65, 127, 128, 129, 255, 256, 300)]
        m = Ft(r, cols=1, hi=3, words=ws + ["ä".encode() * 70], buckets=[5, 64, 257][k])
        yield [load_event(m.bytes(), "model"), trip(m)]
    for _ in range(ctx.size(8, 100)):         # wide
        m = Ft(r, n=r.randint(1, 4), cols=r.choice([16, 64, 100, 129, 300, 513, 1025]), buckets=r.choice([1, 3, 7]))
        yield [load_event(m.bytes(), "model"), trip(m)]
    for _ in range(ctx.size(140, 3000)):
        m = Ft(r)
        yield [load_event(m.bytes(), "model"), trip(m)]
        yield [write_event(ft_params())]
        yield [write_event(snap.rand_params(r, data="int", kinds=("simple", "bucket", "explicit")))]
    for _ in range(ctx.size(24, 400)):
        yield list(refusals())
        m = Ft(r, n=r.randint(0, 3), cols=r.choice([1, 2]))
        b = m.bytes()
        cuts = []
        for n in range(len(b)):
            put(f, b[:n])
            cuts.append({"n": n, "res": run(lambda: load_fasttext(str(f)), lambda _: {"t": "val"})})
        yield [{"op": "C20", "act": "cuts", "b": list(b), "cuts": cuts}]
        # and of written files, up to the end of the matrix
        e = snap.mk_embeddings(ctx.ff, ft_params(), r)
        w, _ = written(e)
        if w["t"] == "bytes":
            cuts = []
            for n in range(len(w["v"])):
                put(f, w["v"][:n])
                cuts.append({"n": n, "res": run(lambda: load_fasttext(str(f)), lambda _: {"t": "val"})})
            yield [{"op": "C20", "act": "cuts", "b": w["v"], "cuts": cuts}]


# ---- C21 -------------------------------------------------------------------

BAD = [b"\xff", b"\xfe", b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc3", b"\xe4\xb8", b"\xe4", b"\xe0\x80\x80",
       b"\xe0\x9f\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf0\x9f\x98", b"\xf0\x9f", b"\xf0", b"\xf0\x8f\xbf\xbf",
       b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xf1\x80\x80", b"\xe1\x80\xe2\xf0\x91\x92\xf1\xbf"]
GOOD = ["a", "ä", "語", "😀", "\ufffd", "\ufeff", "\u00a0", "\u0085", "\u2028", "\x7f", "\x01", "\x1c", "zz"]


def bad_word(r):
    b = b""
    for _ in range(r.randint(1, 4)):
        k = r.random()
        if k < 0.5:
            b += r.choice(BAD)
        elif k < 0.9:
            b += r.choice(GOOD).encode()
        else:
            b += bytes(r.randrange(128, 256) for _ in range(r.randint(1, 4)))
    return b


def mixed_words(r, n, bad=0.5):
    out, seen = [], set()
    while len(out) < n:
        w = bad_word(r) if r.random() < bad else gen.word(r, 6, nospace=True, minlen=1).encode()
        d = w.decode("utf-8", "replace")
        if d in seen or not w:
            continue
        seen.add(d)
        out.append(w)
    return out


def c21(ctx):
    from finalfusion.compat import load_text, load_text_dims, load_word2vec, load_fasttext
    r = ctx.rng
    f = ctx.tmp / "u"
    loaders = {"word2vec": load_word2vec, "text": load_text, "textdims": load_text_dims, "fasttext": load_fasttext}

    def event(fmt, words, m, d, long=False):
        cfg = []
        if fmt == "word2vec":
            b = w2v_bytes(words, m, r.random() < 0.5)
        elif fmt == "fasttext":
            ft = Ft(r, n=0, cols=d)
            ft.words, ft.types, ft.freqs = words, [0] * len(words), [1] * len(words)
            ft.m = gen.int_matrix(r, len(words) + ft.cfg[8], d)
            m, cfg = ft.m, ft.cfg
            b = ft.bytes()
        else:
            b = ("%d %d\n" % m.shape).encode() if fmt == "textdims" else b""
            for w, v in zip(words, m):
                b += w + r.choice([b" ", b"\t"]) + " ".join(repr(float(x)) for x in v).encode() + b"\n"
        put(f, b)
        fn = loaders[fmt]
        go = lambda fn_: run(fn_, snap.t_snap(snap.snap))
        k = r.randrange(3)
        strict = go(lambda: fn(path_arg(r, f)) if k else fn(path_arg(r, f), lossy=False))
        lossy = go(lambda: fn(path_arg(r, f), lossy=True) if k else fn(path_arg(r, f), True))
        return {"op": "C21", "fmt": fmt, "words": [list(w) for w in words], "vecs": vec_bits(m), "cols": d, "cfg": cfg,
                "strict": strict, "lossy": lossy}

    FMTS = ["word2vec", "text", "textdims", "fasttext"]

    def one(fmt, words):
        d = r.choice([1, 2, 3])
        return event(fmt, words, gen.nice_matrix(r, len(words), d), d)

    # every malformed sequence alone, at the end, and before other characters
    for i, bad in enumerate(BAD):
        if i % ctx.nshards != ctx.shard:
            continue
        for fmt in FMTS:
            ws = [b"ok", b"x" + bad + b"y", bad, bad + "ü".encode()]
            if len({w.decode("utf-8", "replace") for w in ws}) == 4:
                yield [one(fmt, ws)]
    # all short byte strings over representative bytes, many to a file
    files = []
    for c in ctx.generated("GenUtf8"):
        w = bytes(c["b"])
        d = w.decode("utf-8", "replace")
        for ws, seen in files:
            if d not in seen and len(ws) < 50:
                break
        else:
            ws, seen = [], set()
            files.append((ws, seen))
        ws.append(w)
        seen.add(d)
    for k, (ws, _) in enumerate(files):
        for fmt in FMTS if ctx.tier != "quick" else [FMTS[k % 4]]:
            yield [one(fmt, ws)]
        if len(ws) == 1 and ctx.tier == "quick":
            for fmt in FMTS:
                yield [one(fmt, ws)]
    for _ in range(ctx.size(200, 5000)):
        for fmt in FMTS:
            yield [one(fmt, mixed_words(r, r.randint(1, 5), r.choice([0, 0.3, 0.7])))]
    # long words, characters and malformed sequences around round lengths
    for edge in ctx.mine([16, 32, 64, 100, 128, 255, 256, 512] + ([1024, 4096] if ctx.tier != "quick" else [])):
        for fmt in FMTS:
            if fmt == "fasttext" and edge > 128:
                continue
            for pool in ([g.encode() for g in GOOD], BAD + [g.encode() for g in GOOD]):
                ws = []
                for k in range(4):
                    w = b"%d" % k + b"_" * (edge - r.randint(1, 6) - 1)
                    while len(w) < edge + 3:
                        w += r.choice(pool)
                    ws.append(w + b"z" * r.randint(0, 3))
                yield [one(fmt, ws)]
    # files longer than the buffers of the file layer, malformed sequences around their ends
    for fmt in ctx.mine(FMTS * (1 if ctx.tier == "quick" else 6)):
        n = 320
        ws = [b"%d" % i + r.choice(BAD + [g.encode() for g in GOOD]) * r.randint(1, 3) + b"_" * r.randint(0, 30) for i in range(n)]
        if fmt == "fasttext":
            ws = ws[:60]
        yield [one(fmt, ws)]
        ws = [b"%d" % i + r.choice(GOOD).encode() + b"_" * r.randint(0, 60) for i in range(len(ws))]
        yield [one(fmt, ws)]
