"""Large embeddings given by formulas (FFBig), for any property."""
import hashlib
import json

import numpy as np

from rec import *  # noqa
from drivers.embed import t_pair, t_sims
from drivers.subword import mk_indexer

EDGES = [1, 2, 127, 128, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4095, 4096, 4097, 9999, 10000, 10001,
         16384, 32767, 32768, 32769, 65535, 65536, 65537]


def rows_of(n):
    i = np.arange(n, dtype=np.int64)
    u, v = (i * 7) % 17 - 8, (i // 3) % 13 - 6
    j = i + 1
    u = np.where((j > 4000) & (j % 97 == 0), 9 + (j // 97) % 20, u)      # the extremes are far from the start
    u = np.where((j > 4000) & (j % 101 == 0), -9 - (j // 101) % 20, u)
    return np.stack([u, v], axis=1).astype(np.float32)


class Big:
    def __init__(self, ctx, n, kind="simple", b=1, lo=3, hi=4, sto="nd"):
        from finalfusion import Embeddings
        from finalfusion.norms import Norms
        from finalfusion.storage import NdArray, QuantizedArray
        from finalfusion.storage.quantized import PQ
        from finalfusion.vocab import SimpleVocab, FinalfusionBucketVocab, FastTextVocab
        self.ctx, self.r, self.n, self.kind, self.b = ctx, ctx.rng, n, kind, b
        ws = ["w%d" % i for i in range(n)]
        p = {"kind": kind, "lo": lo, "hi": hi, "b": b}
        if kind == "simple":
            v, self.rows = SimpleVocab(ws), n
        else:
            v = {"bucket": FinalfusionBucketVocab, "fasttext": FastTextVocab}[kind](ws, mk_indexer(ctx.ff, p))
            self.rows = n + (1 << b if kind == "bucket" else b)
        m = rows_of(self.rows)
        if sto == "nd":
            s = NdArray(m)
        else:
            c = np.arange(60, dtype=np.float32).reshape(60, 1)
            s = QuantizedArray(PQ(np.stack([c - 30, c - 6]), None), (m + np.array([30, 6])).astype(np.uint8), None)
        nrm = (np.arange(n) % 5 + 1).astype(np.float32)
        self.e = Embeddings(s, v, norms=Norms(nrm))
        self.spec = {"n": n, "kind": kind, "lo": lo, "hi": hi, "buckets": b if kind == "bucket" else u64(b), "sto": sto}
        self.f = ctx.tmp / "big.bin"

    def ev(self, op, act, **kw):
        return dict({"op": op, "act": act, "big": self.spec}, **kw)

    def places(self, k=6, n=None):
        n = self.n if n is None else n
        s = {i for i in EDGES if i <= n} | {n, max(1, n - 1)} | {self.r.randint(1, n) for _ in range(k)}
        return sorted(s)

    def words(self, k=6):
        return ["w%d" % (i - 1) for i in self.places(k)] + \
            ["w%d" % self.n, "w%d" % (self.n + 70000), "w01", "w", "x123", "w12w34", "", "zzzz"]

    # -- events
    def look(self, op):
        e, q = self.e, []
        for w in self.words():
            q.append({"w": cps(w), "idx": run(lambda: e.vocab.idx(w), t_idx), "get": run(lambda: e[w], t_vec),
                      "emb": run(lambda: e.embedding(w), t_vec), "wn": run(lambda: e.embedding_with_norm(w), t_pair),
                      "isin": run(lambda: w in e, t_bool)})
        return self.ev(op, "look", q=q)

    def long(self, op):
        e, q = self.e, []
        for length in self.r.sample([255, 256, 257, 500, 513, 1023, 1024, 1025, 2047, 2049, 3000], 4) + [1500]:
            c = self.r.choice(["a", "ä", "語", "😀"])
            w = c * length
            q.append({"c": ord(c), "N": length, "n": self.spec["lo"], "br": True, "x": {},
                      "emb": run(lambda: e.embedding(w), t_vec), "wn": run(lambda: e.embedding_with_norm(w), t_pair)})
        return self.ev(op, "long", q=q)

    def at(self, e):
        want, out, k = set(self.places()), [], 0
        for k, t in enumerate(e, 1):
            if k in want:
                out.append({"i": k, "w": cps(t[0]), "v": f32(t[1]), "n": [f1(x) for x in t[2:]]})
        return k, out

    def iter(self, op):
        k, out = self.at(self.e)
        return self.ev(op, "iter", count=k, at=out)

    def ks(self):
        return self.r.choice([1, 3, 10, 100, 300])

    def skips(self):
        return {"w%d" % (i - 1) for i in self.r.sample(self.places(), min(self.n, self.r.choice([0, 1, 5, 20])))} | {"zz"}

    def sim(self, op, m=3):
        e, q = self.e, []
        for w in self.r.sample(self.words(), m):
            k = self.ks()
            q.append({"kind": "word", "w": cps(w), "k": k, "res": run(lambda: e.word_similarity(w, k), t_sims)})
        for _ in range(m):
            k, sk = self.ks(), self.skips()
            vec = [self.r.randint(-5, 5) for _ in range(2)]
            q.append({"kind": "vec", "vec": vec, "k": k, "skip": [cps(w) for w in sorted(sk)],
                      "res": run(lambda: e.embedding_similarity(np.array(vec, np.float32), k, set(sk)), t_sims)})
        for _ in range(m):                 # the best ones are skipped
            k, vec = self.ks(), np.array([self.r.randint(-5, 5) for _ in range(2)], np.float32)
            try:
                sk = {x.word for x in e.embedding_similarity(vec, self.r.choice([10, 30, 100, 260]))}
            except Exception:  # pylint: disable=broad-except
                sk = set()
            sk = set(self.r.sample(sorted(sk), self.r.randint(0, len(sk)))) if self.r.random() < 0.3 else sk
            q.append({"kind": "vec", "vec": [int(x) for x in vec], "k": k, "skip": [cps(w) for w in sorted(sk)],
                      "res": run(lambda: e.embedding_similarity(vec, k, set(sk)), t_sims)})
        return self.ev(op, "sim", q=q)

    def ana(self, op, m=3):
        e, q = self.e, []
        for _ in range(m):
            a, b, c = ("w%d" % (self.r.choice(self.places()) - 1) for _ in range(3))
            k = self.ks()
            sk = self.skips() if self.r.random() < 0.6 else None
            q.append({"a": cps(a), "b": cps(b), "c": cps(c), "k": k,
                      "skip": [] if sk is None else [[cps(w) for w in sorted(sk)]],
                      "res": run(lambda: e.analogy(a, b, c, k, None if sk is None else set(sk)), t_sims)})
        return self.ev(op, "ana", q=q)

    @staticmethod
    def digest(*xs):
        h = hashlib.sha256()
        for x in xs:
            h.update(x if isinstance(x, bytes) else repr(x).encode())
            h.update(b"|")
        return h.hexdigest()

    def d_voc(self, v):
        ix = getattr(v, "subword_indexer", None)
        return self.digest(type(v).__name__, "\n".join(v.words), v.upper_bound,
                           [] if ix is None else [ix.min_n, ix.max_n, ix.upper_bound, type(ix).__name__])

    def d_sto(self, s):
        return self.digest(type(s).__name__, s.shape, np.ascontiguousarray(np.asarray(s)).tobytes())

    def d_nrm(self, n):
        return self.digest(type(n).__name__, np.ascontiguousarray(np.asarray(n)).tobytes())

    def d_all(self, e):
        return self.digest(self.d_voc(e.vocab), self.d_sto(e.storage), self.d_nrm(e.norms), e.n_words, e.dims,
                           self.d_met(e.metadata))

    def d_met(self, m):
        return self.digest(type(m).__name__, b"" if m is None else json.dumps(dict(m), sort_keys=True).encode())

    @staticmethod
    def t_id(fn):
        return lambda v: {"t": "id", "v": fn(v)}

    def trip(self, op):
        from finalfusion import load_finalfusion
        if self.f.exists():
            self.f.unlink()
        self.e.write(str(self.f))
        files, loads = [self.digest(self.f.read_bytes())], []
        g = self.ctx.tmp / "big2.bin"
        for mm in (False, True):
            box = []

            def load():
                box.append(load_finalfusion(str(self.f), mm))
                return box[0]
            loads.append(run(load, self.t_id(self.d_all)))
            if box:
                if g.exists():
                    g.unlink()
                box[0].write(str(g))
                files.append(self.digest(g.read_bytes()))
        return self.ev(op, "trip", made=self.d_all(self.e), loads=loads, files=files)

    def parts(self, op):
        from finalfusion import vocab, storage, norms, metadata
        self.e.write(str(self.f))
        out = []
        f = str(self.f)

        def part(what, fn, dig, want):
            out.append({"what": what, "res": run(fn, self.t_id(dig)), "want": want})
        v, s, n = self.d_voc(self.e.vocab), self.d_sto(self.e.storage), self.d_nrm(self.e.norms)
        part("vocab", lambda: vocab.load_vocab(f), self.d_voc, v)
        name = {"simple": "load_simple_vocab", "explicit": "load_explicit_vocab", "bucket": "load_finalfusion_bucket_vocab", "fasttext": "load_fasttext_vocab"}
        part(name[self.kind], lambda: getattr(vocab, name[self.kind])(f), self.d_voc, v)
        for mm in (False, True):
            part("storage", lambda: storage.load_storage(f, mm), self.d_sto, s)
            g = "load_ndarray" if self.spec["sto"] == "nd" else "load_quantized_array"
            part(g, lambda: getattr(storage, g)(f, mm), self.d_sto, s)
        part("norms", lambda: norms.load_norms(f), self.d_nrm, n)
        if self.e.metadata is not None:
            part("metadata", lambda: metadata.load_metadata(f), self.d_met, self.d_met(self.e.metadata))
        return self.ev(op, "parts", parts=out)

    def layout(self, op):
        import struct
        if self.f.exists():
            self.f.unlink()
        self.e.write(str(self.f))
        b = self.f.read_bytes()
        pos, chunks = 24, []
        while pos + 12 <= len(b) and len(chunks) < 9:
            i, ln = struct.unpack_from("<IQ", b, pos)
            chunks.append([min(i, 1 << 30), min(ln, 1 << 30)])
            pos += 12 + ln
        fixed = 36 + (8 if self.kind == "simple" else 20)
        lens = np.cumsum([0] + [5 + len(str(i)) for i in range(self.n)])
        ws = [(i, fixed + int(lens[i - 1]), 5 + len(str(i - 1))) for i in self.places()]
        end = 36 + sum(c[1] + 12 for c in chunks[:2]) - 12
        rw = [(i, end - 8 * (self.rows - i + 1), 8) for i in self.places(n=self.rows)]
        nm = [(i, len(b) - 4 * (self.n - i + 1), 4) for i in self.places()]
        look = lambda xs: [{"i": i, "off": o, "b": list(b[o:o + k])} for i, o, k in xs if o >= 0]
        return self.ev(op, "layout", size=len(b), head=list(b[:24]), chunks=chunks, words=look(ws), rows=look(rw),
                       norms=look(nm))

    def cut(self, op, m=12):
        from finalfusion import load_finalfusion
        if self.f.exists():
            self.f.unlink()
        self.e.write(str(self.f))
        size = self.f.stat().st_size
        cuts = {size - 1, size - 4, size - 4 * self.n, size - 4 * self.n - 1, size - 4 * self.n - 20,
                size - 4 * self.n - 40, 65536, 65535, 131072} | {self.r.randrange(size) for _ in range(m)}
        out = []
        for c in sorted((c for c in cuts if 0 < c < size), reverse=True):
            with open(self.f, "r+b") as f:
                f.truncate(c)
            for mm in (False, True):
                out.append({"at": c, "mmap": mm, "res": run(lambda: load_finalfusion(str(self.f), mm), t_any)})
        self.f.unlink()
        return self.ev(op, "cut", cuts=out)

    def foreign(self, op, fmt):
        from finalfusion.compat import (write_word2vec, write_text, write_text_dims, write_fasttext,
                                        load_word2vec, load_text, load_text_dims, load_fasttext)
        w, l = {"word2vec": (write_word2vec, load_word2vec), "text": (write_text, load_text),
                "textdims": (write_text_dims, load_text_dims), "fasttext": (write_fasttext, load_fasttext)}[fmt]

        def trip():
            w(str(self.f), self.e)
            return l(str(self.f))

        def tag(x):
            k, out = self.at(x)
            for o in out:
                o["n"] = o["n"][0]
            return {"t": "val", "count": k, "at": out}
        return self.ev(op, "foreign", fmt=fmt, res=run(trip, tag))

    def explicit(self, op):
        from finalfusion.subword import ngrams
        e = self.e

        def tag(x):
            k, out = self.at(x)
            gs, lo, hi = [], self.spec["lo"], self.spec["hi"]
            ix = x.vocab.subword_indexer
            for w in self.words():
                if w in e:
                    gs += ngrams(w, lo, hi)
            grams = []
            for g in dict.fromkeys(gs):
                i = ix(g)
                grams.append({"g": cps(g), "idx": -1 if i is None else int(i),
                              "row": [] if i is None else f32(x.storage[len(x.vocab) + int(i)])})
            q = []
            for j in self.places()[-6:]:
                for w in ("w%d" % (j - 1) * 2, ):
                    # built of known n-grams only: the n-grams of w(j-1) without the closing ones
                    if all(ix(g) is not None for g in ngrams(w, lo, hi)):
                        q.append({"w": cps(w), "before": run(lambda: e.embedding(w), t_vec),
                                  "after": run(lambda: x.embedding(w), t_vec)})
            return {"t": "val", "count": k, "at": out, "grams": grams, "q": q, "lo": int(ix.min_n), "hi": int(ix.max_n),
                    "bound": int(ix.upper_bound), "rows": int(x.storage.shape[0])}
        return self.ev(op, "explicit", res=run(e.bucket_to_explicit, tag))

    def access(self, op, mm=False):
        from finalfusion import storage
        s, n = self.e.storage, self.rows
        if mm:
            self.e.storage.write(str(self.f))
            s = storage.load_storage(str(self.f), True)
        out = []

        def acc(how, fn, ix, sample=None):
            pick = list(range(len(ix))) if sample is None else sample

            def tag(v):
                a = np.asarray(v)
                return {"t": "mat", "count": int(a.shape[0]), "v": f32(a[pick])}
            out.append({"how": how, "count": len(ix), "ix": [int(ix[k]) for k in pick], "res": run(fn, tag)})
        some = [i - 1 for i in self.places(n=n)]
        self.r.shuffle(some)
        acc("list", lambda: s[list(some)], some)
        acc("array", lambda: s[np.array(some)], some)
        acc("negative", lambda: s[np.array(some) - n], some)
        mask = np.zeros(n, bool)
        mask[some] = True
        acc("mask", lambda: s[mask], sorted(some))
        for _ in range(4):
            a, b = (self.r.choice([None, self.r.randint(-n - 3, n + 3)]) for _ in range(2))
            st = self.r.choice([None, 1, 2, 255, 257, -1, -3])
            ix = list(range(n))[a:b:st]
            pick = sorted({0, len(ix) - 1, len(ix) // 2, len(ix) // 3} | {k for k in EDGES if k < len(ix)}) if ix else []
            acc("slice", lambda: s[a:b:st], ix, pick)
            sub = list(range(0, len(ix), 2))
            if ix:
                acc("slice of slice", lambda: s[a:b:st][::2], ix[::2], [k // 2 for k in pick if k % 2 == 0])
        acc("whole", lambda: np.asarray(s), range(n), [i for i in some])

        def it():
            got = {}
            for k, v in enumerate(s):
                if k in want:
                    got[k] = np.array(v)
            count.append(k + 1)
            return np.array([got[i] for i in some])
        want, count = set(some), []
        res = run(it, lambda v: {"t": "mat", "count": count[0], "v": f32(v)})
        out.append({"how": "iteration", "count": n, "ix": some, "res": res})
        return self.ev(op, "access", acc=out)


LENGTHS = [255, 256, 4095, 4096, 4097, 8191, 8193, 65535, 65536, 65537, 70001]


def rle(v):
    out = []
    for x in v:
        if out and out[-1][0] == x:
            out[-1][1] += 1
        else:
            out.append([x, 1])
    return out


def runs(ctx, op):
    """The n-grams of very long words that repeat one character."""
    from finalfusion.subword import ngrams
    from finalfusion.vocab import FinalfusionBucketVocab, FastTextVocab, ExplicitVocab
    r, q = ctx.rng, []
    t_str_runs = lambda v: {"t": "runs", "v": [[cps(g), k] for g, k in rle(v)]}
    t_idx_runs = lambda v: {"t": "runs", "v": [[u64(i), k] for i, k in rle(v)]}
    for kind in {"C06": ["plain", "bucket", "fasttext", "explicit"], "C07": ["bucket", "fasttext"], "C08": ["explicit"],
                 "C09": ["bucket", "fasttext", "explicit"]}[op]:
        for length in r.sample(LENGTHS[2:], 3) + [70001]:
            n, c, br = r.choice([1, 2, 3, 5]), r.choice(["a", "ä", "語", "😀", "<"]), r.random() < 0.7 or op == "C09"
            if c == "<" and br:
                c = "b"
            w = c * length
            x = {"kind": kind, "lo": n, "hi": n, "b": r.choice([3, 17, 33])}
            if kind == "explicit":
                x["ngrams"] = r.sample(list(dict.fromkeys([c * n, "<" + c * (n - 1), c * (n - 1) + ">", "zz" * n])), r.randint(2, 3))
            d = {"c": ord(c), "N": length, "n": n, "br": br, "off": u64(0), "x": {"kind": kind}}
            if kind == "plain":
                d["grams"] = run(lambda: ngrams(w, n, n, br), t_str_runs)
                q.append(d)
                continue
            d["x"] = {"kind": kind, "lo": n, "hi": n, "words": []}
            if kind == "explicit":
                d["x"].update(ngrams=[cps(g) for g in x["ngrams"]], table=list(range(len(x["ngrams"]))))
            else:
                d["x"]["buckets"] = x["b"] if kind == "bucket" else u64(x["b"])
            ix = mk_indexer(ctx.ff, x)
            off = r.choice([0, 5, 2 ** 33])
            if op == "C09":
                v = {"bucket": FinalfusionBucketVocab, "fasttext": FastTextVocab, "explicit": ExplicitVocab}[kind](["a", "b"], ix)
                off = 2
                d["idx"] = run(lambda: v.idx(w, []), t_idx_runs)
                if d["idx"] != {"t": "runs", "v": []}:         # subscripted, the same
                    other = run(lambda: v[w], t_idx_runs)
                    d["idx"] = d["idx"] if other == d["idx"] else other
                d["grams"] = run(lambda: [g for g, _ in v.subword_indices(w, with_ngrams=True)], t_str_runs)
            else:
                d["idx"] = run(lambda: ix.subword_indices(w, off, br), t_idx_runs)
                d["grams"] = run(lambda: [g for g, _ in ix.subword_indices(w, off, br, True)], t_str_runs)
            d["off"] = u64(off)
            q.append(d)
    return {"op": op, "act": "runs", "big": {"n": 0}, "q": q}


class LongWords(Big):
    """Few words, very long ones; everything compared as a whole."""
    def __init__(self, ctx, kind="simple", sto="nd"):
        from finalfusion import Embeddings
        from finalfusion.metadata import Metadata
        from finalfusion.norms import Norms
        from finalfusion.storage import NdArray
        from finalfusion.subword import ExplicitIndexer
        from finalfusion.vocab import SimpleVocab, FinalfusionBucketVocab, FastTextVocab, ExplicitVocab
        self.ctx, self.r, self.kind = ctx, ctx.rng, kind
        ws = [self.r.choice("abcäöü語😀") * k for k in self.r.sample(LENGTHS, 5) + [65536, 66000]] + ["x", "y"]
        ws = list(dict.fromkeys(ws))
        self.n = n = len(ws)
        if kind == "simple":
            v = SimpleVocab(ws)
        elif kind == "explicit":
            v = ExplicitVocab(ws, ExplicitIndexer(["b" * 65537, "abc", "語" * 22000], 3, 70000))
        else:
            v = {"bucket": FinalfusionBucketVocab, "fasttext": FastTextVocab}[kind](
                ws, mk_indexer(ctx.ff, {"kind": kind, "lo": 3, "hi": 3, "b": 2}))
        self.rows = v.upper_bound
        m = np.ones((self.rows, 1), np.float32)
        m[::2] = -1
        met = self.r.choice([{"a": "x" * self.r.choice([65530, 65536, 70000])}, {"l": list(range(12000)), "z": "ö"},
                             {"k%d" % i: {"v": i, "s": "é"} for i in range(3000)}])
        self.e = Embeddings(NdArray(m), v, norms=Norms((np.arange(n) % 5 + 1).astype(np.float32)), metadata=Metadata(met))
        self.spec = {"n": n, "kind": kind, "sto": "nd"}
        self.f = ctx.tmp / "long.bin"

    def kept(self, op, fmt):
        """A foreign format keeps words, vectors, norms (all exact here)."""
        from finalfusion.compat import (write_word2vec, write_text, write_text_dims, load_word2vec, load_text, load_text_dims)
        w, l = {"word2vec": (write_word2vec, load_word2vec), "text": (write_text, load_text),
                "textdims": (write_text_dims, load_text_dims)}[fmt]
        d = lambda e: self.digest("\n".join(e.vocab.words), np.ascontiguousarray(np.asarray(e.storage[:self.n]), dtype="<f4").tobytes(),
                                  self.d_nrm(e.norms))

        def trip():
            w(str(self.f), self.e)
            return l(str(self.f))
        return self.ev(op, "parts", parts=[{"what": fmt, "res": run(trip, self.t_id(d)), "want": d(self.e)}])


class Wide(Big):
    """Matrices of many megabytes: one component of each row is 1 or -1."""
    def __init__(self, ctx, n, cols, kind="simple", b=3):
        from finalfusion import Embeddings
        from finalfusion.norms import Norms
        from finalfusion.storage import NdArray
        from finalfusion.vocab import SimpleVocab, FinalfusionBucketVocab, FastTextVocab
        self.ctx, self.r, self.kind, self.n, self.b = ctx, ctx.rng, kind, n, b
        ws = ["w%d" % i for i in range(n)]
        if kind == "simple":
            v = SimpleVocab(ws)
        else:
            v = {"bucket": FinalfusionBucketVocab, "fasttext": FastTextVocab}[kind](
                ws, mk_indexer(ctx.ff, {"kind": kind, "lo": 3, "hi": 3, "b": b}))
        self.rows = v.upper_bound
        m = np.zeros((self.rows, cols), np.float32)
        at = (np.arange(self.rows) * 31 + self.r.randrange(cols)) % cols
        at[-1] = cols - 1
        m[np.arange(self.rows), at] = np.where(np.arange(self.rows) % 3, 1, -1)
        lay = self.r.randrange(3)
        m = np.asfortranarray(m) if lay == 0 else m.astype(">f4") if lay == 1 else m
        self.e = Embeddings(NdArray(m), v, norms=Norms((np.arange(n) % 5 + 1).astype(np.float32)))
        self.spec = {"n": n, "kind": kind, "sto": "nd"}
        self.f = ctx.tmp / "wide.bin"

    def d_sto(self, s):
        return self.digest(type(s).__name__, s.shape, np.ascontiguousarray(np.asarray(s), dtype="<f4").tobytes())

    def bytes(self, op):
        import enc
        p = {"vocab": {"kind": self.kind, "words": list(self.e.vocab.words), "lo": 3, "hi": 3, "b": self.b},
             "storage": {"kind": "nd", "m": np.asarray(self.e.storage)}, "norms": np.asarray(self.e.norms)}
        want = self.digest(enc.encode(p, ["vocab", "storage", "norms"])[0])

        def write():
            if self.f.exists():
                self.f.unlink()
            self.e.write(str(self.f))
            return self.f.read_bytes()
        return self.ev(op, "parts", parts=[{"what": "file", "res": run(write, self.t_id(self.digest)), "want": want}])

    kept = LongWords.kept


def huge(ctx, op, sto="nd"):
    """A file of more than 4 GiB, nearly all of it a hole, as another implementation may have written it."""
    import struct
    from finalfusion import load_finalfusion, vocab, storage, norms
    n, f = 70000 + ctx.rng.randrange(50), ctx.tmp / "huge.bin"
    cols = 16384 if sto == "nd" else 65536
    ws = ["w%d" % i for i in range(n)]
    body = struct.pack("<Q", n) + b"".join(struct.pack("<I", len(w)) + w.encode() for w in ws)
    head = b"FiFu" + struct.pack("<III", 0, 3, 1) + struct.pack("<II", 2 if sto == "nd" else 4, 6)
    voc = struct.pack("<IQ", 1, len(body)) + body
    pos = len(head) + len(voc) + 12
    if sto == "nd":
        fixed = struct.pack("<QII", n, cols, 10)
        pad = 4 - (pos + len(fixed)) % 4
        sub, size, form = b"", n * cols * 4, "<f4"
    else:
        fixed = struct.pack("<IIIIIQII", 0, 0, cols, cols, 3, n, 1, 10)
        pad = 4 - (pos + len(fixed)) % 4
        sub = np.tile(np.array([0, 5, -7], "<f4"), cols).tobytes()
        size, form = n * cols, "u1"
    length = len(fixed) + pad + len(sub) + size
    at = pos + len(fixed) + pad + len(sub)
    item = np.dtype(form).itemsize
    spots = {}
    for i in sorted({0, 1, 65535, 65536, n // 2, n - 1, (1 << 31) // (cols * item), (1 << 32) // (cols * item)}):
        spots[i] = (ctx.rng.randrange(cols), ctx.rng.randint(1, 2))
    nrm = (np.arange(n) % 5 + 1).astype("<f4")
    try:
        with open(f, "wb") as out:
            out.write(head + voc + struct.pack("<IQ", 2 if sto == "nd" else 4, length) + fixed + bytes(pad) + sub)
            for i, (c, v) in spots.items():
                out.seek(at + (i * cols + c) * item)
                out.write(np.array([v], form).tobytes())
            # where lengths of fewer bits would lead: nothing that passes for a chunk
            for m in ((1 << 31) - 1, (1 << 32) - 1):
                for x in (length, size):
                    to = (at - len(sub) - pad - len(fixed) if x == length else at) + (x & m)
                    if at <= to < at + size - 12 and all(abs((to - at) // (cols * item) - i) > 1 for i in spots):
                        out.seek(to)
                        out.write(b"\xff" * 12)
            out.seek(at + size)
            npos = at + size + 12 + struct.calcsize("<QI")
            npad = 4 - npos % 4
            out.write(struct.pack("<IQ", 6, 12 + npad + 4 * n) + struct.pack("<QI", n, 10) + bytes(npad) + nrm.tobytes())
    except OSError:                  # no room for it here
        if f.exists():
            f.unlink()
        return []
    b = Big.__new__(Big)
    out = []
    given = np.array([0, 5, -7], "<f4")

    def rows(s):
        got = []
        for i in spots:
            row = np.asarray(s[i])
            k = np.flatnonzero(row)
            got.append([i, row.shape, k.tolist(), row[k].tolist()])
        return b.digest(type(s).__name__, tuple(s.shape), got)
    what = {"nd": "NdArray", "pq": "QuantizedArray"}[sto]
    want = b.digest(what, (n, cols), [[i, (cols,), [c], [float(v) if sto == "nd" else float(given[v])]] for i, (c, v) in spots.items()])
    names = lambda v: b.digest(type(v).__name__, "\n".join(v.words))
    nums = lambda x: b.digest(type(x).__name__, np.asarray(x, "<f4").tobytes())
    g = str(f)

    def part(name, fn, dig, want):
        out.append({"what": name, "res": run(fn, b.t_id(dig)), "want": want})
    wn, wv = b.digest("Norms", nrm.tobytes()), b.digest("SimpleVocab", "\n".join(ws))
    part("norms", lambda: norms.load_norms(g), nums, wn)
    part("vocabulary", lambda: vocab.load_vocab(g), names, wv)
    part("storage", lambda: storage.load_storage(g, True), rows, want)
    part("storage by kind", lambda: (storage.load_ndarray if sto == "nd" else storage.load_quantized_array)(g, True), rows, want)
    part("all", lambda: load_finalfusion(g, True), lambda e: b.digest(names(e.vocab), rows(e.storage), nums(e.norms)), b.digest(wv, want, wn))
    with open(f, "r+b") as cut:
        cut.truncate(at + size - 1)
    left = run(lambda: load_finalfusion(g, True), t_any)
    part("cut short", lambda: None, lambda v: "raises" if left["t"] not in ("val", "other", "none") else "accepted", "raises")
    f.unlink()
    return [{"op": op, "act": "parts", "big": {"n": n, "kind": "simple", "sto": sto}, "parts": out}]


def big(ctx, op):
    """Behaviours about large embeddings, this shard's part."""
    def B(*a, **kw):
        return Big(ctx, *a, **kw)
    deep = ctx.tier != "quick"
    N = ctx.rng.choice([66000, 70000, 81920]) if not deep else 150000
    M = ctx.rng.choice([4500, 5000, 9000])
    W = lambda *a, **kw: Wide(ctx, *a, **kw)
    H = lambda sto="nd": huge(ctx, op, sto)
    jobs = {
        "C08": [lambda: runs(ctx, op)],
        "C07": [lambda: runs(ctx, op)],
        "C06": [lambda: runs(ctx, op)],
        "C01": [lambda: LongWords(ctx, "explicit").trip(op),
                lambda: LongWords(ctx, "fasttext").trip(op),
                lambda: LongWords(ctx, "bucket").trip(op),
                lambda: LongWords(ctx, "simple").trip(op),
                lambda: B(N).trip(op), lambda: B(M, "bucket", 17, 3, 6).trip(op), lambda: B(M, "fasttext", 100003).trip(op),
                lambda: B(N, sto="pq").trip(op), lambda: B(M, "bucket", 16, sto="pq").trip(op)],
        "C02": [lambda: B(N).layout(op), lambda: B(M, "bucket", 16).layout(op), lambda: B(M, "fasttext", 70001).layout(op)],
        "C03": [lambda: LongWords(ctx, "explicit").parts(op),
                lambda: LongWords(ctx, "fasttext").parts(op),
                lambda: LongWords(ctx, "bucket").parts(op),
                lambda: LongWords(ctx, "simple").parts(op),
                lambda: B(N).parts(op), lambda: B(M, "bucket", 16).parts(op), lambda: B(M, "fasttext", 70001, sto="pq").parts(op)],
        "C04": [lambda: LongWords(ctx, ctx.rng.choice(["simple", "explicit", "bucket"])).cut(op),
                lambda: B(N).cut(op), lambda: B(M, "bucket", 16).cut(op), lambda: B(N, sto="pq").cut(op)],
        "C09": [lambda: runs(ctx, op),
                lambda: B(N, "bucket", 10).look(op), lambda: B(N).look(op), lambda: B(M, "fasttext", 200003, 3, 6).look(op)],
        "C10": [lambda: B(N, "bucket", 10).look(op), lambda: B(N).iter(op), lambda: B(M, "fasttext", 200003, 3, 6).look(op),
                lambda: B(M, "bucket", 18, sto="pq").look(op), lambda: B(N, "bucket", 5, sto="pq").iter(op)],
        "C13": [lambda: B(N).sim(op), lambda: B(M, "bucket", 16).sim(op), lambda: B(N, "fasttext", 100, sto="pq").sim(op)],
        "C14": [lambda: B(N).ana(op), lambda: B(M, "bucket", 16).ana(op), lambda: B(N, "fasttext", 100, sto="pq").ana(op)],
        "C15": [lambda: B(N, sto="pq").access(op), lambda: B(M, sto="pq").access(op, True)],
        "C16": [lambda: B(N).access(op), lambda: B(N).access(op, True)],
        "C17": [lambda: B(M, "bucket", 17, 3, 6).explicit(op), lambda: B(N, "fasttext", 300000, 5, 6).explicit(op),
                lambda: B(M, "bucket", 8, 3, 4, sto="pq").explicit(op)],
        "C18": [lambda: LongWords(ctx).kept(op, "word2vec"),
                lambda: B(N).foreign(op, "word2vec"), lambda: B(M, "bucket", 10, sto="pq").foreign(op, "word2vec")],
        "C19": [lambda: LongWords(ctx).kept(op, "text"), lambda: LongWords(ctx, "explicit").kept(op, "textdims"),
                lambda: B(N).foreign(op, "text"), lambda: B(M, "bucket", 10).foreign(op, "textdims"),
                lambda: B(N, sto="pq").foreign(op, "textdims")],
        "C20": [lambda: B(M, "fasttext", 70001).foreign(op, "fasttext"), lambda: B(N, "fasttext", 11).foreign(op, "fasttext")],
    }
    more = {
        "C02": [lambda: W(N, 64).bytes(op), lambda: W(30, 300000).bytes(op), lambda: W(M, 500, "bucket", 10).bytes(op)],
        "C10": [lambda: B(1500, "bucket", 10, 3, 3).long(op), lambda: B(1500, "fasttext", 1001, 2, 2).long(op),
                lambda: B(1500, "bucket", 11, 5, 5, sto="pq").long(op)],
        "C01": [lambda: W(N, 64).trip(op), lambda: W(30, 300000).trip(op), lambda: W(M, 500, "bucket", 10).trip(op)],
        "C03": [lambda: W(30, 300000).parts(op), H, lambda: H("pq")],
        "C15": [lambda: H("pq")],
        "C16": [H],
        "C18": [lambda: W(N, 64).kept(op, "word2vec"), lambda: W(20, 200000).kept(op, "word2vec")],
        "C19": [lambda: W(20, 20000).kept(op, "text"), lambda: W(20, 20000).kept(op, "textdims"), lambda: W(M, 50).kept(op, "text")],
    }
    for job in ctx.mine(jobs.get(op, []) + more.get(op, [])):
        ev = job()
        if ev:
            yield [ev] if isinstance(ev, dict) else ev
