"""Drivers for C01-C05: finalfusion files."""
import os
import pathlib
import resource
import signal
import sys
import tomllib

import numpy as np

import enc
import gen
import snap
from rec import *  # noqa
from drivers.subword import mk_vocab


def path_arg(r, p):
    return r.choice([str(p), os.fsencode(p), pathlib.Path(p)])


def loaders():
    from finalfusion.vocab import load_vocab, load_simple_vocab, load_finalfusion_bucket_vocab, \
        load_fasttext_vocab, load_explicit_vocab
    from finalfusion.storage import load_storage, load_ndarray, load_quantized_array
    from finalfusion.norms import load_norms
    from finalfusion.metadata import load_metadata
    V, S, N, M = snap.snap_vocab, snap.snap_storage, snap.snap_norms, snap.snap_meta
    out = [("vocab", False, load_vocab, V), ("simple_vocab", False, load_simple_vocab, V),
           ("bucket_vocab", False, load_finalfusion_bucket_vocab, V),
           ("fasttext_vocab", False, load_fasttext_vocab, V),
           ("explicit_vocab", False, load_explicit_vocab, V),
           ("norms", False, load_norms, N), ("metadata", False, load_metadata, M)]
    for name, fn in (("storage", load_storage), ("ndarray", load_ndarray), ("quantized", load_quantized_array)):
        out.append((name, False, fn, S))
        out.append((name, True, lambda p, fn=fn: fn(p, mmap=True), S))
    return out


def t_bytes_of(path):
    return lambda _: {"t": "bytes", "v": snap.file_bytes(path)}


def big_cases(r):
    """A few larger values: counts, lengths and sizes beyond one byte."""
    ws = ["w%d" % i for i in range(300)]
    yield {"vocab": {"kind": "simple", "words": ws}, "storage": snap.rand_nd(r, 300, 3),
           "norms": gen.bit_matrix(r, 300, 1).reshape(300)}
    yield {"vocab": {"kind": "bucket", "words": ["ß" * 200, "x" * 256, "y" * 255], "lo": 3, "hi": 300, "b": 8},
           "storage": snap.rand_pq(r, 259, q=2, s=1, k=256, proj=False, norms=True)}
    yield {"vocab": {"kind": "fasttext", "words": ["a", "語" * 100], "lo": 1, "hi": 1, "b": 270},
           "storage": snap.rand_nd(r, 272, 2), "meta": {"k" * 300: "v" * 700}}
    yield {"vocab": {"kind": "simple", "words": ["a", "b"]}, "storage": snap.rand_nd(r, 2, 300),
           "norms": gen.bit_matrix(r, 2, 1).reshape(2)}
    ng = ["g%d" % i for i in range(280)]
    vals = list(range(270)) + [r.randrange(270) for _ in range(10)]
    r.shuffle(vals)
    yield {"vocab": {"kind": "explicit", "words": ["a", "b", ""], "lo": 2, "hi": 4, "ngrams": ng,
                     "table": dict(zip(ng, vals))},
           "storage": snap.rand_nd(r, 273, 1), "meta": {}}
    yield {"vocab": {"kind": "simple", "words": ["p%d" % i for i in range(260)]},
           "storage": snap.rand_pq(r, 260, q=3, s=2, k=200, proj=True, norms=False)}


def cases(ctx, quick, thorough, **kw):
    r = ctx.rng
    for p in ctx.mine(list(big_cases(r))):
        yield p
    for _ in range(ctx.size(quick, thorough)):
        yield snap.rand_params(r, **kw)


def lone_vocabs(ctx, quick, thorough):
    """Vocabularies that need no storage: any bucket number and exponent, any range."""
    from drivers.subword import EXPS, NBUCKETS, rand_vocab
    r = ctx.rng
    fixed = [{"kind": "bucket", "words": ["a"], "lo": 1, "hi": 2, "b": b} for b in EXPS] \
        + [{"kind": "fasttext", "words": ["a", ""], "lo": 2, "hi": 3, "b": b} for b in NBUCKETS] \
        + [{"kind": k, "words": ["b"], "lo": lo, "hi": hi, "b": 5}
           for k in ("bucket", "fasttext") for lo, hi in ((1, 255), (255, 256), (300, 70000), (65536, 2 ** 31 - 1))]
    for v in ctx.mine(fixed):
        yield {"vocab": v}
    for _ in range(ctx.size(quick, thorough)):
        yield {"vocab": rand_vocab(r, small=False)}


def long_chunks(r):
    """Chunks longer than 64 KiB."""
    ws = ["x" * 40000, "語" * 9000, "y", ""]
    yield {"vocab": {"kind": "simple", "words": ws}, "storage": snap.rand_nd(r, 4, 1), "meta": {"a": 1},
           "norms": gen.bit_matrix(r, 4, 1).reshape(4)}
    yield {"vocab": {"kind": "fasttext", "words": ["a", "b"], "lo": 1, "hi": 1, "b": 1},
           "storage": snap.rand_nd(r, 3, 5500), "norms": gen.bit_matrix(r, 2, 1).reshape(2)}


def empties():
    yield {"vocab": {"kind": "simple", "words": []}, "storage": {"kind": "nd", "m": np.zeros((0, 3), np.float32)}}
    yield {"vocab": {"kind": "simple", "words": []}, "storage": {"kind": "nd", "m": np.zeros((0, 0), np.float32)},
           "norms": np.zeros(0, np.float32), "meta": {}}
    yield {"vocab": {"kind": "simple", "words": ["a", ""]}, "storage": {"kind": "nd", "m": np.zeros((2, 0), np.float32)},
           "norms": np.array([1, 2], np.float32)}
    yield {"vocab": {"kind": "explicit", "words": ["a"], "lo": 1, "hi": 2, "ngrams": []},
           "storage": {"kind": "nd", "m": np.ones((1, 2), np.float32)}, "meta": {"x": 1}}


# ---- C01 -------------------------------------------------------------------

def ev01(ctx, p):
    from finalfusion import load_finalfusion
    from finalfusion.vocab import load_vocab
    from finalfusion.storage import load_storage
    from finalfusion.norms import load_norms
    from finalfusion.metadata import load_metadata
    r = ctx.rng
    f, g = ctx.tmp / "e.fifu", ctx.tmp / "again.fifu"
    e = snap.mk_embeddings(ctx.ff, p, r)
    e.write(path_arg(r, f))
    ev = {"op": "C01", "e": snap.spec_value(p), "b": snap.file_bytes(f), "loads": [], "comps": []}
    for mmap in (False, True):
        box = []

        def load():
            box.append(load_finalfusion(path_arg(r, f), mmap))
            return box[0]
        l = {"mmap": mmap, "res": run(load, snap.t_snap(snap.snap))}
        l["again"] = run(lambda: box[0].write(path_arg(r, g)), t_bytes_of(g)) if box else {"t": "none"}
        ev["loads"].append(l)
        del box
    comp = [("vocab", e.vocab, load_vocab, snap.snap_vocab),
            ("storage", e.storage, load_storage, snap.snap_storage),
            ("storage", e.storage, lambda q: load_storage(q, True), snap.snap_storage)]
    if e.norms is not None:
        comp.append(("norms", e.norms, load_norms, snap.snap_norms))
    if e.metadata is not None:
        comp.append(("metadata", e.metadata, load_metadata, snap.snap_meta))
    for name, obj, fn, sn in comp:
        h = ctx.tmp / "c.fifu"

        def both():
            obj.write(path_arg(r, h))
            return fn(path_arg(r, h))
        ev["comps"].append({"name": name, "res": run(both, snap.t_snap(sn))})
    return ev


def lone01(ctx, p):
    from finalfusion.vocab import load_vocab
    r = ctx.rng
    v = mk_vocab(ctx.ff, p["vocab"])
    h = ctx.tmp / "c.fifu"

    def both():
        v.write(path_arg(r, h))
        return load_vocab(path_arg(r, h))
    return {"op": "C01", "e": snap.spec_value(p), "b": [], "loads": [],
            "comps": [{"name": "vocab", "res": run(both, snap.t_snap(snap.snap_vocab))}]}


def c01(ctx):
    for p in ctx.mine(list(long_chunks(ctx.rng))):
        yield [ev01(ctx, p)]
    for p in lone_vocabs(ctx, 60, 1000):
        yield [lone01(ctx, p)]
    for p in ctx.mine(list(empties())):
        yield [ev01(ctx, p)]
    for case in ctx.generated("GenValues"):
        yield [ev01(ctx, gen_params(case))]
    for p in cases(ctx, 150, 3000):
        yield [ev01(ctx, p)]


def gen_params(case):
    """A value enumerated by the specification as parameters."""
    v = case["vocab"]
    st = lambda w: "".join(map(chr, w))
    d = {"kind": v["kind"], "words": [st(w) for w in v["words"]]}
    if v["kind"] != "simple":
        d["lo"], d["hi"] = v["lo"], v["hi"]
    if v["kind"] == "bucket":
        d["b"] = v["buckets"][0]
    elif v["kind"] == "fasttext":
        d["b"] = v["buckets"][0]
    elif v["kind"] == "explicit":
        d["ngrams"] = [st(g) for g in v["ngrams"]]
        d["table"] = dict(zip(d["ngrams"], v["table"]))
    rows = snap.bound(d)
    ar = lambda x: np.array(x, dtype='<i4').view('<f4')
    s = case["storage"]
    if s == "nd":
        sto = {"kind": "nd", "m": ar([[1065353216 + 7 * i + j for j in range(2)] for i in range(rows)]).reshape(rows, 2)}
    else:
        sto = {"kind": "pq", "sub": ar([[[1065353216 + m + 9 * k] for k in range(3)] for m in range(2)]),
               "proj": np.array([[0, 1], [1, 0]], np.float32) if "p" in s[2:] else None,
               "norms": np.array([2.0 ** (i % 3) for i in range(rows)], np.float32) if "n" in s[2:] else None,
               "codes": np.array([[i % 3, (i + 1) % 3] for i in range(rows)], np.uint8).reshape(rows, 2)}
        if sto["proj"] is not None:
            sto["sub"] = np.array([[[1], [2], [3]], [[4], [5], [6]]], np.float32)
    p = {"vocab": d, "storage": sto}
    if case["norms"]:
        p["norms"] = np.array([0.5 + i for i in range(len(d["words"]))], np.float32)
    if case["meta"]:
        p["meta"] = {"a": "ä", "n": 1}
    return p


# ---- C02 -------------------------------------------------------------------

def meta_of(b, n):
    """What the metadata chunk's text says, by an independent TOML parser."""
    o = 12 + 4 * n
    try:
        k = int.from_bytes(bytes(b[o + 4:o + 12]), "little")
        if int.from_bytes(bytes(b[o:o + 4]), "little") != 5:
            return []
        return [js(tomllib.loads(bytes(b[o + 12:o + 12 + k]).decode("utf-8")))]
    except Exception as x:
        return ["unreadable"]


def c02(ctx):
    r = ctx.rng
    plist = ctx.mine(list(empties()))
    plist += [gen_params(c) for c in ctx.generated("GenValues")]

    for p in lone_vocabs(ctx, 60, 1000):
        f = ctx.tmp / "v.fifu"
        mk_vocab(ctx.ff, p["vocab"]).write(path_arg(r, f))
        yield [{"op": "C02", "only": "vocab", "e": snap.spec_value(p), "b": snap.file_bytes(f), "meta": []}]

    def all_cases():
        yield from ctx.mine(list(long_chunks(r)))
        yield from plist
        yield from cases(ctx, 150, 3000)
    for p in all_cases():
        e = snap.mk_embeddings(ctx.ff, p, r)
        val = snap.spec_value(p)
        f = ctx.tmp / "w.fifu"
        h = []
        objs = [("all", e), ("vocab", e.vocab), ("storage", e.storage)]
        if e.norms is not None:
            objs.append(("norms", e.norms))
        if e.metadata is not None:
            objs.append(("meta", e.metadata))
        for only, o in objs:
            if f.exists() and r.random() < 0.5:
                pass                            # overwrite a longer or shorter file
            elif f.exists():
                f.unlink()
            o.write(path_arg(r, f))
            b = snap.file_bytes(f)
            n = 2 + (e.norms is not None) + (e.metadata is not None) if only == "all" else 1
            has = only == "meta" or (only == "all" and e.metadata is not None)
            h.append({"op": "C02", "only": only, "e": val, "b": b, "meta": meta_of(b, n) if has else []})
        yield h


# ---- C03 -------------------------------------------------------------------

PARTS = ("meta", "vocab", "storage", "norms")


def part_value(p, parts):
    v = snap.spec_value(p)
    return {k: v[k] if k in parts else [] for k in v}


def spec_order(p, order):
    return [[enc.ident(p, w), w] for w in order]


def toml_bytes(m):
    import toml
    return toml.dumps(m).encode("utf-8")


def c03(ctx):
    from finalfusion import load_finalfusion
    r = ctx.rng
    L = loaders()
    f = ctx.tmp / "c.fifu"

    def event(val, made, order, mb, full):
        loads = [{"name": n, "mmap": m, "res": run(lambda: fn(path_arg(r, f)), snap.t_snap(sn))}
                 for n, m, fn, sn in L]
        return {"op": "C03", "e": val, "made": made, "order": order, "mb": mb,
                "b": snap.file_bytes(f) if made else [], "loads": loads,
                "full": [run(lambda: load_finalfusion(path_arg(r, f), m), snap.t_snap(snap.snap))
                         for m in (False, True)] if full else []}

    def one(p):
        h = []
        # files written by the library: whole and single components
        e = snap.mk_embeddings(ctx.ff, p, r)
        e.write(f)
        have = [w for w in PARTS if p.get(w) is not None]
        h.append(event(part_value(p, have), False, [], [], True))
        what = r.choice(have)
        {"vocab": e.vocab, "storage": e.storage, "norms": e.norms, "meta": e.metadata}[what].write(f)
        h.append(event(part_value(p, [what]), False, [], [], False))
        # files of another writer, chunks in any order
        order = [w for w in have if r.random() < 0.85] or have
        r.shuffle(order)
        meta = toml_bytes(p["meta"]) if p.get("meta") is not None else b""
        b, _ = enc.encode(p, order, meta)
        with open(f, "wb") as o:
            o.write(b)
        h.append(event(part_value(p, order), True, spec_order(p, order),
                       [list(meta)] if "meta" in order else [], False))
        return h
    for p in ctx.mine(list(long_chunks(r))):
        yield one(p)
    for p in lone_vocabs(ctx, 40, 600):
        mk_vocab(ctx.ff, p["vocab"]).write(path_arg(r, f))
        h = [event(part_value(p, ["vocab"]), False, [], [], False)]
        b, _ = enc.encode(p, ["vocab"], b"")
        with open(f, "wb") as o:
            o.write(b)
        yield h + [event(part_value(p, ["vocab"]), True, spec_order(p, ["vocab"]), [], False)]
    for p in ctx.mine(list(empties())):
        yield one(p)
    for c in ctx.generated("GenValues"):
        yield one(gen_params(c))
    for p in cases(ctx, 70, 2000):
        yield one(p)


# ---- C04 -------------------------------------------------------------------

def limited_write(obj, path, n):
    """Write obj in a child that may write n bytes at most; returns when it is gone."""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
            obj.write(str(path))
        except BaseException:
            os._exit(1)
        os._exit(0)
    os.waitpid(pid, 0)


def c04(ctx):
    from finalfusion import load_finalfusion
    r = ctx.rng
    L = loaders()
    f = ctx.tmp / "t.fifu"

    def measure(n, tab):
        c = {"n": n, "full": [run(lambda: load_finalfusion(str(f), m), lambda v: {"t": "val"})
                              for m in (False, True)], "comps": []}
        for name, m, fn, sn in L:
            res = run(lambda: fn(str(f)), tab.tag(sn))
            if res["t"] == "exc":
                continue                       # always allowed
            c["comps"].append({"name": name, "res": res})
        return c

    def one(p, step=1):
        e = snap.mk_embeddings(ctx.ff, p, r)
        e.write(f)
        whole = f.read_bytes()
        tab = snap.Table()
        cuts = []
        ns = set(range(0, len(whole), step)) | set(range(max(0, len(whole) - 40), len(whole)))
        ns |= set(range(0, min(len(whole), 120)))
        for n in sorted(ns):
            with open(f, "wb") as o:
                o.write(whole[:n])
            cuts.append(measure(n, tab))
        ev = {"op": "C04", "via": "cut", "e": snap.spec_value(p), "len": len(whole), "cuts": cuts,
              "vals": tab.vals}
        h = [ev]
        # the same through the operating system: writes stop at a limit
        tab = snap.Table()
        cuts = []
        for n in r.sample(range(len(whole)), min(3, len(whole))):
            if f.exists():
                f.unlink()
            limited_write(e, f, n)
            size = f.stat().st_size if f.exists() else -1
            if size < 0:
                continue
            cuts.append(measure(size, tab))
        h.append({"op": "C04", "via": "limit", "e": snap.spec_value(p), "len": len(whole), "cuts": cuts,
                  "vals": tab.vals})
        return h

    def component(p):
        e = snap.mk_embeddings(ctx.ff, p, r)
        have = [w for w in PARTS if p.get(w) is not None]
        what = r.choice(have)
        {"vocab": e.vocab, "storage": e.storage, "norms": e.norms, "meta": e.metadata}[what].write(f)
        whole = f.read_bytes()
        tab = snap.Table()
        cuts = []
        for n in range(len(whole)):
            with open(f, "wb") as o:
                o.write(whole[:n])
            cuts.append(measure(n, tab))
        return [{"op": "C04", "via": "component", "e": part_value(p, [what]), "len": len(whole), "cuts": cuts,
                 "vals": tab.vals}]

    for p in ctx.mine(list(empties())):
        yield one(p)
    for k, c in enumerate(ctx.generated("GenValues")):
        p = gen_params(c)
        if ctx.tier == "quick" and k % 3:
            continue
        yield one(p)
    for p in ctx.mine(list(big_cases(r))):
        yield one(p, 37 if ctx.tier == "quick" else 5)
    for _ in range(ctx.size(14, 400)):
        yield one(snap.rand_params(r, n=r.randint(0, 4)))
        yield component(snap.rand_params(r, n=r.randint(0, 4), norms=True, meta=True))


# ---- C05 -------------------------------------------------------------------

def interesting(r, size, old):
    v = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 255, old + 1, old - 1, old * 2, old ^ 0x80, old ^ 1,
         1 << (8 * size - 1), (1 << (8 * size)) - 1, old + 256, old + (1 << (8 * size - 8)), 0x7fffffff]
    return [x for x in dict.fromkeys(v) if 0 <= x < 1 << (8 * size) and x != old]


def c05(ctx):
    from finalfusion import load_finalfusion
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    r = ctx.rng
    f = ctx.tmp / "m.fifu"

    def event(b, metas, what):
        with open(f, "wb") as o:
            o.write(b)
        return {"op": "C05", "b": list(b), "metas": metas, "what": what,
                "res": [run(lambda: load_finalfusion(str(f), m), snap.t_snap(snap.snap)) for m in (False, True)]}

    def params():
        while True:
            p = snap.rand_params(r, n=r.randint(1, 4))
            s = p["storage"]
            if s["kind"] == "nd" and s["m"].size == 0:
                continue
            return p

    def metas_of(p):
        if p.get("meta") is None:
            return b"", []
        m = toml_bytes(p["meta"])
        return m, [[list(m), js(p["meta"])]]

    def structured(p, meta, metas, have):
        """Violations of the format, one at a time."""
        v, s = p["vocab"], p["storage"]
        E = lambda over, what, order=have: event(enc.encode(p, order, meta, over)[0], metas, what)
        yield E({"magic": r.choice([b"FiFU", b"fifu", b"\0\0\0\0", b"GGUF"])}, "magic")
        yield E({"version": r.choice([1, 2, 255, 256, 2 ** 31])}, "version")
        yield E({"n_chunks": 0}, "no chunks")
        ws = list(v["words"])
        yield E({"words": ws + [ws[0]], "n_words": len(ws) + 1}, "duplicate word")
        yield E({"words": ws + ["", ""], "n_words": len(ws) + 2}, "duplicate empty word")
        yield E({"words": [""] * len(ws)}, "empty words only")
        w = r.choice(ws)
        yield E({"words": [w] + [x for x in ws if x != w] + [w]}, "duplicate word at the ends")
        yield E({"words": ws[:-1] + ["\ufffd"]}, "replacement character")
        if len(ws) > 1:
            yield E({"words": [ws[0]] * 2 + ws[2:]}, "duplicate word, same count")
        yield E({"words": [w.encode() for w in ws[:-1]] + [r.choice([b"\xff", b"a\xc3", b"\xed\xa0\x80", b"\xc0\x80x", b"\xf5\x80\x80\x80"])]},
                "malformed UTF-8")
        yield E({"n_words": len(ws) - 1}, "word count small")
        yield E({"n_words": len(ws) + 1}, "word count large")
        yield E({"words": ws[:-1]}, "word missing")
        yield E({"words": ws + ["~extra~"]}, "extra word")
        if v["kind"] != "simple":
            yield E({"lo": 0}, "min_n 0")
            yield E({"lo": v["hi"] + 1}, "min_n > max_n")
            yield E({"hi": v["lo"] - 1}, "max_n < min_n")
            yield E({"lo": 1, "hi": v["hi"] + 1}, "other range")
        if v["kind"] == "bucket":
            yield E({"b": r.choice([0, 64, 65, 1000])}, "bucket exponent")
            yield E({"b": v["b"] + 1}, "more buckets than rows")
        if v["kind"] == "fasttext":
            yield E({"b": 0}, "no buckets")
            yield E({"b": v["b"] + 1}, "more buckets than rows")
        if v["kind"] == "explicit" and v["ngrams"]:
            ng = v["ngrams"]
            t = v.get("table") or {g: i for i, g in enumerate(ng)}
            tab = [t[g] for g in ng]
            mx = max(tab)
            yield E({"ngrams": ng + [ng[0]], "table": tab + [tab[0]]}, "duplicate n-gram")
            yield E({"ngrams": ng + ["", ""], "table": tab + [0, 0]}, "duplicate empty n-gram")
            yield E({"ngrams": ng + [""], "table": tab + [0]}, "empty n-gram")
            yield E({"ngrams": ng + [ng[-1]], "table": tab + [0]}, "duplicate n-gram, other index")
            yield E({"table": [x + 1 for x in tab]}, "table not from 0")
            yield E({"table": [x if x != mx else mx + 1 for x in tab]}, "gap in table")
            yield E({"table": [x if x != mx else 2 ** 33 for x in tab]}, "huge index")
            yield E({"n_ngrams": len(ng) - 1}, "n-gram count small")
            yield E({"n_ngrams": len(ng) + 1}, "n-gram count large")
            yield E({"ngrams": ng[:-1] + [b"\xe4\xb8"]}, "malformed n-gram")
        rows = snap.bound(v)
        if s["kind"] == "nd":
            yield E({"m": s["m"][:-1]}, "row missing")
            yield E({"m": np.concatenate([s["m"], s["m"][:1]])}, "extra row")
            yield E({"rows": rows + 1}, "row count large")
            yield E({"rows": rows - 1}, "row count small")
            yield E({"cols": s["m"].shape[1] + 1}, "column count large")
            yield E({"type": r.choice([0, 1, 2, 9, 11, 2 ** 31])}, "element type")
        else:
            yield E({"codes": s["codes"][:-1], "pqnorms": None if s["norms"] is None else s["norms"][:-1]}, "row missing")
            yield E({"codes": np.concatenate([s["codes"], s["codes"][:1]]),
                     "pqnorms": None if s["norms"] is None else np.concatenate([s["norms"], s["norms"][:1]])}, "extra row")
            yield E({"type": r.choice([0, 2, 10])}, "element type")
            yield E({"type2": r.choice([0, 1, 11])}, "element type")
            yield E({"q": 0}, "no sub-quantizers")
            yield E({"cols": s["sub"].shape[0] * s["sub"].shape[2] + 1}, "columns not divisible")
            yield E({"rows": rows + 1}, "row count large")
        if p.get("norms") is not None:
            n = p["norms"]
            yield E({"norms": n[:-1]}, "norm missing")
            yield E({"norms": np.concatenate([n, n[:1]])}, "extra norm")
            yield E({"n_norms": len(n) + 1}, "norm count large")
            yield E({"ntype": r.choice([0, 1, 3])}, "norm type")
        for w in have:
            yield E({"id " + w: r.choice([0, 9, 10, 255, 2 ** 31] + [i for i in range(1, 9) if i != enc.ident(p, w)])},
                    "chunk id of " + w)
        # chunk sequence
        for order in (["storage", "vocab"], ["vocab", "vocab", "storage"], ["vocab", "storage", "storage"], ["vocab"],
                      ["storage"], ["vocab", "meta", "storage"] if meta else ["storage"],
                      ["vocab", "storage", "meta"] if meta else ["vocab"],
                      ["norms", "vocab", "storage"] if p.get("norms") is not None else ["vocab"],
                      ["meta", "meta", "vocab", "storage"] if meta else ["vocab"]):
            yield E({}, "chunk sequence", order)
        b, _ = enc.encode(p, have, meta)
        yield event(b + b"\0", metas, "trailing byte")
        yield event(b[4:], metas, "no magic")
        yield event(b"", metas, "empty")

    for _ in range(ctx.size(40, 900)):
        p = params()
        have = [w for w in PARTS if p.get(w) is not None]
        meta, metas = metas_of(p)
        b, fields = enc.encode(p, have, meta)
        yield [event(b, metas, "foreign file")]
        yield list(structured(p, meta, metas, have))
        h = []
        # every small field set to interesting values
        for o, size, name in fields:
            if name in ("data", "padding", "codes", "metadata") or size not in (4, 8):
                continue
            if name in ("word", "ngram"):
                continue
            old = int.from_bytes(b[o:o + size], "little")
            for v in r.sample(interesting(r, size, old), 3):
                h.append(event(b[:o] + v.to_bytes(size, "little") + b[o + size:], metas, name))
        yield h
        # single bytes anywhere
        h = []
        for _ in range(25):
            o = r.randrange(len(b))
            m = bytearray(b)
            m[o] = r.choice([m[o] ^ (1 << r.randrange(8)), r.randrange(256)])
            h.append(event(bytes(m), metas, "byte"))
        # bytes lost or added inside
        for _ in range(10):
            o = r.randrange(len(b))
            k = r.choice([1, 2, 4, 8, 12])
            h.append(event(b[:o] + b[o + k:], metas, "bytes lost"))
            h.append(event(b[:o] + bytes(r.randrange(256) for _ in range(k)) + b[o:], metas, "bytes added"))
        yield h
    # no structure at all
    yield [event(bytes(r.randrange(256) for _ in range(n)), [], "noise") for n in range(0, 80, 3)]
    yield [event(b"FiFu\0\0\0\0" + bytes(r.randrange(4) for _ in range(n)), [], "noise behind magic") for n in range(0, 120, 2)]
