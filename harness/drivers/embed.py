"""Drivers for C10 (lookup), C13 (similarity), C14 (analogy), C17 (explicit n-grams)."""
import numpy as np

import gen
import snap
from rec import *  # noqa
from drivers.subword import py_ngrams


def small_pq(r, rows, proj=None, norms=None, hi=3, nhi=2):
    """Quantized storage with small integer vectors."""
    p = snap.rand_pq(r, rows, q=r.randint(1, 3), s=r.randint(1, 2), data="int", proj=proj, norms=norms)
    q, k, s = p["sub"].shape
    p["sub"] = gen.int_matrix(r, q * k, s, -hi, hi).reshape(q, k, s)
    if p["proj"] is not None:
        p["proj"] = gen.int_matrix(r, q * s, q * s, -1, 1)
    if p["norms"] is not None:
        p["norms"] = np.array([r.randint(1, nhi) for _ in range(rows)], dtype=np.float32)
    return p


def int_params(r, n=None, hi=8, cols=None, tiny=False, **kw):
    """Embeddings whose vectors are small integers; tiny: components at most 4, at most 3 of them."""
    p = snap.rand_params(r, data="int", n=n, storages=("nd",), cols=cols or r.randint(1, 3 if tiny else 5), **kw)
    rows = snap.bound(p["vocab"])
    m = p["storage"]["m"]
    if tiny:
        hi = 4
    if r.random() < 0.35 and rows:
        q = small_pq(r, rows, hi=2, proj=False) if tiny else small_pq(r, rows)
        if tiny and q["sub"].shape[0] * q["sub"].shape[2] > 3:
            q["sub"] = q["sub"][:, :, :1]
        p["storage"] = q
    else:
        p["storage"]["m"] = gen.int_matrix(r, rows, m.shape[1], -hi, hi)
        if r.random() < 0.2:
            p["storage"]["m"][r.randrange(rows) if rows else 0:][:1] = 0
    return p


WIDE = [15, 16, 17, 33, 64, 100, 129, 256, 300, 513, 1025]


def wide_params(r, kinds=("simple", "bucket", "fasttext", "explicit"), **kw):
    """Few words, many columns, array or quantized."""
    p = snap.rand_params(r, data="int", n=r.randint(2, 5), storages=("nd",), cols=r.choice(WIDE), meta=False, kinds=kinds,
                         **kw)
    rows = snap.bound(p["vocab"])
    if r.random() < 0.4:
        s = r.choice([1, 2, 4])
        q = snap.rand_pq(r, rows, q=max(1, min(256, r.choice(WIDE) // s)), s=s, k=3, data="int", proj=False, norms=False)
        q["sub"] = gen.int_matrix(r, q["sub"].shape[0] * 3, s, -3, 3).reshape(q["sub"].shape)
        if r.random() < 0.5:
            q["norms"] = np.array([r.randint(1, 2) for _ in range(rows)], dtype=np.float32)
        p["storage"] = q
    else:
        p["storage"]["m"] = gen.int_matrix(r, rows, p["storage"]["m"].shape[1], -4, 4)
    return p


def scaled(r, p, prob=0.3):
    """Sometimes all vectors times a power of two, from tiny to huge."""
    x = r.choice([-50, -40, -30, -24, -21, -18, -14, -10, 1, 12, 24, 40])
    s = p["storage"]
    if r.random() < prob and s["kind"] == "nd":
        s["m"] = s["m"] * np.float32(2.0 ** x)
        p["x"] = x
    return p


def value(p):
    v = snap.spec_value(p)
    if p.get("x"):
        v["x"] = p["x"]
    return v


def build(ctx, p):
    """The embeddings of p: constructed, or written and loaded again (also memory-mapped)."""
    e = snap.mk_embeddings(ctx.ff, p, ctx.rng)
    k = ctx.rng.random()
    if k < 0.6:
        return e
    from finalfusion import load_finalfusion
    f = ctx.tmp / "b.fifu"
    if f.exists():
        f.unlink()             # a mapped file is never overwritten
    e.write(str(f))
    return load_finalfusion(str(f), mmap=k < 0.8)


def queries(r, v, n):
    """Words to ask for: known, near-known, n-gram pieces, unknown, too short."""
    ws = v["words"]
    out = []
    for _ in range(n):
        k = r.random()
        if k < 0.3 and ws:
            out.append(r.choice(ws))
        elif k < 0.5 and ws:
            w = r.choice(ws)
            j = r.randint(0, len(w))
            out.append(r.choice([w[:j], w[j:], w + gen.word(r, 2), gen.word(r, 2) + w, w[::-1], w.upper()]))
        elif k < 0.6 and len(ws) > 1:
            a, b = r.choice(ws), r.choice(ws)
            out.append(a[:len(a) // 2] + b[len(b) // 2:])
        elif k < 0.7:
            out.append(r.choice(["", "<", ">", "<>", " ", "\0", "a"]))
        else:
            out.append(gen.word(r, 8))
    return out


def many(r, n, kind, cols=2):
    """Embeddings with many words."""
    ws = ["w%d" % i for i in range(n)]
    v = {"kind": kind, "words": ws, "lo": 2, "hi": 3, "b": 5}
    if kind == "explicit":
        v["ngrams"] = list(dict.fromkeys(g for w in ws for g in py_ngrams(w, 2, 3)))[:300]
        v["table"] = {g: i // 2 for i, g in enumerate(v["ngrams"])}
    rows = snap.bound(v)
    return {"vocab": v, "storage": {"kind": "nd", "m": gen.int_matrix(r, rows, cols)},
            "norms": np.array([r.choice([0.5, 1, 2, 3]) for _ in ws], np.float32)}


# ---- C10 -------------------------------------------------------------------

def t_pair(v):
    if v is None:
        return {"t": "none"}
    if isinstance(v, tuple) and len(v) == 2:
        a = t_vec(v[0])
        if a["t"] == "vec" and isinstance(v[1], (float, np.floating)):
            return {"t": "pair", "v": a["v"], "n": f1(v[1])}
    return {"t": "other", "v": type(v).__name__}


def buffer(r, fill, wide=False):
    """An output buffer holding fill, contiguous or not; wide: perhaps of double precision."""
    d = len(fill)
    k = r.randrange(6 if wide else 4)
    if k == 4:
        b = np.zeros(d, dtype=np.float64)
    elif k == 0:
        b = np.zeros(2 * d, dtype=np.float32)[::2]
    elif k == 1:
        b = np.zeros((d, 3), dtype=np.float32)[:, 1]
    elif k == 2:
        b = np.zeros(d, dtype=np.float32)[::-1]
    else:
        b = np.zeros(d, dtype=np.float32)
    b[:] = fill
    return b


def with_out(r, fn, tag, fill, wide):
    b = buffer(r, fill, wide)
    box = []
    single = lambda v: v.astype(np.float32) if isinstance(v, np.ndarray) and v.dtype == np.float64 else v

    def call():
        v = fn(b)
        box.append(v)
        return v
    res = run(call, lambda v: tag((single(v[0]),) + v[1:] if isinstance(v, tuple) else single(v)))
    v = box[0] if box else None
    if isinstance(v, tuple):
        v = v[0]
    return {"res": res, "same": v is b, "buf": f32(single(b))}


def look(r, e, w, wide):
    d = e.dims
    fill = np.array([r.randint(50, 90) for _ in range(d)], dtype=np.float32)
    df = np.array([r.randint(-90, -50) for _ in range(d)], dtype=np.float32)
    dn = float(r.randint(100, 200))
    q = {"w": cps(w), "fill": f32(fill), "dflt": f32(df), "dnorm": f1(dn)}
    q["get"] = run(lambda: e[w], t_vec)
    q["isin"] = run(lambda: w in e, t_bool)
    q["emb"] = run(lambda: e.embedding(w), t_vec)
    q["embd"] = run(lambda: e.embedding(w, default=df), t_vec)
    q["out"] = with_out(r, lambda b: e.embedding(w, out=b), t_vec, fill, wide)
    q["outd"] = with_out(r, lambda b: e.embedding(w, b, df), t_vec, fill, wide)
    q["wn"] = run(lambda: e.embedding_with_norm(w), t_pair)
    q["wnd"] = run(lambda: e.embedding_with_norm(w, default=(df, dn)), t_pair)
    q["wnout"] = with_out(r, lambda b: e.embedding_with_norm(w, out=b), t_pair, fill, wide)
    q["wnoutd"] = with_out(r, lambda b: e.embedding_with_norm(w, b, (df, dn)), t_pair, fill, wide)
    return q


def ev10(ctx, p, qs, wide=True):
    e = build(ctx, p)
    ev = {"op": "C10", "e": value(p), "q": [look(ctx.rng, e, w, wide) for w in qs], "iter": []}
    for t in e:
        ev["iter"].append({"w": cps(t[0]), "v": f32(t[1]), "n": [f1(x) for x in t[2:]]})
    return ev


def c10(ctx):
    from drivers.format import gen_params
    r = ctx.rng
    for case in ctx.generated("GenValues"):
        p = gen_params(case)
        p.pop("meta", None)
        rows = snap.bound(p["vocab"])
        p["storage"] = {"kind": "nd", "m": gen.int_matrix(r, rows, 2)} if case["storage"] == "nd" else \
            small_pq(r, rows, proj="p" in case["storage"][2:], norms="n" in case["storage"])
        yield [ev10(ctx, p, p["vocab"]["words"] + ["a", "ab", "ä", "", "xä"])]
    for _ in range(ctx.size(260, 6000)):
        p = scaled(r, int_params(r, meta=False))
        yield [ev10(ctx, p, queries(r, p["vocab"], 7))]
    for _ in range(ctx.size(60, 1000)):            # any bits: known words and words without n-grams
        p = snap.rand_params(r, meta=False)
        v = p["vocab"]
        qs = [w for w in queries(r, v, 8) if w in v["words"]
              or v["kind"] == "simple" or not py_ngrams(w, v["lo"], v["hi"])]
        if p["storage"]["kind"] == "pq" and p["storage"]["proj"] is None and p["storage"]["norms"] is not None:
            qs = [w for w in qs if w not in v["words"]] + qs[:1]
        yield [ev10(ctx, p, qs, False)]
    for _ in range(ctx.size(12, 200)):
        p = wide_params(r, maxlen=4)
        yield [ev10(ctx, p, queries(r, p["vocab"], 2))]
    # many words, words with many n-grams
    for kind in ("simple", "bucket", "fasttext", "explicit"):
        p = many(r, 280, kind)
        yield [ev10(ctx, p, p["vocab"]["words"][253:260] + ["w299", "w1w2w3", "w" * 300, "zz", ""])]
    # an n-gram sum of zero, and n-grams that repeat within a word
    for kind, b in (("bucket", 1), ("fasttext", 1), ("fasttext", 2)):
        n = 2 if kind == "bucket" else b
        for rows in ([[0] * 2] * n, [[3, -4]] * n, [[1, 2], [-1, -2]][:n]):
            p = {"vocab": {"kind": kind, "words": ["x"], "lo": 1, "hi": 2, "b": b},
                 "storage": {"kind": "nd", "m": np.array([[5, 6]] + rows, dtype=np.float32)},
                 "norms": np.array([2], np.float32)}
            yield [ev10(ctx, p, ["x", "a", "aa", "aaa", "abab", "", "ba", "xx"])]


# ---- C13 -------------------------------------------------------------------

def t_sims(v):
    if v is None:
        return {"t": "none"}
    if isinstance(v, list):
        return {"t": "sims", "v": [[cps(x.word), f1(x.similarity)] for x in v]}
    return {"t": "other", "v": type(v).__name__}


def skips(r, v, extra=()):
    ws = list(v["words"])
    k = r.randint(0, min(4, len(ws)))
    s = r.sample(ws, k) + [w for w in queries(r, v, r.randint(0, 2))] + list(extra)
    if r.random() < 0.1:
        s = ws
    return set(s)


def ks(r, n):
    return r.choice([0, 1, 1, 2, 3, n, n + 1, n + 5, max(0, n - 1), max(0, n - 2), max(0, n // 2), 10])


def ev13(ctx, p, nq):
    r = ctx.rng
    e = build(ctx, p)
    v = p["vocab"]
    n = len(v["words"])
    ev = {"op": "C13", "e": value(p), "q": []}
    for w in queries(r, v, nq):
        k = ks(r, n)
        if r.random() < 0.15:
            k, fn = 10, (lambda: e.word_similarity(w))
        else:
            fn = lambda: e.word_similarity(w, k)
        ev["q"].append({"kind": "word", "w": cps(w), "k": k, "res": run(fn, t_sims)})
    for _ in range(nq):
        k = ks(r, n)
        vec = [r.randint(-5, 5) for _ in range(e.dims)]
        if r.random() < 0.05:
            vec = [0] * e.dims
        a = gen.layouts(r, np.array(vec, dtype=r.choice([np.float32, np.float32, np.float64])))
        a.flags.writeable = r.random() < 0.7
        sk = skips(r, v)
        c = r.randrange(4)
        if c == 0:
            fn, sk = (lambda: e.embedding_similarity(a, k)), set()
        elif c == 1:
            k, fn = 10, (lambda: e.embedding_similarity(a, skip=sk))
        else:
            fn = lambda: e.embedding_similarity(a, k=k, skip=set(sk))
        ev["q"].append({"kind": "vec", "vec": vec, "skip": [cps(w) for w in sorted(sk)], "k": k, "res": run(fn, t_sims)})
    return ev


def sim_cases(ctx, quick, thorough, **kw):
    r = ctx.rng
    for i in range(ctx.size(quick, thorough)):
        n = r.choice([0, 1, 2, 3, 5, 8, 12, 20]) if i % 12 else r.choice([30, 60])
        p = int_params(r, n=n, meta=False, hi=r.choice([1, 2, 8]), **kw)
        yield p if kw.get("tiny") else scaled(r, p)


def c13(ctx):
    for p in sim_cases(ctx, 200, 4000):
        yield [ev13(ctx, p, 4)]
    for _ in range(ctx.size(12, 200)):
        yield [ev13(ctx, wide_params(ctx.rng, maxlen=4), 2)]
    for n, kind in ((300, "simple"), (400, "bucket"), (260, "fasttext"), (1000, "explicit")):
        yield [ev13(ctx, many(ctx.rng, n, kind), 3)]


# ---- C14 -------------------------------------------------------------------

def ev14(ctx, p, nq, oov):
    r = ctx.rng
    e = build(ctx, p)
    v = p["vocab"]
    n = len(v["words"])
    ev = {"op": "C14", "e": value(p), "q": []}
    for _ in range(nq):
        k = ks(r, n)
        pool = list(v["words"]) or [""]
        abc = [r.choice(pool) for _ in range(3)]
        if oov:
            qs = queries(r, v, 3)
            abc = [r.choice([abc[j], qs[j]]) for j in range(3)]
        elif r.random() < 0.1:
            abc[r.randrange(3)] = r.choice(["", "<", "zzzz"]) if v["kind"] == "simple" else abc[0]
        if r.random() < 0.1:
            abc[r.randrange(3)] = abc[r.randrange(3)]
        a, b, c = abc
        m = r.randrange(5)
        if m == 0:
            k, sk, fn = 1, None, (lambda: e.analogy(a, b, c))
        elif m == 1:
            sk, fn = None, (lambda: e.analogy(a, b, c, k))
        elif m == 2:
            sk, fn = set(), (lambda: e.analogy(a, b, c, k, set()))
        else:
            sk = skips(r, v, r.sample(abc, r.randint(0, 3)))
            fn = lambda: e.analogy(a, b, c, k=k, skip=set(sk))
        ev["q"].append({"a": cps(a), "b": cps(b), "c": cps(c), "k": k,
                        "skip": [] if sk is None else [[cps(w) for w in sorted(sk)]],
                        "res": run(fn, t_sims)})
    return ev


def c14(ctx):
    for p in sim_cases(ctx, 120, 2500):
        yield [ev14(ctx, p, 6, False)]
    for _ in range(ctx.size(12, 200)):
        yield [ev14(ctx, wide_params(ctx.rng, maxlen=4), 3, False)]
    for n, kind in ((300, "simple"), (400, "bucket"), (1000, "explicit")):
        yield [ev14(ctx, many(ctx.rng, n, kind), 3, False)]
    for p in sim_cases(ctx, 140, 2500, tiny=True):
        yield [ev14(ctx, p, 6, True)]


# ---- C17 -------------------------------------------------------------------

def ev17(ctx, p, nq):
    from finalfusion import load_finalfusion
    r = ctx.rng
    e = build(ctx, p)
    box = []

    def conv():
        box.append(e.bucket_to_explicit())
        return box[0]
    ev = {"op": "C17", "e": value(p), "res": run(conv, snap.t_snap(snap.snap)), "loaded": [], "q": []}
    if not box:
        return ev
    x = box[0]
    f = ctx.tmp / "x.fifu"
    if f.exists():
        f.unlink()

    def again(mmap):
        x.write(str(f))
        return load_finalfusion(str(f), mmap)
    ev["loaded"] = [run(lambda: again(False), snap.t_snap(snap.snap)), run(lambda: again(True), snap.t_snap(snap.snap))]
    v = p["vocab"]
    qs = queries(r, v, nq)
    for w in v["words"][:3]:       # built of known n-grams only
        qs.append(w + w)
    for w in qs:
        ev["q"].append({"w": cps(w), "before": run(lambda: e.embedding(w), t_vec),
                        "after": run(lambda: x.embedding(w), t_vec)})
    return ev


def c17(ctx):
    r = ctx.rng
    for _ in range(ctx.size(160, 3000)):
        p = scaled(r, int_params(r, kinds=("bucket", "fasttext"), maxlen=r.choice([3, 5, 7])))
        yield [ev17(ctx, p, 6)]
    for _ in range(ctx.size(10, 150)):
        yield [ev17(ctx, wide_params(r, ("bucket", "fasttext"), maxlen=4), 2)]
    for k, kind in enumerate(ctx.mine(["bucket", "fasttext"])):        # long words
        p = many(r, 3, kind)
        n = r.choice([260, 520, 700])
        p["vocab"].update(words=["w0", "".join(r.choice("abcdefgh") for _ in range(n)), "ä" * 300], lo=3, hi=3)
        yield [ev17(ctx, p, 2)]
    yield [ev17(ctx, many(r, 60, "bucket"), 6)]       # more than 256 n-grams
    yield [ev17(ctx, many(r, 60, "fasttext"), 6)]
    for _ in range(ctx.size(20, 200)):
        yield [ev17(ctx, int_params(r, kinds=("simple", "explicit")), 2)]
