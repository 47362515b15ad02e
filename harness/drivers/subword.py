"""Drivers for C06-C09: n-grams, indexers, vocabularies."""
import itertools

import gen
from rec import *  # noqa


def mk_indexer(ff, x):
    from finalfusion.subword import FinalfusionHashIndexer, FastTextIndexer, ExplicitIndexer
    if x.get("kind") == "bucket":
        return FinalfusionHashIndexer(x["b"], x["lo"], x["hi"])
    if x.get("kind") == "fasttext":
        return FastTextIndexer(x["b"], x["lo"], x["hi"])
    return ExplicitIndexer(list(x["ngrams"]), x["lo"], x["hi"],
                           None if x.get("table") is None else dict(x["table"]))


def py_ngrams(w, lo, hi, br=True):
    b = "<%s>" % w if br else w
    return [b[i:i + n] for i in range(len(b)) for n in range(hi, lo - 1, -1) if i + n <= len(b)]


RANGES = [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 6), (1, 6), (4, 5), (6, 6), (3, 3), (2, 9)]
BAD = [(0, 0), (0, 3), (-1, 3), (3, 2), (2, 1), (6, 3), (1, 0), (-2, -1), (5, -5)]


def ev06(via, w, lo, hi, br, res, known=()):
    return {"op": "C06", "via": via, "w": cps(w), "lo": lo, "hi": hi, "br": br,
            "known": list(known), "res": res}


def c06(ctx):
    from finalfusion.subword import ngrams, FinalfusionHashIndexer, FastTextIndexer, ExplicitIndexer
    from finalfusion.vocab import FinalfusionBucketVocab, FastTextVocab, ExplicitVocab
    r = ctx.rng

    def firsts(v):
        return t_strs([p[0] for p in v] if all(isinstance(p, tuple) for p in v) else v)

    def direct(w, lo, hi, br):
        return ev06("ngrams", w, lo, hi, br, run(lambda: ngrams(w, lo, hi, br), t_strs))

    # every string up to length 4 over a tiny alphabet, every small range (spec-enumerated)
    for case in ctx.generated("GenNgrams"):
        w = "".join(map(chr, case["w"]))
        yield [direct(w, case["lo"], case["hi"], case["br"])]
    # random strings, all entry points
    n = ctx.size(260, 4000)
    for k in range(n):
        long = r.random() < 0.05
        w = gen.word(r, 60 if long else 12)
        lo, hi = r.choice(RANGES)
        if r.random() < 0.1:
            hi = r.choice([40, 200, 2 ** 31 - 1])
        if r.random() < 0.15:
            lo, hi = r.choice(BAD)
        br = r.random() < 0.6
        h = [direct(w, lo, hi, br)]
        if lo == 3 and hi == 6 and br:
            h.append(ev06("ngrams defaults", w, 3, 6, True, run(lambda: ngrams(w), t_strs)))
        h.append(ev06("finalfusion indexer", w, lo, hi, br, run(
            lambda: FinalfusionHashIndexer(r.choice([1, 10, 21, 63]), lo, hi).subword_indices(
                w, bracket=br, with_ngrams=True), firsts)))
        h.append(ev06("fastText indexer", w, lo, hi, br, run(
            lambda: FastTextIndexer(r.choice([1, 7, 2000000, 2 ** 32 - 1]), lo, hi).subword_indices(
                w, bracket=br, with_ngrams=True), firsts)))
        top = r.choice([7, len(w) + 2])
        allg = list(dict.fromkeys(py_ngrams(w, 1, top, True) + py_ngrams(w, 1, top, False)))
        known = [g for g in allg if r.random() < 0.5]
        r.shuffle(known)
        known = known[:40] or ["zz"]
        h.append(ev06("explicit indexer", w, lo, hi, br, run(
            lambda: ExplicitIndexer(list(known), lo, hi).subword_indices(
                w, bracket=br, with_ngrams=True), firsts), [[cps(g) for g in known]]))
        vs = gen.words(r, 2)
        vb = lambda: FinalfusionBucketVocab(list(vs), FinalfusionHashIndexer(5, lo, hi))
        vf = lambda: FastTextVocab(list(vs), FastTextIndexer(13, lo, hi))
        ve = lambda: ExplicitVocab(list(vs), ExplicitIndexer(list(known), lo, hi))
        for name, mk in (("bucket vocab", vb), ("fastText vocab", vf), ("explicit vocab", ve)):
            h.append(ev06(name + " subwords", w, lo, hi, br, run(lambda: mk().subwords(w, br), t_strs)))
            kn = [[cps(g) for g in known]] if name[0] == "e" else []
            h.append(ev06(name + " pairs", w, lo, hi, br, run(
                lambda: mk().subword_indices(w, br, True), firsts), kn))
        yield h
    # long strings
    for w in [gen.word(r, 300, minlen=250) for _ in range(ctx.size(2, 12))] + ["x" * 256, "ä" * 257]:
        h = [direct(w, 3, 6, True), direct(w, 250, 260, True), direct(w, 1, 2, False)]
        for lo, hi in ((1, 1), (30, 34), (63, 65), (127, 130), (254, 258), (250, 2 ** 31 - 1)):
            known = py_ngrams(w, max(lo, 1), min(hi, 400), True)
            known = list(dict.fromkeys(r.sample(known, min(20, len(known))) + ["zz"]))
            for name, mk in (("finalfusion", lambda: FinalfusionHashIndexer(21, lo, hi)),
                             ("fastText", lambda: FastTextIndexer(1000, lo, hi)),
                             ("explicit", lambda: ExplicitIndexer(list(known), lo, hi))):
                h.append(ev06(name + " indexer", w, lo, hi, True, run(
                    lambda: mk().subword_indices(w, with_ngrams=True), firsts),
                    [[cps(g) for g in known]] if name == "explicit" else []))
        yield h


# ---- C07 -------------------------------------------------------------------

EXPS = [1, 2, 3, 7, 8, 10, 15, 16, 17, 21, 24, 30, 31, 32, 33, 47, 48, 49, 62, 63]
NBUCKETS = [1, 2, 3, 7, 255, 256, 257, 1000, 65535, 65536, 65537, 2000000, 2097152,
            2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 2, 2 ** 32 - 1]
OFFS = [0, 1, 5, 1000, 2 ** 31, 2 ** 32 + 3, 2 ** 40]


def spec_indexer(x):
    return {"kind": x["kind"], "lo": x["lo"], "hi": x["hi"],
            "buckets": x["b"] if x.get("kind") == "bucket" else u64(x["b"])}


def bulk(ix, w, br, off):
    return {"w": cps(w), "br": br, "off": u64(off),
            "idx": run(lambda: ix.subword_indices(w, offset=off, bracket=br), t_idx_list),
            "pairs": run(lambda: ix.subword_indices(w, offset=off, bracket=br, with_ngrams=True), t_pairs)}


def t_idx_list(v):
    r = t_idx(v)
    return r


def ev07(ff, x, singles, bulks, eqs):
    ix = None
    try:
        ix = mk_indexer(ff, x)
        made = {"t": "val"}
    except Exception as e:
        made = exc(e)
    ev = {"op": "C07", "x": spec_indexer(x), "made": made}
    if ix is None:
        return ev
    ev["lo"] = run(lambda: ix.min_n, t_nat)
    ev["hi"] = run(lambda: ix.max_n, t_nat)
    ev["buckets"] = run(lambda: ix.buckets_exp if x.get("kind") == "bucket" else ix.n_buckets, t_int)
    ev["ub"] = run(lambda: ix.upper_bound, t_int)
    ev["single"] = [{"g": cps(g), "res": run(lambda: ix(g), t_int)} for g in singles]
    ev["bulk"] = [bulk(ix, *b) for b in bulks]
    ev["eq"] = []
    for y in eqs:
        iy = mk_indexer(ff, y)
        ev["eq"].append(dict(spec_indexer(y), res=run(lambda: ix == iy, t_bool)))
    return ev


def c07(ctx):
    r = ctx.rng
    ff = ctx.ff

    def hashx(lo=None, hi=None):
        lo_, hi_ = r.choice(RANGES)
        k = r.choice(["bucket", "fasttext"])
        return {"kind": k, "lo": lo or lo_, "hi": hi or hi_,
                "b": r.choice(EXPS) if k == "bucket" else r.choice(NBUCKETS)}

    # every parameter value once, on a few words
    for e in range(1, 64):
        x = {"kind": "bucket", "lo": 3, "hi": 4, "b": e}
        yield [ev07(ff, x, [gen.word(r, 6)], [(gen.word(r, 3), True, r.choice(OFFS))], [x])]
    for b in NBUCKETS:
        x = {"kind": "fasttext", "lo": 3, "hi": 4, "b": b}
        yield [ev07(ff, x, [gen.word(r, 6)], [(gen.word(r, 3), True, r.choice(OFFS))], [x])]
    # refused settings
    for b in [0, -1, 64, 65, 100, 1000]:
        yield [ev07(ff, {"kind": "bucket", "lo": 3, "hi": 6, "b": b}, [], [], [])]
    for b in [0, -1, 2 ** 32, 2 ** 33]:
        yield [ev07(ff, {"kind": "fasttext", "lo": 3, "hi": 6, "b": b}, [], [], [])]
    for lo, hi in BAD:
        yield [ev07(ff, {"kind": "bucket", "lo": lo, "hi": hi, "b": 10}, [], [], []),
               ev07(ff, {"kind": "fasttext", "lo": lo, "hi": hi, "b": 10}, [], [], [])]
    # random indexers
    for _ in range(ctx.size(150, 3000)):
        x = hashx()
        singles = [gen.word(r, 7) for _ in range(3)]
        bulks = [(gen.word(r, 7), r.random() < 0.7, r.choice(OFFS)) for _ in range(2)]
        eqs = [dict(x), hashx(x["lo"], x["hi"])]
        y = dict(x)
        k = r.randrange(3)
        if k == 0:
            y["hi"] += 1
        elif k == 1 and y["lo"] > 1:
            y["lo"] -= 1
        else:
            y["b"] = y["b"] + 1 if y["b"] < 60 else y["b"] - 1
        eqs.append(y)
        yield [ev07(ff, x, singles, bulks, eqs)]
    # long n-grams and words, and each plane of Unicode
    for w in ["x" * 70, "ß" * 40, "😀" * 20, "\x00\x00", "\x7f\x80", "\uffff\U00010000", ""]:
        for x in ({"kind": "bucket", "lo": 1, "hi": 3, "b": 40},
                  {"kind": "fasttext", "lo": 1, "hi": 3, "b": 2 ** 32 - 1}):
            yield [ev07(ff, x, [w], [(w[:12], True, 7), (w[:12], False, 0)], [])]
    for w in ["x" * 300, "ß😀語a" * 70]:
        for x in ({"kind": "bucket", "lo": 298, "hi": 300, "b": 63},
                  {"kind": "fasttext", "lo": 278, "hi": 279, "b": 2 ** 31 + 7}):
            yield [ev07(ff, x, [w], [(w, True, 7)], [])]


# ---- C08 -------------------------------------------------------------------

def ev08(ff, d, queries, bulks, lists, eqs, other):
    ix = None
    try:
        ix = mk_indexer(ff, d)
        made = {"t": "val"}
    except Exception as e:
        made = exc(e)
    ev = {"op": "C08", "made": made}
    ev.update(spec_explicit(d))
    if ix is None:
        return ev
    ev["ub"] = run(lambda: ix.upper_bound, t_int)
    ev["rlo"] = run(lambda: ix.min_n, t_nat)
    ev["rhi"] = run(lambda: ix.max_n, t_nat)
    ev["len"] = run(lambda: len(ix), t_nat)
    ev["iter"] = run(lambda: list(ix), t_strs)
    ev["list"] = run(lambda: list(ix.ngrams), t_strs)
    ev["index"] = run(lambda: list(ix.ngram_index.items()), t_pairs)
    ev["single"] = [{"g": cps(g), "call": run(lambda: ix(g), t_int),
                     "get": run(lambda: ix[g], t_int),
                     "isin": run(lambda: g in ix, t_bool)} for g in queries]
    ev["bulk"] = [bulk(ix, *b) for b in bulks]
    ev["allin"] = [{"gs": [cps(g) for g in gs], "res": run(lambda: gs in ix, t_bool)} for gs in lists]
    ev["eq"] = []
    for y in eqs:
        iy = mk_indexer(ff, y)
        ev["eq"].append(dict(spec_explicit(y), res=run(lambda: ix == iy, t_bool)))
    ev["eqother"] = run(lambda: ix == other, t_bool)
    return ev


def spec_explicit(d):
    t = d.get("table")
    return {"ngrams": [cps(g) for g in d["ngrams"]], "lo": d["lo"], "hi": d["hi"],
            "tab": [] if t is None else [{"keys": [cps(k) for k in t], "vals": [int(v) for v in t.values()]}]}


def c08(ctx):
    from finalfusion.subword import FinalfusionHashIndexer
    r = ctx.rng
    ff = ctx.ff
    other = FinalfusionHashIndexer(5)
    names = ["ab", "<a", "ü>", "zz"]
    # every table over up to 3 n-grams with entries -1..3 (spec-enumerated)
    for case in ctx.generated("GenTables"):
        ng = [names[i - 1] for i in case["ngrams"]]
        d = {"ngrams": ng, "lo": 2, "hi": 3, "table": None}
        if case["given"]:
            d["table"] = dict(zip([names[i - 1] for i in case["keys"]], case["vals"]))
        yield [ev08(ff, d, names, [("a", True, 2), ("ab", True, 0)], [], [], other)]
    for _ in range(ctx.size(160, 3000)):
        ws = gen.words(r, r.randint(1, 5), 6)
        lo, hi = r.choice(RANGES)
        pool = list(dict.fromkeys(g for w in ws for g in py_ngrams(w, lo, min(hi, 7))))
        pool += gen.words(r, 3, 4)
        pool = list(dict.fromkeys(pool))
        r.shuffle(pool)
        ng = pool[:r.randint(0, 14)]
        d = {"ngrams": ng, "lo": lo, "hi": hi, "table": None}
        k = r.random()
        if k < 0.75:
            b = r.randint(1, len(ng)) if ng else 0
            vals = list(range(b)) + [r.randrange(b) for _ in range(len(ng) - b)] if ng else []
            r.shuffle(vals)
            items = list(zip(ng, vals))
            r.shuffle(items)
            d["table"] = dict(items)
            if k < 0.1 and items:       # break it
                m = r.randrange(5)
                g = r.choice(ng)
                if m == 0:
                    d["table"][g] = -1
                elif m == 1:
                    d["table"][g] = b + 1 + r.randrange(3)
                elif m == 2:
                    del d["table"][g]
                elif m == 3:
                    d["table"]["~extra~"] = 0
                else:
                    d["ngrams"] = ng + [g]
        elif k < 0.82 and ng:
            d["ngrams"] = ng + [r.choice(ng)]
        queries = (ng[:4] + gen.words(r, 2, 4) + [""])
        bulks = [(w, r.random() < 0.8, r.choice(OFFS)) for w in ws[:2] + [gen.word(r, 6)]]
        lists = [ng[:3], ng[:2] + ["~no~"], []]
        eqs = []
        try:
            mk_indexer(ff, d)
            ok = True
        except Exception:
            ok = False
        if ok:
            base = dict(d)
            eqs.append(base)
            eqs.append(dict(d, hi=d["hi"] + 1))
            if d["lo"] > 1:
                eqs.append(dict(d, lo=d["lo"] - 1))
            if d["table"] and len(set(d["table"].values())) > 1:
                t = dict(d["table"])
                a, b2 = [g for g in t][:2]
                ks = list(t)
                vs = list(t.values())
                i = next(i for i in range(len(ks)) if vs[i] != vs[0])
                t[ks[0]], t[ks[i]] = t[ks[i]], t[ks[0]]
                eqs.append(dict(d, table=t))
            if len(ng) > 1 and d["table"]:
                eqs.append(dict(d, ngrams=list(reversed(d["ngrams"]))))
        yield [ev08(ff, d, queries, bulks, lists, eqs, other)]
    for _ in range(ctx.size(4, 60)):        # long n-grams
        w = gen.word(r, 300, minlen=130)
        lens = r.sample([1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129], 8)
        lo, hi = min(lens), max(lens) + r.choice([0, 0, 5, 2 ** 31 - 200])
        b = "<" + w + ">"
        ng = list(dict.fromkeys(b[i:i + k] for k in lens for i in r.sample(range(len(b) - k + 1), 2)))
        d = {"ngrams": ng, "lo": lo, "hi": hi, "table": None}
        yield [ev08(ff, d, r.sample(ng, 4) + [w], [(w, True, 3)], [ng], [], other)]


# ---- C09 -------------------------------------------------------------------

def mk_vocab(ff, v, given=None):
    from finalfusion.vocab import SimpleVocab, FinalfusionBucketVocab, FastTextVocab, ExplicitVocab
    words = list(v["words"])
    if given is not None:
        given.append(words)
    if v["kind"] == "simple":
        return SimpleVocab(words)
    ix = mk_indexer(ff, v)
    cls = {"bucket": FinalfusionBucketVocab, "fasttext": FastTextVocab, "explicit": ExplicitVocab}[v["kind"]]
    return cls(words, ix)


def spec_vocab(v):
    d = {"kind": v["kind"], "words": [cps(w) for w in v["words"]]}
    if v["kind"] == "simple":
        return d
    d["lo"], d["hi"] = v["lo"], v["hi"]
    if v["kind"] == "bucket":
        d["buckets"] = v["b"]
    elif v["kind"] == "fasttext":
        d["buckets"] = u64(v["b"])
    else:
        t = v.get("table") or {g: i for i, g in enumerate(v["ngrams"])}
        d["ngrams"] = [cps(g) for g in v["ngrams"]]
        d["table"] = [int(t[g]) for g in v["ngrams"]]
    return d


def rand_vocab(r, n=None, small=False, kinds=("simple", "bucket", "fasttext", "explicit"),
               maxlen=7, nospace=False, minlen=1):
    """Parameters of a random valid vocabulary; small: few rows are needed."""
    n = r.randint(0, 8) if n is None else n
    ws = gen.words(r, n, maxlen, nospace, minlen)
    if ws and not nospace and minlen == 1 and r.random() < 0.15:
        ws[r.randrange(n)] = ""
    k = r.choice(list(kinds))
    v = {"kind": k, "words": ws}
    if k == "simple":
        return v
    v["lo"], v["hi"] = r.choice(RANGES)
    if k == "bucket":
        v["b"] = r.choice([1, 2, 3, 4]) if small else r.choice(EXPS)
    elif k == "fasttext":
        v["b"] = r.choice([1, 2, 3, 5, 8, 13]) if small else r.choice(NBUCKETS)
    else:
        pool = [g for w in ws[:6] for g in py_ngrams(w, v["lo"], min(v["hi"], 6))]
        pool = list(dict.fromkeys(pool + gen.words(r, 2, 3)))
        r.shuffle(pool)
        ng = pool[:r.randint(0, 12)]
        v["ngrams"] = ng
        if r.random() < 0.7 and ng:
            b = r.randint(1, len(ng))
            vals = list(range(b)) + [r.randrange(b) for _ in range(len(ng) - b)]
            r.shuffle(vals)
            v["table"] = dict(zip(ng, vals))
    return v


def vocab_variants(r, v):
    """Vocabularies that differ from v in one respect, and one that does not."""
    import copy
    ws = v["words"]
    out = [copy.deepcopy(v)]
    if ws:
        i = r.randrange(len(ws))
        out.append(dict(v, words=ws[:i] + [ws[i] + "~"] + ws[i + 1:]))
        out.append(dict(v, words=ws[:-1]))
    if len(ws) > 1:
        i = r.randrange(len(ws) - 1)
        out.append(dict(v, words=ws[:i] + [ws[i + 1], ws[i]] + ws[i + 2:]))
    out.append(dict(v, words=ws + ["~new~"]))
    if v["kind"] == "simple":
        out.append(dict(v, kind="bucket", lo=3, hi=6, b=4))
    else:
        out.append(dict(v, kind="simple"))
        out.append(dict(v, hi=v["hi"] + 1))
        if v["lo"] < v["hi"]:
            out.append(dict(v, lo=v["lo"] + 1))
    if v["kind"] in ("bucket", "fasttext"):
        out.append(dict(v, b=v["b"] - 1 if v["b"] > 1 else 2))
        if v["b"] < 60:
            out.append(dict(v, kind={"bucket": "fasttext", "fasttext": "bucket"}[v["kind"]]))
    if v["kind"] == "explicit" and len(v["ngrams"]) > 1:
        g = v["ngrams"]
        t = v.get("table") or {x: i for i, x in enumerate(g)}
        out.append(dict(v, ngrams=g[1:] + g[:1], table=dict(t)))
        u = dict(t)
        u[g[0]], u[g[1]] = u[g[1]], u[g[0]]
        out.append(dict(v, table=u))
        out.append(dict(v, ngrams=["~~" if x == g[0] else x for x in g],
                        table={"~~" if x == g[0] else x: i for x, i in t.items()}))
    return out


def ev09(ff, v, queries, lists, eqs=()):
    vo = None
    try:
        vo = mk_vocab(ff, v)
        made = {"t": "val"}
    except Exception as e:
        made = exc(e)
    ev = {"op": "C09", "v": spec_vocab(v), "made": made}
    if vo is None:
        return ev
    sub = v["kind"] != "simple"
    ev["len"] = run(lambda: len(vo), t_nat)
    ev["iter"] = run(lambda: list(vo), t_strs)
    ev["words"] = run(lambda: vo.words, t_strs)
    ev["index"] = run(lambda: list(vo.word_index.items()), t_pairs)
    ev["ub"] = run(lambda: vo.upper_bound, t_int)
    if sub:
        ev["lo"] = run(lambda: vo.min_n, t_nat)
        ev["hi"] = run(lambda: vo.max_n, t_nat)
    ev["allin"] = [{"ws": [cps(w) for w in ws], "res": run(lambda: ws in vo, t_bool)} for ws in lists]
    ev["numin"] = run(lambda: 5 in vo, t_bool)
    ev["eq"] = []
    for y in eqs:
        yo = mk_vocab(ff, y)
        ev["eq"].append({"v": spec_vocab(y), "res": run(lambda: vo == yo, t_bool), "rev": run(lambda: yo == vo, t_bool),
                         "ne": run(lambda: vo != yo, t_bool)})
    ev["eqother"] = [run(lambda: vo == o, t_bool) for o in (5, None, list(v["words"]))]
    ev["q"] = []
    for w in queries:
        q = {"w": cps(w), "dflt": cps("~default~"),
             "isin": run(lambda: w in vo, t_bool),
             "idx": run(lambda: vo.idx(w), t_idx),
             "idxd": run(lambda: vo.idx(w, "~default~"), t_idx),
             "dd": [{"d": t_idx(d), "res": run(lambda: vo.idx(w, default=d), t_idx)} for d in (0, [], 7, [3, 1])],
             "get": run(lambda: vo[w], t_idx)}
        if sub:
            q["sub"] = run(lambda: vo.subword_indices(w), t_idx)
            q["pairs"] = run(lambda: vo.subword_indices(w, with_ngrams=True), t_pairs)
            q["bare"] = run(lambda: vo.subword_indices(w, bracket=False), t_idx)
        ev["q"].append(q)
    return ev


def c09(ctx):
    r = ctx.rng
    ff = ctx.ff
    for case in ctx.generated("GenWords"):
        # every word list up to length 3 over a tiny set of strings
        ws = ["".join(map(chr, w)) for w in case["words"]]
        for kind in ("simple", "bucket", "fasttext", "explicit"):
            v = {"kind": kind, "words": ws, "lo": 2, "hi": 3, "b": 3,
                 "ngrams": ["<a", "ab", "b>"], "table": {"<a": 1, "ab": 0, "b>": 1}}
            others = [dict(v, words=o) for o in (["a"], ["b", "a"], ["a", "b"], [])]
            yield [ev09(ff, v, ["", "a", "b", "ab", "ba"], [["a", "b"]], others)]
    for _ in range(ctx.size(140, 3000)):
        v = rand_vocab(r)
        if r.random() < 0.06 and v["words"]:
            v["words"].insert(r.randint(0, len(v["words"])), r.choice(v["words"]))
        ws = v["words"]
        qs = ws[:3] + [gen.word(r, 7) for _ in range(3)] + ["", "<a>"]
        if ws:
            w = r.choice(ws)
            qs += [w + "x", w.upper(), w[:-1], "<" + w + ">"]
        if v["kind"] == "explicit":
            qs += [g.strip("<>") for g in v["ngrams"][:3]]
        lists = [ws[:2], ws[:1] + ["~no~"], []]
        yield [ev09(ff, v, qs, lists, vocab_variants(r, v))]
    # many words: index positions beyond one byte, and words that differ late
    for kind in ("simple", "bucket", "fasttext", "explicit"):
        ws = ["w%d" % i for i in range(300)] + ["x" * 40 + str(i) for i in range(5)] + [""]
        v = {"kind": kind, "words": ws, "lo": 3, "hi": 4, "b": 12,
             "ngrams": ["<w", "w29", "xx"], "table": {"<w": 1, "w29": 0, "xx": 1}}
        yield [ev09(ff, v, ["w0", "w255", "w256", "w299", "x" * 40 + "4", "", "w300", "zzz"], [ws])]
