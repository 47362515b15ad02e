"""Drivers for C11 (parts fit together) and C12 (no side effects): sessions of FFSession."""
import copy
import hashlib
import itertools
import json
import os
import random

import numpy as np

import gen
import sched
import snap
from rec import *  # noqa
from drivers.embed import small_pq, t_pair, t_sims, buffer
from drivers.subword import mk_vocab, py_ngrams, spec_vocab

FORMATS = ["fifu", "word2vec", "text", "textdims", "fasttext"]


class Ids:
    """Numbers for distinct things (from 1); 0 for nothing."""
    def __init__(self):
        self.ids = {}

    def put(self, b):
        if b is None:
            return 0
        return self.ids.setdefault(hashlib.sha256(b).digest(), len(self.ids) + 1)


def tiny_storage(r, rows, kind):
    if kind == "nd":
        m = gen.int_matrix(r, rows, r.choice([2, 3]), -4, 4)
        return {"kind": "nd", "m": m}
    q = small_pq(r, rows, hi=2, proj=False)
    if q["sub"].shape[0] * q["sub"].shape[2] > 3:
        q["sub"] = q["sub"][:, :, :1]
    return q


def last_but(n, xs, mid):
    """mid before the last n of xs"""
    return xs[:-n] + mid + xs[-n:]


class Pool:
    """The concrete parts of a session; sizes as FFSession says."""
    def __init__(self, ctx):
        r = ctx.rng
        ws = gen.words(r, 6, r.choice([3, 5]), nospace=True)
        if r.random() < 0.5:
            ws[4] = ws[0] + ws[1]
        if r.random() < 0.3 and ws[0][:1] and ws[0][:1] not in ws:
            ws[5] = ws[0][:1]
        self.words = ws + [r.choice(["", "<", "q"])]
        W = self.words

        def sub(kind, words, b):
            lo = r.choice([1, 1, 2, 3, 9])
            return {"kind": kind, "words": words, "lo": lo, "hi": lo + r.choice([0, 1, 3]), "b": b}
        ng = list(dict.fromkeys(py_ngrams(W[0], 1, 3) + ["a", "b"]))[:r.randint(2, 5)]
        tab = dict(zip(ng, [0, 1] + [r.randrange(2) for _ in ng[2:]]))
        self.voc = [{"kind": "simple", "words": [W[0], W[1]]},
                    {"kind": "simple", "words": [W[1], W[2], W[0]]},
                    sub("bucket", [W[0], W[3]], 1), sub("fasttext", [W[1]], 3),
                    {"kind": "explicit", "words": [W[2], W[0]], "lo": 1, "hi": 3, "ngrams": ng, "table": tab},
                    sub("fasttext", [W[3], W[1]], 1)]
        self.sto = [tiny_storage(r, n, k) for n, k in
                    ((2, "nd"), (3, "nd"), (4, "nd"), (2, "pq"), (3, "pq"), (4, "pq"), (5, "nd"))]
        nrm = lambda n: np.array([r.choice([0.5, 1, 2, 3, 0.25, 7, 1e-3]) for _ in range(n)], dtype=np.float32)
        self.nrm = [nrm(n) for n in (1, 2, 2, 3, 4)]
        self.met = [snap.rand_meta(r), {}, {"buckets": 3, "min_n": 1, "dims": 2, "loss": "x"}]
        self.vecs = [[r.randint(-5, 5) for _ in range(3)] for _ in range(2)]
        self.skips = [[], [W[0]], [W[1], "", W[4], "nowhere"], [W[0], W[1], W[2], W[3]]]
        self.dflt = np.array([r.randint(-90, -50) for _ in range(3)], dtype=np.float32)
        big = gen.words(r, 70, 6, nospace=True)
        big = [w for w in big if w not in W[:2]]
        big = (big + ["x%d" % i for i in range(4)])[:68]
        big[r.randrange(60):0] = W[:2]
        self.voc.append(sub("bucket", big, 1))
        self.sto.append(tiny_storage(r, 72, "nd"))
        self.nrm.append(nrm(70))
        # and empty ones
        self.voc += [{"kind": "simple", "words": []}, sub("bucket", [], 1)]
        self.sto.append(tiny_storage(r, 0, "nd"))
        self.nrm.append(nrm(0))
        # the objects: several embeddings may share them
        self.ovoc = last_but(3, [mk_vocab(ctx.ff, v) for v in self.voc], [r.choice([list(W[:2]), {W[0]: 0, W[1]: 1}])])
        self.osto = last_but(2, [snap.mk_storage(s, r) for s in self.sto],
                             [r.choice([np.zeros((4, 2), np.float32), [[0.0, 1.0]] * 4])])
        self.onrm = last_but(2, [snap.mk_norms(n, r) for n in self.nrm], [nrm(2), [1.0, 2.0, 3.0]])
        self.omet = [snap.mk_meta(m) for m in self.met] + [{"a": 1}, "meta"]
        self.ovecs = [np.array(v, dtype=np.float32) for v in self.vecs]

    def spec(self):
        none = {"kind": "wrong"}
        return {"voc": last_but(3, [spec_vocab(v) for v in self.voc], [none]),
                "sto": last_but(2, [snap.spec_storage(s) for s in self.sto], [none]),
                "nrm": last_but(2, [f32(n) for n in self.nrm], [[], []]),
                "met": [js(m) for m in self.met] + ["", ""],
                "words": [cps(w) for w in self.words], "vecs": self.vecs,
                "skips": [[cps(w) for w in s] for s in self.skips], "dflt": f32(self.dflt)}

    def state(self):
        """Everything the pool's objects show."""
        try:
            return self.image()
        except Exception as err:  # pylint: disable=broad-except
            return repr(err).encode()

    def image(self):
        good = lambda f, xs, k, n: [f(x) for x in xs[:-k - n] + xs[-k:]]
        return json.dumps([good(snap.snap_vocab, self.ovoc, 3, 1), repr(self.ovoc[-4]),
                           good(snap.snap_storage, self.osto, 2, 1), np.asarray(self.osto[-3]).tolist(),
                           good(snap.snap_norms, self.onrm, 2, 2), [np.asarray(n).tolist() for n in self.onrm[-4:-2]],
                           [js(dict(m)) for m in self.omet[:3]], repr(self.omet[3:]),
                           [f32(v) for v in self.ovecs], f32(self.dflt)]).encode()


def safe(fn, x):
    """A snapshot, or the fact that there is none."""
    try:
        return fn(x)
    except Exception as err:  # pylint: disable=broad-except
        return {"odd": "%s: %s" % (type(err).__name__, err)}


class Session:
    def __init__(self, ctx, op):
        self.ctx, self.op, self.r = ctx, op, ctx.rng
        self.pool = Pool(ctx)
        self.slots, self.iters = [None] * 3, [None] * 2
        self.fmt = [None] * 2
        self.tab, self.bytes, self.pools, self.argids = snap.Table(), Ids(), Ids(), Ids()
        self.files = [ctx.tmp / ("s%d.emb" % k) for k in range(2)]
        for f in self.files:
            if f.exists():
                f.unlink()
        first = {"op": op, "act": "pool", "pool": self.pools.put(self.pool.state()), "vals": self.tab.vals}
        first.update(self.pool.spec())
        self.h = [first]
        # one buffer for each dimension, used again and again
        self.bufs = {d: buffer(self.r, np.zeros(d, np.float32)) for d in (1, 2, 3)}
        self.args, self.held, self.own = [], [], []

    # -- arguments that must come back unchanged
    @staticmethod
    def img(x):
        from finalfusion.storage import QuantizedArray
        if isinstance(x, QuantizedArray):
            x = np.asarray(x)
        if isinstance(x, np.ndarray):
            x = np.asarray(x)
            return repr((x.shape, str(x.dtype), x.tobytes())).encode()
        if isinstance(x, (set, dict)):
            return repr(sorted(x)).encode()
        if isinstance(x, tuple):
            return b"|".join(map(Session.img, x))
        return repr(x).encode()

    def arg(self, x):
        if x is not None:
            self.args.append((x, self.argids.put(self.img(x))))
        return x

    # -- results that must stay as they were given
    def hold(self, fn):
        def call():
            v = fn()
            if isinstance(v, list) and self.r.random() < 0.3:
                self.own.append(v)             # a list the caller goes on to use as its own
            elif isinstance(v, (np.ndarray, list, tuple)) or hasattr(v, "quantizer"):
                if len(self.held) > 5:
                    self.held.pop(self.r.randrange(len(self.held)))
                self.held.append((v, self.argids.put(self.img(v))))
            return v
        return call

    def bad(self, e, which):
        from finalfusion import load_finalfusion
        d, W = e.dims, self.pool.words
        w = self.r.choice(W)
        if which == 1:
            return run(lambda: e.embedding(w, out=np.zeros(d + 1, np.float32)), lambda v: {"t": "val"})
        if which == 2:
            return run(lambda: e.embedding_with_norm(w, out=np.zeros(d + 1, np.float32)), lambda v: {"t": "val"})
        if which == 3:
            return run(lambda: e.embedding_similarity(np.zeros(d + 1, np.float32), 2), lambda v: {"t": "val"})
        no = self.ctx.tmp / "none" / "x.fifu"
        fn = {4: lambda: load_finalfusion(str(no), self.r.random() < 0.5),
              5: lambda: e.write(str(no)),
              6: lambda: e.storage[e.storage.shape[0]],
              7: lambda: e.storage[0:1:0],
              8: lambda: load_finalfusion(str(self.ctx.tmp)),
              9: lambda: self.junk()}[which]
        return run(fn, lambda v: {"t": "val"})

    def junk(self):
        from finalfusion import load_finalfusion
        f = self.ctx.tmp / "junk.fifu"
        f.write_bytes(b"FiFu" + bytes(self.r.randrange(256) for _ in range(20)))
        return load_finalfusion(str(f))

    def load(self, k, mm):
        from finalfusion import load_finalfusion
        from finalfusion.compat import load_word2vec, load_text, load_text_dims, load_fasttext
        f = str(self.files[k])
        if self.fmt[k] == "fifu":
            return load_finalfusion(f, mmap=bool(mm))
        return {"word2vec": load_word2vec, "text": load_text, "textdims": load_text_dims,
                "fasttext": load_fasttext}[self.fmt[k]](f)

    def write(self, e, k, fmt):
        from finalfusion.compat import write_word2vec, write_text, write_text_dims, write_fasttext
        f = self.files[k]
        if f.exists():
            f.unlink()         # a mapped file is never overwritten in place
        if fmt == "fifu":
            e.write(str(f))
        else:
            {"word2vec": write_word2vec, "text": write_text, "textdims": write_text_dims,
             "fasttext": write_fasttext}[fmt](str(f), e)
        self.fmt[k] = fmt

    def look(self, e, w, how):
        d = e.dims
        D = self.arg(self.pool.dflt[:d])
        b = self.bufs[d]
        before = b.copy()
        if how == 1:
            return {"res": run(self.hold(lambda: e[w]), t_vec)}
        if how == 2:
            return {"res": run(self.hold(lambda: e.embedding(w)), t_vec)}
        if how == 3:
            return {"res": run(lambda: e.embedding(w, default=D), t_vec)}
        if how == 5:
            return {"res": run(self.hold(lambda: e.embedding_with_norm(w)), t_pair)}
        box = []

        def call():
            v = e.embedding(w, out=b) if how == 4 else e.embedding_with_norm(w, b)
            box.append(v[0] if isinstance(v, tuple) else v)
            return v
        res = run(call, t_vec if how == 4 else t_pair)
        out = {"res": res, "same": bool(box) and box[0] is b, "buf": f32(b),
               "wrote": b.tobytes() != before.tobytes()}
        b[:] = self.r.randint(100, 900)        # the buffer is the caller's
        return out

    def query(self, act, a):
        P = self.pool
        if act == "probe":
            return run(lambda: self.load(a[0] - 1, a[1]), self.tab.tag(snap.snap))
        if act == "istart":
            self.iters[a[0] - 1] = iter(self.slots[a[1] - 1])
            return {"t": "none"}
        if act == "inext":
            def item(v):
                return {"t": "item", "w": cps(v[0]), "v": f32(v[1]), "n": [f1(x) for x in v[2:]]}
            it = self.iters[a[0] - 1]
            res = run(self.hold(lambda: next(it)), item)
            return {"t": "stop"} if res["t"] == "exc" and res["v"] == "StopIteration" else res
        e = self.slots[a[0] - 1]
        W = P.words
        if act == "look":
            return self.look(e, W[a[1] - 1], a[2])
        if act == "sim":
            return run(self.hold(lambda: e.word_similarity(W[a[1] - 1], a[2])), t_sims)
        if act == "vsim":
            v = P.ovecs[a[1] - 1][:e.dims]
            v = self.arg(gen.layouts(self.r, v.copy()) if self.r.random() < 0.7 else v)
            s = None if a[3] == 0 else self.arg(set(P.skips[a[3] - 1]))
            return run(self.hold(lambda: e.embedding_similarity(v, a[2], s)), t_sims)
        if act == "ana":
            s = None if a[5] == 0 else self.arg(set(P.skips[a[5] - 1]))
            return run(self.hold(lambda: e.analogy(W[a[1] - 1], W[a[2] - 1], W[a[3] - 1], a[4], s)), t_sims)
        if act == "bad":
            return self.bad(e, a[1])
        if act == "isin":
            return run(lambda: W[a[1] - 1] in e, t_bool)
        if act == "voc":
            w, v = W[a[1] - 1], e.vocab
            if a[2] == 1 or not hasattr(v, "subword_indexer"):
                return run(self.hold(lambda: v.idx(w)), t_idx)
            if a[2] == 2:
                return run(self.hold(lambda: v.subword_indices(w, bracket=True, with_ngrams=True)), t_pairs)
            return run(self.hold(lambda: v.subwords(w)), t_strs)
        if act == "slice":
            return run(self.hold(lambda: e.storage[a[1]:a[2]:a[3]]), lambda v: t_mat(np.asarray(v)))
        raise KeyError(act)

    def call(self, op):
        act, a = op["act"], op["a"]
        P = self.pool
        self.args = []
        ok = lambda v: {"t": "val"}
        at = lambda xs, k: None if k == 0 else xs[k - 1]

        def new():
            from finalfusion import Embeddings
            kw = {}
            if a[3] or self.r.random() < 0.5:
                kw["norms"] = at(P.onrm, a[3])
            if a[4] or self.r.random() < 0.5:
                kw["metadata"] = at(P.omet, a[4])
            e = Embeddings(at(P.osto, a[2]), at(P.ovoc, a[1]), **kw)
            self.put(a[0], e)

        def explicit():
            self.put(a[0], self.slots[a[1] - 1].bucket_to_explicit())

        def norms():
            self.slots[a[0] - 1].norms = at(P.onrm, a[1])

        def meta():
            self.slots[a[0] - 1].metadata = at(P.omet, a[1])
        fn = {"new": new, "explicit": explicit, "norms": norms, "meta": meta,
              "load": lambda: self.put(a[0], self.load(a[1] - 1, a[2])),
              "write": lambda: self.write(self.slots[a[0] - 1], a[1] - 1, FORMATS[a[2] - 1])}.get(act)
        if act == "write":
            was = self.files[a[1] - 1].read_bytes() if self.files[a[1] - 1].exists() else None
        res = run(fn, ok) if fn else self.query(act, a)
        if act == "write" and res["t"] == "exc" and was is not None and not self.files[a[1] - 1].exists():
            self.files[a[1] - 1].write_bytes(was)      # the harness had taken the old file away
        return {"op": self.op, "act": act, "a": a, "res": res}

    def do(self, op):
        ev = self.call(op)
        for v in self.own:
            self.r.choice([v.clear, v.reverse, v.pop if v else v.clear, lambda: v.extend(v[:1])])()
        self.own = []
        ev["slots"], ev["files"], ev["pool"] = self.look_at_all()
        ev["args"] = self.again(self.args)
        ev["held"] = self.again(self.held)
        self.h.append(ev)

    def look_at_all(self):
        return ([0 if e is None else self.tab.put(safe(snap.snap, e)) for e in self.slots],
                [self.bytes.put(f.read_bytes() if f.exists() else None) for f in self.files],
                self.pools.put(self.pool.state()))

    def again(self, xs):
        return [[i, self.argids.put(self.img(x))] for x, i in xs]

    def burst(self, ops):
        """
        Operations in threads of their own. Recorded in the order in which they completed;
        what each changed shows from its own event on.
        """
        parts = []
        for _ in ops:
            c = copy.copy(self)
            c.args, c.held, c.own = [], [], []
            c.bufs = {d: buffer(self.r, np.zeros(d, np.float32)) for d in (1, 2, 3)}
            c.r = random.Random(self.r.random())
            parts.append(c)
        evs = [None] * len(ops)
        slots, files = list(self.h[-1]["slots"]), list(self.h[-1]["files"])

        def job(k):
            def fn():
                evs[k] = parts[k].call(ops[k])
            return fn
        fns = [job(k) for k in range(len(ops))]
        if self.r.random() < 0.12:
            order = sched.free(fns)
        else:
            s = sched.Scheduler(sched.chooser(self.r, len(ops)), self.where, self.r.random() < 0.4)
            order = s.run(fns)
            self.stat[0] += s.steps
            self.stat[1] += s.switches
        s2, f2, pool = self.look_at_all()
        held = self.again(self.held)
        # untouched ones look as they look now; the others change with their operation
        tslot = {op["a"][0] - 1 for op in ops if op["act"] in ("explicit", "load")}
        tfile = {op["a"][1] - 1 for op in ops if op["act"] == "write"}
        slots = [slots[k] if k in tslot else s2[k] for k in range(len(s2))]
        files = [files[k] if k in tfile else f2[k] for k in range(len(f2))]
        for k in order:
            op, ev, c = ops[k], evs[k], parts[k]
            if op["act"] in ("explicit", "load"):
                slots[op["a"][0] - 1] = s2[op["a"][0] - 1]
            if op["act"] == "write":
                files[op["a"][1] - 1] = f2[op["a"][1] - 1]
            ev.update(slots=list(slots), files=list(files), pool=pool, args=self.again(c.args),
                      held=held + self.again(c.held), par=len(ops))
            self.h.append(ev)
            self.held += c.held
        while len(self.held) > 8:
            self.held.pop(self.r.randrange(len(self.held)))

    def put(self, k, e):
        self.slots[k - 1] = e


def session(ctx, op, ops):
    s = Session(ctx, op)
    for o in ops:
        s.do(o)
    return s.h


# ---- C11 -------------------------------------------------------------------

def ctor(ctx):
    from finalfusion.storage import NdArray
    from finalfusion.norms import Norms
    r = ctx.rng
    for cls, name in ((NdArray, "nd"), (Norms, "norms")):
        for dt in ("<f4", ">f4", "<f8", ">f8", "<f2", "<i4", "<u4", "<i8", "u1", "?", "<c8", "O", "U4"):
            for nd in (0, 1, 2, 3):
                for shape in ((0,) * nd, (2, 3, 1)[:nd]):
                    d = np.dtype(dt)
                    data = gen.int_matrix(r, 1, int(np.prod(shape))).reshape(shape)
                    a = gen.layouts(r, data.astype(d)) if nd and d.kind == "f" and dt[0] == "<" else data.astype(d)

                    def tag(v):
                        if type(v) is not cls:
                            return {"t": "other", "v": type(v).__name__}
                        return {"t": "val", "v": f32(np.asarray(v)) if np.asarray(v).size else np.asarray(v).tolist()}
                    yield {"op": "C11", "act": "ctor", "cls": name, "ndim": nd, "kind": d.kind, "size": d.itemsize,
                           "data": f32(data) if data.size else data.tolist(), "res": run(lambda: cls(a), tag)}


def c11(ctx):
    if ctx.shard == 0:
        yield list(ctor(ctx))
    # every construction, every assignment to every constructible object
    news = sorted(ctx.generated("GenNew"), key=json.dumps)
    for k in range(0, len(news), 96):
        yield session(ctx, "C11", [{"act": "new", "a": x["a"]} for x in news[k:k + 96]])
    asg = sorted(ctx.generated("GenAssign"), key=json.dumps)
    for k in range(0, len(asg), 40):
        yield session(ctx, "C11", [o for x in asg[k:k + 40] for o in x["ops"]])
    for ops in ctx.generated("Sessions"):
        yield session(ctx, "C11", ops)


# ---- C12 -------------------------------------------------------------------

def c12(ctx):
    for ops in ctx.generated("Sessions"):
        yield session(ctx, "C12", ops)


# ---- C25 -------------------------------------------------------------------

def c25(ctx):
    import finalfusion
    where = os.path.dirname(finalfusion.__file__) + os.sep
    for ops in ctx.generated("Sessions"):
        s = Session(ctx, "C25")
        s.where, s.stat = where, [0, 0]
        for _, g in itertools.groupby(ops, key=lambda o: o["b"]):
            g = list(g)
            if len(g) == 1:
                s.do(g[0])
            else:
                s.burst(g)
        s.h[0]["steps"], s.h[0]["switches"] = s.stat
        yield s.h
