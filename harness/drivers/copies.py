"""C26: copies and pickles (FFCopy)."""
import copy
import json
import pickle

import numpy as np

import gen
import snap
from drivers.session import Ids
from drivers.subword import mk_vocab, rand_vocab
from rec import *  # noqa


def ways():
    out = [("copy", copy.copy), ("deepcopy", copy.deepcopy)]
    for p in range(pickle.HIGHEST_PROTOCOL + 1):
        out.append(("pickle %d" % p, lambda x, p=p: pickle.loads(pickle.dumps(x, p))))
    return out


# ---- single parts -----------------------------------------------------------

def same(x, y):
    """As == says; arrays by type and bytes."""
    if isinstance(x, np.ndarray) or hasattr(x, "quantizer"):
        a, b = np.asarray(x), np.asarray(y)
        return type(x) is type(y) and a.shape == b.shape and f32(a) == f32(b)
    return x == y and not x != y


def parts(ctx, p, r):
    from types import SimpleNamespace
    from finalfusion import load_finalfusion
    from finalfusion.vocab import FinalfusionBucketVocab, FastTextVocab, ExplicitVocab
    given = []
    if "storage" not in p:                     # a vocabulary of any size
        e = SimpleNamespace(vocab=mk_vocab(ctx.ff, p["vocab"], given), storage=None, norms=None, metadata=None)
    else:
        e = snap.mk_embeddings(ctx.ff, p, r, given)
    if e.storage is not None and r.random() < 0.3:
        f = ctx.tmp / "m.fifu"
        if f.exists():
            f.unlink()
        e.write(str(f))
        e = load_finalfusion(str(f), mmap=r.random() < 0.6)
    v = p["vocab"]
    things = [("vocab", e.vocab, snap.snap_vocab, lambda x: x)]
    if e.storage is not None:
        things.append(("storage", e.storage, snap.snap_storage, lambda x: x))
    if e.norms is not None:
        things.append(("norms", e.norms, snap.snap_norms, lambda x: x))
    if e.metadata is not None:
        things.append(("metadata", e.metadata, snap.snap_meta, lambda x: x))
    if v["kind"] != "simple":
        cls = {"bucket": FinalfusionBucketVocab, "fasttext": FastTextVocab, "explicit": ExplicitVocab}[v["kind"]]
        things.append(("vocab", e.vocab.subword_indexer, snap.snap_vocab, lambda x: cls(list(v["words"]), x)))
    value = snap.spec_value(p)
    g = ctx.tmp / "part.fifu"
    ids, tab = Ids(), snap.Table()

    def written(x):
        if g.exists():
            g.unlink()
        x.write(str(g))
        return ids.put(g.read_bytes())
    evs, kept = [], []

    def reads(what, x):
        """What x answers."""
        arr = lambda v: [np.asarray(v).shape, f32(np.asarray(v))]
        if what == "storage":
            out = [run(lambda: x[i], arr) for i in range(-len(x), len(x))]
            out += [run(lambda: np.asarray(list(x)), arr), run(lambda: x[list(range(len(x)))[::-1]], arr),
                    run(lambda: np.asarray(x[::2]), arr)]
        elif what == "norms":
            out = [run(lambda: [float(n) for n in x], lambda v: repr(v)), run(lambda: np.asarray(x[::-1]), arr)]
        elif what == "metadata":
            out = [repr(sorted(x.items(), key=repr))]
        else:
            out = [[run(lambda: x.idx(w), t_idx), run(lambda: w in x, t_bool), run(lambda: x.get(w) if hasattr(x, "get") else 0, repr)]
                   for w in qs] + [len(x), run(lambda: x.upper_bound, repr), run(lambda: list(x), repr)]
        return ids.put(repr(out).encode())
    qs = list(v["words"][:2]) + [gen.word(r, 6) for _ in range(3)]
    for what, x, fn, up in things:
        shot = lambda y, fn=fn, up=up: tab.put(fn(up(y)))
        first, answers = shot(x), reads(what, up(x))
        copies = []
        for how, mk in r.sample(ways(), 3):
            box = []

            def do():
                box.append(mk(x))
                return box[0]
            c = {"how": how, "res": run(do, lambda y: {"t": "ref", "v": shot(y)}), "q": [], "file": 0, "same": {"t": "none"}, "now": 0, "later": 0, "reads": 0, "again": 0}
            if box and c["res"]["t"] == "ref":
                y = box[0]
                c["file"] = written(up(y))
                c["same"] = run(lambda: type(x) is type(y) and same(x, y), t_bool)
                if what == "vocab":
                    c["q"] = [{"w": cps(w), "idx": run(lambda: up(y).idx(w), t_idx)} for w in qs]
                c["reads"] = reads(what, up(y))
                c["now"] = shot(x)
                if how != "copy":
                    kept.append((c, y, shot, what, up))
            copies.append(c)
        evs.append({"op": "C26", "act": "part", "what": what, "e": value, "vals": tab.vals, "copies": copies,
                    "file": written(up(x)), "now": first, "reads": answers})
    # what the originals were made from changes: not the copies
    snap.scribble(given)
    for c, y, shot, what, up in kept:
        c["later"], c["again"] = shot(y), reads(what, up(y))
    yield from evs


# ---- histories ----------------------------------------------------------------

class Copies:
    def __init__(self, ctx):
        from finalfusion.metadata import Metadata
        self.ctx, self.r = ctx, ctx.rng
        r = self.r
        self.objs, self.of = [None] * 3, [0] * 3
        self.ids = [Ids() for _ in range(6)]
        self.file = ctx.tmp / "c.fifu"
        self.words = gen.words(r, 5, 4, nospace=True)
        self.base = []
        kinds = ["simple", "bucket", "fasttext", "explicit"]
        r.shuffle(kinds)
        for b in range(4):
            p = snap.rand_params(r, kinds=[kinds[b]], storages=["pq" if b == 2 else "nd"], data="int", n=r.randint(2, 4),
                                 norms=b != 1, meta=b != 2, cols=r.choice([2, 3, 4]))
            if b == 2:
                rows = snap.bound(p["vocab"])
                p["storage"] = snap.rand_pq(r, rows, q=2, s=r.randint(1, 2), k=r.randint(2, 4), data="int")
            if p.get("meta") is not None:
                p["meta"] = dict(p["meta"], nest={"x": "", "l": [1]}, who=b)
            if p.get("norms") is not None:
                p["norms"][0] = 20 + b
            p["storage"]["m" if b != 2 else "sub"].flat[0] = 40 + b
            self.base.append(p)
        self.Metadata = Metadata

    def new(self, b):
        from finalfusion import load_finalfusion
        e = snap.mk_embeddings(self.ctx.ff, self.base[b - 1], self.r if b != 4 else None)
        if b != 4:
            return e
        f = self.ctx.tmp / "b4.fifu"
        if f.exists():
            f.unlink()
        e.write(str(f))
        return load_finalfusion(str(f), mmap=True)

    def copy(self, e, how):
        from finalfusion import load_finalfusion
        if how == 1:
            return copy.copy(e)
        if how == 2:
            return copy.deepcopy(e)
        if how == 3:
            return pickle.loads(pickle.dumps(e, self.r.randint(0, pickle.HIGHEST_PROTOCOL)))
        if self.file.exists():
            self.file.unlink()
        e.write(str(self.file))
        return load_finalfusion(str(self.file))

    def poke(self, e, part, place, val):
        if part == 1:
            a = e.storage.quantizer.subquantizers if hasattr(e.storage, "quantizer") else e.storage
            a[(0,) * a.ndim if place == 1 else (-1,) * a.ndim] = 60 + val
        elif part == 2:
            e.norms[0 if place == 1 else -1] = 60 + val
        elif place == 1:
            e.metadata["poked"] = val
        else:
            e.metadata["nest"]["x"] = "v%d" % val

    def do(self, op):
        from finalfusion.norms import Norms
        act, a = op["act"], op["a"]
        n = a[0] - 1

        def fn():
            if act == "new":
                self.objs[n], self.of[n] = self.new(a[1]), a[1]
            elif act == "copy":
                self.objs[n], self.of[n] = self.copy(self.objs[a[1] - 1], a[2]), self.of[a[1] - 1]
            elif act == "setn":
                e = self.objs[n]
                e.norms = None if a[1] == 0 else Norms(np.full(e.n_words, 80 + 10 * self.of[n] + a[1], np.float32))
            elif act == "setm":
                self.objs[n].metadata = None if a[1] == 0 else self.Metadata({"set": [self.of[n], a[1]], "nest": {"x": "", "l": []}})
            else:
                self.poke(self.objs[n], *a[1:])
        return {"op": "C26", "act": act, "a": a, "res": run(fn, lambda v: {"t": "val"}), "objs": [self.see(e) for e in self.objs]}

    def see(self, e):
        if e is None:
            return []

        def js_(fn):
            try:
                return json.dumps(fn(), sort_keys=True).encode()
            except Exception as x:  # pylint: disable=broad-except
                return ("odd %s" % type(x).__name__).encode()
        looks = [js_(lambda: snap.snap_vocab(e.vocab)), js_(lambda: snap.snap_storage(e.storage)),
                 js_(lambda: None if e.norms is None else snap.snap_norms(e.norms)),
                 js_(lambda: None if e.metadata is None else snap.snap_meta(e.metadata))]
        ans = []
        for w in self.words + list(self.base[0]["vocab"]["words"]):
            ans.append([run(lambda: e.vocab.idx(w), t_idx), run(lambda: e.embedding(w), t_vec), run(lambda: w in e, t_bool)])
        ans.append(run(lambda: [cps(x[0]) for x in e], lambda v: v))
        return [{"ids": [self.ids[k].put(b) for k, b in enumerate(looks)], "ans": self.ids[4].put(json.dumps(ans).encode()),
                 "org": self.ids[5].put(repr(e.origin).encode())}]


def c26(ctx):
    r = ctx.rng
    for hist in ctx.generated("Copies"):
        c = Copies(ctx)
        yield [c.do(op) for op in hist]
    for _ in range(ctx.size(60, 1500)):
        p = snap.rand_params(r, data=r.choice(["bits", "int"]))
        for ev in parts(ctx, p, r):
            yield [ev]
        for ev in parts(ctx, {"vocab": rand_vocab(r)}, r):
            yield [ev]
