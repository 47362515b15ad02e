"""Drivers for C15 (quantized storage) and C16 (array storage and norms)."""
import numpy as np

import gen
import snap
from rec import *  # noqa

# ---- recording -------------------------------------------------------------


def flat_rows(a):
    """Vectors along the last axis."""
    a = np.asarray(a).view(np.ndarray)
    n = int(np.prod(a.shape[:-1]))
    if a.shape[-1] == 0:
        return [[] for _ in range(n)]
    return f32(np.ascontiguousarray(a).reshape(n, a.shape[-1]))


def t_arr(norms):
    def tag(v):
        cls = type(v).__name__
        if cls == "QuantizedArray":
            a = np.asarray(v)
            if tuple(v.shape) != a.shape:
                return {"t": "other", "v": "shape"}
        elif norms and isinstance(v, np.floating):
            a, cls = np.array(v), "scalar"
        elif isinstance(v, np.ndarray):
            a = v
        else:
            return {"t": "other", "v": cls}
        a = np.asarray(a)
        if a.dtype.kind != "f" or a.dtype.itemsize not in (4, 8):
            return {"t": "other", "v": str(a.dtype)}
        if a.dtype.itemsize == 8:
            b = a.astype(np.float32)
            if not np.array_equal(b.astype(np.float64), a):
                return {"t": "other", "v": "not float32 values"}
            a = b
        if norms:
            a = a[..., None]
        return {"t": "arr", "cls": cls, "shape": [int(x) for x in a.shape], "v": flat_rows(a)}
    return tag


# ---- keys ------------------------------------------------------------------

def rand_slice(r, n, zero=False):
    def b():
        return [] if r.random() < 0.3 else [r.randint(-n - 2, n + 2)]
    c = [] if r.random() < 0.4 else [r.choice([1, 2, 3, -1, -2, -3, n + 1])]
    if zero and r.random() < 0.04:
        c = [0]
    return {"a": b(), "b": b(), "c": c}


def py_slice(s):
    g = lambda x: x[0] if x else None
    return slice(g(s["a"]), g(s["b"]), g(s["c"]))


def rand_key(r, n):
    """(specification's key, Python key)"""
    k = r.randrange(9)
    def i():
        if n == 0 or r.random() < 0.04:
            return r.choice([n, n + 1, -n - 1, -n - 3, 2 ** 30, -2 ** 30])
        return r.randint(-n, n - 1)
    if k == 0:
        x = i()
        py = r.choice([int, int, np.int64, np.int32])(x)
        return {"t": "int", "v": [x], "shape": []}, py
    if k == 1:
        m = r.randint(0, 5) if r.random() < 0.9 else r.randint(30, 300)
        x = [i() for _ in range(m)]
        return {"t": "list", "v": x, "shape": [m]}, list(x)
    if k in (2, 3):
        sh = [r.randint(0, 3) for _ in range(r.choice([0, 1, 1, 2, 3]))]
        x = [i() for _ in range(int(np.prod(sh)))]
        dt = r.choice([np.int64, np.int32, np.intp])
        if r.random() < 0.2 and all(0 <= v < 256 for v in x):
            dt = r.choice([np.uint8, np.uint16, np.uint32, np.uint64])
        return {"t": "arr", "v": x, "shape": sh}, np.array(x, dtype=dt).reshape(sh)
    if k == 4:
        m = [r.random() < 0.5 for _ in range(n)]
        return {"t": "mask", "v": m}, list(m) if m and r.random() < 0.3 else np.array(m, dtype=bool)
    s = rand_slice(r, n, zero=True)
    return {"t": "slice", "s": s}, py_slice(s)


def spec(kind, p):
    s = snap.spec_storage(p) if kind != "norms" else \
        {"kind": "nd", "cols": 1, "rows": [[int(x)] for x in f32(p)]}
    s["norms1"] = kind == "norms"
    return s


def size(s, kind):
    try:
        return {"len": len(s), "shape": [int(x) for x in s.shape]}
    except Exception as e:  # pylint: disable=broad-except
        return {"len": -1, "shape": [], "why": str(e)}


def base_of(kind, s):
    return np.asarray(s).view(np.ndarray) if kind != "pq" else None


def shares(box, s):
    return bool(box) and isinstance(box[0], np.ndarray) and bool(np.shares_memory(box[0], s))


def get(kind, s, chain, key, py):
    box = []

    def call():
        v = s[py]
        box.append(v)
        return v
    res = run(call, t_arr(kind == "norms"))
    return {"how": "get", "chain": chain, "key": key, "res": res,
            "shares": shares(box, s) if kind != "pq" else False}


def iterate(kind, s, chain):
    box = []

    def call():
        box[:] = list(s)
        if not box:
            return np.zeros((0, s.shape[1]) if kind != "norms" else (0,), np.float32)
        return np.stack([np.asarray(x) for x in box])
    res = run(call, t_arr(kind == "norms"))
    return {"how": "iter", "chain": chain, "res": res, "plain": all(type(x) is np.ndarray for x in box)}


def out_buffer(r, shape):
    n = len(shape)
    k = r.randrange(4)
    if k == 0 and n:
        return np.full(tuple(shape[:-1]) + (2 * shape[-1],), 77, np.float32)[..., ::2]
    if k == 1:
        return np.asfortranarray(np.full(shape, 77, np.float32))
    if k == 2 and n > 1:
        return np.full((shape[0] * 2,) + tuple(shape[1:]), 77, np.float32)[::2]
    return np.full(shape, 77, np.float32)


def wrong_shape(r, shape):
    shape = list(shape)
    k = r.randrange(3)
    if k == 0:
        shape[-1] += r.choice([1, -1]) if shape[-1] > 1 else 1
    elif k == 1 and len(shape) > 1:
        j = r.randrange(len(shape) - 1)
        shape[j] += 1
    elif len(shape) == 1:
        shape = [1] + shape
    else:
        shape = [2] + shape
    return shape


def lead_shape(n, key, py):
    """Leading shape of what key selects, None if it fails."""
    try:
        return list(np.zeros(n)[py].shape)
    except Exception:  # pylint: disable=broad-except
        return None


def with_buffer(r, fn, lead, d):
    mode = r.choice(["none", "out", "out", "wrong"])
    if lead is None:
        mode = "none"
    if mode == "none":
        return {"out": "none", "same": False, "res": run(lambda: fn(None), t_arr(False)), "buf": {"t": "none"}}
    b = out_buffer(r, tuple(lead) + (d,) if mode == "out" else tuple(wrong_shape(r, tuple(lead) + (d,))))
    box = []

    def call():
        v = fn(b)
        box.append(v)
        return v
    res = run(call, t_arr(False))
    return {"out": mode, "same": bool(box) and box[0] is b, "res": res,
            "buf": t_arr(False)(b) if mode == "out" else {"t": "none"}}


def emb(r, s, chain, key, py):
    d = {"how": "emb", "chain": chain, "key": key}
    d.update(with_buffer(r, lambda o: s.embedding(py) if o is None else s.embedding(py, o),
                         lead_shape(len(s), key, py), s.shape[1]))
    return d


def recon(r, s, p):
    sh = [r.randint(0, 3) for _ in range(r.choice([0, 1, 1, 2]))]
    n = int(np.prod(sh))
    q, k, _ = p["sub"].shape
    codes = [[r.randrange(k) for _ in range(q)] for _ in range(n)]
    a = np.array(codes, dtype=r.choice([np.uint8, np.int64])).reshape(tuple(sh) + (q,))
    d = {"how": "recon", "chain": [], "codes": codes, "shape": sh}
    d.update(with_buffer(r, lambda o: s.quantizer.reconstruct(a) if o is None else s.quantizer.reconstruct(a, out=o),
                         sh, s.shape[1]))
    return d


def as_array(r, kind, s, chain, finite):
    k = r.randrange(5 if finite else 3)
    fn = [lambda: np.asarray(s), lambda: np.array(s), lambda: np.asarray(s, dtype=np.float32),
          lambda: np.asarray(s, dtype=np.float64), lambda: np.array(s).astype(np.float64)][k]
    return {"how": "array", "chain": chain, "res": run(fn, t_arr(kind == "norms"))}


def reload(ctx, kind, s, chain, mmap):
    from finalfusion.storage import load_storage
    from finalfusion.norms import load_norms
    f = ctx.tmp / "slice.fifu"
    if f.exists():
        f.unlink()

    def call():
        s.write(str(f))
        return load_norms(str(f)) if kind == "norms" else load_storage(str(f), mmap)
    return {"how": "load", "chain": chain, "res": run(call, t_arr(kind == "norms"))}


def mk(ctx, kind, p):
    """The object: constructed, or written and loaded, also memory-mapped."""
    from finalfusion.storage import load_storage
    from finalfusion.norms import load_norms
    r = ctx.rng
    o = snap.mk_norms(p, r) if kind == "norms" else snap.mk_storage(p, r)
    k = r.random()
    if k < 0.5:
        return o
    f = ctx.tmp / "base.fifu"
    if f.exists():
        f.unlink()
    o.write(str(f))
    return load_norms(str(f)) if kind == "norms" else load_storage(str(f), k < 0.8)


def rand_obj(r, kind, n):
    if kind == "norms":
        return gen.bit_matrix(r, n, 1).reshape(n)
    if kind == "nd":
        return snap.rand_nd(r, n)
    return snap.rand_pq(r, n, data=r.choice(["bits", "int"]))


def finite(kind, p):
    a = p if kind == "norms" else p["m"] if kind == "nd" else p["sub"]
    return bool(np.isfinite(a).all())


def rand_access(ctx, kind, p, root):
    r = ctx.rng
    s, chain = root, []
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        sl = rand_slice(r, len(s))
        chain = chain + [sl]
        s = s[py_slice(sl)]
    n = len(s)
    k = r.random()
    if k < 0.12:
        return dict(size(s, kind), how="size", chain=chain)
    if k < 0.22:
        return iterate(kind, s, chain)
    if k < 0.3:
        return as_array(r, kind, s, chain, finite(kind, p))
    if k < 0.38:
        return reload(ctx, kind, s, chain, r.random() < 0.5)
    key, py = rand_key(r, n)
    if kind == "pq":
        if k < 0.6:
            return emb(r, s, chain, key, py)
        if k < 0.7:
            return recon(r, s, p)
    return get(kind, s, chain, key, py)


def enumerated(ctx, kinds):
    """Every slice of short storages, and one random access behind it."""
    by = {}
    for c in ctx.generated("GenSlices"):
        by.setdefault(c["n"], []).append({"a": c["a"], "b": c["b"], "c": c["c"]})
    r = ctx.rng
    for n, sls in by.items():
        for kind in kinds:
            p = rand_obj(r, kind, n)
            if kind == "pq":
                p = snap.rand_pq(r, n, q=2, s=1, k=3)
            elif kind == "nd":
                p = snap.rand_nd(r, n, 2)
            root = mk(ctx, kind, p)
            step = 60
            for lo in range(0, len(sls), step):
                acc = []
                for sl in sls[lo:lo + step]:
                    key = {"t": "slice", "s": sl}
                    acc.append(get(kind, root, [], key, py_slice(sl)))
                yield kind, p, acc


def c15(ctx):
    r = ctx.rng
    for kind, p, acc in enumerated(ctx, ["pq"]):
        yield [{"op": "C15", "s": spec(kind, p), "acc": acc}]
    for _ in range(ctx.size(260, 6000)):
        p = rand_obj(r, "pq", r.choice([0, 1, 2, 3, 5, 8]))
        root = mk(ctx, "pq", p)
        yield [{"op": "C15", "s": spec("pq", p), "acc": [rand_access(ctx, "pq", p, root) for _ in range(16)]}]
    for _ in range(ctx.size(12, 200)):        # many rows, centroids, sub-quantizers
        q = r.choice([1, 2, 9, 40])
        p = snap.rand_pq(r, r.choice([40, 257, 300]), q=q, s=r.choice([1, 2, 9]) if q < 9 else 1,
                         k=r.choice([2, 255, 256]) if q < 9 else 3, proj=r.random() < 0.3 if q < 9 else False)
        root = mk(ctx, "pq", p)
        yield [{"op": "C15", "s": spec("pq", p), "acc": [rand_access(ctx, "pq", p, root) for _ in range(8)]}]
    for _ in range(ctx.size(8, 150)):         # wide
        q = r.choice([16, 75, 100, 129, 256])
        p = snap.rand_pq(r, r.choice([2, 5, 9]), q=q, s=r.choice([1, 2, 4]), k=3, proj=False)
        root = mk(ctx, "pq", p)
        yield [{"op": "C15", "s": spec("pq", p), "acc": [rand_access(ctx, "pq", p, root) for _ in range(6)]}]


def c16(ctx):
    r = ctx.rng
    for kind, p, acc in enumerated(ctx, ["nd", "norms"]):
        yield [{"op": "C16", "s": spec(kind, p), "acc": acc}]
    for _ in range(ctx.size(260, 6000)):
        kind = r.choice(["nd", "nd", "norms"])
        p = rand_obj(r, kind, r.choice([0, 1, 2, 3, 5, 8]))
        root = mk(ctx, kind, p)
        yield [{"op": "C16", "s": spec(kind, p), "acc": [rand_access(ctx, kind, p, root) for _ in range(16)]}]
    for _ in range(ctx.size(16, 200)):        # many rows, columns
        kind = r.choice(["nd", "nd", "norms"])
        n = r.choice([40, 257, 300])
        p = rand_obj(r, kind, n) if kind == "norms" else snap.rand_nd(r, n, r.choice([1, 4, 20]))
        root = mk(ctx, kind, p)
        yield [{"op": "C16", "s": spec(kind, p), "acc": [rand_access(ctx, kind, p, root) for _ in range(8)]}]
    for _ in range(ctx.size(8, 150)):         # wide
        p = snap.rand_nd(r, r.choice([2, 5, 9]), r.choice([16, 100, 129, 300, 513, 1025]))
        root = mk(ctx, "nd", p)
        yield [{"op": "C16", "s": spec("nd", p), "acc": [rand_access(ctx, "nd", p, root) for _ in range(6)]}]
