"""C27: no call leaves a file open."""
import gc
import os
import warnings

import gen
import snap
from drivers.cli import FMTS, make_input
from drivers.compat import put
from drivers.files import PART, case, writer
from drivers.format import loaders
from rec import *  # noqa


def fds():
    """Open descriptors of this process, with what they lead to."""
    out = []
    for n in os.listdir("/proc/self/fd"):
        try:
            out.append((n, os.readlink("/proc/self/fd/" + n)))
        except OSError:
            pass
    return sorted(x for x in out if "/proc/" not in x[1])


def call(fn, why, mapped):
    """What is open while the outcome is still held, and afterwards."""
    before = fds()
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        box = []
        try:
            box.append(fn())
            res = {"t": "val"}
        except Exception as e:  # pylint: disable=broad-except
            box.append(e)
            res = exc(e)
        held = [x for x in fds() if x not in before]
        gone = [x for x in before if x not in fds()]
        box.clear()
        if held:
            gc.collect()
        left = [x for x in fds() if x not in before]
    return {"why": why, "mapped": mapped, "res": res, "held": len(held), "left": len(left), "gone": len(gone),
            "warned": sum(issubclass(w.category, ResourceWarning) for w in ws)}


def c27(ctx):
    from finalfusion import load_finalfusion
    from finalfusion.compat import load_word2vec, load_text, load_text_dims, load_fasttext
    r = ctx.rng
    gc.collect()
    gc.freeze()
    f, g = ctx.tmp / "c.in", ctx.tmp / "c.out"
    COMPAT = {"word2vec": load_word2vec, "text": load_text, "textdims": load_text_dims, "fasttext": load_fasttext}
    L = [(n, m, fn) for n, m, fn, _ in loaders()]
    L += [("all", False, load_finalfusion), ("all", True, lambda p: load_finalfusion(p, mmap=True))]

    def spoilt(b):
        """The file, cut, changed, with something behind it."""
        yield "whole", b
        for n in sorted({0, 3, 11, 12, len(b) - 1, len(b) - 3} | {r.randrange(len(b) + 1) for _ in range(6)}):
            if 0 <= n < len(b):
                yield "cut at %d" % n, b[:n]
        for _ in range(8):
            if b:
                c = bytearray(b)
                k = r.randrange(min(len(b), r.choice([16, 60, 10 ** 6])))
                c[k] = r.choice([0, 1, 2, 127, 255, c[k] ^ 1, 10, 32])
                yield "byte %d changed" % k, bytes(c)
        yield "more bytes", b + b"\xffxyz"
        yield "noise", bytes(r.randrange(256) for _ in range(50))

    def native(p):
        snap.mk_embeddings(ctx.ff, p, r).write(str(f))
        whole = f.read_bytes()
        for name, m, fn in L:
            runs = []
            for why, b in (spoilt(whole) if name in ("all", "storage") else list(spoilt(whole))[::4]):
                f.unlink()
                put(f, b)
                runs.append(call(lambda: fn(str(f)), why, m))
            runs.append(call(lambda: fn(str(f) + ".none"), "missing", m))
            runs.append(call(lambda: fn(str(ctx.tmp)), "directory", m))
            yield {"op": "C27", "act": "calls", "what": "load " + name + (" mmap" if m else ""), "runs": runs}

    def foreign(fmt):
        make_input(ctx, f, fmt)
        whole = f.read_bytes()
        runs = []
        for why, b in spoilt(whole):
            put(f, b)
            for lossy in (False, True):
                runs.append(call(lambda: COMPAT[fmt](str(f), lossy), why, False))
        runs.append(call(lambda: COMPAT[fmt](str(f) + ".none"), "missing", False))
        return {"op": "C27", "act": "calls", "what": "load " + fmt, "runs": runs}

    def write(what):
        p = case(r, what if what in FMTS else "finalfusion")
        p.setdefault("norms", gen.bit_matrix(r, len(p["vocab"]["words"]), 1).reshape(-1)) if what == "norms" else None
        p.setdefault("meta", {"a": 1}) if what == "meta" else None
        e = snap.mk_embeddings(ctx.ff, p, r)
        w = writer(what, e)
        runs = [call(lambda: w(str(g)), "fine", False), call(lambda: w("/dev/full"), "full", False),
                call(lambda: w(str(ctx.tmp)), "directory", False), call(lambda: w(str(g / "x")), "no directory", False)]
        # something that cannot be encoded
        if p["vocab"]["words"] and what not in ("storage", "norms"):
            if what == "meta":
                p["meta"] = dict(p["meta"], x="\ud800")
            else:
                p["vocab"]["words"][r.randrange(len(p["vocab"]["words"]))] += "\udc80"
            e2 = snap.mk_embeddings(ctx.ff, p, r)
            runs.append(call(lambda: writer(what, e2)(str(g)), "lone surrogate", False))
        if what in FMTS and what != "fasttext":
            q = case(r, "finalfusion")
            e3 = snap.mk_embeddings(ctx.ff, q, r)
            runs.append(call(lambda: writer("fasttext", e3)(str(g)), "other vocabulary as fastText", False))
        return {"op": "C27", "act": "calls", "what": "write " + what, "runs": runs}

    for _ in range(ctx.size(10, 300)):
        for ev in native(snap.rand_params(r, n=r.randint(0, 3))):
            yield [ev]
        for fmt in COMPAT:
            yield [foreign(fmt)]
        for what in list(FMTS) + list(PART):
            yield [write(what)]
