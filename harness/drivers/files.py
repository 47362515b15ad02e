"""Drivers for C23 (writes that fail) and C24 (how files are addressed)."""
import contextlib
import os
import pathlib
import resource
import signal

import numpy as np

import gen
import snap
from rec import *  # noqa
from drivers.cli import FMTS, make_input, tool, state
from drivers.compat import Ft, plain_words, put, write_case


@contextlib.contextmanager
def limit(n):
    """No file may grow beyond n bytes."""
    old = resource.getrlimit(resource.RLIMIT_FSIZE)
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, old[1]))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, old)


def case(r, fmt, rows=None):
    """Parameters of embeddings that can be written in the format."""
    if fmt == "fasttext":
        p = snap.rand_params(r, kinds=("fasttext",), storages=("nd",), data="nice", norms=False,
                             cols=r.choice([1, 2, 3]), n=rows)
        p["vocab"]["words"] = plain_words(r, len(p["vocab"]["words"]))
        return p
    if fmt in ("text", "textdims"):
        p = snap.rand_params(r, data="nice", storages=("nd",), n=rows, norms=False, cols=r.choice([1, 2, 3]))
    else:
        p = snap.rand_params(r, n=rows, cols=r.choice([1, 2, 3]))
    n = len(p["vocab"]["words"])
    p["vocab"]["words"] = plain_words(r, n)
    return p


def large(r, fmt):
    """Embeddings whose file is larger than the file layers' buffers."""
    if fmt == "fasttext":
        v = {"kind": "fasttext", "words": plain_words(r, 12), "lo": 1, "hi": 2, "b": r.choice([40, 300])}
    else:
        k = r.choice(["simple", "bucket", "explicit"])
        n = r.choice([150, 300])
        v = {"kind": k, "words": ["w%d" % i for i in range(n)], "lo": 2, "hi": 3}
        if k == "bucket":
            v["b"] = 5
        if k == "explicit":
            v["ngrams"] = ["g%d" % i for i in range(40)]
        if k == "simple":
            v = {"kind": "simple", "words": v["words"]}
    rows = snap.bound(v)
    cols = r.choice([5, 12])
    p = {"vocab": v, "storage": {"kind": "nd", "m": gen.nice_matrix(r, rows, cols)}}
    if fmt not in FMTS or fmt == "finalfusion" and r.random() < 0.4:
        p["storage"] = snap.rand_pq(r, rows, q=4, s=3, k=r.choice([7, 200]))
    if fmt not in ("text", "textdims", "fasttext") and r.random() < 0.5:
        p["norms"] = gen.bit_matrix(r, len(v["words"]), 1).reshape(-1)
    return p


PART = {"vocab": lambda e: e.vocab, "storage": lambda e: e.storage, "norms": lambda e: e.norms,
        "meta": lambda e: e.metadata}


def writer(what, e):
    """Writes e, or its component, to a file."""
    if what in PART:
        return PART[what](e).write
    from finalfusion.compat import write_word2vec, write_text, write_text_dims, write_fasttext
    if what == "finalfusion":
        return e.write
    fn = {"word2vec": write_word2vec, "text": write_text, "textdims": write_text_dims, "fasttext": write_fasttext}[what]
    return lambda f: fn(f, e)


def c23(ctx):
    from finalfusion import load_finalfusion
    r = ctx.rng
    f, inp, wl = ctx.tmp / "w.out", ctx.tmp / "w.in", ctx.tmp / "w.txt"

    def clear():
        if f.exists():
            f.unlink()

    def before():
        clear()
        k = r.random()
        if k < 0.3:
            put(f, r.choice([b"", b"old", b"FiFu\0\0\0\0" * 60]))

    def limits(size, big):
        if not big and size <= 260:
            return list(range(size + 2))
        ns = {0, 1, 3, size - 1, size, size + 1, size + 5000} | {size - r.randint(2, 40) for _ in range(8)}
        ns |= {8192, 8191, 8193, 4096, 12288, 16384, 16383}
        ns |= {r.randrange(size) for _ in range(8)}
        return sorted(n for n in ns if n >= 0 and (n <= size or n in (size + 1, size + 5000)))

    def one(what, p, big=False):
        e = snap.mk_embeddings(ctx.ff, p, r)
        w = writer(what, e)
        clear()
        w(str(f))
        whole = snap.file_bytes(f)
        runs = []
        for n in limits(len(whole), big):
            before()
            b = state(f)
            with limit(n):
                res = run(lambda: w(str(f)), t_any)
            runs.append({"n": n, "res": res, "before": b, "left": state(f)})
        # a device that is always full
        with open("/dev/full", "wb", 0) as d:
            full = run(lambda: w(os.dup(d.fileno())), t_any)
        clear()
        again = run(lambda: w(str(f)), lambda _: {"t": "bytes", "v": snap.file_bytes(f)})
        return [{"op": "C23", "act": "limit", "what": what, "whole": whole, "runs": runs, "full": full,
                 "again": again}]

    def with_tool(name, argv, what):
        """A tool whose output file may not grow beyond n bytes."""
        clear()
        st, _, _ = tool(ctx, name, argv)
        if st != 0:
            return []
        whole = snap.file_bytes(f)
        runs = []
        size = len(whole)
        ns = {0, 1, size // 2, size - 1, size, size - 2, size - r.randint(1, 30), r.randrange(size + 1)}
        for n in sorted(x for x in ns if x >= 0):
            before()
            b = state(f)
            with limit(n):
                st, _, _ = tool(ctx, name, argv)
            runs.append({"n": n, "res": {"t": "status", "v": st}, "before": b, "left": state(f)})
        before()
        return [{"op": "C23", "act": "tool", "what": what, "whole": whole, "runs": runs}]

    def tools():
        frm = r.choice(FMTS)
        to = r.choice(FMTS) if frm == "fasttext" else r.choice([x for x in FMTS if x != "fasttext"])
        put(inp, b"")
        make_input(ctx, inp, frm)
        h = with_tool("convert", ["-f", frm, "-t", to, str(inp), str(f)], "ffp-convert")
        m = Ft(r, n=r.randint(1, 4))
        put(inp, m.bytes())
        h += with_tool("explicit", ["-f", "fasttext", str(inp), str(f)], "ffp-bucket-to-explicit")
        _, ws = make_input(ctx, inp, "word2vec")
        put(wl, b"".join(w.encode() + b"\n" for w in ws if w.split() == [w]))
        h += with_tool("select", ["-f", "word2vec", str(inp), str(f), str(wl)], "ffp-select")
        return h

    def refused():
        """Writes that cannot succeed for reasons other than space."""
        what = r.choice(FMTS + ["vocab"])
        p = case(r, what)
        ws = p["vocab"]["words"]
        if not ws:
            return []
        e = snap.mk_embeddings(ctx.ff, p, r)
        d = ctx.tmp / "dir"
        d.mkdir(exist_ok=True)
        out = []
        for why, path in (("missing directory", ctx.tmp / "absent" / "x"), ("a directory", d),
                          ("below a file", pathlib.Path(str(inp) + "/x")), ("empty name", "")):
            put(inp, b"x")
            out.append({"why": why, "res": run(lambda: writer(what, e)(path if path == "" else str(path)), t_any)})
        q = dict(p, vocab=dict(p["vocab"], words=list(ws)))
        k = r.randrange(len(ws))
        q["vocab"]["words"][k] = ws[k][:1] + r.choice(["\ud800", "\udfff", "\udc80"]) + ws[k][1:]
        try:
            bad = snap.mk_embeddings(ctx.ff, q, r)
        except UnicodeError:
            bad = None                           # refused even earlier
        if bad is not None:
            clear()
            out.append({"why": "a word that cannot be encoded", "res": run(lambda: writer(what, bad)(str(f)), t_any)})
        return [{"op": "C23", "act": "refused", "what": what, "runs": out}]

    def unreadable():
        """A tool that cannot load its input leaves the destination alone."""
        h = []
        for name, extra in (("convert", []), ("explicit", []), ("select", [str(wl)])):
            frm = r.choice(FMTS) if name != "explicit" else r.choice(["finalfusion", "fasttext"])
            make_input(ctx, inp, frm)
            b = inp.read_bytes()
            k = r.random()
            if frm not in ("finalfusion", "fasttext") or k < 0.3:
                put(inp, b"\xff\xfe" + b)         # malformed word, magic or count
            else:
                put(inp, b[:r.randrange(max(1, min(len(b), 12)))])
            if r.random() < 0.15:
                inp.unlink()
            put(wl, b"a\n")
            put(f, b"old content")
            argv = ["-f", frm, str(inp), str(f)] + extra
            st, _, _ = tool(ctx, name, argv)
            h.append({"op": "C23", "act": "unreadable", "what": name + " " + frm, "status": st,
                      "before": list(b"old content"), "left": state(f)})
        return h

    whats = FMTS + ["vocab", "storage", "norms", "meta"]
    for what in ctx.mine(whats * (1 if ctx.tier == "quick" else 12)):
        p = large(r, what)
        if what == "norms" and "norms" not in p:
            p["norms"] = gen.bit_matrix(r, len(p["vocab"]["words"]), 1).reshape(-1)
        if what == "meta":
            p["meta"] = {"k%d" % i: "v" * 300 for i in range(40)}
        yield one(what, p, True)
    for _ in range(ctx.size(24, 500)):
        for what in whats:
            p = case(r, what, r.randint(0, 4))
            if what == "meta":
                p["meta"] = snap.rand_meta(r)
            if what == "norms":
                n = len(p["vocab"]["words"])
                p["norms"] = gen.bit_matrix(r, n, 1).reshape(n)
            yield one(what, p)
        yield refused()
        yield unreadable()
    for _ in range(ctx.size(24, 400)):
        yield tools()


# ---- C24 -------------------------------------------------------------------

class Named(os.PathLike):
    """A path object of one's own."""
    def __init__(self, p):
        self.p = p

    def __fspath__(self):
        return self.p


NAMES = ["e.fifu", "7", "0", "with space.bin", "grüße-語.vec", "a\nb", "x" * 200, ".hidden", "sub/e", "-f", "a.txt.gz",
         "%s{}", "~", "*", "~root", "$HOME", "%41", "file:e", "http:x", " e ", "a'b\"c\\d", "#e?x=1", "CON", "..e"]


class Ways:
    """Ways of naming the same file; each calls fn with one."""
    def __init__(self, ctx):
        self.ctx, self.r = ctx, ctx.rng
        self.d = ctx.tmp / "names"
        (self.d / "sub").mkdir(parents=True, exist_ok=True)

    def file(self):
        """A fresh name."""
        n = self.r.choice(NAMES)
        f = self.d / n
        if f.is_symlink() or f.exists():
            f.unlink()
        return f

    def odd(self):
        """A name that is not valid UTF-8."""
        f = os.fsencode(self.d) + b"/n\xff\xfe.bin"
        if os.path.lexists(f):
            os.unlink(f)
        return f

    def hows(self):
        return ["str", "bytes", "path", "own", "own bytes", "relative", "bare", "symlink", "fd", "fd 0"]

    def use(self, how, f, fn, write=False):
        f = os.fsencode(f)
        s = os.fsdecode(f)
        if how == "str":
            return fn(s)
        if how == "bytes":
            return fn(f)
        if how == "path":
            return fn(pathlib.Path(s))
        if how == "own":
            return fn(Named(s))
        if how == "own bytes":
            return fn(Named(f))
        if how == "relative":
            return fn(os.path.relpath(s))
        if how == "bare":
            here = os.getcwd()
            os.chdir(os.path.dirname(s))
            try:
                return fn(os.path.basename(s))
            finally:
                os.chdir(here)
        if how == "symlink":
            l = self.ctx.tmp / "link"
            if l.is_symlink():
                l.unlink()
            l.symlink_to(s)
            return fn(str(l))
        fd = os.open(f, os.O_RDWR | os.O_CREAT | os.O_TRUNC if write else os.O_RDONLY, 0o600)
        if how == "fd":
            try:
                return fn(fd)
            finally:
                try:
                    os.close(fd)            # the loaders close it
                except OSError:
                    pass
        keep = os.dup(0)
        os.dup2(fd, 0)
        os.close(fd)
        try:
            return fn(0)
        finally:
            os.dup2(keep, 0)
            os.close(keep)


def c24(ctx):
    from finalfusion import Embeddings, load_finalfusion
    from finalfusion.compat import load_word2vec, load_text, load_text_dims, load_fasttext
    from drivers.format import loaders
    from drivers.compat import w2v_bytes
    r = ctx.rng
    ways = Ways(ctx)
    L = loaders()
    COMPAT = {"word2vec": load_word2vec, "text": load_text, "textdims": load_text_dims, "fasttext": load_fasttext}

    def load(p):
        e = snap.mk_embeddings(ctx.ff, p, r)
        f = ways.file() if r.random() < 0.9 else ways.odd()
        with open(f, "wb") as o:
            o.write(b"")
        e.write(f)
        value = snap.spec_value(p)
        tab = snap.Table()
        out = []
        for how in ways.hows():
            for m in (False, True):
                out.append({"how": how, "name": "all", "mmap": m,
                            "res": run(lambda: ways.use(how, f, lambda x: load_finalfusion(x, m)), tab.tag(snap.snap))})
            for name, m, fn, sn in L:
                if name in ("simple_vocab", "bucket_vocab", "fasttext_vocab", "explicit_vocab", "ndarray", "quantized"):
                    kind = p["vocab"]["kind"] if name.endswith("vocab") else p["storage"]["kind"]
                    if not name.startswith({"nd": "nd", "pq": "quant"}.get(kind, kind)):
                        continue
                if name == "norms" and p.get("norms") is None or name == "metadata" and p.get("meta") is None:
                    continue
                out.append({"how": how, "name": name, "mmap": m,
                            "res": run(lambda: ways.use(how, f, fn), tab.tag(sn))})
        return {"op": "C24", "act": "load", "e": value, "loads": out, "vals": tab.vals}

    def compat(fmt):
        f = ways.file() if r.random() < 0.8 else ways.odd()
        make_input(ctx, f, fmt)
        tab = snap.Table()
        out = [{"how": how, "res": run(lambda: ways.use(how, f, COMPAT[fmt]), tab.tag(snap.snap))} for how in ways.hows()]
        return {"op": "C24", "act": "compat", "what": fmt, "loads": out}

    def write(what):
        p = case(r, what, r.randint(0, 4))
        if what == "meta":
            p["meta"] = snap.rand_meta(r)
        if what == "norms":
            n = len(p["vocab"]["words"])
            p["norms"] = gen.bit_matrix(r, n, 1).reshape(n)
        e = snap.mk_embeddings(ctx.ff, p, r)
        w = writer(what, e)
        ref = ctx.tmp / "ref"
        if ref.exists():
            ref.unlink()
        w(str(ref))
        whole = ref.read_bytes()
        runs = []
        for how in ways.hows():
            f = ways.file() if r.random() < 0.9 else ways.odd()
            old = r.choice([None, b"", whole + b"tail", whole[:-1], b"x" * (len(whole) + r.randint(0, 5000)),
                            whole + whole, bytes(len(whole))])
            if old is not None:
                with open(f, "wb") as o:
                    o.write(old)
            res = run(lambda: ways.use(how, f, w, True), t_any)
            runs.append({"how": how, "res": res, "old": -1 if old is None else len(old),
                         "left": snap.file_bytes(f) if os.path.exists(f) else [-1]})
        return {"op": "C24", "act": "write", "what": what, "whole": list(whole), "runs": runs}

    def sequence():
        """Writes of different embeddings and formats to one file, each loaded again."""
        f = ways.file()
        h = []
        for _ in range(r.randint(3, 6)):
            what = r.choice(FMTS)
            p = case(r, what, r.randint(0, 5))
            e = snap.mk_embeddings(ctx.ff, p, r)
            ref = ctx.tmp / "ref"
            if ref.exists():
                ref.unlink()
            writer(what, e)(str(ref))
            how = r.choice(ways.hows())
            res = run(lambda: ways.use(how, f, writer(what, e), True), t_any)
            h.append({"op": "C24", "act": "write", "what": what, "whole": snap.file_bytes(ref),
                      "runs": [{"how": how, "res": res, "old": -1, "left": state(f)}]})
            if what == "finalfusion":
                how = r.choice(ways.hows())
                m = r.random() < 0.5
                tab = snap.Table()
                out = [{"how": how, "name": "all", "mmap": m,
                        "res": run(lambda: ways.use(how, f, lambda x: load_finalfusion(x, m)), tab.tag(snap.snap))}]
                h.append({"op": "C24", "act": "load", "e": snap.spec_value(p), "loads": out, "vals": tab.vals})
        return h

    def keep(p):
        """Loaded embeddings do not depend on the name of their file."""
        f = ways.file()
        g = ctx.tmp / "moved"
        snap.mk_embeddings(ctx.ff, p, r).write(str(f))
        value = snap.spec_value(p)
        other = snap.mk_embeddings(ctx.ff, case(r, "finalfusion", 3), r)
        out, tab = [], snap.Table()
        m = r.random() < 0.6
        how = r.choice(ways.hows())
        e = ways.use(how, f, lambda x: load_finalfusion(x, m))
        what = r.choice(["rename", "unlink", "replace", "rewrite"])
        if what == "rename":
            os.replace(f, g)
        elif what == "unlink":
            f.unlink()
        elif what == "replace":
            other.write(str(g))
            os.replace(g, f)
        elif not m:
            other.write(str(f))
        out.append({"how": how + ", then " + what, "name": "all", "mmap": m,
                    "res": run(lambda: e, tab.tag(snap.snap))})
        return {"op": "C24", "act": "load", "e": value, "loads": out, "vals": tab.vals}

    def own(p):
        """Embeddings read into memory and written to where they came from."""
        f = ways.file()
        snap.mk_embeddings(ctx.ff, p, r).write(str(f))
        whole = snap.file_bytes(f)
        e = load_finalfusion(str(f))
        how = r.choice(ways.hows())
        res = run(lambda: ways.use(how, f, e.write, True), t_any)
        h = [{"op": "C24", "act": "write", "what": "onto its own source", "whole": whole,
              "runs": [{"how": how, "res": res, "old": len(whole), "left": state(f)}]}]
        what = r.choice([w for w in PART if p.get(w) is not None])
        ref = ctx.tmp / "ref"
        PART[what](e).write(str(ref))
        from finalfusion.vocab import load_vocab
        from finalfusion.storage import load_storage
        from finalfusion.norms import load_norms
        from finalfusion.metadata import load_metadata
        c = {"vocab": load_vocab, "storage": load_storage, "norms": load_norms, "meta": load_metadata}[what](str(f))
        res = run(lambda: c.write(str(f)), t_any)
        h.append({"op": "C24", "act": "write", "what": what + " onto its own source", "whole": snap.file_bytes(ref),
                  "runs": [{"how": "str", "res": res, "old": len(whole), "left": state(f)}]})
        return h

    def origin(p):
        e = snap.mk_embeddings(ctx.ff, p, r)
        out = [{"how": "default", "want": cps("<memory>"), "got": run(lambda: e.origin, t_str)}]
        name = gen.word(r)
        out.append({"how": "given", "want": cps(name),
                    "got": run(lambda: Embeddings(e.storage, e.vocab, e.norms, e.metadata, origin=name).origin, t_str)})
        f = ways.file()
        e.write(str(f))
        for m in (False, True):
            out.append({"how": "loaded", "want": cps(str(f)), "got": run(lambda: load_finalfusion(str(f), m).origin, t_str)})
        rel = os.path.relpath(f)
        out.append({"how": "loaded", "want": cps(rel), "got": run(lambda: load_finalfusion(rel).origin, t_str)})
        fmt = r.choice(list(COMPAT))
        make_input(ctx, f, fmt)
        out.append({"how": fmt, "want": cps(str(f)), "got": run(lambda: COMPAT[fmt](str(f)).origin, t_str)})
        return {"op": "C24", "act": "origin", "q": out}

    for _ in range(ctx.size(40, 900)):
        yield [load(case(r, "finalfusion", r.randint(0, 4)))]
        yield [load(snap.rand_params(r, n=r.randint(0, 4), norms=True, meta=True))]
        yield [compat(fmt) for fmt in COMPAT]
        for what in FMTS + list(PART):
            yield [write(what)]
        yield sequence()
        for _ in range(3):
            yield [keep(snap.rand_params(r, n=r.randint(0, 4)))]
            yield own(snap.rand_params(r, n=r.randint(0, 4)))
        yield [origin(snap.rand_params(r, n=r.randint(0, 4)))]
