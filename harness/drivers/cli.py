"""Driver for C22: the command-line tools, each run in a child process."""
import importlib
import os
import sys

import numpy as np

import gen
import snap
from rec import *  # noqa
from drivers.embed import int_params, many, t_sims, queries
from drivers.compat import Ft, plain_words, put, vec_bits, w2v_bytes, write_case, numeral, mixed_words, bad_word

TOOLS = {"convert": "convert", "explicit": "bucket_to_explicit", "select": "select", "similar": "similar",
         "analogy": "analogy"}


def tool(ctx, name, argv, stdin=b""):
    """Run a tool's main in a child; exit status, stdout, stderr."""
    main = importlib.import_module("finalfusion.scripts." + TOOLS[name]).main
    fi, fo, fe = (ctx.tmp / n for n in ("stdin", "stdout", "stderr"))
    put(fi, stdin)
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        st = 0
        try:
            for fd, f, fl in ((0, fi, os.O_RDONLY), (1, fo, os.O_WRONLY | os.O_CREAT | os.O_TRUNC),
                              (2, fe, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)):
                n = os.open(str(f), fl, 0o600)
                os.dup2(n, fd)
                os.close(n)
            sys.argv = ["ffp-" + name] + argv
            try:
                main()
            except SystemExit as x:
                st = x.code if isinstance(x.code, int) else (0 if x.code is None else 1)
            except BaseException as x:
                print("%s: %s" % (type(x).__name__, x), file=sys.stderr)
                st = 1
            sys.stdout.flush()
            sys.stderr.flush()
        except BaseException:
            st = st or 120
        os._exit(st & 255)
    _, ws = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(ws), fo.read_bytes(), fe.read_bytes()


def state(f):
    return [-1] if not f.exists() else snap.file_bytes(f)


def clean(w):
    return w and w.strip() == w and not any(c in "\r\n" for c in w)


def single(w):
    return clean(w) and w.split() == [w]


# ---- input files -------------------------------------------------------------

FMTS = ["word2vec", "finalfusion", "fasttext", "text", "textdims"]


def make_input(ctx, f, fmt, p=None, bad=0.0, wild=False):
    """A file in the format fmt; returns the specification's value where it is known exactly."""
    r = ctx.rng
    if fmt == "finalfusion":
        if p is None:
            p, _ = write_case(r)
        snap.mk_embeddings(ctx.ff, p, r).write(str(f))
        return [snap.spec_value(p)], p["vocab"]["words"]
    if fmt == "fasttext":
        m = Ft(r, n=r.randint(1, 4), wild=wild)
        if bad and r.random() < bad:
            m.words = mixed_words(r, len(m.words))
        put(f, m.bytes())
        return [], [w.decode("utf-8", "replace") for w in m.words]
    n, d = r.randint(1, 6), r.choice([1, 2, 3])
    ws = [w.encode() for w in plain_words(r, n)]
    if bad and r.random() < bad:
        ws = mixed_words(r, n)
    mat = gen.nice_matrix(r, n, d)
    if fmt == "word2vec":
        put(f, w2v_bytes(ws, mat, r.random() < 0.5))
    else:
        b = ("%d %d\n" % (n, d)).encode() if fmt == "textdims" else b""
        for w, v in zip(ws, mat):
            b += w + b" " + " ".join(numeral(r, x) for x in v).encode() + b"\n"
        put(f, b)
    return [], [w.decode("utf-8", "replace") for w in ws]


def lib_load(fmt, f, lossy, mmap):
    from finalfusion import load_finalfusion
    from finalfusion.compat import load_word2vec, load_text, load_text_dims, load_fasttext
    if fmt == "finalfusion":
        return load_finalfusion(str(f), mmap)
    return {"word2vec": load_word2vec, "text": load_text, "textdims": load_text_dims,
            "fasttext": load_fasttext}[fmt](str(f), lossy)


def lib_write(fmt, f, e):
    from finalfusion.compat import write_word2vec, write_text, write_text_dims, write_fasttext
    if fmt == "finalfusion":
        return e.write(str(f))
    return {"word2vec": write_word2vec, "text": write_text, "textdims": write_text_dims,
            "fasttext": write_fasttext}[fmt](str(f), e)


def common(r, fmt, default, short, long, often=0.4):
    """Command-line options: format, lossy, mmap."""
    lossy, mmap = r.random() < often, r.random() < 0.3
    a = [] if fmt == default and r.random() < 0.7 else \
        r.choice([["-" + short, fmt], ["--" + long, fmt], ["--%s=%s" % (long, fmt)]])
    if lossy:
        a = a + [r.choice(["-l", "--lossy"])]
    if mmap:
        a = a + ["--mmap"]
    return a, lossy, mmap


def c22(ctx):
    from finalfusion import load_finalfusion
    r = ctx.rng
    inp, out, lib = ctx.tmp / "in.bin", ctx.tmp / "out.bin", ctx.tmp / "lib.bin"
    wl = ctx.tmp / "words.txt"

    def fresh():
        for f in (inp, out, lib):
            if f.exists():
                f.unlink()
        if r.random() < 0.3:
            put(out, r.choice([b"", b"old content", b"FiFu\0\0\0\0" * 40]))

    def convert(frm, to):
        fresh()
        spec, _ = make_input(ctx, inp, frm, bad=0.4, wild=True)
        a, lossy, mmap = common(r, frm, "word2vec", "f", "from")
        b = [] if to == "finalfusion" and r.random() < 0.7 else r.choice([["-t", to], ["--to", to]])
        before = state(out)
        res = run(lambda: lib_write(to, lib, lib_load(frm, inp, lossy, mmap)),
                  lambda _: {"t": "bytes", "v": snap.file_bytes(lib)})
        argv = a + b + [str(inp), str(out)] if r.random() < 0.5 else [str(inp), str(out)] + b + a
        st, _, _ = tool(ctx, "convert", argv)
        if spec and to in ("text", "textdims"):
            s = spec[0]["storage"][0]
            import json
            vals = np.array([x for row in (s["rows"] if s["kind"] == "nd" else sum(s["sub"], [])) for x in row],
                            dtype='<i4').view('<f4')
            if not np.isfinite(vals).all():
                spec = []
        return {"op": "C22", "tool": "convert", "from": frm, "to": to, "status": st, "before": before,
                "after": state(out), "lib": res, "e": spec}

    def explicit(frm):
        fresh()
        p = int_params(r, kinds=("bucket", "fasttext", "bucket", "fasttext", "simple", "explicit"), maxlen=4) \
            if frm == "finalfusion" else None
        spec, _ = make_input(ctx, inp, frm, p, bad=0.5, wild=r.random() < 0.3)
        a, lossy, mmap = common(r, frm, "finalfusion", "f", "from", 0.6)
        before = state(out)
        res = run(lambda: lib_load(frm, inp, lossy, mmap).bucket_to_explicit(), snap.t_snap(snap.snap))
        st, _, _ = tool(ctx, "explicit", a + [str(inp), str(out)])
        got = run(lambda: load_finalfusion(str(out)), snap.t_snap(snap.snap)) if out.exists() and st == 0 else {"t": "none"}
        if spec and (spec[0]["vocab"][0]["kind"] not in ("bucket", "fasttext")):
            spec = []
        return {"op": "C22", "tool": "explicit", "status": st, "before": before, "after": [], "res": got,
                "lib": res, "e": spec}

    def query_words(vocab_words, p, n):
        v = p["vocab"] if p else {"words": vocab_words}
        return [w for w in queries(r, v, n) if clean(w)]

    def t_look(v):
        return {"t": "none"} if v is None else t_vec(v)

    def select(fmt, big=None):
        fresh()
        p = big or (int_params(r, n=r.randint(0, 6)) if fmt == "finalfusion" else None)
        a, lossy, mmap = common(r, fmt, "finalfusion", "f", "format")
        spec, ws = make_input(ctx, inp, fmt, p, bad=0.5 if lossy else 0)
        e = lib_load(fmt, inp, lossy, mmap)
        lines = query_words(ws, p, r.randint(0, 6) if big is None else 40)
        lines += [w for w in ws if clean(w) and r.random() < 0.5]
        if r.random() < 0.3 and lines:
            lines += r.choices(lines, k=2)
        if r.random() < 0.35:
            lines = [w for w in lines if e.embedding(w) is not None]
        r.shuffle(lines)
        ignore = r.random() < 0.5
        opts = [r.choice(["-i", "--ignore_unk"])] if ignore else []
        if r.random() < 0.3:
            opts.append(r.choice(["-v", "--verbose"]))
        text = b"".join(r.choice([b"", b" ", b"\t"]) + w.encode() + r.choice([b"", b" ", b" \t"]) + b"\n" for w in lines)
        if text and r.random() < 0.3:
            text = text[:-1]
        if lossy and r.random() < 0.3:
            bad = bad_word(r)
            if clean(bad.decode("utf-8", "replace")):
                lines.append(bad.decode("utf-8", "replace"))
                text += (b"" if not text or text.endswith(b"\n") else b"\n") + bad + b"\n"
        before = state(out)
        argv = [str(inp), str(out)]
        if r.random() < 0.5:
            put(wl, text)
            argv.append(str(wl))
            st, _, _ = tool(ctx, "select", opts + a + argv if r.random() < 0.5 else argv + opts + a)
        else:
            st, _, _ = tool(ctx, "select", opts + a + argv, text)
        after = state(out)
        res, has = {"t": "none"}, []
        if after != [-1]:
            res = run(lambda: load_finalfusion(str(out)), snap.t_snap(snap.snap))
            if res["t"] == "val":
                m = load_finalfusion(str(out)).metadata
                if m is not None and m.get("source_metadata") is not None:
                    has = [snap.js(dict(m["source_metadata"]))]
        looks = [{"w": cps(w), "r": run(lambda: e.embedding(w), t_look)} for w in dict.fromkeys(lines)]
        return {"op": "C22", "tool": "select", "status": st, "before": before, "after": after, "res": res,
                "lines": [cps(w) for w in lines], "ignore": ignore, "lib": looks, "e": spec, "cols": int(e.dims),
                "had": [] if e.metadata is None else [snap.js(dict(e.metadata))], "has": has}

    def parse(b):
        """Printed lines: word, space, similarity."""
        out = []
        for l in b.decode().split("\n"):
            if not l:
                continue
            w, _, x = l.rpartition(" ")
            try:
                out.append([cps(w), f1(float(x))])
            except ValueError:
                out.append([cps(l), 0x7fc00000])
        return out

    def errs(b):
        return [cps(l) for l in b.decode().split("\n") if l]

    def tiny_params():
        p = int_params(r, n=r.choice([1, 3, 6, 12]), meta=False, tiny=True)
        p["vocab"]["words"] = [w for w in plain_words(r, len(p["vocab"]["words"]))]
        return p

    def ask(name, fmt, big=None):
        fresh()
        p = big or (tiny_params() if fmt == "finalfusion" else None)
        a, lossy, mmap = common(r, fmt, "finalfusion", "f", "format")
        spec, ws = make_input(ctx, inp, fmt, p, bad=0.5 if lossy else 0)
        while any("\n" in w for w in ws):       # such words don't fit on a printed line
            spec, ws = make_input(ctx, inp, fmt, p)
        e = lib_load(fmt, inp, lossy, mmap)
        k = r.choice([0, 1, 2, 3, len(ws), len(ws) + 2, 10])
        if k != 10 or r.random() < 0.5:
            a = a + ["-k", str(k)]
        qs, inc, lines = [], [], []
        if name == "similar":
            for w in query_words(ws, p, 5 if big is None else 40):
                qs.append({"ws": [cps(w)], "lib": run(lambda: e.word_similarity(w, k), t_sims)})
                lines.append(w)
                if r.random() < 0.1:
                    lines.append("")
        else:
            pool = [w for w in ws if single(w)] * 3 + [w for w in query_words(ws, p, 6) if single(w)]
            inc = r.sample(["a", "b", "c"], r.randint(1, 3)) if r.random() < 0.6 else []
            for _ in range((4 if big is None else 30) if pool else 0):
                x, y, z = (r.choice(pool) for _ in range(3))
                skip = {w for w, l in ((x, "a"), (y, "b"), (z, "c")) if l not in inc}
                qs.append({"ws": [cps(x), cps(y), cps(z)], "lib": run(lambda: e.analogy(x, y, z, k, skip), t_sims)})
                lines.append(r.choice([" ", "\t", "  "]).join((x, y, z)))
        text = b"".join(r.choice([b"", b" "]) + l.encode() + r.choice([b"", b" "]) + b"\n" for l in lines)
        argv = [str(inp)]
        stdin = b""
        if r.random() < 0.5:
            put(wl, text)
            argv.append(str(wl))
        else:
            stdin = text
        if inc and len(inc) < 3 and r.random() < 0.3:
            inc = inc + [r.choice(inc)]
        tail = ([r.choice(["-i", "--include"])] + inc) if inc else []
        st, so, se = tool(ctx, name, a + argv + tail, stdin)
        return {"op": "C22", "tool": name, "status": st, "k": k, "q": qs, "lines": parse(so), "errs": errs(se),
                "inc": inc, "e": spec}

    for kind in ctx.mine(["simple", "bucket", "fasttext", "explicit"]):     # many words, many lines
        yield [select("finalfusion", many(r, 300, kind))]
        yield [ask("similar", "finalfusion", many(r, 270, kind))]
        yield [ask("analogy", "finalfusion", many(r, 40, kind))]
    if ctx.shard == ctx.nshards - 1:                                        # long words
        for name in ("select", "similar", "analogy"):
            p = many(r, 6, "simple")
            p["vocab"]["words"] = [r.choice("abcä語") * 2 + "".join(r.choice("abcä語") for _ in range(n))
                                   for n in (1, 300, 1025, 4090, 5000, 9000)]
            yield [select("finalfusion", p) if name == "select" else ask(name, "finalfusion", p)]
    pairs = [(x, y) for x in FMTS for y in FMTS]
    for _ in range(ctx.size(8, 160)):
        for x, y in pairs:
            yield [convert(x, y)]
    for _ in range(ctx.size(80, 1600)):
        yield [explicit("finalfusion"), explicit(r.choice(["finalfusion", "fasttext"]))]
        for name in ("similar", "analogy"):
            yield [ask(name, "finalfusion"), ask(name, r.choice(FMTS))]
        yield [select("finalfusion"), select("finalfusion"), select(r.choice(FMTS))]
