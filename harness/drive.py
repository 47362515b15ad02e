"""Runs one property's driver and writes the recorded behaviours."""
import argparse
import errno
import importlib
import json
import os
import pathlib
import sys
import time
import traceback

sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent))
import ffload  # noqa
import gen  # noqa
import plan  # noqa

DRIVERS = {
    "C01": ("drivers.format", "c01"),
    "C02": ("drivers.format", "c02"),
    "C03": ("drivers.format", "c03"),
    "C04": ("drivers.format", "c04"),
    "C05": ("drivers.format", "c05"),
    "C06": ("drivers.subword", "c06"),
    "C07": ("drivers.subword", "c07"),
    "C08": ("drivers.subword", "c08"),
    "C09": ("drivers.subword", "c09"),
    "C10": ("drivers.embed", "c10"),
    "C11": ("drivers.session", "c11"),
    "C12": ("drivers.session", "c12"),
    "C13": ("drivers.embed", "c13"),
    "C14": ("drivers.embed", "c14"),
    "C15": ("drivers.storage", "c15"),
    "C16": ("drivers.storage", "c16"),
    "C17": ("drivers.embed", "c17"),
    "C18": ("drivers.compat", "c18"),
    "C19": ("drivers.compat", "c19"),
    "C20": ("drivers.compat", "c20"),
    "C21": ("drivers.compat", "c21"),
    "C22": ("drivers.cli", "c22"),
    "C23": ("drivers.files", "c23"),
    "C24": ("drivers.files", "c24"),
    "C25": ("drivers.session", "c25"),
    "C26": ("drivers.copies", "c26"),
    "C27": ("drivers.closing", "c27"),
}


# no new cases after so many seconds, on a machine (or of code) that is slow
SOFT = {"quick": 200, "thorough": 9000}


class Ctx:
    def __init__(self, a, ff):
        self.prop, self.tier, self.seed = a.prop, a.tier, a.seed
        self.ff = ff
        self.rng = gen.rng_for(a.seed, a.prop, a.shard)
        self.tmp = pathlib.Path(a.tmp)
        self.gendir = pathlib.Path(a.gen)
        self.shard, self.nshards = a.shard, a.shards

    def size(self, quick, thorough):
        """How many random cases this shard runs."""
        n = quick * plan.SCALE[self.prop] if self.tier == "quick" else thorough
        return max(1, n // self.nshards)

    def generated(self, name):
        """Cases enumerated by the specification, this shard's part."""
        with open(self.gendir / (name + ".ndjson")) as f:
            for k, line in enumerate(f):
                if k % self.nshards == self.shard:
                    yield json.loads(line)

    def mine(self, seq):
        """This shard's part of a fixed list of cases."""
        return [x for k, x in enumerate(seq) if k % self.nshards == self.shard]


def main():
    p = argparse.ArgumentParser()
    p.add_argument("prop")
    for n in ("out", "ext", "tmp", "gen", "tier"):
        p.add_argument("--" + n)
    for n in ("seed", "shard", "shards"):
        p.add_argument("--" + n, type=int)
    a = p.parse_args()
    import warnings
    warnings.simplefilter("ignore")
    ff = ffload.install(a.ext)
    mod, fn = DRIVERS[a.prop]
    drv = getattr(importlib.import_module(mod), fn)
    ctx = Ctx(a, ff)
    t0 = time.monotonic()
    with open(a.out, "w") as out:
        try:
            from drivers.big import big
            for cases, end in ((drv(ctx), SOFT[a.tier]), (big(ctx, a.prop), 1.25 * SOFT[a.tier])):
                for h in cases:
                    out.write(json.dumps({"h": h}))
                    out.write("\n")
                    out.flush()
                    if time.monotonic() - t0 > end:
                        print("CUT SHORT after %d s" % end, flush=True)
                        break
        except Exception as x:
            tb = traceback.format_exc()
            sys.stderr.write(tb)
            frames = traceback.extract_tb(sys.exc_info()[2])
            own = [f for f in frames if "/src/finalfusion/" in f.filename
                   or f.filename.endswith(".pyx")]
            if own:
                sys.exit(3)
            env = isinstance(x, (MemoryError, ImportError)) or isinstance(x, OSError) and \
                x.errno in (errno.ENOSPC, errno.EMFILE, errno.EDQUOT, errno.EIO, errno.EROFS, errno.EACCES)
            # otherwise: the code gave the scenario something it cannot go on with
            sys.exit(4 if env else 5)


if __name__ == "__main__":
    main()
