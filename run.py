#!/usr/bin/env python3
"""
run.py Cxx            run the check of one property (VERIF_SEED, VERIF_TIER)
run.py --build        only build the extensions

A check: (1) TLC checks the property on the specification (MCxx), (2) TLC
enumerates bounded-exhaustive cases and behaviours, (3) the driver runs them and
seeded random ones on the code in /repo and records what happens, (4) TLC
validates the recorded behaviours against the specification.
"""
import concurrent.futures as cf
import json
import os
import pathlib
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(VERIF / "harness"))
sys.dont_write_bytecode = True
import ffload  # noqa
from plan import PLAN, SHARDS

SPEC = VERIF / "spec"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CANARY = json.dumps({"h": [{"op": "CANARY"}]}) + "\n"   # a behaviour that validation must report
CORES = os.cpu_count() or 4


class CheckError(Exception):
    pass


def tlc(module, cfg, work, env=None, workers=1, extra=(), mem="4g", timeout=840):
    meta = tempfile.mkdtemp(prefix="meta.", dir=work)
    cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseParallelGC", "-cp", CP, "tlc2.TLC",
           "-metadir", meta, "-noGenerateSpecTE", "-config", str(SPEC / cfg), "-workers", str(workers),
           *extra, str(SPEC / (module + ".tla"))]
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=work, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise CheckError("TLC timed out on %s" % module) from x
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout.decode("utf8", "replace")


def stats(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0]), int(m[-1][1])


def design(mods, tier, work):
    """TLC on the property's design models."""
    res = []
    for m in mods:
        cfg = m + ".cfg"
        if tier == "thorough" and (SPEC / (m + ".thorough.cfg")).exists():
            cfg = m + ".thorough.cfg"
        t0 = time.time()
        rc, out = tlc(m, cfg, work, workers=4, timeout=840 if tier == "quick" else 7200)
        gen, dis = stats(out)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("design model %s fails:\n%s" % (m, out[-3000:]))
        if dis == 0:
            raise CheckError("design model %s explored nothing" % m)
        res.append({"model": m, "config": cfg, "generated": gen, "distinct": dis,
                    "wall_s": round(time.time() - t0, 1)})
        # flawed variants of the design, which the model has to tell apart
        for bad in sorted(x.name for x in SPEC.glob(m + ".flawed*.cfg")):
            t0 = time.time()
            rc, out = tlc(m, bad, work, workers=4, timeout=840)
            gen, dis = stats(out)
            v = re.search(r"Invariant (\w+) is violated|Action property (\w+) is violated", out)
            if v is None:
                raise CheckError("the flawed variant of %s passes:\n%s" % (m, out[-3000:]))
            res.append({"model": m, "config": bad, "generated": gen, "distinct": dis,
                        "refutes": v.group(1) or v.group(2), "wall_s": round(time.time() - t0, 1)})
    return res


def generate(names, work, seed, tier):
    """Cases and behaviours written by TLC."""
    gendir = work / "gen"
    gendir.mkdir()

    def one(n):
        if isinstance(n, dict):                      # simulated behaviours
            depth = n["depth"]
            num = n["num"][tier]
            rc, out = tlc(n["module"], n.get("cfg", n["module"]) + ".cfg", work,
                          workers=1, extra=["-simulate", "num=%d" % num, "-depth", str(depth + 1),
                                            "-seed", str(seed)])
            lines = [json.loads(json.loads(l)) for l in out.splitlines() if l.startswith('"[')]
            if not lines:
                raise CheckError("no behaviours from %s:\n%s" % (n["module"], out[-2000:]))
            with open(gendir / (n["name"] + ".ndjson"), "w") as f:
                for x in lines:
                    f.write(json.dumps(x) + "\n")
            return
        f = gendir / (n + ".ndjson")
        rc, out = tlc("Gen", "Gen.cfg", work, env={"FF_GEN": n, "FF_OUT": str(f), "FF_TIER": tier})
        if rc != 0 or not f.exists():
            raise CheckError("generator %s fails:\n%s" % (n, out[-2000:]))

    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(one, names))
    return gendir


def drive(prop, ext, work, gendir, seed, tier, shards, timeout):
    """Run the driver on the code; returns trace files and abnormal endings."""
    procs, abnormal = [], []
    env = dict(os.environ, LC_ALL="C.UTF-8", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
               PYTHONNOUSERSITE="1")
    env.pop("PYTHONPATH", None)
    for s in range(shards):
        out = work / ("trace.%d.ndjson" % s)
        tmp = work / ("files.%d" % s)
        tmp.mkdir()
        log = open(work / ("driver.%d.log" % s), "wb")
        procs.append((s, out, log, subprocess.Popen(
            [ffload.PYTHON, str(VERIF / "harness" / "drive.py"), prop, "--out", str(out),
             "--ext", str(ext), "--tmp", str(tmp), "--gen", str(gendir), "--tier", tier,
             "--seed", str(seed), "--shard", str(s), "--shards", str(shards)],
            env=env, stdout=log, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
            cwd=str(tmp))))
    end = time.time() + timeout
    files, cut = [], 0
    for s, out, log, p in procs:
        try:
            rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        log.close()
        text = (work / ("driver.%d.log" % s)).read_text(errors="replace")
        if rc == 4:
            raise CheckError("driver failed:\n" + text[-3000:])
        if rc != 0:
            what = {3: "unexpected exception", 5: "the scenario cannot go on", "timeout": "no answer in time"}.get(rc, "process ended with %s" % rc)
            abnormal.append({"what": what, "log": text[-3000:]})
        cut += "CUT SHORT" in text
        if out.exists():
            files.append(out)
    return files, abnormal, cut


def split_trace(files, work, parts):
    """Complete lines of all files, dealt onto `parts` trace files."""
    lines = []
    for f in files:
        with open(f) as inp:
            for l in inp:
                if l.endswith("\n"):
                    lines.append(l)
    return lines


def validate(lines, work, timeout):
    """
    TLC validates the behaviours; several JVMs when the trace is large.
    Returns (generated, distinct, fails) with fails = [(line, event, clauses)].
    """
    if not lines:
        return 0, 0, []
    total = sum(map(len, lines))
    n = 1 if total < 1500000 else min(4, 1 + total // 4000000 + 1)
    # deal by size
    parts = [[] for _ in range(n)]
    sizes = [0] * n
    for k in sorted(range(len(lines)), key=lambda k: -len(lines[k])):
        j = sizes.index(min(sizes))
        parts[j].append(k)
        sizes[j] += len(lines[k])
    for p in parts:
        p.sort()

    def one(j, ids, depth=0):
        f = work / ("v%s.ndjson" % j)
        with open(f, "w") as out:
            out.writelines(lines[k] for k in ids)
            out.write(CANARY)
        rc, out = tlc("FFTrace", "FFTrace.cfg", work, env={"FF_TRACE": str(f)},
                      workers=max(2, CORES // n), mem="6g", timeout=timeout)
        f.unlink()
        gen, dis = stats(out)
        found = [(int(a) - 1, int(b), c) for a, b, c in re.findall(r'^"FAIL (\d+) (\d+) (.*)"$', out, re.M)]
        if len(found) != out.count('"FAIL '):
            raise CheckError("unreadable verdict:\n" + out[-3000:])
        fails = [(ids[a], b, c) for a, b, c in found if a < len(ids)]
        if rc == 0 and len(fails) == len(found):
            raise CheckError("the canary was not reported:\n" + out[-3000:])
        want = sum(len(json.loads(lines[k])["h"]) + 1 for k in ids) + 2
        if rc != 0 or dis != want:
            # an event that the specification cannot even evaluate: find it
            if len(ids) == 1:
                m = re.search(r"Error: .*", out, re.S)
                fails.append((ids[0], 0, "cannot be evaluated: "
                              + (m.group(0) if m else out[-1500:])[:1500].replace("\n", " | ")))
                return gen, dis, fails
            if "OutOfMemory" in out or "StackOverflow" in out:
                raise CheckError("TLC ran out of resources:\n" + out[-2000:])
            if depth > 14:
                raise CheckError("TLC fails:\n" + out[-2000:])
            h = len(ids) // 2
            g1, d1, f1 = one("%s_%d" % (j, 0), ids[:h], depth + 1)
            if f1:                       # one is enough
                return g1, d1, f1
            g2, d2, f2 = one("%s_%d" % (j, 1), ids[h:], depth + 1)
            if not f2:
                raise CheckError("TLC fails on the whole trace only:\n" + out[-3000:])
            return g1 + g2, d1 + d2, f2
        return gen, dis, fails

    with cf.ThreadPoolExecutor(n) as ex:
        rs = list(ex.map(lambda j: one(j, parts[j]), [j for j in range(n) if parts[j]]))
    return sum(r[0] for r in rs), sum(r[1] for r in rs), [f for r in rs for f in r[2]]


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "--build":
        print(ffload.ext_dir())
        return 0
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    plan = PLAN[prop]
    t0 = time.time()
    work = pathlib.Path(tempfile.mkdtemp(prefix="ffcheck-%s." % prop))
    keep = os.environ.get("FF_KEEP")
    try:
        rc = check(prop, plan, seed, tier, work, t0)
    except CheckError as e:
        print("ERROR property=%s %s" % (prop, e))
        rc = 2
    finally:
        if keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    return rc


def check(prop, plan, seed, tier, work, t0):
    limit = 840 if tier == "quick" else 6 * 3600
    times = {}
    with cf.ThreadPoolExecutor(3) as ex:
        d = ex.submit(design, plan["design"], tier, work)
        g = ex.submit(generate, plan.get("gen", []), work, seed, tier)
        ext = ffload.ext_dir()
        gendir = g.result()
        times["prepare"] = round(time.time() - t0, 1)
        shards = SHARDS.get(tier, 4)
        files, abnormal, cut = drive(prop, ext, work, gendir, seed, tier, shards,
                                plan.get("drive_timeout", {}).get(tier, 480 if tier == "quick" else 4 * 3600))
        times["drive"] = round(time.time() - t0, 1)
        lines = split_trace(files, work, 1)
        gen, dis, fails = validate(lines, work, limit)
        times["validate"] = round(time.time() - t0, 1)
        models = d.result()
    nev = 0
    kinds = {}
    nontrivial = set()
    for l in lines:
        for e in json.loads(l)["h"]:
            nev += 1
            k = e["op"] + (":" + e["act"] if "act" in e else "")
            kinds[k] = kinds.get(k, 0) + 1
    samples = [json.loads(lines[k]) for k in
               sorted({0, len(lines) // 2, len(lines) - 1})] if lines else []
    samples = [s if len(json.dumps(s)) < 6000 else {"truncated": json.dumps(s)[:3000]} for s in samples]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": dis + sum(m["distinct"] for m in models),
            "transitions": gen + sum(m["generated"] for m in models),
            "traces_validated_against_impl": len(lines),
            "events_validated": nev,
            "events_by_kind": kinds,
            "trace_states": dis,
            "design_models": models,
            "trace_bytes": sum(map(len, lines)),
            "phases_s": times,
            "drivers_cut_short": cut,
            "samples": samples,
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fails) + len(abnormal),
    }
    (VERIF / "evidence").mkdir(exist_ok=True)
    with open(VERIF / "evidence" / (prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if not lines and not abnormal:
        raise CheckError("no behaviours recorded")
    if fails or abnormal:
        rdir = VERIF / "replays"
        rdir.mkdir(exist_ok=True)
        path = rdir / ("%s-seed%d-%s.json" % (prop, seed, tier))
        rep = {"property": prop, "seed": seed, "tier": tier,
               "command": "VERIF_SEED=%d VERIF_TIER=%s python3 run.py %s" % (seed, tier, prop),
               "abnormal": abnormal,
               "failing": [{"behaviour": json.loads(lines[k]), "event": i, "clauses": c}
                           for k, i, c in sorted(fails)[:5]]}
        with open(path, "w") as f:
            json.dump(rep, f)
        seen = set()
        for k, i, c in sorted(fails):
            c = re.sub(r" #\d+", "", c)
            if c not in seen and len(seen) < 10:
                seen.add(c)
                print("fails: behaviour %d event %d: %s" % (k, i, c[:400]))
        for a in abnormal:
            print("abnormal: %s: %s" % (a["what"], a["log"].strip().splitlines()[-1:] or ""))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("OK property=%s behaviours=%d events=%d states=%d wall=%.1fs %s" %
          (prop, len(lines), nev, ev["coverage"]["states"], time.time() - t0, times))
    return 0


if __name__ == "__main__":
    sys.exit(main())
