"""
Builds the Cython extensions from /repo's current working tree (outside /repo)
and makes `import finalfusion` use /repo/src together with that fresh build.
"""
import hashlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile

REPO = pathlib.Path(os.environ.get("FF_REPO", "/repo"))
VERIF = pathlib.Path(__file__).resolve().parent.parent
CACHE = VERIF / ".cache"
PYTHON = "/opt/venv/bin/python"
EXTS = ("hash_indexers", "ngrams", "explicit_indexer")
SUB = "src/finalfusion/subword"


def _inputs():
    gen = {REPO / SUB / (e + ".c") for e in EXTS}
    files = [p for p in sorted((REPO / "src").rglob("*"))
             if p.suffix in (".pyx", ".pxd", ".pxi", ".c", ".h") and p.is_file()
             and p not in gen]
    files += [REPO / n for n in ("setup.py", "setup.cfg", "pyproject.toml")
              if (REPO / n).exists()]
    return files


def ext_dir():
    """Directory with freshly built extensions for the current sources."""
    files = _inputs()
    h = hashlib.sha256()
    for p in files:
        h.update(str(p.relative_to(REPO)).encode())
        h.update(b"\0")
        h.update(p.read_bytes())
        h.update(b"\0")
    out = CACHE / ("ext-" + h.hexdigest()[:20])
    if (out / "ok").exists():
        os.utime(out)
        return out
    CACHE.mkdir(exist_ok=True)
    work = pathlib.Path(tempfile.mkdtemp(prefix="ffbuild."))
    try:
        for p in files:
            q = work / p.relative_to(REPO)
            q.parent.mkdir(parents=True, exist_ok=True)
            shutil.copy2(p, q)
        for p in (REPO / "src").rglob("*.py"):
            q = work / p.relative_to(REPO)
            q.parent.mkdir(parents=True, exist_ok=True)
            shutil.copy2(p, q)
        for n in ("README.md", "MANIFEST.in"):
            if (REPO / n).exists():
                shutil.copy2(REPO / n, work / n)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8",
                   PATH="/opt/venv/bin:/usr/local/bin:/usr/bin:/bin")
        r = subprocess.run([PYTHON, "setup.py", "build_ext", "-j", "3",
                            "--build-lib", str(work / "out")],
                           cwd=work, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=600)
        if r.returncode:
            sys.stderr.write(r.stdout.decode("utf8", "replace")[-4000:])
            raise SystemExit(2)
        tmp = pathlib.Path(tempfile.mkdtemp(prefix="ext.", dir=CACHE))
        for so in (work / "out").rglob("*.so"):
            shutil.copy2(so, tmp / so.name)
        (tmp / "ok").write_text("ok")
        try:
            tmp.rename(out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    # keep the cache small
    old = sorted(CACHE.glob("ext-*"), key=lambda p: p.stat().st_mtime)[:-12]
    for p in old:
        if p != out:
            shutil.rmtree(p, ignore_errors=True)
    return out


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, d):
        self.map = {}
        for so in pathlib.Path(d).glob("*.so"):
            self.map["finalfusion.subword." + so.name.split(".")[0]] = str(so)

    def find_spec(self, name, path=None, target=None):
        so = self.map.get(name)
        if so is None:
            return None
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        return importlib.util.spec_from_file_location(name, so, loader=loader)


def install(d):
    """Route the package to /repo/src and the extensions to directory d."""
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, _Finder(d))
    sys.path.insert(0, str(REPO / "src"))
    import finalfusion
    assert finalfusion.__file__.startswith(str(REPO / "src")), finalfusion.__file__
    import finalfusion.subword.hash_indexers as hi
    assert hi.__file__.startswith(str(d)), hi.__file__
    return finalfusion
