"""Builds what /repo's current tree needs to be imported, outside /repo, and imports it.

* ``hazma._core`` (Rust): the unmodified crate compiled with plain rustc against the
  stand-ins for pyo3/numpy/spec_math in /verif/shim (the real crates are not available
  offline).
* the Cython extensions: compiled from a scratch copy of the .pyx/.pxd files.

Both land in a cache keyed by the sha256 of every input, so that what is imported is always
built from the tree under test.  Nothing is written in /repo.
"""
import fcntl
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo")).resolve()
CACHE = Path(os.environ.get("VERIF_CACHE", VERIF / ".build"))
PYTHON = "/opt/venv/bin/python"


class BuildError(Exception):
    pass


def _digest(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(str(f).encode() + b"\0" + Path(f).read_bytes() + b"\0")
    return h.hexdigest()[:24]


class _Lock:
    def __init__(self, name):
        CACHE.mkdir(parents=True, exist_ok=True)
        self.path = CACHE / f"{name}.lock"

    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *_):
        self.f.close()


def _prune(prefix, keep=6):
    olds = sorted(CACHE.glob(prefix + "-*"), key=lambda p: p.stat().st_mtime)
    for p in [p for p in olds if p.is_dir()][:-keep]:
        shutil.rmtree(p, ignore_errors=True)


def _rust_files(root):
    rs = [p for p in (root / "rust").rglob("*") if p.is_file() and "target" not in p.parts]
    return [p for p in rs if p.suffix in (".rs", ".toml", ".csv", ".txt", ".bin", ".dat")]


def build_core():
    """Path of the compiled hazma._core for the tree under test."""
    srcs = _rust_files(REPO)
    shim = [p for p in (VERIF / "shim").iterdir() if p.is_file()]
    # paths enter the digest relative to the tree, contents in full; include_str! data too
    extra = [p for p in (REPO / "hazma").rglob("*.csv") if "spectra" in p.parts]
    key = _digest(srcs + shim + extra)
    with _Lock("core"):
        out = CACHE / f"core-{key}"
        so = out / "_core.so"
        if not so.exists():
            tmp = CACHE / f"core-{key}.tmp{os.getpid()}"
            shutil.rmtree(tmp, ignore_errors=True)
            tmp.mkdir(parents=True)
            env = dict(os.environ)
            r = subprocess.run(
                ["bash", str(VERIF / "shim/build.sh"), str(tmp), str(REPO)],
                capture_output=True, text=True, env=env,
            )
            if r.returncode or not (tmp / "_core.so").exists():
                shutil.rmtree(tmp, ignore_errors=True)
                raise BuildError("core build failed:\n" + (r.stdout + r.stderr)[-6000:])
            for p in tmp.iterdir():
                if p.name != "_core.so":
                    p.unlink()
            shutil.rmtree(out, ignore_errors=True)
            tmp.rename(out)
            _prune("core")
    return so


_CY_DRIVER = r"""
import sys, os, numpy
from setuptools import Extension, setup
from Cython.Build import cythonize
exts = []
for line in open("modules.txt"):
    path = line.strip()
    exts.append(Extension(path[:-4].replace("/", "."), [path], include_dirs=[numpy.get_include()],
                          extra_compile_args=["-O1", "-w"]))
setup(name="x", ext_modules=cythonize(exts, nthreads=0, quiet=True),
      script_args=["build_ext", "--inplace", "-j8"])
"""


def build_cython():
    """{module name: path} of the Cython extensions of the tree under test."""
    pyx = sorted(p for p in (REPO / "hazma").rglob("*.pyx"))
    pxd = sorted(p for p in (REPO / "hazma").rglob("*.px[di]"))
    key = _digest(pyx + pxd)
    out = CACHE / f"cy-{key}"
    with _Lock("cy"):
        if not (out / "done").exists():
            shutil.rmtree(out, ignore_errors=True)
            out.mkdir(parents=True)
            dirs = set()
            for p in pyx + pxd:
                rel = p.relative_to(REPO)
                (out / rel).parent.mkdir(parents=True, exist_ok=True)
                shutil.copyfile(p, out / rel)
                d = rel.parent
                while str(d) != ".":
                    dirs.add(d)
                    d = d.parent
            for d in dirs:
                (out / d / "__init__.py").touch()
            (out / "modules.txt").write_text(
                "\n".join(str(p.relative_to(REPO)) for p in pyx) + "\n")
            (out / "driver.py").write_text(_CY_DRIVER)
            r = subprocess.run([PYTHON, "-B", "driver.py"], cwd=out, capture_output=True, text=True)
            if r.returncode:
                raise BuildError("cython build failed:\n" + (r.stdout + r.stderr)[-6000:])
            shutil.rmtree(out / "build", ignore_errors=True)
            for p in list(out.rglob("*.c")):
                p.unlink()
            (out / "done").touch()
            _prune("cy")
    res = {}
    for p in out.rglob("*.so"):
        rel = p.relative_to(out)
        res[".".join(rel.parts[:-1] + (rel.name.split(".")[0],))] = str(p)
    return res


class _Finder:
    def __init__(self, table):
        self.table = table

    def find_spec(self, name, path=None, target=None):
        p = self.table.get(name)
        if p:
            return importlib.util.spec_from_file_location(
                name, p, loader=importlib.machinery.ExtensionFileLoader(name, p))
        return None


_done = set()


def setup(core=False, cython=False):
    """Make ``import hazma`` resolve to the tree under test (with its extensions)."""
    sys.dont_write_bytecode = True
    if sys.path[0] != str(REPO):
        sys.path.insert(0, str(REPO))
    if core and "core" not in _done:
        sys.meta_path.insert(0, _Finder({"hazma._core": str(build_core())}))
        _done.add("core")
    if cython and "cython" not in _done:
        sys.meta_path.insert(0, _Finder(build_cython()))
        _done.add("cython")
    import hazma
    got = Path(hazma.__file__).resolve().parent.parent
    if got != REPO:
        raise BuildError(f"hazma imported from {got}, not from {REPO}")
