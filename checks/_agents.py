"""Loading the agent scripts of the tree under test, and scratch projects for them."""
import contextlib
import importlib.util
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile
from pathlib import Path

from vf import env

_MODS = {}


def load(name, root=None):
    """The script as a module; with ``root`` a copy of it under that directory, so that it takes that for its checkout."""
    key = (name, str(root))
    if key not in _MODS:
        src = Path(env.REPO) / "scripts" / "agents" / f"{name}.py"
        if root is not None:
            dst = Path(root) / "scripts" / "agents" / f"{name}.py"
            dst.parent.mkdir(parents=True, exist_ok=True)
            shutil.copy(src, dst)
            src = dst
        spec = importlib.util.spec_from_file_location(f"vf_{name}_{len(_MODS)}", src)
        mod = importlib.util.module_from_spec(spec)
        sys.modules[spec.name] = mod
        old, sys.dont_write_bytecode = sys.dont_write_bytecode, True
        try:
            spec.loader.exec_module(mod)
        finally:
            sys.dont_write_bytecode = old
        _MODS[key] = mod
    return _MODS[key]


def cli(fn, argv, stdin=""):
    """Runs a script's main in-process: (exit code, stdout, stderr)."""
    out, err = io.StringIO(), io.StringIO()
    old_argv, old_in = sys.argv, sys.stdin
    sys.argv, sys.stdin = ["script", *argv], io.StringIO(stdin)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                rc = fn()
            except SystemExit as e:
                rc = e.code
    finally:
        sys.argv, sys.stdin = old_argv, old_in
    return (0 if rc is None else rc), out.getvalue(), err.getvalue()


def process(name, argv, cwd, stdin="", root=None):
    """Runs a script as its users do: (exit code, stdout, stderr)."""
    src = Path(root or env.REPO) / "scripts" / "agents" / f"{name}.py"
    keep = {k: v for k, v in os.environ.items() if not k.startswith("GIT_")}
    keep.update(GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", PYTHONIOENCODING="utf-8")
    r = subprocess.run([sys.executable, "-B", str(src), *argv], cwd=cwd, env=keep, input=stdin, capture_output=True, text=True, timeout=120)
    return r.returncode, r.stdout, r.stderr


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vf-agents-")
    try:
        yield Path(d).resolve()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def parse(out):
    return json.loads(out)
