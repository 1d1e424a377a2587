"""The explorer's shell: enumerates a finite space of cases on a pool of processes, gathers
what was covered, sorts failures into known findings and violations, writes the evidence.

A check module (``/verif/checks/<id>.py``) defines

    ID, TITLE         the property
    CORE, CYTHON      which extension modules it needs (built from the tree under test)
    RULE              how cases are made and what makes one non-trivial (for the evidence)
    cases(tier)       iterable of JSON-able case specs: the *complete* bounded space
    run(spec, T)      executes one case against the implementation and its reference;
                      reports through the tracer T

Every case is one explored behaviour: an operation history, a configuration, or a point of
an input lattice.  Nothing is sampled.
"""
import argparse
import concurrent.futures as cf
import fnmatch
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
import warnings

from . import env

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
os.environ.setdefault("MPLBACKEND", "Agg")

CASE_LIMIT_S = int(os.environ.get("VERIF_CASE_LIMIT", "150"))


class CaseTimeout(BaseException):
    """Not an Exception: the code under test and the checks do not handle it."""


def _h(obj):
    if not isinstance(obj, (bytes, str)):
        obj = json.dumps(obj, sort_keys=True, default=str)
    if isinstance(obj, str):
        obj = obj.encode()
    return hashlib.blake2b(obj, digest_size=8).digest()


class Tracer:
    """What one case reports."""

    def __init__(self):
        self.transitions = 0
        self.states = set()
        self.outcomes = set()
        self.comparisons = 0
        self.nontrivial = True
        self.failures = {}

    def step(self, n=1):
        """An operation was executed on the implementation."""
        self.transitions += n

    def state(self, *canon):
        """A (canonical) state was reached."""
        self.states.add(_h(canon))

    def outcome(self, *obs):
        self.outcomes.add(_h([_round(o) for o in obs]))

    def fail(self, key, msg):
        self.failures.setdefault(key, str(msg)[:2000])

    def check(self, ok, key, msg=""):
        self.comparisons += 1
        if not ok:
            self.fail(key, msg() if callable(msg) else msg)
        return bool(ok)

    def close(self, got, want, key, rtol=1e-9, atol=0.0, note=""):
        """got and want agree: same shape, same nan/inf pattern, |got-want| <= atol+rtol*|want|."""
        import numpy as np
        self.comparisons += 1
        try:
            g = np.asarray(got, dtype=complex if np.iscomplexobj(got) or np.iscomplexobj(want) else float)
            w = np.asarray(want, dtype=g.dtype)
        except Exception as e:  # not numbers at all
            self.fail(key, f"{note} not comparable: got {got!r}, want {want!r} ({e})")
            return False
        if g.shape != w.shape:
            self.fail(key, f"{note} shape {g.shape}, expected {w.shape}: got {got!r} want {want!r}")
            return False
        with np.errstate(all="ignore"):
            ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True) | (g == w)
        if not np.all(ok):
            i = tuple(np.argwhere(~np.atleast_1d(ok))[0])
            gg, ww = np.atleast_1d(g)[i], np.atleast_1d(w)[i]
            self.fail(key, f"{note} got {gg!r}, expected {ww!r} (index {i}, rtol {rtol}, atol {atol})")
            return False
        return True


def _round(o):
    import numpy as np
    if isinstance(o, (float, np.floating)):
        return f"{o:.6e}"
    if isinstance(o, np.ndarray):
        return [_round(x) for x in o.ravel()[:64]]
    if isinstance(o, dict):
        return {str(k): _round(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [_round(x) for x in o]
    return o


_MOD = None


def _alarm(*_):
    raise CaseTimeout()


def run_case(mod, spec):
    T = Tracer()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import numpy as np
            with np.errstate(all="ignore"):
                mod.run(spec, T)
    except CaseTimeout:
        T.fail(f"no-answer:{_tag(spec)}", f"the case did not finish within {CASE_LIMIT_S} s")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/verif/" not in f.filename]
        f = (where or tb)[-1]
        T.fail(f"exception:{_tag(spec)}:{type(e).__name__}",
               f"{type(e).__name__}: {e} at {f.filename}:{f.lineno}\n" + traceback.format_exc()[-1500:])
    finally:
        signal.alarm(0)
    if not T.states:
        T.state(spec)
    return T


def _tag(spec):
    if isinstance(spec, dict):
        return str(spec.get("k", "case"))
    if isinstance(spec, (list, tuple)) and spec:
        return str(spec[0])
    return "case"


def _work(chunk):
    out = []
    for i, spec in chunk:
        T = run_case(_MOD, spec)
        out.append((i, T.transitions, T.states, T.outcomes, T.comparisons, T.nontrivial, T.failures))
    return out


def load_known(prop):
    """Known findings of this property: [(key pattern, text)] from /verif/known_findings.txt.

    A line is ``finding: property=<id> key=<pattern> <what fails>``; lines starting with
    ``fixed:`` record repairs and suppress nothing.
    """
    res = []
    p = env.VERIF / "known_findings.txt"
    if p.exists():
        for line in p.read_text().splitlines():
            if line.startswith("finding:"):
                parts = line.split(None, 3)
                if parts[1] == f"property={prop}" and parts[2].startswith("key="):
                    res.append((parts[2][4:], parts[3] if len(parts) > 3 else ""))
    return res


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "8")))
    ap.add_argument("--only", help="substring filter on the spec (development)")
    a = ap.parse_args(argv)
    global _MOD
    t0 = time.time()
    sys.path.insert(0, str(env.VERIF))
    mod = importlib.import_module(f"checks.{a.id.lower()}")
    try:
        env.setup(core=getattr(mod, "CORE", False), cython=getattr(mod, "CYTHON", False))
    except env.BuildError as e:
        print(f"ERROR property={mod.ID}: {e}", file=sys.stderr)
        return 2
    _MOD = mod
    if hasattr(mod, "prepare"):
        mod.prepare(a.tier)

    if a.replay:
        d = json.load(open(a.replay))
        T = run_case(mod, d["spec"])
        for k, m in T.failures.items():
            print(f"{k}: {m}")
        hit = d["key"] in T.failures
        print("reproduced" if hit else "not reproduced")
        return 1 if T.failures else 0

    if a.tier != "quick" and "VERIF_CASE_LIMIT" not in os.environ:
        global CASE_LIMIT_S
        CASE_LIMIT_S = 600
    specs = list(mod.cases(a.tier))
    if a.only:
        specs = [s for s in specs if a.only in json.dumps(s)]
    keys = [_h(s) for s in specs]
    distinct = len(set(keys))
    limit = float(os.environ.get("VERIF_DEADLINE", "800" if a.tier == "quick" else "10800"))
    size = getattr(mod, "CHUNK", None) or max(1, min(64, len(specs) // (a.jobs * 8) or 1))
    chunks = [list(enumerate(specs))[i:i + size] for i in range(0, len(specs), size)]
    trans = comps = nontriv = done = 0
    states, outcomes = set(), set()
    fails = {}  # key -> (case index, message)
    capped = False

    def absorb(res):
        nonlocal trans, comps, nontriv, done
        for i, tr, st, oc, cp, nt, fl in res:
            done += 1
            trans += tr
            comps += cp
            nontriv += bool(nt and cp)
            states.update(st)
            outcomes.update(oc)
            for k, m in fl.items():
                if k not in fails or i < fails[k][0]:
                    fails[k] = (i, m)

    if a.jobs <= 1:
        for c in chunks:
            absorb(_work(c))
    else:
        ctx = mp.get_context("fork")
        ex = cf.ProcessPoolExecutor(a.jobs, mp_context=ctx)
        futs = {ex.submit(_work, c): c for c in chunks}
        try:
            for f in cf.as_completed(futs, timeout=max(1.0, limit - (time.time() - t0))):
                absorb(f.result())
                if fails and os.environ.get("VERIF_FAILFAST"):  # development: is there any alarm?
                    for p in list(ex._processes.values()):
                        p.kill()
                    print("alarm", *list(fails.items())[:1])
                    os._exit(1)
            ex.shutdown()
        except cf.TimeoutError:
            capped = True
            for p in list(ex._processes.values()):
                p.kill()
            ex.shutdown(wait=False, cancel_futures=True)
        except cf.process.BrokenProcessPool:
            # the implementation brought a worker down: find the case, one process each
            ex.shutdown(wait=False, cancel_futures=True)
            for f, c in futs.items():
                if f.done() and not f.exception():
                    continue
                for i, spec in c:
                    q = ctx.Process(target=run_case, args=(mod, spec))
                    q.start()
                    q.join(CASE_LIMIT_S + 10)
                    if q.exitcode is None:
                        q.kill()
                    elif q.exitcode < 0:
                        fails.setdefault(f"crash:{_tag(spec)}", (i, f"process died with signal {-q.exitcode}"))
                    if time.time() - t0 > limit:
                        capped = True
                        break
    known = load_known(mod.ID)
    seen_known, viol = {}, []
    for k, (i, m) in sorted(fails.items(), key=lambda kv: kv[1][0]):
        hit = next((p for p, _ in known if fnmatch.fnmatchcase(k, p)), None)
        if hit is not None:
            seen_known.setdefault(hit, (k, m))
        else:
            viol.append((k, i, m))
    for p, text in known:
        state = "" if p in seen_known else " (not reached in this run)"
        print(f"KNOWN-FINDING: property={mod.ID} key={p} {text}{state}")
    rdir = env.VERIF / "replay" / mod.ID
    for k, i, m in viol[:20]:
        rdir.mkdir(parents=True, exist_ok=True)
        path = rdir / (hashlib.sha1(k.encode()).hexdigest()[:12] + ".json")
        path.write_text(json.dumps({"property": mod.ID, "key": k, "spec": specs[i], "message": m}, indent=1))
        print(f"VIOLATION property={mod.ID} replay={path}")
        print(f"  {k}: {m}"[:700])
    if len(viol) > 20:
        print(f"  ... and {len(viol) - 20} further violated sites")
    wall = time.time() - t0
    step = max(1, len(specs) // 6)
    ev = {
        "property": mod.ID,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": int(os.environ.get("VERIF_SEED", "1")),
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": len(states),
            "transitions": trans,
            "traces_validated_against_impl": done,
            "evaluations": comps,
            "distinct_nontrivial": min(distinct, nontriv),
            "distinct_outcomes": len(outcomes),
            "rule": mod.RULE,
            "samples": specs[::step][:8],
            "exhaustive": not capped and not a.only,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    if capped:
        ev["coverage"]["capped_at_case"] = f"{done} of {len(specs)}"
    edir = env.VERIF / "evidence"
    edir.mkdir(exist_ok=True)
    (edir / f"{mod.ID}.json").write_text(json.dumps(ev, indent=1, default=str))
    print(f"{mod.ID}: {done}/{len(specs)} cases, {len(states)} states, {trans} transitions, "
          f"{comps} comparisons, {len(outcomes)} distinct outcomes, {len(viol)} violations, "
          f"{len(seen_known)} known findings, {wall:.1f} s" + (" CAPPED" if capped else ""))
    if done == 0:
        return 2
    return 1 if viol else 0
