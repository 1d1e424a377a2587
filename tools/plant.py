#!/usr/bin/env python3
"""Development helper: makes /verif/seeded/<id>/ from an edit of the source and confirms it.

    plant.py SPEC.py        SPEC defines ID, PROP, EDITS=[(file, old, new)], DEMO (python text), NEEDS, BREAKS

Confirms in a scratch copy: demo passes without, fails with the change; the stable Python
tests pass with it; then says whether the property's check catches it.
"""
import json, os, runpy, shutil, subprocess, sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
IGN = """test/parity/test_parity.py test/rh_neutrino test/spectra test/vector_mediator test/test_core_boost.py
test/test_core_dispatch.py test/test_core_interp.py test/test_core_neutrino.py test/test_core_photon_muon.py
test/test_core_photon_pion.py test/test_core_photon_rho.py test/test_core_photon_tables.py test/test_core_positron_muon.py
test/test_core_positron_pion.py test/test_core_quad.py test/test_core_scalar_xs.py test/test_core_special.py
test/test_core_vector_xs.py test/test_theory_aggregation.py""".split()
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
exec timeout 280 /opt/venv/bin/python -B "$(dirname "$(readlink -f "$0")")/demo.py"
'''

def plant(spec):
    s = runpy.run_path(spec)
    scratch = Path("/tmp/plant") / s["ID"]
    shutil.rmtree(scratch, ignore_errors=True)
    scratch.parent.mkdir(exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", str(scratch)], check=True)
    out = VERIF / "seeded" / s["ID"]
    out.mkdir(parents=True, exist_ok=True)
    (out / "demo.py").write_text(s["DEMO"].lstrip("\n"))
    (out / "demo.sh").write_text(DEMO_SH)
    (out / "meta.json").write_text(json.dumps({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
    demo = lambda: subprocess.run(["bash", str(out / "demo.sh")], cwd=scratch, capture_output=True, text=True)
    r0 = demo()
    for f, old, new in s["EDITS"]:
        p = scratch / f
        t = p.read_text()
        assert t.count(old) == 1, (f, t.count(old), old)
        p.write_text(t.replace(old, new))
    d = subprocess.run(["git", "diff"], cwd=scratch, capture_output=True, text=True).stdout
    (out / "patch.diff").write_text(d)
    # only lines of the original repository may change
    base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=scratch, capture_output=True, text=True).stdout.split()[0]
    for f, old, new in s["EDITS"]:
        orig = subprocess.run(["git", "show", f"{base}:{f}"], cwd=scratch, capture_output=True, text=True).stdout.splitlines()
    removed = [l[1:] for l in d.splitlines() if l.startswith("-") and not l.startswith("---")]
    notorig = []
    for l in removed:
        if not any(l in subprocess.run(["git", "show", f"{base}:{f}"], cwd=scratch, capture_output=True, text=True).stdout.splitlines() for f, _, _ in s["EDITS"]):
            notorig.append(l)
    r1 = demo()
    t = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300",
                        "--continue-on-collection-errors"] + [f"--ignore={i}" for i in IGN], cwd=scratch, capture_output=True, text=True)
    env = dict(os.environ, VERIF_REPO=str(scratch))
    res = {}
    for prop in [s["PROP"]] + list(sys.argv[2:]):
        c = subprocess.run(["bash", str(VERIF / "run.sh"), prop, "quick"], env=env, capture_output=True, text=True)
        res[prop] = c.returncode
        if c.returncode == 1:
            print("   ", *[l[:230] for l in c.stdout.splitlines() if l.startswith("  ")][:3], sep="\n    ")
        elif c.returncode:
            print(c.stdout[-500:], c.stderr[-1500:])
    m = json.loads((out / "meta.json").read_text())
    m["caught_by"] = ", ".join(k for k, v in res.items() if v == 1) or "none"
    (out / "meta.json").write_text(json.dumps(m, indent=1) + "\n")
    print(f"{s['ID']}: demo clean={r0.returncode} planted={r1.returncode} tests={t.returncode} {t.stdout.strip().splitlines()[-1]} "
          f"not-original={notorig} check={res}")
    if r0.returncode: print(r0.stdout[-800:], r0.stderr[-1500:])
    if not r1.returncode: print("DEMO DID NOT FAIL", r1.stdout[-800:])
    shutil.rmtree(scratch, ignore_errors=True)

plant(sys.argv[1])
