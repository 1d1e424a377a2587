#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the check modules (checks/cNN.py)."""
import importlib
import json
import sys
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE))
sys.dont_write_bytecode = True
NOT_APPLICABLE = [
]
props, checks = [], []
for p in sorted((HERE / "checks").glob("c[0-9]*.py")):
    m = importlib.import_module("checks." + p.stem)
    props.append(dict(id=m.ID, **m.PROP))
    checks.append(dict(
        property=m.ID,
        quick_cmd=f"bash run.sh {m.ID} quick",
        thorough_cmd=f"bash run.sh {m.ID} thorough",
        technique=m.TECHNIQUE,
        level=getattr(m, "LEVEL", "model_checking"),
        level_note=m.LEVEL_NOTE,
    ))
(HERE / "properties.jsonl").write_text("".join(json.dumps(p) + "\n" for p in props + [n["prop"] for n in NOT_APPLICABLE]))
(HERE / "MANIFEST.json").write_text(json.dumps(dict(
    version=1, setup_cmd="bash setup.sh", checks=checks,
    not_applicable=[dict(property=n["prop"]["id"], reason=n["reason"]) for n in NOT_APPLICABLE]), indent=1) + "\n")
def design():
    d = (HERE / "DESIGN.md").read_text()
    mark = "<!-- generated by gen.py from here on -->"
    out = [d.split(mark)[0] + mark, "", "## Properties", ""]
    known = (HERE / "known_findings.txt").read_text().splitlines()
    for p in sorted((HERE / "checks").glob("c[0-9]*.py")):
        m = importlib.import_module("checks." + p.stem)
        needs = ", ".join(n for n, a in (("hazma._core", "CORE"), ("the Cython extensions", "CYTHON")) if getattr(m, a, False))
        out += [f"### {m.ID} {m.PROP['title']}", "", f"*Decided by* {m.TECHNIQUE}.", "", m.LEVEL_NOTE, "",
                f"*Why not a test:* {m.PROP['why_tests_cant']}"]
        out += ["", f"*Cases:* {m.RULE}." + (f" Builds {needs} from the tree under test." if needs else "")]
        if getattr(m, "ASSUMPTIONS", None):
            out += ["", "*Assumes:* " + "; ".join(m.ASSUMPTIONS) + "."]
        k = [l for l in known if f"property={m.ID} " in l and not l.startswith("#")]
        if k:
            out += ["", "*Defects met:*", ""] + ["* " + l for l in k]
        out += [""]
    if NOT_APPLICABLE:
        out += ["## Not decided", ""] + [f"* {n['prop']['id']} {n['prop']['title']}: {n['reason']}" for n in NOT_APPLICABLE] + [""]
    out += ["## Planted bugs", "", "| bug | property | needs | caught by |", "|---|---|---|---|"]
    for f in sorted((HERE / "seeded").glob("*/meta.json")):
        j = json.loads(f.read_text())
        out.append(f"| {f.parent.name} | {j['property']} | {j['needs']} | {j.get('caught_by', '?')} |")
    (HERE / "DESIGN.md").write_text("\n".join(out) + "\n")


design()
import jsonschema
S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for q in props:
    jsonschema.validate(q, S)
jsonschema.validate(json.load(open(HERE / "MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(props), "properties")
