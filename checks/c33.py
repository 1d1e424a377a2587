"""The phase resolver: readiness, frontier, blockers and prompt of every small phased project."""
import itertools
import json
import re
import shutil
import subprocess
import sys
from pathlib import Path

from . import _agents

ID = "C33"
PROP = dict(
    title="resolve_phase.py is a sound and conservative readiness oracle",
    statement=(
        "For every phased project, scripts/agents/resolve_phase.py reports 'ready' for a phase only if it is 'Not started' "
        "and each phase its Prerequisites section names has status Complete and a learnings document; prose that names phases "
        "in any other form than 'Phase N complete' is flagged for a manual check and never promoted, unknown phases block. "
        "The eligible frontier is exactly the set of such phases in the order majors < decimal sub-phases < lettered phases. "
        "Without a target it answers ready/choose/blocked for one/several/no candidates, preferring phases that name the "
        "completed phase; with a target it answers for that phase only, and lists every unmet prerequisite. A ready answer "
        "carries a prompt with the paths of the phase file, its working memory (directory named by the file prefix) and every "
        "upstream learnings document, and the requested agent. Phase ids are read in all documented spellings. It exits 0 with "
        "the result, 1 with an error payload (not phased, no phases, unknown or malformed phase), 2 on wrong usage."),
    quantifier=dict(over=["inputs", "configurations"], text="all projects of three phases over statuses, learnings, prerequisite prose and requests; id spellings over a token alphabet"),
    why_tests_cant="There are no tests of the resolver; readiness is a relation between several files.",
    anchors=dict(files=["scripts/agents/resolve_phase.py"],
                 mechanism=[dict(name="resolve_phase, eligible_frontier, prerequisite_blockers", where="scripts/agents/resolve_phase.py"),
                            dict(name="normalize_phase_id, extract_prereq_phase_ids", where="scripts/agents/resolve_phase.py")]),
)
TECHNIQUE = "explicit-state enumeration of small phased projects, each resolved by the real command line and compared with a reference resolver"
LEVEL_NOTE = "All three-phase projects over 4 statuses per phase, learnings present or not, 11 prerequisite proses and 7 requests; formatting variants one at a time; all id spellings of up to four tokens."
RULE = "one case per status vector; non-trivial when answers were compared"

STATUS = ["Complete", "Not started", "In Progress", None]
# (prefix, id) of the three phases; the third has prerequisites among the first two
LAYOUTS = {"majors": [("01", "1"), ("02", "2"), ("10", "10")],
           "sub": [("03", "3"), ("03_1", "3.1"), ("03_10", "3.10")],
           "letter": [("08", "8"), ("08_2", "8.2"), ("08a", "8A")],
           "late": [("2", "2"), ("09b", "9B"), ("11_2", "11.2")]}
# prose -> (recognised ids, machine resolvable); {a} {b} are the ids of the first two phases
PROSE = {
    None: (lambda a, b: [], True),
    "": (lambda a, b: [], True),
    "- nothing in particular.": (lambda a, b: [], True),
    "- Phase {a} complete.": (lambda a, b: [a], True),
    "- phase {b} is complete (see ADR-0002).\n- `../references/x.md`": (lambda a, b: [b], True),
    "- Phase {a} complete.\n- Phase {b}\n  complete": (lambda a, b: [a, b], True),
    "- **Phase {b} Complete**, and Phase {a} is  complete": (lambda a, b: [a, b], True),
    "- Phase {a} complete; see Phase {b}.": (lambda a, b: [a], False),
    "- Phases {a} and {b} complete.": (lambda a, b: [], False),
    "- The output of Phase {b}.": (lambda a, b: [], False),
    "- Phase 77 complete.\n- Phase {a} complete.": (lambda a, b: [a, "77"], True),
}


def key(pid):
    if pid[-1].isalpha():
        return (int(pid[:-1]), 2, 0, pid[-1])
    major, _, minor = pid.partition(".")
    return (int(major), 1, int(minor), "") if minor else (int(major), 0, 0, "")


def phase_text(pid, prefix, status, prose, title="T", quote="", note="", in_front=True):
    front = ["---", f"phase: {prefix}"]
    if in_front:
        front.append(f"title: {title} of {prefix}")
    if status is not None:
        front.append(f"status: {quote}{status}{note}{quote}")
    front += ["---", "", f"# Phase {prefix}: {title} of {prefix}", "", "## Goal", "", "Phase 55 complete is not a prerequisite.", ""]
    if prose is not None:
        front += ["## Prerequisites", "", prose, ""]
    front += ["## Tasks", "", "Phase 66."]
    return "\n".join(front) + "\n"


class Project:
    def __init__(self, root, slug="demo", phased="true", plan=True):
        self.root, self.slug = root, slug
        self.dir = root / "projects" / slug
        for d in ("phases", "learnings"):
            (self.dir / d).mkdir(parents=True, exist_ok=True)
        if plan:
            (self.dir / "PLAN.md").write_text("---\n" + (f"phased: {phased}\n" if phased is not None else "") + "title: x\n---\n")
        (self.dir / "phases" / "_template.md").write_text("---\nstatus: Not started\n---\n")
        (self.dir / "learnings" / "_phase-01-x.md").write_text("")
        self.phases = {}

    def phase(self, pid, prefix, status, prose, ids, resolvable, learnings, **kw):
        f = self.dir / "phases" / f"phase-{prefix}-name.md"
        f.write_text(phase_text(pid, prefix, status, prose, **kw))
        path = self.dir / "learnings" / f"phase-{prefix.lower()}-name.md"
        if learnings:
            path.write_text("x")
        elif path.exists():
            path.unlink()
        self.phases[pid] = dict(prefix=prefix, status=status, ids=sorted(ids, key=key), ok=resolvable, learn=learnings, file=f"projects/{self.slug}/phases/phase-{prefix}-name.md")


def closed(p):
    return p["status"] == "Complete" and p["learn"]


def unmet(phases, pid):
    return [q for q in phases[pid]["ids"] if q not in phases or not closed(phases[q])]


def expected(phases, completed=None, target=None):
    order = sorted(phases, key=key)
    frontier = [p for p in order if phases[p]["status"] == "Not started" and phases[p]["ok"] and not unmet(phases, p)]
    blockers, chosen = [], None
    if target:
        p = phases[target]
        if p["status"] != "Not started" or not p["ok"]:
            return "blocked", frontier, [], [target]
        bad = unmet(phases, target)
        return ("blocked", frontier, [], bad) if bad else ("ready", frontier, [target], [])
    cand = [p for p in frontier if completed in phases[p]["ids"]] if completed else []
    cand = cand or frontier
    if cand:
        return ("ready" if len(cand) == 1 else "choose"), frontier, cand, []
    blockers = [p for p in order if phases[p]["status"] == "Not started"]
    return "blocked", frontier, [], blockers or None


def cases(tier):
    names = list(LAYOUTS) if tier != "quick" else ["majors", "letter"]
    for name in names:
        for s in itertools.product(range(4), repeat=3):
            yield ["project", name, list(s), 5 if tier == "quick" else 11]
    for i in range(4):
        yield ["format", i]
    yield ["errors"]
    for i in range(len(TOK)):
        yield ["ids", i, 4 if tier == "quick" else 5]


def ask(mod, pr, *extra, agent=None):
    argv = ["--project", pr.slug, "--repo-root", str(pr.root), *extra] + (["--agent", agent] if agent else [])
    rc, out, err = _agents.cli(lambda: mod.main(argv), [])
    return rc, out


def p_title(p):
    return f"T of {p['prefix']}"


def compare(T, mod, pr, extra, completed=None, target=None, agent=None, k="", what=""):
    T.step()
    rc, out = ask(mod, pr, *extra, agent=agent)
    where = lambda: f"{what} {' '.join(extra)}: "
    if not T.check(rc == 0, k + "exit", lambda: where() + f"exit {rc}: {out[:300]}"):
        return
    got = json.loads(out)
    ph = pr.phases
    status, frontier, cand, blockers = expected(ph, completed, target)
    T.check(got["status"] == status, k + "status", lambda: where() + f"status {got['status']!r}, expected {status!r} ({got['message']})")
    T.check([f["phase_id"] for f in got["eligible_frontier"]] == frontier, k + "frontier", lambda: where() + f"frontier {[f['phase_id'] for f in got['eligible_frontier']]}, expected {frontier}")
    for f in got["eligible_frontier"]:
        p = ph[f["phase_id"]]
        T.check(f["phase_file"] == p["file"] and f["prerequisites"] == p["ids"] and f["title"] == f"T of {p['prefix']}", k + "summary", lambda: where() + repr(f))
    flagged = {w for p, v in ph.items() if not v["ok"] for w in [p] if any(f"Phase {p} " in n for n in got["notes"])}
    T.check(flagged == {p for p, v in ph.items() if not v["ok"]}, k + "notes", lambda: where() + f"flagged {flagged}: {got['notes']}")
    for f in got["eligible_frontier"] + ([got["phase"]] if got.get("phase") else []):
        named = re.findall(r"Phase ([0-9]+(?:\.[0-9]+|[A-Z])?)(?![\w.]*\w)", f.get("reason", ""))
        T.check(named == ph[f["phase_id"]]["ids"], k + "reason", lambda: where() + f"{f['phase_id']}: {f.get('reason')!r}, expected {ph[f['phase_id']]['ids']}")
    if completed and not target:
        direct = any(completed in ph[p]["ids"] for p in frontier)
        said = any(f"Phase {completed} " in n and "prerequisites are not" not in n for n in got["notes"])
        T.check(said != direct, k + "notes:unlock", lambda: where() + f"{got['notes']}, unlocks {direct}")
    if got["status"] != status:
        return
    T.outcome(status, frontier, cand)
    if status == "ready":
        pid = cand[0]
        p = ph[pid]
        T.check(got["phase"]["phase_id"] == pid, k + "phase", lambda: where() + f"{got['phase']}, expected {pid}")
        text = got["prompt"] or ""
        need = [p["file"], f"projects/{pr.slug}/task-notes/phase-{p['prefix'].lower()}/README.md", f"projects/{pr.slug}/PLAN.md", f"Phase {pid}",
                f"--target-phase {pid}", f"--project {pr.slug}", f"{agent or 'claude'}/{pr.slug}", f"--agent {agent or 'claude'}",
                f"projects/{pr.slug}/task-notes/README.md", f"projects/{pr.slug}/rules.md", p_title(p)]
        need += [f"projects/{pr.slug}/learnings/phase-{ph[q]['prefix'].lower()}-name.md" for q in p["ids"]]
        T.check(all(n in text for n in need), k + "prompt", lambda: where() + f"prompt lacks {[n for n in need if n not in text]}")
        extra_l = [q for q in ph if q not in p["ids"] and f"learnings/phase-{ph[q]['prefix'].lower()}-name.md" in text]
        # every file the prompt names belongs to this project, every phase it names is this one or one of its prerequisites
        odd = [w for w in re.findall(r"`([^`\s]*/[^`\s]*\.md)`", text) if not w.startswith(f"projects/{pr.slug}/")]
        T.check(not odd, k + "prompt:paths", lambda: where() + f"prompt names {odd}")
        odd = [w for w in re.findall(r"\bPhase (\d[\w.]*\w|\d)", text) if w != pid and w not in p_title(p)]
        T.check(not odd, k + "prompt:phases", lambda: where() + f"prompt names phases {odd}")
        T.check(not extra_l, k + "prompt:extra", lambda: where() + f"prompt lists learnings of {extra_l}")
    else:
        T.check(got["prompt"] is None, k + "no-prompt", lambda: where() + repr(got["prompt"]))
        if status == "choose":
            T.check([c["phase_id"] for c in got["choices"]] == cand, k + "choices", lambda: where() + f"choices {[c['phase_id'] for c in got['choices']]}, expected {cand}")
        elif blockers is not None:
            T.check(sorted(b["phase_id"] for b in got["blockers"]) == sorted(blockers), k + "blockers", lambda: where() + f"blockers {[b['phase_id'] for b in got['blockers']]}, expected {blockers}")
            text = {b["phase_id"]: " | ".join(b["issues"]) for b in got["blockers"]}
            for b in blockers:
                about = text.get(b, "")
                if target and ph[target]["status"] != "Not started":
                    ok = ph[target]["file"] in about
                elif target and not ph[target]["ok"]:
                    ok = "manual check" in about
                else:
                    # every closed-out condition that fails is named
                    bad = [b] if target else unmet(ph, b)
                    ok = bool(about)
                    for q in bad:
                        if q not in ph:
                            ok = ok and f"Phase {q}" in about
                            continue
                        ok = ok and ((ph[q]["file"] in about) == (ph[q]["status"] != "Complete" or False))
                        ok = ok and ((f"learnings/phase-{ph[q]['prefix'].lower()}-" in about) == (not ph[q]["learn"]))
                    if not target and not ph[b]["ok"]:
                        ok = ok and "manual check" in about
                T.check(ok, k + "issues", lambda: where() + f"{b}: {about!r}")


def run(spec, T):
    mod = _agents.load("resolve_phase")
    if spec[0] == "ids":
        return ids(spec, T, mod)
    with _agents.scratch() as root:
        if spec[0] == "project":
            _, name, st, nb = spec
            lay = LAYOUTS[name]
            a, b, c = (pid for _, pid in lay)
            st = [STATUS[i] for i in st]
            pr = Project(root)
            proses = list(PROSE)
            for pa, pb in itertools.product([None], [None, proses[3], *([proses[9], proses[7]] if nb == 11 else [])]):
                for pc in proses:
                    for la, lb in itertools.product((True, False), repeat=2):
                        pr.phase(a, lay[0][0], st[0], pa, [], True, la)
                        ids_, ok = PROSE[pb]
                        pr.phase(b, lay[1][0], st[1], pb and pb.format(a=a, b=c), ids_(a, c), ok, lb)
                        ids_, ok = PROSE[pc]
                        pr.phase(c, lay[2][0], st[2], pc if not pc else pc.format(a=a, b=b), ids_(a, b), ok, lb != la)
                        what = f"{name} {st} learnings {la},{lb} prose {pb!r} {pc!r}"
                        compare(T, mod, pr, [], what=what)
                        for pid in (a, b, c):
                            compare(T, mod, pr, ["--target-phase", pid], target=pid, what=what)
                            compare(T, mod, pr, ["--completed-phase", pid], completed=pid, what=what)
                        if nb == 11:
                            compare(T, mod, pr, ["--completed-phase", a, "--target-phase", c], completed=a, target=c, what=what)
        elif spec[0] == "format":
            # spelling of statuses, titles, prefixes and requests, all combinations over a two-phase chain
            quote = ["", '"', "'", ""][spec[1]]
            note = [" (2026-01-02; PR #5)", "", " -- done", ""][spec[1]]
            for s0, s1, note1, front, agent in itertools.product(("Complete", "complete", "COMPLETE", "Not started", "In Progress", "Incomplete"), ("Not started", "not started", "Complete"),
                                                                 ("", note), (True, False), ("claude", "codex")):
                pr = Project(root, slug=f"p-{spec[1]}")
                canon = {"complete": "Complete", "not started": "Not started"}
                pr.phase("3", "03", canon.get(s0.lower(), s0), None, [], True, True, quote=quote, note=note, in_front=front)
                (pr.dir / "phases" / "phase-03-name.md").write_text(phase_text("3", "03", s0, None, quote=quote, note=note, in_front=front))
                pr.phase("3.1", "03_1", canon.get(s1.lower(), s1), "Phase 03 complete", ["3"], True, False, quote=quote, note=note1, in_front=front)
                (pr.dir / "phases" / "phase-03_1-name.md").write_text(phase_text("3.1", "03_1", s1, "Phase 03 complete", quote=quote, note=note1, in_front=front))
                what = f"statuses {s0!r} {s1!r} quotes {quote!r} note {note!r}"
                compare(T, mod, pr, [], agent=agent, what=what, k="format:")
                for spelling in ("3.1", "03_1", "phase-03_1", "Phase 3.1", " 3.01 "):
                    compare(T, mod, pr, ["--target-phase", spelling], target="3.1", agent=agent, what=what, k="format:")
                for spelling in ("3", "phase 03", "PHASE_3"):
                    compare(T, mod, pr, ["--completed-phase", spelling], completed="3", agent=agent, what=what, k="format:")
        else:
            errors(T, mod, root)


def errors(T, mod, root):
    def bad(argv, want_rc, note):
        T.step()
        rc, out, _ = _agents.cli(lambda: mod.main(argv), [])
        ok = rc == want_rc
        if want_rc == 1:
            p = json.loads(out) if out.strip().startswith("{") else {}
            ok = ok and p.get("status") == "error" and p.get("message")
        T.check(ok, "error:" + note, lambda: f"{note}: exit {rc}, {out[:200]!r}")
        T.outcome(note, rc)
    rr = ["--repo-root", str(root)]
    for phased, rc in (("true", 0), ('"true"', 0), ("True", 0), ("false", 1), ("maybe", 1), (None, 1)):
        pr = Project(root, slug=f"flag-{phased}".replace('"', "q"), phased=phased)
        pr.phase("0", "00", "Not started", None, [], True, False)
        bad(["--project", pr.slug, *rr], rc, f"phased: {phased}")
        bad(["--project-dir", str(pr.dir), *rr], rc, f"directory phased: {phased}")
    pr = Project(root, slug="noplan", plan=False)
    pr.phase("0", "00", "Not started", None, [], True, False)
    bad(["--project", "noplan", *rr], 1, "no PLAN.md")
    pr = Project(root, slug="nophases")
    bad(["--project", "nophases", *rr], 1, "no phase files")
    bad(["--project", "absent", *rr], 1, "absent project")
    pr = Project(root, slug="one")
    pr.phase("0", "00", "Not started", None, [], True, False)
    for flag in ("--target-phase", "--completed-phase"):
        for v, rc in (("0", 0), ("00", 0), ("phase-0", 0), ("1", 1), ("x", 1), ("0.0", 1), ("0a", 1), ("phase", 1), ("1.2.3", 1), ("-1", 1)):
            bad(["--project", "one", *rr, flag, v], rc, f"{flag} {v}")
    bad(rr, 2, "no project")
    bad(["--project", "one", *rr, "--agent", "other"], 2, "unknown agent")
    bad(["--project", "one", *rr, "--agent", "codex"], 0, "codex")
    for argv, want in ((["--project", "one"], 0), (["--project", "one", "--target-phase", "7"], 1), ([], 2)):
        T.step()
        rc, out, err = _agents.process("resolve_phase", [*argv, *rr], root)
        T.check(rc == want and (want == 2 or (json.loads(out)["status"] == "error") == (want == 1)), "process", lambda: f"{argv}: exit {rc} {out!r} {err!r}")
    # without --repo-root: the checkout the script lies in, from anywhere
    home = root / "home"
    (home / "scripts" / "agents").mkdir(parents=True)
    for f in Path(mod.__file__).parent.glob("*.py"):
        shutil.copy(f, home / "scripts" / "agents")
    inner = Project(home, slug="inner")
    inner.phase("0", "00", "Not started", None, [], True, False)
    for cwd in (root, home, home / "projects"):
        T.step()
        r = subprocess.run([sys.executable, "-B", str(home / "scripts" / "agents" / "resolve_phase.py"), "--project", "inner"],
                           capture_output=True, text=True, cwd=cwd)
        ok = r.returncode == 0 and json.loads(r.stdout)["phase"]["phase_id"] == "0"
        T.check(ok, "default-root", lambda: f"from {cwd}: exit {r.returncode} {r.stdout[:200]!r} {r.stderr[-200:]!r}")
    # the project directory wins over the slug, and gives the slug when there is none
    rc, out, _ = _agents.cli(lambda: mod.main(["--project-dir", str(pr.dir), *rr]), [])
    got = json.loads(out)
    T.check(got["project"] == "one" and got["status"] == "ready", "project-dir", lambda: out[:200])
    # frontmatter phase wins over the prefix for the id, the prefix names the directories
    pr = Project(root, slug="over")
    pr.phase("4", "07", "Not started", None, [], True, False)
    f = pr.dir / "phases" / "phase-07-name.md"
    f.write_text(f.read_text().replace("phase: 07", "phase: 4"))
    compare(T, mod, pr, [], k="override:", what="frontmatter id")
    f.write_text(f.read_text().replace("phase: 4", "phase: nonsense"))
    pr.phases = {"7": pr.phases["4"]}
    compare(T, mod, pr, [], k="override:", what="malformed frontmatter id")


TOK = ["phase", "-", "_", " ", ".", "0", "3", "12", "a", "B"]


def canonical(s):
    """The documented spellings, by a hand-written scanner; None when it is not one."""
    s = s.strip().lower()
    if s.startswith("phase"):
        s = s[5:].lstrip(" -_\t\n")
    s = s.replace("_", ".").replace(" ", "")
    i = 0
    while i < len(s) and s[i].isdigit():
        i += 1
    if i == 0:
        return None
    major, rest = str(int(s[:i])), s[i:]
    if rest == "":
        return major
    if len(rest) == 1 and "a" <= rest <= "z":
        return major + rest.upper()
    if rest[0] == "." and rest[1:].isdigit():
        return f"{major}.{int(rest[1:])}"
    return None


def ids(spec, T, mod):
    norm, sort_key = getattr(mod, "normalize_phase_id", None), getattr(mod, "phase_sort_key", None)
    if norm is None:
        return
    seen = set()
    for n in range(spec[2]):
        for w in itertools.product(TOK, repeat=n):
            s = TOK[spec[1]] + "".join(w)
            want = canonical(s)
            T.step()
            try:
                got = norm(s)
            except ValueError:
                got = None
            T.check(got == want, "id", lambda: f"{s!r}: {got!r}, expected {want!r}")
            T.outcome(want is None)
            if want:
                seen.add(want)
                T.check(norm(want) == want, "id:stable", f"{want} -> {norm(want)}")
    if sort_key and spec[1] == 0:
        for p in seen:
            T.check(sort_key(p)[:1] == key(p)[:1], "order", p)
        T.check(sorted(seen, key=sort_key) == sorted(seen, key=key), "order", lambda: f"{sorted(seen, key=sort_key)[:20]}")
