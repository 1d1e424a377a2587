"""The task resolver: next task, requested task and current phase of every small project."""
import itertools
import json

from . import _agents

ID = "C34"
PROP = dict(
    title="resolve_task.py picks the lowest unfinished task and never skips a blocker",
    statement=(
        "For every project, scripts/agents/resolve_task.py without --task reports the lowest-numbered task (numeric parts, "
        "then letter suffix, whatever the row order) whose Status does not start with Complete, Superseded, Dropped or "
        "Skipped, however decorated or annotated; a Blocked one is reported as blocked, never skipped; with none left it says "
        "done. With --task it reports exactly the row with that full id (3 and 3a are distinct). In a phased project the table "
        "is that of the first phase (majors < decimal sub-phases < lettered) whose status is not Complete; with all phases "
        "Complete the project is done. The slug is the task note's file name, or task-<id>-<title in kebab case>. One line of "
        "JSON with the documented keys; exit 0 for ready or done, 1 for blocked or errors, 2 for wrong usage."),
    quantifier=dict(over=["inputs", "configurations"], text="all tables of up to three rows over ids and status spellings in any order; all phase status vectors; every request"),
    why_tests_cant="There are no tests of the resolver beyond its self-test of one table.",
    anchors=dict(files=["scripts/agents/resolve_task.py"],
                 mechanism=[dict(name="find_tasks_table, Task, emit, main", where="scripts/agents/resolve_task.py"),
                            dict(name="resolve_phase, phase_status", where="scripts/agents/resolve_task.py")]),
)
TECHNIQUE = "explicit-state enumeration of small task tables and phased projects, each resolved by the real command line and compared with a reference resolver"
LEVEL_NOTE = "All ordered tables of up to three distinct ids out of seven with four status classes, 20 status spellings, table layouts one at a time, all status vectors of four phases; every id requested."
RULE = "one case per id tuple or layout; non-trivial when answers were compared"

IDS = ["1", "2", "10", "3", "3a", "2.4", "2.10"]
DEEP = ["1.2", "1.2.1", "1.2.9", "1.2.10", "1.2.9b", "1.10", "1.2.1.3", "11", "1b", "1c"]
CLASS = {"Not started": "open", "In Progress": "open", "Blocked": "blocked", "Complete": "done"}
SPELL = {"Not started": "open", "In Progress (PR #3)": "open", "**In Progress** — Complete soon": "open", "": "open", "Incomplete": "open", "Ready": "open", "`Not started`": "open",
         "(Complete)": "open", "Blocked": "blocked", "**Blocked** (waiting on ADR-0002)": "blocked", "blocked; see note": "blocked", "BLOCKED": "blocked",
         "Complete": "done", "**Complete** (2026-06-06; PR #537)": "done", "complete": "done", "Complete; merged": "done", "Superseded by 4": "done", "~~Dropped~~": "done", "Skipped": "done",
         "**Complete (2026-08-06)** — all done; [learnings](x.md)": "done"}
KEYS = {"status", "task_id", "task_title", "task_slug", "phase", "reason"}


def idkey(i):
    digits = i.rstrip("abcdefghijklmnopqrstuvwxyz")
    return [int(x) for x in digits.split(".")], i[len(digits):]


def kebab(t):
    out = "".join(ch if ch in "abcdefghijklmnopqrstuvwxyz0123456789" else " " for ch in t.lower())
    return "-".join(out.split())


class Row:
    def __init__(self, i, title, status, cls, note, slug=None):
        self.id, self.title, self.status, self.cls, self.note = i, title, status, cls, note
        self.slug = slug if slug is not None else f"task-{i}-{kebab(title)}"

    def line(self, order, decorate=lambda s: s):
        cells = {"#": decorate(self.id), "Task": self.title, "Depends on": "—", "Status": self.status, "Task Note": self.note}
        return "| " + " | ".join(cells[c] for c in order) + " |"


ORDER = ["#", "Task", "Depends on", "Status", "Task Note"]


def table(rows, order=ORDER, header=None, decorate=lambda s: s, pre="## Tasks\n\n", post=""):
    head = "| " + " | ".join(header or order) + " |"
    sep = "|" + "|".join(["---", ":--", ":-:", "--:", "---"][:len(order)]) + "|"
    return pre + "\n".join([head, sep, *(r.line(order, decorate) for r in rows)]) + "\n" + post


def cases(tier):
    n = 3 if tier == "quick" else 4
    pool = IDS if tier != "quick" else IDS[:6]
    for t in itertools.permutations(range(len(pool)), 2):
        yield ["tables", list(t), n]
    for i in range(len(DEEP)):
        yield ["deep", i]
    for i in range(len(SPELL)):
        yield ["spelling", i]
    yield ["slugs"]
    yield ["layouts"]
    for a in range(4):
        yield ["phased", a]
    yield ["errors"]


def write(root, slug, text, phase=None):
    d = root / "projects" / slug / "task-notes" / (f"phase-{phase}" if phase else "")
    d.mkdir(parents=True, exist_ok=True)
    (d / "README.md").write_text(text)


def expect(rows, phase, want_id=None):
    if want_id is not None:
        hit = [r for r in rows if r.id == want_id]
        if not hit:
            return "error", None
        r = hit[0]
    else:
        todo = sorted((r for r in rows if r.cls != "done"), key=lambda r: idkey(r.id))
        if not todo:
            return "done", None
        r = todo[0]
    return {"open": "ready", "blocked": "blocked", "done": "done"}[r.cls], r


def compare(T, mod, slug, rows, key, what, phase=None, request=None, want_id=None, done_all=False):
    T.step()
    rc, out, err = _agents.cli(mod.main, ["--project", slug] + (["--task", request] if request is not None else []))
    status, row = expect(rows, phase, want_id) if not done_all else ("done", None)
    where = lambda: f"{what} request {request!r}: "
    lines = out.strip().splitlines()
    if not T.check(len(lines) == 1 and lines[0].startswith("{"), key + ":json", lambda: where() + repr(out[:200])):
        return
    got = json.loads(lines[0])
    T.check(set(got) == KEYS, key + ":keys", lambda: where() + repr(sorted(got)))
    T.check(got["status"] == status, key + ":status", lambda: where() + f"{got}, expected {status}")
    T.check(got["task_id"] == (row.id if row else None), key + ":task", lambda: where() + f"{got}, expected {row and row.id}")
    if row and got["task_id"] == row.id:
        T.check(got["task_title"] == row.title.replace("`", "").replace("~", "").replace("*", ""), key + ":title", lambda: where() + repr(got))
        T.check(got["task_slug"] == row.slug, key + ":slug", lambda: where() + f"{got['task_slug']!r}, expected {row.slug!r}")
    T.check(got["phase"] == phase, key + ":phase", lambda: where() + f"{got['phase']!r}, expected {phase!r}")
    T.check(rc == (0 if status in ("ready", "done") else 1), key + ":exit", lambda: where() + f"exit {rc} for {status}")
    T.check(bool(got["reason"]) and bool(err) == (rc != 0), key + ":reason", lambda: where() + f"{got['reason']!r} {err!r}")
    T.outcome(status, bool(row))


def run(spec, T):
    with _agents.scratch() as root:
        mod = _agents.load("resolve_task", root)
        kind = spec[0]
        if kind == "tables":
            _, head, n = spec
            pool = IDS[:6] if n == 3 else IDS
            for size in range(1, n):
                rest = [t for t in itertools.permutations([i for i in range(len(pool)) if i not in head], size - 1)] if size > 1 else [()]
                for tail in rest:
                    ids = [pool[i] for i in (*head, *tail)]
                    for st in itertools.product(CLASS, repeat=len(ids)):
                        rows = [Row(i, f"Do `{i}` thing", s, CLASS[s], f"`task-{i}-note.md`", f"task-{i}-note") for i, s in zip(ids, st)]
                        write(root, "p", table(rows))
                        compare(T, mod, "p", rows, "table", f"{list(zip(ids, st))}")
                        if st == ("In Progress",) * len(ids) or n == 4 and st[0] == "Complete":
                            for i in IDS:
                                compare(T, mod, "p", rows, "request", f"{list(zip(ids, st))}", request=i, want_id=i)
        elif kind == "deep":
            for a, b in itertools.permutations(DEEP, 2):
                ids = [DEEP[spec[1]], a, b]
                if len(set(ids)) == 3:
                    for st in itertools.product(("Not started", "Complete"), repeat=3):
                        rows = [Row(i, "x", s, CLASS[s], "") for i, s in zip(ids, st)]
                        write(root, "p", table(rows))
                        compare(T, mod, "p", rows, "deep", f"{list(zip(ids, st))}")
                    for i in DEEP:
                        compare(T, mod, "p", rows, "deep:request", f"{ids}", request=i, want_id=i)
        elif kind == "spelling":
            s, cls = list(SPELL.items())[spec[1]]
            for s2, cls2 in SPELL.items():
                for ids in (("1", "2"), ("2", "1"), ("3a", "3")):
                    rows = [Row(ids[0], "A", s, cls, ""), Row(ids[1], "B", s2, cls2, "—")]
                    write(root, "p", table(rows))
                    compare(T, mod, "p", rows, "spelling", f"{s!r} {s2!r} {ids}")
                    compare(T, mod, "p", rows, "spelling", f"{s!r} {s2!r} {ids}", request=ids[0], want_id=ids[0])
        elif kind == "slugs":
            notes = {"task-7-group-taxonomy.md": "task-7-group-taxonomy", "`task-7-x.md`": "task-7-x", "task-7-x": "task-7-x", "[task-7-x.md](task-7-x.md)": "task-7-x",
                     "[`task-7-x.md`](phase-01/task-7-x.md)": "task-7-x", "(folded into 6b note)": None, "": None, "—": None, "see task-7-x.md": None}
            titles = ["Group taxonomy", "`resolve_source_member_set` API", "~~Measure perf gate~~ (DROPPED)", "η′ line — 2", "A/B: c", "—"]
            for (note, slug), title in itertools.product(notes.items(), titles):
                r = Row("7", title, "Not started", "open", note, slug)
                if slug is None:
                    r.slug = f"task-7-{kebab(title)}".rstrip("-")
                write(root, "p", table([r]))
                compare(T, mod, "p", [r], "slug", f"{note!r} {title!r}")
        elif kind == "layouts":
            layouts(T, mod, root)
        elif kind == "phased":
            phased(T, mod, root, spec[1])
        else:
            errors(T, mod, root)


def layouts(T, mod, root):
    rows = [Row("2", "Second", "Complete", "done", ""), Row("10", "Tenth", "Blocked", "blocked", ""), Row("3a", "Three a", "Not started", "open", "task-3a-x.md", "task-3a-x")]
    for order in (ORDER, ["#", "Status", "Task", "Depends on", "Task Note"], ["Depends on", "#", "Task", "Status", "Task Note"], ["Status", "Task", "Task Note", "#"]):
        for deco in (lambda s: s, lambda s: f"**{s}**", lambda s: f"`{s}`", lambda s: f"~~{s}~~"):
            for header in (None, [{"#": "ID", "Task Note": "Task note"}.get(c, c) for c in order], [c.upper() for c in order]):
                for pre in ("## Tasks\n\n", "# Title\n\n| # | Other | Status |\n|---|---|---|\n| 1 | x | Not started |\n\n### Tasks\nSome prose.\n\n", "## Tasks  \n"):
                    for post in ("", "\n| 1 | not a task | Not started |\n", "\n## Notes\n\n| # | Task | Status |\n|---|---|---|\n| 1 | x | Not started |\n", "| | continuation | | | |\n", "| Σ | total | | | |\n"):
                        write(root, "p", table(rows, order, header, deco, pre, post))
                        what = f"{order} {header} {pre!r} {post!r}"
                        compare(T, mod, "p", rows, "layout", what)
                        for req, want in (("2", "2"), ("Task 10", "10"), ("3A", "3a"), ("**10**", "10"), ("3", "3"), ("1", "1"), (" 2. ", "2")):
                            compare(T, mod, "p", rows, "layout:request", what, request=req, want_id=want)
    # rows without edge decoration, with trailing spaces, and CRLF
    for nl, strip in (("\r\n", False), ("\n", True)):
        text = table(rows).replace("\n", nl)
        if strip:
            text = "\n".join("  " + l + "  " for l in text.split("\n"))
        write(root, "p", text)
        compare(T, mod, "p", rows, "layout", f"line ends {nl!r} {strip}")


PHASES = [("03", "03"), ("03_1", "03_1"), ("08", "08"), ("08a", "08a")]


def phased(T, mod, root, first):
    spell = {"Complete": True, "In Progress": False, "Not started": False, '"Complete"': True}
    more = {"Complete (2026-08-06)": True, "complete": True, "Incomplete": False, "": False, "**Complete**": True, "'complete'": True}
    for i, (p, _) in enumerate(PHASES):
        write(root, "p", table([Row(f"{i}.1", f"first of {p}", "Complete", "done", ""), Row(f"{i}.2", f"second of {p}", "Not started", "open", "")]), p)
    ph = root / "projects" / "p" / "phases"
    ph.mkdir()
    (ph / "_template.md").write_text("---\nstatus: Not started\n---\n")
    vectors = [(list(spell)[first], *v) for v in itertools.product(spell, repeat=3)]
    if first == 0:
        vectors += [("Complete",) * k + (m,) + ("Not started",) * (3 - k) for k in range(4) for m in more]
    spell = {**spell, **more}
    for st in vectors:
        for (p, _), s in zip(PHASES, st):
            (ph / f"phase-{p}-name.md").write_text(f"---\nphase: {p}\nstatus: {s}\n---\n\n# Phase {p}: x\n\nstatus: Complete\n")
        k = next((i for i, s in enumerate(st) if not spell[s]), None)
        what = f"phase statuses {st}"
        if k is None:
            compare(T, mod, "p", [], "phased", what, done_all=True)
        else:
            p = PHASES[k][0]
            rows = [Row(f"{k}.1", f"first of {p}", "Complete", "done", ""), Row(f"{k}.2", f"second of {p}", "Not started", "open", "")]
            compare(T, mod, "p", rows, "phased", what, phase=p)
            for i in range(4):
                for j in "12":
                    compare(T, mod, "p", rows, "phased", what, phase=p, request=f"{i}.{j}", want_id=f"{i}.{j}")


def errors(T, mod, root):
    def bad(argv, want_rc, note, phase=None):
        T.step()
        rc, out, err = _agents.cli(mod.main, argv)
        ok = rc == want_rc and bool(err)
        if want_rc == 1:
            got = json.loads(out) if out.strip().startswith("{") else {}
            ok = ok and set(got) == KEYS and got["status"] == "error" and got["task_id"] is None and bool(got["reason"]) and got["phase"] == phase
        T.check(ok, "error:" + note, lambda: f"{note}: exit {rc} {out[:200]!r} {err[:200]!r}")
        T.outcome(note, rc)
    bad([], 2, "no project")
    bad(["--project", "p", "--nope"], 2, "unknown flag")
    bad(["--project", "p"], 1, "absent project")
    (root / "projects" / "p").mkdir(parents=True)
    bad(["--project", "p"], 1, "no working memory")
    for text, note in (("", "empty"), ("# x\n", "no heading"), ("## Tasks\n", "no table"), ("## Tasks\n\n## Next\n\n| # | Task | Status |\n|-|-|-|\n| 1 | a | b |\n", "table elsewhere"),
                       ("## Tasks\n\n| # | Task | Status |\n|---|---|---|\n", "no rows"), ("## Tasks\n\n| # | Task |\n|---|---|\n| 1 | x |\n", "no status column"),
                       ("## Tasks\n\n| Task | Status |\n|---|---|\n| 1 | x |\n", "no id column")):
        write(root, "p", text)
        bad(["--project", "p"], 1, note)
    rows = [Row("1", "One", "Not started", "open", "")]
    write(root, "p", table(rows))
    for req in ("2", "1a", "x", "", "**", "task"):
        bad(["--project", "p", "--task", req], 1, f"request {req!r}")
    compare(T, mod, "p", rows, "request", "one row", request="task 1", want_id="1")
    ph = root / "projects" / "p" / "phases"
    ph.mkdir()
    compare(T, mod, "p", rows, "flat", "phases directory without phases")
    (ph / "_template.md").write_text("---\nstatus: Not started\n---\n")
    compare(T, mod, "p", rows, "flat", "phases directory with a template")
    (ph / "phase-01-x.md").write_text("---\nstatus: Not started\n---\n")
    bad(["--project", "p"], 1, "phase without working memory", phase="01")
    write(root, "p", "## Tasks\n\n| # | Task | Status |\n|---|---|---|\n", "01")
    bad(["--project", "p"], 1, "phase without tasks", phase="01")
    write(root, "p", table(rows), "01")
    for req in ("2", "x"):
        bad(["--project", "p", "--task", req], 1, f"request {req!r} in a phase", phase="01")
    # only a status in the front matter counts
    for text in ("status: Complete\n", "# Phase\n\nstatus: Complete\n---\n", "", "\n---\nstatus: Complete\n---\n", "---\nphase: 01\n---\nstatus: Complete\n", "---\nold_status: Complete\n---\n"):
        (ph / "phase-01-x.md").write_text(text)
        compare(T, mod, "p", rows, "front-matter", repr(text), phase="01")
    for argv, want in ((["--project", "p"], 0), (["--project", "p", "--task", "7"], 1), ([], 2)):
        T.step()
        rc, out, err = _agents.process("resolve_task", argv, root, root=root)
        T.check(rc == want and (want == 2 or json.loads(out)["status"] == ("ready" if want == 0 else "error")), "process", lambda: f"{argv}: exit {rc} {out!r} {err!r}")
    rc, out, err = _agents.cli(mod.main, ["--self-test"])
    T.check(rc == 0, "self-test", lambda: f"{rc} {out} {err}")
