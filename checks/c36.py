"""The citation checker: resolution and bounds of every combination of citations."""
import itertools
import os
import subprocess

from . import _agents

ID = "C36"
PROP = dict(
    title="check_doc_citations.py reports exactly the out-of-range and ambiguous citations",
    statement=(
        "For every set of tracked sources and markdown docs, scripts/agents/check_doc_citations.py resolves a `<file>:<lines>` "
        "citation of a .py, .pyx or .pxd file by exact path, else by unique path suffix, else (a bare name) by the one longer "
        "form that the same doc pins, else by --map; otherwise it is ambiguous (a failure) or external (skipped and named). "
        "Every element of a run `a-b/c/d` is checked against the line count of the resolved file. Failures name doc, line and "
        "citation; exit 0 exactly when there are none, 1 otherwise (also for a missing doc), 2 without docs; --list prints "
        "every checked citation with its resolution; --changed-vs takes the docs changed since the merge base and not deleted."),
    quantifier=dict(over=["inputs"], text="all docs of up to three citations over a source tree with every kind of name clash, all line specifications around the file lengths, with and without overrides"),
    why_tests_cant="There are no tests of the citation checker.",
    anchors=dict(files=["scripts/agents/check_doc_citations.py"],
                 mechanism=[dict(name="Resolver, doc_context, main", where="scripts/agents/check_doc_citations.py")]),
)
TECHNIQUE = "exhaustive enumeration of small documents over a source tree with name clashes, against a reference resolver"
LEVEL_NOTE = "11 source files, 17 cited paths and 19 line specifications: every path with every specification, every doc of two paths and triples with a bare name, under four override sets; branch histories for --changed-vs."
RULE = "one case per batch of docs; non-trivial when a doc's verdict was compared"

# tracked file -> (content, lines)
FILES = {"top.py": ("a\nb\nc\n", 3), "a/x.py": ("1\n" * 4, 4), "b/x.py": ("1\n" * 6 + "end", 7), "c/a/x.py": ("1\n" * 9, 9), "b/only.py": ("1\n" * 10, 10), "d/w.pyx": ("1\n" * 2, 2),
         "d/w.pxd": ("1\n", 1), "empty.py": ("", 0), "d/y.py": ("1\n2\n", 2), "e/y.py": ("1\n2\n3\n", 3), "e/d2/y.py": ("1\n" * 5, 5)}
UNTRACKED = {"loose.py": "1\n" * 5, "b/loose2.py": "1\n"}
CITED = ["top.py", "a/x.py", "b/x.py", "c/a/x.py", "x.py", "only.py", "b/only.py", "w.pyx", "w.pxd", "d/w.pyx", "empty.py", "y.py", "e/y.py", "d2/y.py", "numpy/core.py", "loose.py", "/x.py"]
SPECS = ["0", "1", "2", "3", "4", "5", "7", "8", "10", "11", "1-2", "2-1", "3-8", "0-1", "1/2", "1/9/2", "2-4/1", "1-2/3-99", "007"]
MAPS = [[], ["a/x.py"], ["b/x.py", "e/y.py"], ["nope/x.py", "top.py"]]
EXT = ("py", "pyx", "pxd")


def cases(tier):
    for m in range(len(MAPS)):
        for p in range(len(CITED)):
            yield ["single", m, p]
            yield ["pair", m, p]
        if tier != "quick":
            for p in range(len(CITED)):
                yield ["triple", m, p]
    yield ["form"]
    yield ["cli"]
    yield ["changed"]


def git(root, *args):
    env = {k: v for k, v in os.environ.items() if not k.startswith("GIT_")}
    env.update(GIT_CONFIG_GLOBAL="/dev/null", GIT_CONFIG_SYSTEM="/dev/null", HOME=str(root))
    subprocess.run(["git", "-c", "user.name=v", "-c", "user.email=v@v", "-c", "init.defaultBranch=main", "-c", "commit.gpgsign=false", *args], cwd=root, env=env, check=True, capture_output=True)


def setup(root):
    for f, (text, _) in FILES.items():
        (root / f).parent.mkdir(parents=True, exist_ok=True)
        (root / f).write_text(text)
    (root / "notes.txt").write_text("1\n")
    git(root, "init", "-q")
    git(root, "add", "-A")
    git(root, "commit", "-qm", "sources")
    for f, text in UNTRACKED.items():
        (root / f).write_text(text)
    (root / "docs").mkdir(exist_ok=True)


def unique(cite):
    hits = [f for f in FILES if f == cite or f.endswith("/" + cite)]
    return (cite if cite in FILES else hits[0] if len(hits) == 1 else None), hits


def resolve(cite, all_cites, maps):
    """(path, how, number of candidates) by the documented order."""
    path, hits = unique(cite)
    if path:
        return path, "exact" if path == cite else "suffix", hits
    if "/" not in cite:
        pins = {unique(o)[0] for o in all_cites if "/" in o and o.rsplit("/", 1)[1] == cite} - {None}
        if len(pins) == 1:
            return pins.pop(), "context", hits
    over = [m for m in maps if m.rsplit("/", 1)[-1] == cite.rsplit("/", 1)[-1] and m in FILES]
    if over and hits:
        return over[-1], "map", hits
    return None, "ambiguous" if hits else "external", hits


def spans(spec):
    return spec.split("/")


def outside(span, total):
    ends = [int(x) for x in span.split("-")]
    return min(ends) < 1 or max(ends) > total


class Doc:
    """Citations on known lines, with filler around."""

    def __init__(self, name, cites):
        self.name = name
        self.cites = [(c.lstrip("/"), s, i * 2 + 3) for i, (c, s) in enumerate(cites)]
        self.text = "# Doc\n\n" + "".join(f"See `{c}:{s}` for more.\n\n" for c, s in cites)

    def verdict(self, maps):
        fails, counts, listing = [], {}, []
        names = [c for c, _, _ in self.cites]
        for c, s, line in self.cites:
            path, how, hits = resolve(c, names, maps)
            counts[how] = counts.get(how, 0) + len(spans(s))
            if path is None:
                if how == "ambiguous":
                    fails.append((line, "AMBIGUOUS", c))
                continue
            for sp in spans(s):
                listing.append((self.name, line, f"{c}:{sp}", how, path))
                if outside(sp, FILES[path][1]):
                    fails.append((line, "OUT OF RANGE", f"{c}:{sp}"))
        return fails, counts, listing


def call(mod, root, argv):
    old = os.getcwd()
    env = {k: os.environ.get(k) for k in ("GIT_CONFIG_GLOBAL", "GIT_CONFIG_SYSTEM", "GIT_DIR", "GIT_WORK_TREE")}
    os.environ["GIT_CONFIG_GLOBAL"] = os.environ["GIT_CONFIG_SYSTEM"] = "/dev/null"
    os.environ.pop("GIT_DIR", None)
    os.environ.pop("GIT_WORK_TREE", None)
    os.chdir(root)
    try:
        return _agents.cli(lambda: mod.main(["check", *argv]), [])
    finally:
        os.chdir(old)
        for k, v in env.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)


def batch(T, mod, root, docs, maps, key):
    """One run over many docs; every doc's failures, the listing and the counts are compared."""
    for d in docs:
        (root / d.name).write_text(d.text)
    flags = [x for m in maps for x in ("--map", m)]
    rc, out, err = call(mod, root, [*(d.name for d in docs), *flags, "--list"])
    lines = out.splitlines()
    total, want_list, ext = {}, set(), {}
    anyfail = False
    n_fail = 0
    for d in docs:
        T.step()
        fails, counts, listing = d.verdict(maps)
        n_fail += len(fails)
        for k, v in counts.items():
            total[k] = total.get(k, 0) + v
        want_list.update(listing)
        for c, s, _ in d.cites:
            if resolve(c, [x for x, _, _ in d.cites], maps)[1] == "external":
                ext[c] = ext.get(c, 0) + len(spans(s))
        got = sorted(ln.strip() for ln in lines if ln.startswith(f"  {d.name}:"))
        ok = len(got) == len(fails)
        for line, word, cite in fails:
            ok = ok and any(g.startswith(f"{d.name}:{line}:") and word in g and cite in g for g in got)
        T.check(ok, key + ":failures", lambda: f"{[(c, s) for c, s, _ in d.cites]} maps {maps}: reported {got}, expected {fails}")
        T.outcome(bool(fails), sorted(counts))
        anyfail = anyfail or bool(fails)
    got_list = {(f[0].rpartition(":")[0], int(f[0].rpartition(":")[2]), f[1], f[2], f[3]) for f in (ln.split("\t") for ln in lines) if len(f) == 4}
    T.check(got_list == want_list, key + ":list", lambda: f"maps {maps}: difference {sorted(got_list ^ want_list)[:6]}")
    T.check(rc == (1 if anyfail else 0), key + ":exit", lambda: f"exit {rc}, failures {anyfail}")
    T.check(f"docs scanned: {len(docs)}" in lines, key + ":scanned", lambda: repr(lines[-12:]))
    inrepo = sum(v for k, v in total.items() if k not in ("ambiguous", "external"))
    T.check(f"in-repo citations checked: {inrepo}" in lines, key + ":checked", lambda: f"expected {inrepo}: {[ln for ln in lines if 'checked' in ln]}")
    for how in ("exact", "suffix", "context", "map"):
        T.check((f"  resolved by {how}: {total.get(how)}" in lines) == bool(total.get(how)), key + ":counts", lambda: f"{how} {total.get(how)}: {[ln for ln in lines if 'resolved' in ln]}")
    T.check(f"external citations skipped: {total.get('external', 0)}" in lines, key + ":external", lambda: f"expected {total.get('external', 0)}: {[ln for ln in lines if 'external' in ln]}")
    for c, n in ext.items():
        T.check(any(c in ln.replace("(", " ").split() and str(n) in ln.replace("(", " ").replace(")", " ").split() for ln in lines), key + ":external-name", lambda: f"{c} ({n}) is not named in {lines[-12:]}")
    T.check((f"FAIL: {n_fail} problem(s)" in lines) == bool(n_fail) and ("out-of-range or ambiguous: NONE" in lines) == (not n_fail), key + ":summary", lambda: f"{n_fail}: {lines[-3:]}")


def run(spec, T):
    with _agents.scratch() as root:
        mod = _agents.load("check_doc_citations")
        setup(root)
        kind = spec[0]
        if kind == "single":
            _, m, p = spec
            docs = [Doc(f"docs/s{i}.md", [(CITED[p], s)]) for i, s in enumerate(SPECS)]
            batch(T, mod, root, docs, MAPS[m], "single")
            for d in docs[:4]:
                batch(T, mod, root, [d], MAPS[m], "single")
        elif kind == "pair":
            _, m, p = spec
            docs = [Doc(f"docs/p{i}.md", [(CITED[p], SPECS[i % 7]), (q, SPECS[(i + p) % len(SPECS)])]) for i, q in enumerate(CITED)]
            batch(T, mod, root, docs, MAPS[m], "pair")
        elif kind == "triple":
            _, m, p = spec
            docs = [Doc(f"docs/t{i}.md", [(CITED[p], "1"), (q, SPECS[i % len(SPECS)]), (r, "2/3")]) for i, (q, r) in enumerate(itertools.product(CITED, repeat=2))]
            batch(T, mod, root, docs, MAPS[m], "triple")
        elif kind == "form":
            form(T, mod, root)
        elif kind == "cli":
            cli(T, mod, root)
        else:
            changed(T, mod, root)


def form(T, mod, root):
    """What is and is not a citation."""
    yes = {"top.py:4": "top.py:4", "(`top.py:4`)": "top.py:4", "**top.py:4-9**.": "top.py:4-9", "[x](../top.py:4)": "top.py:4", "top.py:1/4": "top.py:4", "../a/x.py:9": "a/x.py:9", "./b/x.py:8,": "b/x.py:8",
           "d/w.pyx:3": "d/w.pyx:3", "w.pxd:2": "w.pxd:2", "top.py:99999999999": "top.py:99999999999", "top.py:4:1": "top.py:4", "see top.py:4.": "top.py:4", "top.py:4-": "top.py:4", "top.py:4/": "top.py:4"}
    no = ["top.py", "top.py :4", "top.py: 4", "top.py:x", "top.md:99", "top.pyc:99", "top.py:line 9", "top.rs:999", "http://x.org/y.html:9", "top.py line 44", "top.py#L99", "notes.txt:99"]
    for i, (text, cite) in enumerate(yes.items()):
        T.step()
        (root / f"docs/y{i}.md").write_text(f"intro\n\n\n{text}\nend")
        rc, out, err = call(mod, root, [f"docs/y{i}.md"])
        T.check(rc == 1 and any(ln.strip().startswith(f"docs/y{i}.md:4:") and cite in ln for ln in out.splitlines()), "form", lambda: f"{text!r}: exit {rc}, {out!r}")
    for i, text in enumerate(no):
        T.step()
        (root / f"docs/n{i}.md").write_text(text + "\n")
        rc, out, err = call(mod, root, [f"docs/n{i}.md"])
        T.check(rc == 0 and "in-repo citations checked: 0" in out and "external citations skipped: 0" in out, "form:none", lambda: f"{text!r}: exit {rc}, {out!r}")
    T.outcome("form")


def cli(T, mod, root):
    def ask(argv, want, note, has=()):
        T.step()
        rc, out, err = call(mod, root, argv)
        T.check(rc == want and all(h in out for h in has), "cli:" + note, lambda: f"{note}: exit {rc} {out!r} {err!r}")
        T.outcome(note, rc)
    (root / "docs/ok.md").write_text("top.py:3\n")
    (root / "docs/bad.md").write_text("top.py:4\n")
    ask([], 2, "no docs")
    ask(["--nope"], 2, "unknown flag")
    ask(["docs/ok.md"], 0, "in range")
    ask(["docs/bad.md"], 1, "out of range", ["docs/bad.md:1"])
    ask(["docs/ok.md", "docs/bad.md"], 1, "both", ["docs scanned: 2", "FAIL: 1 problem(s)"])
    ask(["docs/absent.md"], 1, "absent doc", ["docs/absent.md"])
    ask(["docs/absent.md", "docs/ok.md"], 1, "absent doc and another", ["in-repo citations checked: 1"])
    (root / "docs/crlf.md").write_bytes(b"x\r\ntop.py:3\r\ntop.py:5\r\n")
    ask(["docs/crlf.md"], 1, "CRLF", ["docs/crlf.md:3", "FAIL: 1 problem(s)"])
    # the working tree's line count decides, for tracked files only
    (root / "top.py").write_text("1\n" * 4)
    ask(["docs/bad.md"], 0, "grown file")
    (root / "top.py").write_text("1\n2\n3\n")
    ask(["docs/bad.md"], 1, "shrunk file")
    # as a process, in the worktree and outside any
    for argv, want in ((["docs/ok.md"], 0), (["docs/bad.md"], 1), ([], 2)):
        T.step()
        rc, out, err = _agents.process("check_doc_citations", argv, root)
        T.check(rc == want, "cli:process", lambda: f"{argv}: exit {rc} {out!r} {err!r}")
    (root / "docs/utf8.md").write_bytes("Größe — “top.py:3”\n".encode())
    ask(["docs/utf8.md"], 0, "UTF-8", ["in-repo citations checked: 1"])
    with _agents.scratch() as out_of_tree:
        rc, out, err = _agents.process("check_doc_citations", ["docs/ok.md"], out_of_tree)
        T.check(rc not in (0,), "cli:no-worktree", lambda: f"exit {rc} {out!r}")
    # from a subdirectory, docs are still repo-relative
    os.makedirs(root / "sub", exist_ok=True)
    rc, out, err = call(mod, root / "sub", ["docs/ok.md"])
    T.check(rc == 0, "cli:subdirectory", lambda: f"{rc} {out} {err}")


def changed(T, mod, root):
    """All ways four docs can have changed on a branch, with the other branch moved on."""
    acts = ["keep", "edit", "delete", "add"]
    for n, combo in enumerate(itertools.product(range(4), repeat=2)):
        for f in root.glob("docs/*.md"):
            f.unlink()
        base, work, ref = f"base{n}", f"work{n}", f"ref{n}"
        git(root, "checkout", "-q", "main")
        git(root, "checkout", "-q", "-b", base)
        (root / "docs").mkdir(exist_ok=True)
        names = [f"docs/d{i}.md" for i in range(2)]
        for nm, a in zip(names, combo):
            if acts[a] != "add":
                (root / nm).write_text("top.py:9\n")
        (root / "docs/other.md").write_text("top.py:9\n")
        (root / "docs/note.txt").write_text("top.py:9\n")
        git(root, "add", "-A", "docs")
        git(root, "commit", "-qm", "base", "--allow-empty")
        git(root, "branch", ref)
        git(root, "checkout", "-q", "-b", work)
        for nm, a in zip(names, combo):
            if acts[a] == "delete":
                (root / nm).unlink()
            elif acts[a] in ("edit", "add"):
                (root / nm).write_text("more\ntop.py:9\n")
        (root / "docs/note.txt").write_text("top.py:8\n")
        git(root, "add", "-A", "docs")
        git(root, "commit", "-qm", "work", "--allow-empty")
        # the reference branch moves on: its changes are not the branch's
        git(root, "checkout", "-q", ref)
        (root / "docs/other.md").write_text("changed\ntop.py:9\n")
        git(root, "add", "-A", "docs")
        git(root, "commit", "-qm", "elsewhere")
        git(root, "checkout", "-q", work)
        want = [nm for nm, a in zip(names, combo) if acts[a] in ("edit", "add")]
        T.step()
        rc, out, err = call(mod, root, ["--changed-vs", ref])
        got = [nm for nm in [*names, "docs/other.md", "docs/note.txt"] if f"  {nm}:" in out]
        what = [acts[a] for a in combo]
        if want:
            T.check(rc == 1 and got == want and f"docs scanned: {len(want)}" in out, "changed", lambda: f"{what}: exit {rc}, scanned {got}, expected {want}: {out!r}")
        else:
            T.check(rc == 2, "changed:none", lambda: f"{what}: exit {rc} {out!r}")
        rc, out, err = call(mod, root, ["docs/other.md", *want[:1], "--changed-vs", ref])
        T.check(rc == 1 and f"docs scanned: {len({'docs/other.md', *want})}" in out, "changed:union", lambda: f"{what}: exit {rc}: {out!r}")
        T.outcome(what, rc)
