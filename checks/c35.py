"""The PR-title checker accepts exactly the language written down in the guidelines."""
import itertools

from . import _agents

ID = "C35"
PROP = dict(
    title="The PR-title checker accepts exactly the documented title language",
    statement=(
        "scripts/agents/check_pr_title.py accepts a title, given as arguments or on standard input, exactly when it follows "
        "docs/PR_GUIDELINES.md: type from the eleven allowed, required scope of at most ten lowercase letters, digits and "
        "inner hyphens that is not a type, optional '!', ': ', a subject starting with an alphanumeric character and not "
        "ending in '.' or a space, and at most 69 characters in all. It prints 'OK: <title>' and exits 0, or names the title "
        "and every violated rule on standard error and exits 1; without a title it exits 2."),
    quantifier=dict(over=["inputs"], text="all products of type, scope, separator, subject and length variants; every string of up to four symbols over a delimiter alphabet"),
    why_tests_cant="There are no tests of the title checker.",
    anchors=dict(files=["scripts/agents/check_pr_title.py", "docs/PR_GUIDELINES.md"],
                 mechanism=[dict(name="check, read_title, main", where="scripts/agents/check_pr_title.py")]),
)
TECHNIQUE = "exhaustive enumeration of a bounded title language against an automaton for the documented grammar"
LEVEL_NOTE = "All products of 19 types, 27 scopes, bangs, separators and 22 subjects; every header length from 60 to 80; all words of length four over a token alphabet."
RULE = "one case per type or word prefix; non-trivial when verdicts were compared"

TYPES = "feat fix chore ci docs test refactor perf style build revert".split()
SCOPES = ["", "a", "spectra", "x-y", "-x", "x-", "-", "a--b", "0", "9a", "Phase", "a_b", "a b", "a.b", "a(b", "é", "packaging", "abcdefghij", "abcdefghijk", "a-b-c-d-e-",
          "phase\n", *TYPES[:8], "feats"]
SUBJ = ["add", "a", "A", "9 lives", "add it.", "add it", "add it ", " add", ".", "", "-x", "(x) y", "x: y", "a..", "a. ", "é x", "_x", "!x", "a!", "`x` y", "a.b", "x  "]
SEP = [": ", ":", " : ", ":  ", "; ", ""]
TOK = ["feat", "(", ")", ":", " ", "x", "!", "-", ".", "Fix", "\n"]


def cases(tier):
    for t in [*TYPES, "Feat", "FIX", "feature", "", "wip", "doc", "tests", "ci "]:
        yield ["product", t]
    for n in range(60, 81):
        yield ["length", n]
    depth = 4 if tier == "quick" else 5
    for p in itertools.product(range(len(TOK)), repeat=2):
        yield ["word", list(p), depth]
    yield ["cli"]


def violations(h):
    """The documented rules a title breaks, as a set of names; written as a left-to-right scan."""
    out = set()
    if len(h) > 69:
        out.add("length")
    i = 0
    while i < len(h) and ("a" <= h[i] <= "z" or "A" <= h[i] <= "Z"):
        i += 1
    typ, scope = h[:i], None
    bad = not typ
    if not bad and h[i:i + 1] == "(":
        j = h.find(")", i)
        if j < 0:
            bad = True
        else:
            scope = h[i + 1:j]
            i = j + 1
    if not bad and h[i:i + 1] == "!":
        i += 1
    if bad or h[i:i + 2] != ": " or "\n" in h[i:]:
        return out | {"form"}
    sub = h[i + 2:]
    if typ not in TYPES:
        out.add("type")
    if not scope:
        out.add("scope")
    else:
        if any(ch not in "abcdefghijklmnopqrstuvwxyz0123456789-" for ch in scope) or len(scope) > 10 or scope[0] == "-" or scope[-1] == "-" or scope in TYPES:
            out.add("scope")
    if not sub or not sub[0].isalnum() or sub[-1] in ". ":
        out.add("subject")
    return out


def run(spec, T):
    mod = _agents.load("check_pr_title")

    def title(h, key):
        want = violations(h)
        T.step()
        rc, out, err = _agents.cli(lambda: mod.main(["x", h]), [])
        if h == "":
            ok = rc == 2
        elif want:
            said = err.split("\n  - ")[1:]
            ok = rc == 1 and out == "" and h in err and len(said) >= len(want)
            for name in want - {"form"}:
                ok = ok and any(("header" if name == "length" else name) in line for line in said)
        else:
            ok = rc == 0 and out == f"OK: {h}\n" and err == ""
        T.check(ok, key, lambda: f"{h!r}: expected {sorted(want) or 'valid'}, exit {rc}, {out!r}, {err!r}")
        T.outcome(sorted(want), rc)
    if spec[0] == "product":
        for s in [None, *SCOPES]:
            for bang in ("", "!"):
                for sep in SEP:
                    for sub in SUBJ:
                        title(spec[1] + ("" if s is None else f"({s})") + bang + sep + sub, "product")
    elif spec[0] == "length":
        n = spec[1]
        for head in ("fix(a): ", "feat(abcdefghij)!: ", "nope(a): "):
            for tail in ("x", ".", " ", "é"):
                title(head + "y" * (n - len(head) - 1) + tail, "length")
    elif spec[0] == "word":
        _, p, depth = spec
        pre = "".join(TOK[i] for i in p)
        for n in range(depth - 1):
            for w in itertools.product(TOK, repeat=n):
                title(pre + "".join(w), "word")
                title("fix(x" + pre + "".join(w), "word")
                if n <= 1:
                    title("fix(x): " + pre + "".join(w), "word")
    else:
        with _agents.scratch() as cwd:
            for argv, text, want in ((["fix(a): x"], "", 0), (["fix(a):", "x"], "feat", 0), (["fix: x"], "", 1), ([], "fix(a): x\n", 0), ([], "\nfix: x\n", 1), ([], "", 2), ([""], "fix(a): x", 2)):
                T.step()
                rc, out, err = _agents.process("check_pr_title", argv, cwd, text)
                T.check(rc == want and (out == "OK: fix(a): x\n") == (want == 0) and bool(err) == (want != 0), "process", f"{argv} {text!r}: exit {rc}, {out!r}, {err!r}")
        good, bad = "feat(lint): add a rule", "feat: add a rule"
        for text, want in ((good, 0), (good + "\n", 0), ("\n  \n" + good + "\n\nbody (x).\n", 0), ("  " + good + "  \n", 0), (bad, 1), ("\n" + bad + "\n" + good, 1),
                           ("", 2), ("\n\n", 2), ("   ", 2)):
            T.step()
            rc, out, err = _agents.cli(lambda: mod.main(["x"]), [], stdin=text)
            T.check(rc == want, "stdin", lambda: f"{text!r}: exit {rc}, expected {want}")
            T.check((out == f"OK: {good}\n") == (want == 0), "stdin:output", lambda: f"{text!r}: {out!r}")
        rc, out, err = _agents.cli(lambda: mod.main(["x", *good.split(" ")]), [])
        T.check(rc == 0 and out == f"OK: {good}\n", "arguments", f"{rc} {out!r}")
        rc, out, err = _agents.cli(lambda: mod.main(["x", ""]), [], stdin=good)
        T.check(rc == 2, "empty-argument", f"{rc}")
