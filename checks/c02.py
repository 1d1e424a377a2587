"""Decay aggregation: every open/closed configuration of a four-channel decaying model."""
import itertools

import numpy as np

from checks.c01 import FORMS, same

ID = "C02"
PROP = dict(
    title="Decay spectra and lines are branching-fraction weighted sums",
    statement=(
        "For every decaying dark-matter model the branching fractions are each partial width over the total width "
        "(summing to one when any channel is open, all zero otherwise), the reported total width is the sum of the "
        "partial widths, and every per-channel and total gamma-ray and positron spectrum, and every line strength, is "
        "that fraction times the spectrum that belongs to that very channel. A closed channel contributes exactly zero "
        "without its spectrum being evaluated, and the answers are those of the model's current parameters, whatever "
        "was asked or set before and whether energies come as a scalar, a list or an array."),
    quantifier=dict(over=["configurations", "histories", "inputs"],
                    text="all open/closed patterns of a multi-channel model, all forms of the energy argument, all orders "
                         "of queries and parameter changes"),
    why_tests_cant="The decay aggregation is exercised on single-channel or all-open models, where attributing one "
                   "channel's spectrum to another is invisible.",
    anchors=dict(files=["hazma/theory/__init__.py"],
                 mechanism=[dict(name="TheoryDec", where="hazma/theory/__init__.py")]),
)
TECHNIQUE = "explicit-state enumeration of channel configurations and query histories against a reference aggregator"
LEVEL_NOTE = ("All 3^4 width patterns x 3 scales x 4 choices of channels with spectra x 8 argument forms, and all "
              "query/parameter-change histories to depth 5 (quick 4) on stub models driving the real aggregation code.")
RULE = ("one case per (width pattern, scale, set of channels that have spectra) and per history; non-trivial when at "
        "least one value was compared with the reference")
CHUNK = 8

CH = ["a b", "g g", "c c", "d"]
GL = {"g g": 0.5, "c c": 0.31}
PL = {"a b": 0.5, "d": 0.3}
SPECS = [[0, 1, 2, 3], [3, 2, 1, 0], [0, 2], [1, 3]]
MX = 150.0


def gspec(i, e):
    return (i + 1.0) * (e / MX) ** (i + 1) + 0.01 * (i + 1)


def pspec(i, e):
    return 0.5 * (i + 2.0) * np.exp(-e / MX) + i


def make(widths, chans):
    from hazma.theory import TheoryDec

    class Stub(TheoryDec):
        def __init__(self):
            self.mx = MX
            self.w = list(widths)

        @staticmethod
        def list_decay_final_states():
            return list(CH)

        def _decay_widths(self):
            return {c: self.w[i] for i, c in enumerate(CH)}

        def _fns(self, base):
            def mk(i):
                def f(e):
                    if not self.w[i] > 0:
                        raise AssertionError(f"spectrum of closed channel {CH[i]} evaluated")
                    return base(i, np.asarray(e, dtype=float))
                return f
            return {CH[i]: mk(i) for i in chans}

        def _spectrum_funcs(self):
            return self._fns(gspec)

        def _positron_spectrum_funcs(self):
            return self._fns(pspec)

        def _gamma_ray_line_energies(self):
            return {c: f * self.mx for c, f in GL.items()}

        def _positron_line_energies(self):
            return {c: f * self.mx for c, f in PL.items()}

        def constraints(self):
            return {}

    return Stub()


def ref_bf(w):
    t = sum(w)
    return [x / t if t > 0 else 0.0 for x in w]


def ref_spec(w, chans, e, base, weight=True):
    bf = ref_bf(w)
    e = np.asarray(e, dtype=float)
    res = {CH[i]: ((bf[i] if weight else 1.0) * base(i, e) if w[i] > 0 else np.zeros_like(e)) for i in chans}
    if weight:
        res["total"] = sum(res.values())
    return res


def query(T, m, w, chans, q, e, note):
    bf = ref_bf(w)
    keep = np.array(e, copy=True)
    if q == "w":
        want = {c: w[i] for i, c in enumerate(CH)}
        want["total"] = sum(w)
        same(T, m.decay_widths(), want, "widths", note)
    elif q == "bf":
        got = m.decay_branching_fractions()
        same(T, got, {c: bf[i] for i, c in enumerate(CH)}, "branching-fractions", note)
        T.close(sum(got.values()), 1.0 if sum(w) > 0 else 0.0, "branching-fractions:sum", 1e-12, note=note)
    elif q in ("g", "p"):
        base = gspec if q == "g" else pspec
        got = m.spectra(e) if q == "g" else m.positron_spectra(e)
        same(T, got, ref_spec(w, chans, e, base), "gamma-spectra" if q == "g" else "positron-spectra", note)
    elif q in ("gt", "pt"):
        T.step()
        base = gspec if q == "gt" else pspec
        got = m.total_spectrum(e) if q == "gt" else m.total_positron_spectrum(e)
        T.close(np.ravel(got), np.ravel(ref_spec(w, chans, e, base)["total"]),
                "gamma-total" if q == "gt" else "positron-total", 1e-12, note=note)
    elif q in ("gf", "pf"):
        base = gspec if q == "gf" else pspec
        fns = m.spectrum_funcs() if q == "gf" else m.positron_spectrum_funcs()
        same(T, {c: f(e) for c, f in fns.items()}, ref_spec(w, chans, e, base, weight=False),
             "gamma-functions" if q == "gf" else "positron-functions", note)
    elif q in ("gl", "pl"):
        T.step()
        table = GL if q == "gl" else PL
        got = m.gamma_ray_lines() if q == "gl" else m.positron_lines()
        key = "gamma-lines" if q == "gl" else "positron-lines"
        T.check(set(got) == set(table), key + ":keys", lambda: f"{note}: {got}")
        for c, f in table.items():
            if c in got:
                T.close(got[c]["energy"], f * MX, key + ":energy", 1e-12, note=note)
                T.close(got[c]["bf"], bf[CH.index(c)], key + ":bf", 1e-12, note=note)
    T.check(np.array_equal(keep, np.asarray(e)), "argument-changed", note)
    T.state(tuple(w), tuple(chans), q, type(e).__name__, np.shape(e))


QUERIES = ["w", "bf", "g", "p", "gt", "pt", "gf", "pf", "gl", "pl"]
PATTERNS = [[1.0, 0.0, 2.0, 3.0], [0.0, 0.0, 0.0, 0.0], [0.5, 2.5, 0.0, 1.0]]
OPS = [("set", 0), ("set", 1), ("set", 2)] + [(q, "arr5") for q in QUERIES] + [("g", "arr1"), ("p", "arr1")]


def cases(tier):
    for pat in itertools.product((0.0, 1.0, 2.5), repeat=4):
        for scale in (1.0, 1e-60, 1e25):
            for s in range(len(SPECS)):
                yield ["config", list(pat), scale, s]
    depth = 4 if tier == "quick" else 5
    for d in range(2, depth + 1):
        for h in itertools.product(range(len(OPS)), repeat=d):
            if OPS[h[-1]][0] != "set" and OPS[h[0]][0] != "set":
                yield ["history", list(h)]


def run(spec, T):
    if spec[0] == "config":
        w = [s * spec[2] for s in spec[1]]
        chans = SPECS[spec[3]]
        m = make(w, chans)
        for q in QUERIES:
            forms = FORMS if q in ("g", "p", "gt", "pt", "gf", "pf") else {"float": 12.5}
            for name, e in forms.items():
                query(T, m, w, chans, q, e, f"widths={w} spectra for {chans}: {q}({name})")
        T.outcome(m.decay_branching_fractions())
    else:
        w = PATTERNS[0]
        m = make(w, SPECS[1])
        for n, o in enumerate(spec[1]):
            op, i = OPS[o]
            note = f"history {[OPS[x] for x in spec[1][:n + 1]]}"
            if op == "set":
                w = PATTERNS[i]
                m.w = list(w)
                T.step()
            else:
                query(T, m, w, SPECS[1], op, FORMS[i], note)
                r = {"g": m.spectra, "p": m.positron_spectra}.get(op)
                if r is not None:
                    d = r(FORMS[i].copy())
                    for k in d:
                        if isinstance(d[k], np.ndarray):
                            d[k] *= -7.0
        T.state("h", tuple(w), spec[1][-1])
