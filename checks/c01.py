"""Annihilation aggregation: every open/closed configuration of a four-channel model."""
import itertools

import numpy as np

ID = "C01"
PROP = dict(
    title="Annihilation spectra and lines are branching-fraction weighted sums",
    statement=(
        "For every annihilating dark-matter model and centre-of-mass energy the branching fractions are each "
        "channel's cross section over the total (they sum to one when any channel is open and are all zero "
        "otherwise), and every per-channel and total gamma-ray and positron spectrum, and every line strength, is "
        "that fraction times the model's own channel spectrum. A closed channel contributes exactly zero without "
        "its spectrum being evaluated, and the answers are those of the model's current parameters, whatever was "
        "asked or set before and whether energies come as a scalar, a list or an array."),
    quantifier=dict(over=["configurations", "histories", "inputs"],
                    text="all open/closed patterns of a multi-channel model, all centre-of-mass energies, all forms of "
                         "the energy argument, all orders of queries and parameter changes"),
    why_tests_cant="The aggregation tests look at a few concrete models at a few energies with most channels open; which "
                   "subset of channels is closed, at which scale of cross sections, and after which earlier queries, is a "
                   "product space no table of examples covers.",
    anchors=dict(files=["hazma/theory/__init__.py"],
                 mechanism=[dict(name="TheoryAnn", where="hazma/theory/__init__.py")]),
)
TECHNIQUE = "explicit-state enumeration of channel configurations and query histories against a reference aggregator"
LEVEL_NOTE = ("All 3^4 cross-section patterns x 3 scales x 3 energies x 8 argument forms, and all query/parameter-change "
              "histories to depth 5 (quick 4) on stub models driving the real aggregation code.")
RULE = ("one case per (cross-section pattern, scale) and per history of queries and parameter changes; non-trivial when "
        "at least one value was compared with the reference")
CHUNK = 8

CH = ["a b", "g g", "c c", "d"]
GLINES = {"g g": lambda cm: cm / 2, "c c": lambda cm: cm / 3}
PLINES = {"a b": lambda cm: cm / 2, "d": lambda cm: 0.3 * cm}
THR = [50.0, 10.0, 150.0, 300.0]
CMS = [40.0, 200.0, 1000.0]


def gspec(i, e, cm):
    return (i + 1.0) * (e / cm) ** (i + 1) + 0.01 * (i + 1)


def pspec(i, e, cm):
    return 0.5 * (i + 2.0) * np.exp(-np.asarray(e) / cm) + i


def make(sig):
    """A TheoryAnn whose cross sections are sig[i] above threshold THR[i]; self.sig may be reassigned."""
    from hazma.theory import TheoryAnn

    class Stub(TheoryAnn):
        def __init__(self, sig):
            self.sig = list(sig)
            self.mx = 100.0

        def sigma(self, i, cm):
            return self.sig[i] if cm > THR[i] else 0.0

        @staticmethod
        def list_annihilation_final_states():
            return list(CH)

        def annihilation_cross_section_funcs(self):
            return {c: (lambda cm, i=i: self.sigma(i, cm)) for i, c in enumerate(CH)}

        def partial_widths(self):
            return {}

        def _fns(self, base):
            def mk(i):
                def f(e, cm):
                    if not self.sigma(i, cm) > 0:
                        raise AssertionError(f"spectrum of closed channel {CH[i]} evaluated")
                    return base(i, np.asarray(e, dtype=float), cm)
                return f
            return {c: mk(i) for i, c in enumerate(CH)}

        def _spectrum_funcs(self):
            return self._fns(gspec)

        def _positron_spectrum_funcs(self):
            return self._fns(pspec)

        def _gamma_ray_line_energies(self, cm):
            return {c: f(cm) for c, f in GLINES.items()}

        def _positron_line_energies(self, cm):
            return {c: f(cm) for c, f in PLINES.items()}

        def constraints(self):
            return {}

    return Stub(sig)


def ref_bf(sig, cm):
    s = [sig[i] if cm > THR[i] else 0.0 for i in range(4)]
    tot = sum(s)
    return [x / tot if tot > 0 else 0.0 for x in s]


def ref_spec(sig, cm, e, base):
    bf = ref_bf(sig, cm)
    e = np.asarray(e, dtype=float)
    res = {c: (bf[i] * base(i, e, cm) if bf[i] > 0 else np.zeros_like(e)) for i, c in enumerate(CH)}
    res["total"] = sum(res[c] for c in CH)
    return res


FORMS = {
    "float": 12.5, "int": 12, "np": np.float64(12.5), "arr1": np.array([12.5]), "arr5": np.array([0.5, 3.0, 20.0, 99.0, 700.0]),
    "ints": np.array([1, 5, 20]), "list": [1.0, 5.0, 20.0], "empty": np.array([]),
}


def same(T, got, want, key, note):
    T.step()
    T.check(set(got) == set(want), key + ":keys", lambda: f"{note}: keys {sorted(got)}, expected {sorted(want)}")
    for k in want:
        if k in got:
            T.close(got[k], want[k], f"{key}:{'total' if k == 'total' else 'channel'}", rtol=1e-12, note=f"{note} [{k}]")


def query(T, m, sig, q, cm, e, note):
    bf = ref_bf(sig, cm)
    if q == "xs":
        T.step()
        got = m.annihilation_cross_sections(cm)
        want = {c: (sig[i] if cm > THR[i] else 0.0) for i, c in enumerate(CH)}
        want["total"] = sum(want.values())
        same(T, got, want, "cross-sections", note)
    elif q == "bf":
        got = m.annihilation_branching_fractions(cm)
        same(T, got, {c: bf[i] for i, c in enumerate(CH)}, "branching-fractions", note)
        T.close(sum(got.values()), 1.0 if any(bf) else 0.0, "branching-fractions:sum", rtol=1e-12, note=note)
    elif q == "g":
        keep = np.array(e, copy=True)
        same(T, m.spectra(e, cm), ref_spec(sig, cm, e, gspec), "gamma-spectra", note)
        T.check(np.array_equal(keep, np.asarray(e)), "gamma-spectra:argument-changed", note)
    elif q == "p":
        keep = np.array(e, copy=True)
        same(T, m.positron_spectra(e, cm), ref_spec(sig, cm, e, pspec), "positron-spectra", note)
        T.check(np.array_equal(keep, np.asarray(e)), "positron-spectra:argument-changed", note)
    elif q == "gt":
        T.step()
        T.close(np.ravel(m.total_spectrum(e, cm)), np.ravel(ref_spec(sig, cm, e, gspec)["total"]), "gamma-total", 1e-12, note=note)
    elif q == "pt":
        T.step()
        T.close(np.ravel(m.total_positron_spectrum(e, cm)), np.ravel(ref_spec(sig, cm, e, pspec)["total"]), "positron-total", 1e-12, note=note)
    elif q == "gf":
        fns = m.spectrum_funcs()
        same(T, {c: f(e, cm) for c, f in fns.items()},
             {c: (gspec(i, np.asarray(e, float), cm) if bf[i] > 0 else np.zeros_like(np.asarray(e, float))) for i, c in enumerate(CH)},
             "gamma-functions", note)
    elif q == "pf":
        fns = m.positron_spectrum_funcs()
        same(T, {c: f(e, cm) for c, f in fns.items()},
             {c: (pspec(i, np.asarray(e, float), cm) if bf[i] > 0 else np.zeros_like(np.asarray(e, float))) for i, c in enumerate(CH)},
             "positron-functions", note)
    elif q in ("gl", "pl"):
        T.step()
        table = GLINES if q == "gl" else PLINES
        got = m.gamma_ray_lines(cm) if q == "gl" else m.positron_lines(cm)
        key = "gamma-lines" if q == "gl" else "positron-lines"
        T.check(set(got) == set(table), key + ":keys", lambda: f"{note}: {got}")
        for c, f in table.items():
            if c in got:
                T.close(got[c]["energy"], f(cm), key + ":energy", 1e-12, note=note)
                T.close(got[c]["bf"], bf[CH.index(c)], key + ":bf", 1e-12, note=note)
    else:
        raise ValueError(q)
    T.state(tuple(sig), cm, q, type(e).__name__, np.shape(e))


QUERIES = ["xs", "bf", "g", "p", "gt", "pt", "gf", "pf", "gl", "pl"]
PATTERNS = [[1.0, 0.0, 2.0, 3.0], [0.0, 0.0, 0.0, 0.0], [0.5, 2.5, 0.0, 1.0]]
OPS = [("set", 0), ("set", 1), ("set", 2)] + [(q, i) for q in ("bf", "g", "p", "gl", "pl") for i in (1, 2)]


def cases(tier):
    for pat in itertools.product((0.0, 1.0, 2.5), repeat=4):
        for scale in (1.0, 1e-60, 1e25):
            yield ["config", list(pat), scale]
    depth = 4 if tier == "quick" else 5
    for d in range(2, depth + 1):
        for h in itertools.product(range(len(OPS)), repeat=d):
            # a history ends with a query, and one that never changes anything is covered by its suffix
            if OPS[h[-1]][0] != "set" and OPS[h[0]][0] != "set":
                yield ["history", list(h)]


def run(spec, T):
    if spec[0] == "config":
        sig = [s * spec[2] for s in spec[1]]
        m = make(sig)
        for cm in CMS:
            for q in QUERIES:
                forms = FORMS if q in ("g", "p", "gt", "pt", "gf", "pf") else {"float": 12.5}
                for name, e in forms.items():
                    query(T, m, sig, q, cm, e, f"sigma={sig} e_cm={cm} {q}({name})")
        T.outcome(m.annihilation_branching_fractions(1000.0))
    else:
        sig = PATTERNS[0]
        m = make(sig)
        held = []
        for n, o in enumerate(spec[1]):
            op, i = OPS[o]
            note = f"history {[OPS[x] for x in spec[1][:n + 1]]}"
            if op == "set":
                sig = PATTERNS[i]
                m.sig = list(sig)
                T.step()
            else:
                query(T, m, sig, op, CMS[i], FORMS["arr5"], note)
                # what a caller does with a result must not reach the model
                r = {"g": m.spectra, "p": m.positron_spectra}.get(op)
                if r is not None:
                    d = r(FORMS["arr5"].copy(), CMS[i])
                    for k in d:
                        if isinstance(d[k], np.ndarray):
                            d[k] *= -7.0
                    held.append(d)
        T.state("h", tuple(sig), spec[1][-1])
