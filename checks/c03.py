"""Detector-resolution convolution: continuum and lines against an independent quadrature."""
import itertools

import numpy as np

ID = "C03"
PROP = dict(
    title="Convolved spectra fold continuum and lines with the detector response",
    statement=(
        "For every source spectrum, set of monochromatic lines, energy resolution (scalar-only or vectorised, constant "
        "or energy dependent) and energy window, the convolved spectrum at each reconstructed energy is the integral of "
        "the source over true energy times a unit-normalised Gaussian whose width is the resolution at the true energy, "
        "plus each line's branching fraction (twice for a two-photon line) times that Gaussian centred on the line. "
        "A model's convolved gamma-ray and positron spectra are this fold of its own total spectrum and lines, and "
        "asking outside the window is refused rather than extrapolated."),
    quantifier=dict(over=["inputs", "configurations"],
                    text="all combinations of resolution function, source shape, line content and energy window"),
    why_tests_cant="The tests fold two shapes with two resolutions; which energy sets the width, how lines are counted and "
                   "what happens with edges only shows for combinations of shape, resolution and line content.",
    anchors=dict(files=["hazma/parameters.py", "hazma/theory/__init__.py"],
                 mechanism=[dict(name="convolved_spectrum_fn", where="hazma/parameters.py"),
                            dict(name="total_conv_spectrum_fn", where="hazma/theory/__init__.py")]),
)
TECHNIQUE = "exhaustive enumeration of a configuration lattice against an independent quadrature of the response integral"
LEVEL_NOTE = ("Full product of 7 resolutions x 6 continua x 6 line sets x 3 windows x 2 grid sizes for the fold itself, and of "
              "models (annihilating/decaying) x resolutions x windows for the model-level entry points.")
RULE = "one case per point of the configuration lattice; non-trivial when a fold was compared with the quadrature"
CHUNK = 4


def _res_step(e):
    return 0.1 if e < 10 else 0.2


RES = {
    "const": lambda e: 0.05,
    "const_arr": lambda e: 0.12 * np.ones_like(np.asarray(e, float)),
    "fine": lambda e: 0.02,
    "power": lambda e: 0.2 * np.asarray(e, float) ** -0.25,
    "rising": lambda e: 0.05 + 0.05 * np.log1p(e) / 5,
    "scalar_only_step": _res_step,
    "coarse": lambda e: 0.5,
}
SRC = {
    "none": None,
    "zero": lambda e: np.zeros_like(e),
    "power": lambda e: e ** -1.5,
    "box": lambda e: np.where((e > 3.0) & (e < 6.0), 0.4, 0.0),
    "hump": lambda e: np.exp(-0.5 * ((e - 4.0) / 1.0) ** 2),
    "cut": lambda e: np.where(e < 20.0, 1.0 / e, 0.0),
}
LINES = {
    "none": None,
    "empty": {},
    "gg": {"g g": {"energy": 5.0, "bf": 0.3}},
    "pg": {"pi0 g": {"energy": 4.0, "bf": 0.7}},
    "both": {"g g": {"energy": 5.0, "bf": 0.25}, "pi0 g": {"energy": 3.5, "bf": 0.5}, "e e": {"energy": 8.0, "bf": 0.0}},
    "outside": {"pi0 g": {"energy": 0.05, "bf": 0.5}, "g g": {"energy": 700.0, "bf": 0.5}},
}
WIN = [(1.0, 10.0), (0.3, 60.0), (4.5, 5.5)]


def cases(tier):
    npts = [300] if tier == "quick" else [300, 1000]
    for r, s, l, w, n in itertools.product(RES, SRC, LINES, range(len(WIN)), npts):
        yield ["fold", r, s, l, w, n]
    for kind, r, w in itertools.product(["ann", "dec"], RES, range(len(WIN))):
        yield ["model", kind, r, w]


def gauss(x, mu, s):
    return np.exp(-0.5 * ((x - mu) / s) ** 2) / (np.sqrt(2 * np.pi) * s)


def reference(es, res, src, lines, lo, hi, breaks=(3.0, 6.0, 20.0, 10.0)):
    """The response integral by composite Gauss-Legendre in log energy, broken at the source's edges."""
    out = np.zeros_like(es)
    if src is not None:
        pts = np.unique(np.concatenate([np.log(lo) + (np.log(hi) - np.log(lo)) * np.linspace(0, 1, 900),
                                        np.log([b for b in breaks if lo < b < hi])]))
        x, w = np.polynomial.legendre.leggauss(8)
        a, b = pts[:-1, None], pts[1:, None]
        t = (0.5 * (b + a) + 0.5 * (b - a) * x).ravel()
        wt = (0.5 * (b - a) * w).ravel()
        E = np.exp(t)
        S = src(E) * E * wt
        sig = E * np.array([float(res(v)) for v in E])
        out = np.array([np.sum(S * gauss(e, E, sig)) for e in es])
    for ch, ln in (lines or {}).items():
        out = out + ln["bf"] * (2.0 if ch == "g g" else 1.0) * gauss(es, ln["energy"], ln["energy"] * float(res(ln["energy"])))
    return out


def compare(T, fn, res, src, lines, win, key, note):
    lo, hi = win
    knots = np.asarray(fn.get_knots())
    T.check(abs(knots[0] / lo - 1) < 1e-9 and abs(knots[-1] / hi - 1) < 1e-9, key + ":window", lambda: f"{note}: window {knots[[0, -1]]}")
    es = knots[np.unique(np.linspace(0, len(knots) - 1, 9).astype(int))]
    es = np.clip(es, lo, hi)
    got = fn(es)
    want = reference(es, res, src, lines, 0.1 * lo, 10 * hi)
    scale = np.max(np.abs(want)) if want.size else 0.0
    edge = src in (SRC["box"], SRC["cut"])  # a trapezoidal rule is off by its spacing at a jump
    T.close(got, want, key, rtol=4e-3, atol=((0.06 if len(knots) < 900 else 2e-2) if edge else 4e-3) * scale, note=note)
    for bad in (0.5 * lo, 2.0 * hi):
        try:
            v = float(fn(bad))
        except ValueError:
            T.check(True, key)
        else:
            T.check(False, key + ":extrapolated", f"{note}: value {v} at {bad} outside [{lo}, {hi}]")


def run(spec, T):
    if spec[0] == "fold":
        from hazma.parameters import convolved_spectrum_fn, spec_res_fn
        _, r, s, l, w, n = spec
        lines = LINES[l]
        keep = None if lines is None else {k: dict(v) for k, v in lines.items()}
        fn = convolved_spectrum_fn(*WIN[w], RES[r], SRC[s], lines, n)
        T.step()
        compare(T, fn, RES[r], SRC[s], lines, WIN[w], "fold:" + ("lines" if s in ("none", "zero") else "continuum"), str(spec))
        T.check(keep == lines, "fold:argument-changed", str(spec))
        if s == "none" and l == "none":
            for e, ep in itertools.product((0.7, 5.0, 12.0), (0.5, 5.0, 6.0, 13.0)):
                T.step()
                T.close(spec_res_fn(ep, e, RES[r]), gauss(ep, e, e * float(RES[r](e))), "response", 1e-10, note=f"{r} ep={ep} e={e}")
            arr = np.array([0.7, 5.0, 9.0, 12.0])
            T.close(spec_res_fn(5.0, arr, RES[r]), [gauss(5.0, e, e * float(RES[r](e))) for e in arr], "response:array", 1e-10, note=r)
            T.close(spec_res_fn(5.0, 5.0, lambda e: 0.0), 0.0, "response:zero-width")
        T.outcome(np.asarray(fn(0.5 * sum(WIN[w]))))
    else:
        _, kind, r, w = spec
        win = WIN[w]
        if kind == "ann":
            from checks import c01 as base
            m = base.make([1.0, 2.0, 0.5, 3.0])
            for cm in (20.0, 200.0):
                args = (*win, cm, RES[r])
                src = lambda e: base.ref_spec(m.sig, cm, e, base.gspec)["total"]
                psrc = lambda e: base.ref_spec(m.sig, cm, e, base.pspec)["total"]
                bf = base.ref_bf(m.sig, cm)
                gl = {c: dict(energy=f(cm), bf=bf[base.CH.index(c)]) for c, f in base.GLINES.items()}
                pl = {c: dict(energy=f(cm), bf=bf[base.CH.index(c)]) for c, f in base.PLINES.items()}
                T.step(2)
                compare(T, m.total_conv_spectrum_fn(*args), RES[r], src, gl, win, "model:ann:gamma", f"{spec} e_cm={cm}")
                compare(T, m.total_conv_positron_spectrum_fn(*args), RES[r], psrc, pl, win, "model:ann:positron", f"{spec} e_cm={cm}")
                f = m.total_conv_spectrum_fn(*args, n_pts=57)
                T.check(len(f.get_knots()) in (57, 58), "model:ann:n_pts", f"{spec}: {len(f.get_knots())} knots for n_pts=57")
        else:
            from checks import c02 as base
            w4 = [1.0, 2.0, 0.0, 3.0]
            chans = [0, 1, 2, 3]
            m = base.make(w4, chans)
            bf = base.ref_bf(w4)
            src = lambda e: base.ref_spec(w4, chans, e, base.gspec)["total"]
            psrc = lambda e: base.ref_spec(w4, chans, e, base.pspec)["total"]
            gl = {c: dict(energy=f * base.MX, bf=bf[base.CH.index(c)]) for c, f in base.GL.items()}
            pl = {c: dict(energy=f * base.MX, bf=bf[base.CH.index(c)]) for c, f in base.PL.items()}
            args = (*win, RES[r])
            T.step(2)
            compare(T, m.total_conv_spectrum_fn(*args), RES[r], src, gl, win, "model:dec:gamma", str(spec))
            compare(T, m.total_conv_positron_spectrum_fn(*args), RES[r], psrc, pl, win, "model:dec:positron", str(spec))
            f = m.total_conv_spectrum_fn(*args, n_pts=57)
            T.check(len(f.get_knots()) in (57, 58), "model:dec:n_pts", f"{spec}: {len(f.get_knots())} knots")
        T.outcome(kind, r, w, float(f(0.5 * sum(win))))
