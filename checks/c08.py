"""Constraint scans: every point of the image is the constraint of a freshly built model."""
import itertools

import numpy as np

from checks import _limits

ID = "C08"
PROP = dict(
    title="Constraint scans report each grid point's own constraint",
    statement=(
        "For every parameter plane and every grid shape (square or not), each pixel of each image returned by a constraint "
        "scan is the constraint of a freshly built model with the parameters of that pixel, first parameter along columns "
        "and second along rows, regardless of what the model was before or which points were visited earlier. The "
        "gamma-ray scan's pixel is, over all bins, the smallest excess of the allowed flux over the flux predicted from the "
        "model's own annihilation rate in the measurement's units. A scan leaves the model's parameters as they were, and "
        "scanning a parameter against itself or an unknown method is refused."),
    quantifier=dict(over=["histories", "configurations", "inputs"],
                    text="all grid shapes up to 4x4, all orderings of grid values, parameter pairs and preceding scans"),
    why_tests_cant="No test runs a scan; stale state and transposed or square-only images need non-square grids and "
                   "repeated scans on one model.",
    anchors=dict(files=["hazma/theory/_theory_constrain.py"],
                 mechanism=[dict(name="constrain / custom_constrain / constrain_binned_gamma",
                                 where="hazma/theory/_theory_constrain.py")]),
)
TECHNIQUE = "explicit-state exploration of scan histories (all grid shapes and scan sequences) against freshly built models"
LEVEL_NOTE = ("All grid shapes up to 4x4 x all ordered pairs of 3 parameters x 3 value orders x scan sequences of length up to "
              "3 (constrain, custom_constrain, gamma scan, failing scan), on a model with derived state kept by setters.")
RULE = "one case per (shape, parameter pair, value order, scan sequence); non-trivial when a pixel was compared"
CHUNK = 16

VALS = {"a": [1.5, 0.5, 4.0, 2.5], "b": [-1.0, 3.0, 0.25, 7.0], "mx": [30.0, 90.0, 55.0, 210.0]}
ORDERS = [lambda v: sorted(v), lambda v: sorted(v, reverse=True), lambda v: v,
          # whole-numbered grids (passed as integers)
          lambda v: [float(2 * i + 1) for i in range(len(v))]]
START = dict(a=2.0, b=1.0, mx=60.0)
OPS = ["constrain", "custom", "gamma", "raise"]


def make(a, b, mx):
    base = type(_limits.make("ann", mx, "power")).__mro__[1]  # without the memo

    class M(base):
        """Parameters behind setters that keep derived state (as the real models do)."""

        def __init__(self, a, b, mx):
            self._b = b
            self._a = a
            self.mx = mx
            self.boom = False
            self._upd()

        def _upd(self):
            self._c = self._a * 10 + self._b

        a = property(lambda s: s._a, lambda s, v: (setattr(s, "_a", v), s._upd())[0])
        b = property(lambda s: s._b, lambda s, v: (setattr(s, "_b", v), s._upd())[0])

        def _x(self):
            return {"a b": lambda e_cm: 1e-16 * self._a, "g g": lambda e_cm: 1e-17 * abs(self._b)}

        annihilation_cross_section_funcs = _x
        _annihilation_cross_section_funcs = _x

        def total_conv_spectrum_fn(self, *args, **kw):
            key = (self._a, self._b, self.mx, args, tuple(kw.items()))
            if key not in _MEMO:
                _MEMO[key] = super().total_conv_spectrum_fn(*args, **kw)
            return _MEMO[key]

        def constraints(self):
            def bad():
                if self.boom and self._a == 4.0:
                    raise RuntimeError("boom")
                return self._c - self.mx
            return {"first": lambda: self._a - 0.1 * self._b + 1e-3 * self.mx, "second": bad,
                    "third": lambda: 100.0 * self._c + self.mx}
    return M(a, b, mx)


_MEMO = {}


def cases(tier):
    shapes = list(itertools.product(range(1, 5), repeat=2))
    pairs = list(itertools.permutations(VALS, 2))
    depth = 2 if tier == "quick" else 3
    for sh, pr in itertools.product(shapes, range(len(pairs))):
        for o in range(len(ORDERS)):
            yield ["scan", sh[0], sh[1], pairs[pr], o, ["constrain"]]
            yield ["scan", sh[0], sh[1], pairs[pr], o, ["custom"]]
    small = [(1, 2), (2, 1), (2, 2), (3, 2)]
    for sh, pr in itertools.product(small, pairs):
        yield ["scan", sh[0], sh[1], pr, 2, ["gamma"]]
        for d in range(2, depth + 1):
            for h in itertools.product(OPS, repeat=d):
                yield ["scan", sh[0], sh[1], pr, 2, list(h)]


def meas():
    from hazma.flux_measurement import FluxMeasurement
    from hazma.target_params import TargetParams
    lo, hi = np.array([1.0, 5.0, 20.0]), np.array([5.0, 20.0, 60.0])
    e = 0.5 * (lo + hi)
    flux = np.array([2e-3, 1e-4, 3e-6])
    t = TargetParams(J=3e30, D=1e24, dOmega=0.03, vx=2e-3)
    return FluxMeasurement(lo, hi, flux * e ** 2, flux * 1.2 * e ** 2, flux * 0.7 * e ** 2, _res, t), flux, 0.2 * flux


def _res(e):
    return 0.1 + 0 * e


def gamma_ref(p, n_sigma=2):
    # integrals of the convolved spectrum: what property C03 decides
    m = make(**p)
    ms, flux, up = meas()
    cm = 2 * m.mx * (1 + 0.5 * 4e-6)
    d = m.total_conv_spectrum_fn(1.0, 60.0, cm, _res)
    sig = 1e-16 * p["a"] + 1e-17 * abs(p["b"])
    sv = sig * (0.1973269804e-10) ** 2 * 2.99792458e10 * 2e-3  # MeV^-2 -> cm^3/s
    res = np.inf
    for i in range(3):
        phi = sv * 3e30 * 0.03 / (4 * m.mx ** 2 * 4 * np.pi) * d.integral(ms.e_lows[i], ms.e_highs[i])
        if phi > 0:
            res = min(res, 0.03 * (ms.e_highs[i] - ms.e_lows[i]) * (flux[i] + n_sigma * up[i]) - phi)
    return res


def run(spec, T):
    _, n1, n2, (p1, p2), o, hist = spec
    v1, v2 = np.array(ORDERS[o](VALS[p1][:n1])), np.array(ORDERS[o](VALS[p2][:n2]))
    m = make(**START)
    start = {k: v for k, v in vars(m).items()}
    for n, op in enumerate(hist):
        note = f"{spec} step {n}"
        T.step()
        if op == "constrain":
            a1, a2 = v1, v2
            if all(float(x).is_integer() for x in [*v1, *v2]):
                a1, a2 = v1.astype(int), v2.astype(int)
            imgs = m.constrain(p1, a1, p2, a2) if o else m.constrain(p1, list(a1), p2, list(a2))
        elif op == "custom":
            grid = np.empty((n2, n1), dtype=object)
            for i, j in itertools.product(range(n2), range(n1)):
                grid[i, j] = make(**{**START, p1: v1[j], p2: v2[i]})
                if (i + j) % 2:     # something only this grid model remembers
                    grid[i, j].remembered = (i, j)
            before = {ij: dict(vars(g)) for ij, g in np.ndenumerate(grid)}
            imgs = m.custom_constrain(grid)
            T.check(all(vars(grid[ij]) == b for ij, b in before.items()), "custom:grid-changed", note)
        elif op == "gamma":
            imgs = {"gamma": m.constrain_binned_gamma(p1, v1, p2, v2, meas()[0])}
        else:
            m.boom = True
            try:
                m.constrain(p1, v1, p2, v2)
            except RuntimeError:
                pass
            m.boom = False
            imgs = {}
        if op in ("constrain", "custom"):
            T.check(list(imgs) == ["first", "second", "third"], op + ":names", lambda: f"{note} {list(imgs)}")
        for cn, img in imgs.items():
            if not T.check(np.shape(img) == (n2, n1), op + ":shape", lambda: f"{note}: {np.shape(img)} for {n1} x {n2} values"):
                continue
            for i, j in itertools.product(range(n2), range(n1)):
                p = {**START, p1: v1[j], p2: v2[i]}
                want = gamma_ref(p) if cn == "gamma" else make(**p).constraints()[cn]()
                T.close(img[i, j], want, f"{op}:pixel", 1e-9 if cn != "gamma" else 1e-6, note=f"{note} {cn} {p}")
                T.state(op, p1, v1[j], p2, v2[i])
        T.check(vars(m) == start, op + ":model-changed", lambda: f"{note}: {vars(m)}")
        T.outcome({k: np.asarray(v) for k, v in imgs.items()})
    for bad in (lambda: m.constrain(p1, v1, p1, v1), lambda: m.constrain_binned_gamma(p1, v1, p2, v2, meas()[0], method="nonsense")):
        try:
            bad()
            T.check(False, "accepted", str(spec))
        except Exception:
            T.check(vars(m) == start, "refused:model-changed", str(spec))
