"""Projected (unbinned) limits: the best energy window among all windows of the grid."""
import itertools

import numpy as np

from checks import _limits

ID = "C05"
PROP = dict(
    title="Projected limits come from the best of all energy windows",
    statement=(
        "For any annihilating or decaying model, effective area, energy resolution, observing time, target and background, "
        "the projected limit is the rate at which, in the energy window (among all pairs of grid energies) where it is "
        "largest, the number of signal photons equals the requested significance times the square root of the number of "
        "background photons. It therefore scales exactly as significance over the square root of time times exposure, "
        "never gets worse when grid energies are added, and neither the model nor the target, background or grid "
        "passed in is changed."),
    quantifier=dict(over=["inputs", "configurations"],
                    text="all combinations of model kind, mass, spectrum, effective area, target, background, grid and significance"),
    why_tests_cant="The tests compare a few existing-telescope limits with stored numbers; window selection and factors "
                   "need an exhaustive window search and varied exposures.",
    anchors=dict(files=["hazma/theory/_theory_gamma_ray_limits.py"],
                 mechanism=[dict(name="unbinned_limit", where="hazma/theory/_theory_gamma_ray_limits.py")]),
)
TECHNIQUE = "exhaustive enumeration of configurations and of all energy windows against a reference photon count"
LEVEL_NOTE = ("Full product of 2 kinds x 3 masses x 4 spectra (with/without line) x 3 effective areas x 3 targets x 2 "
              "backgrounds x 4 grids; every window of every grid is counted independently by the trapezoidal rule.")
RULE = "one case per configuration, several grids and significances each; non-trivial when a limit was compared"
CHUNK = 6

A_EFF = {
    "flat": (np.array([1.0, 10.0, 100.0]), np.array([50.0, 50.0, 50.0])),
    "rise": (np.array([0.5, 2.0, 30.0, 200.0]), np.array([1.0, 120.0, 400.0, 380.0])),
    "narrow": (np.array([20.0, 60.0]), np.array([900.0, 300.0])),
}
BG = {"power": lambda e: 2.74e-3 / np.asarray(e, float) ** 2, "flat": lambda e: 1e-4 + 0 * np.asarray(e, float)}
TARGETS = [dict(J=1e29, D=5e25, dOmega=1.4), dict(J=3e30, D=1e24, dOmega=0.02, vx=3e-2)]
GRIDS = [("n", 20), ("n", 7), ("explicit", [0.0, 0.3, 0.5, 0.8, 1.0]), ("explicit", [0.2, 0.6])]


def cases(tier):
    mxs = [20.0, 110.0] if tier == "quick" else [20.0, 50.0, 110.0, 400.0]
    for kind, mx, s, ln, t, a, b in itertools.product(("ann", "dec"), mxs, ("power", "hump", "low", "flat"), (False, True),
                                                      range(len(TARGETS)), A_EFF, BG):
        yield ["unbinned", kind, mx, s, ln, t, a, b]


def res(e):
    return 0.05 + 0.0 * e


def run(spec, T):
    from scipy.interpolate import interp1d
    from hazma.background_model import BackgroundModel
    from hazma.target_params import TargetParams
    _, kind, mx, s, ln, t, a, b = spec
    tgt = TARGETS[t]
    model = _limits.make(kind, mx, s, lines=ln)
    target = TargetParams(**tgt)
    x, y = A_EFF[a]
    aeff = interp1d(x, y)
    bg = BackgroundModel([0.01, 1e5], BG[b])
    cm = (2 * mx * (1 + 0.5 * tgt.get("vx", 1e-3) ** 2),) if kind == "ann" else ()
    dnde = model.total_conv_spectrum_fn(x[0], x[-1], *cm, res)
    knots = np.asarray(dnde.get_knots())
    fs, fb = dnde(knots) * aeff(knots), BG[b](knots) * aeff(knots)

    def count(f, lo, hi):
        p = np.unique(np.concatenate([[lo], knots[(knots > lo) & (knots < hi)], [hi]]))
        return np.trapezoid(np.interp(p, knots, f), p)

    if kind == "ann":
        pre = tgt["dOmega"] * tgt["J"] / (4 * np.pi * 4 * mx * mx)
    else:
        pre = tgt["dOmega"] * tgt["D"] / (4 * np.pi * mx)
    for gi, (gk, gv) in enumerate(GRIDS):
        grid = np.geomspace(x[0], x[-1], gv) if gk == "n" else x[0] * (x[-1] / x[0]) ** np.array(gv)
        grid = np.clip(grid, x[0], x[-1])
        wins = list(itertools.combinations(range(len(grid)), 2))
        best = max(count(fs, grid[i], grid[j]) / np.sqrt(count(fb, grid[i], grid[j])) for i, j in wins)
        T.step(len(wins))
        for tobs, ns in ((1e6, 5.0), (3.7e7, 2.0)):
            # N_S = rate * pre * best-window * T ; N_B = dOmega * T * ...
            want = ns * np.sqrt(tgt["dOmega"] * tobs) / (pre * tobs * best) if best > 0 else np.inf
            kw = dict(n_grid=gv) if gk == "n" else dict(e_grid=grid)
            if (gk, gv) == ("n", 20) and ns == 5.0:
                kw = {}
            else:
                kw["n_sigma"] = ns
            keep = grid.copy()
            got = model.unbinned_limit(aeff, res, tobs, target, bg, **kw)
            T.close(float(got), want, f"limit:{kind}:{gk}", 1e-5, note=f"{spec} grid {gk} {gv} n_sigma={ns} T={tobs}")
            T.check(np.array_equal(keep, grid), "grid-changed", str(spec))
            T.state(spec, gi, ns)
            T.outcome(want)
    T.check(model.mx == mx and vars(target) == dict(J=tgt["J"], D=tgt["D"], dOmega=tgt["dOmega"], vx=tgt.get("vx", 1e-3)),
            "model-changed", str(spec))
