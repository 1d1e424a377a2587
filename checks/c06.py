"""Fisher-information limits against a matrix assembled from the definition."""
import itertools

import numpy as np

from checks import _limits

ID = "C06"
PROP = dict(
    title="Fisher limits invert the information matrix of signal and background",
    statement=(
        "For any model, telescope, target, observing time and parametric background, the Fisher matrix is symmetric and "
        "each entry is the observing time times the integral over energy of the effective area times the two derivatives of "
        "the expected flux (signal rate or background parameter) over the background flux, all for the same target. The "
        "limit on a parameter at a given number of standard deviations is that number times the square root of the "
        "corresponding entry of the inverse, so it scales with significance and with the inverse root of time, and "
        "marginalising over background parameters never makes it stronger."),
    quantifier=dict(over=["inputs", "configurations"],
                    text="all combinations of model kind, mass, spectrum, effective area, target, background model and grid"),
    why_tests_cant="The Fisher limits have no tests at all.",
    anchors=dict(files=["hazma/theory/_theory_gamma_ray_limits.py", "hazma/background_model.py", "hazma/gamma_ray_parameters.py"],
                 mechanism=[dict(name="fisher / FisherResults", where="hazma/theory/_theory_gamma_ray_limits.py"),
                            dict(name="fisher_limit", where="hazma/theory/_theory_gamma_ray_limits.py")]),
)
TECHNIQUE = "exhaustive enumeration of configurations against an independently assembled information matrix"
LEVEL_NOTE = ("Full product of 2 kinds x 2-4 masses x 4 spectra x 2 effective areas x 2 targets x 4 backgrounds x 3 grids; "
              "matrix entries by an independent trapezoidal rule, the limit by an independent linear solve.")
RULE = "one case per configuration; non-trivial when a Fisher matrix and a limit were compared"
CHUNK = 4

A_EFF = {
    "flat": (np.array([0.2, 1.0, 4.5]), np.array([50.0, 50.0, 50.0])),
    "rise": (np.array([0.3, 2.0, 30.0, 200.0]), np.array([1.0, 120.0, 400.0, 380.0])),
}
TARGETS = [dict(J=1e29, D=5e25, dOmega=1.4), dict(J=3e30, D=1e24, dOmega=0.02, vx=1e-3)]
GRIDS = [("n", 20), ("n", 101), ("explicit", 33)]


def bg(name):
    from hazma.background_model import ParametricBackgroundModel
    from hazma.gamma_ray_parameters import GalacticCenterBackgroundModel, GeccoBackgroundModel

    class One(ParametricBackgroundModel):
        params = {"amp": 3e-3}

        def dPhi_dEdOmega(self, e):
            return 3e-3 * e ** -1.7

        def derivatives(self, e):
            return {"amp": e ** -1.7}

    class Fixed(ParametricBackgroundModel):
        params = {}

        def dPhi_dEdOmega(self, e):
            return 3e-3 * e ** -1.7

        def derivatives(self, e):
            return {}
    return {"one": One, "fixed": Fixed, "gecco": GeccoBackgroundModel,
            "gc": lambda: GalacticCenterBackgroundModel(0.02, 1.4, 3.0, 1.5, 0.005, 2.5)}[name]()


def cases(tier):
    mxs = [3.0, 110.0] if tier == "quick" else [3.0, 20.0, 50.0, 110.0]
    for kind, mx, s, t, a, b in itertools.product(("ann", "dec"), mxs, ("power", "hump", "low", "flat"), range(2), A_EFF,
                                                  ("one", "fixed", "gecco", "gc")):
        if b == "gc" and a == "rise":
            continue
        yield ["fisher", kind, mx, s, t, a, b]
    for p in itertools.product((0.01, 0.03), (1.2, 2.2), (1.5, 4.0), (0.8, 2.0), (0.004,), (2.0, 2.9)):
        yield ["gc", list(p)]
    for p in itertools.product((0.001, 0.008), (1.5, 2.0, 3.0)):
        yield ["gecco", list(p)]


def res(e):
    return 0.05 + 0.0 * e


def _limits_module():
    import hazma.theory._theory_gamma_ray_limits as m
    return m


def run(spec, T):
    if spec[0] in ("gc", "gecco"):
        from hazma.gamma_ray_parameters import GalacticCenterBackgroundModel as GC, GeccoBackgroundModel as GE
        cls, p = (GC if spec[0] == "gc" else GE), spec[1]
        m = cls(*p)
        e = np.geomspace(0.15, 5.0, 11)
        T.close(list(m.params.values()), p, f"{spec[0]}:params", 1e-12, note=str(spec))
        f = (p[0] * e ** -p[1] * np.exp(-(e / p[2]) ** p[3]) + p[4] * e ** -p[5]) if spec[0] == "gc" else p[0] * e ** -p[1]
        T.close(m.dPhi_dEdOmega(e), f, f"{spec[0]}:flux", 1e-10, note=str(spec))
        d = m.derivatives(e)
        T.check(list(d) == list(m.params), f"{spec[0]}:derivative-keys", f"{list(d)} {list(m.params)}")
        for i, k in enumerate(m.params):
            h = 1e-5 * p[i]
            up, dn = list(p), list(p)
            up[i] += h
            dn[i] -= h
            T.step()
            num = (cls(*up).dPhi_dEdOmega(e) - cls(*dn).dPhi_dEdOmega(e)) / (2 * h)
            T.close(d[k], num, f"{spec[0]}:derivative:{k}", 1e-4, 1e-9 * np.max(np.abs(num)), note=str(spec))
        return
    from scipy.interpolate import interp1d
    from hazma.target_params import TargetParams
    from hazma.theory._theory_gamma_ray_limits import fisher
    _, kind, mx, s, t, a, b = spec
    tgt = TARGETS[t]
    model = _limits.make(kind, mx, s)
    target = TargetParams(**tgt)
    x, y = A_EFF[a]
    aeff = interp1d(x, y)
    back = bg(b)
    names = ["rate"] + list(back.params)
    n = len(names)
    if kind == "ann":
        pre = tgt["dOmega"] * tgt["J"] / (4 * np.pi * 4 * mx * mx)
    else:
        pre = tgt["dOmega"] * tgt["D"] / (4 * np.pi * mx)
    for gk, gv in GRIDS:
        grid = np.geomspace(x[0], x[-1], gv)
        if gk == "explicit":
            grid = np.unique(np.concatenate([x, x[0] + (x[-1] - x[0]) * np.linspace(0, 1, gv) ** 2]))
        grid = np.clip(grid, x[0], x[-1])
        cm = (2 * mx * (1 + 0.5e-6),) if kind == "ann" else ()
        dnde = model.total_conv_spectrum_fn(np.min(grid), np.max(grid), *cm, res)
        der = back.derivatives(grid)
        d = [pre * dnde(grid)] + [der[k] * tgt["dOmega"] for k in names[1:]]
        pb = back.dPhi_dEdOmega(grid) * tgt["dOmega"]
        tobs = 2e7
        F = np.array([[tobs * np.trapezoid(d[i] * d[j] / pb * aeff(grid), grid) for j in range(n)] for i in range(n)])
        kw = dict(n_grid=gv) if gk == "n" else dict(e_grid=grid)
        T.step(2)
        r = fisher(model, aeff, res, target, back, tobs, **kw)
        M = np.asarray(r.fisher_matrix)
        note = f"{spec} grid {gk} {gv}"
        T.check(list(r.params) == names, "names", lambda: f"{note}: {list(r.params)}")
        if M.shape != F.shape:
            T.check(False, "shape", note)
            continue
        for i in range(n):
            T.close(M[i], F[i], f"matrix:{'rate' if i == 0 else 'background'}", 1e-6, 1e-6 * np.sqrt(F[i, i] * np.max(np.diag(F))), note=note)
        T.close(M, M.T, "symmetric", 1e-9, note=note)
        # normalise before inverting: entries span many decades
        q = 1 / np.sqrt(np.diag(F))
        C = F * np.outer(q, q)
        if F[0, 0] > 0 and np.linalg.cond(C) < 1e6:
            sol = np.linalg.solve(C, np.eye(n)[0])[0]
            var = sol * q[0] ** 2
            lims = model.fisher_limit(aeff, res, target, back, tobs, sigma_levels=[1.0, 3.0, 5.0], **kw)
            T.close(lims, np.array([1.0, 3.0, 5.0]) * np.sqrt(var), f"limit:{kind}", 1e-3, note=note)
            T.close(r.limit(3.0), 3 * np.sqrt(var), "results:limit", 1e-3, note=note)
            T.close(r.limit(2.0, key=names[-1]), 2 * np.sqrt(np.linalg.solve(C, np.eye(n)[-1])[-1]) * q[-1], "results:limit:key", 1e-3, note=note)
            four = model.fisher_limit(aeff, res, target, back, 4 * tobs, **kw)
            T.close(four, [5.0 * np.sqrt(var) / 2], f"limit:time:{kind}", 1e-3, note=note)
            T.check(lims[0] >= 0.999 / np.sqrt(F[0, 0]), "marginalised", note)
            T.outcome(np.array(lims))
        T.state(spec, gk, gv)
        if gk == "n" and gv == 101:
            # velocity of the dark matter and degree of the interpolation are the caller's
            for vx, k in ((2e-2, 1), (1e-3, 3), (2e-2, 2)):
                cm = (2 * mx * (1 + 0.5 * vx * vx),) if kind == "ann" else ()
                from scipy.interpolate import InterpolatedUnivariateSpline as Spl
                ds = pre * model.total_conv_spectrum_fn(np.min(grid), np.max(grid), *cm, res)(grid)
                want = tobs * Spl(grid, ds * ds / pb * aeff(grid), k=k).integral(x[0], x[-1])
                T.step(2)
                r = fisher(model, aeff, res, target, back, tobs, vx=vx, k=k, **kw)
                T.close(np.asarray(r.fisher_matrix)[0, 0], want, f"matrix:options:{kind}", 1e-6, 1e-9 * abs(F[0, 0]), note=f"{note} vx={vx} k={k}")
                if n == 1 and want > 0:
                    l = model.fisher_limit(aeff, res, target, back, tobs, vx=vx, k=k, sigma_levels=(2.0,), **kw)
                    T.close(l, [2.0 / np.sqrt(want)], f"limit:options:{kind}", 1e-6, note=f"{note} vx={vx} k={k}")
    flux = getattr(_limits_module(), "_differential_signal_flux_prefactor", None)
    if flux is not None:
        # a particle that is its own antiparticle annihilates twice as often at equal density
        for sc, f in ((False, 1.0), (True, 2.0)):
            T.step()
            T.close(flux(model, target, sc), pre * (f if kind == "ann" else 1.0), f"prefactor:{kind}", 1e-9, note=f"{spec} self-conjugate {sc}")
    T.check(model.mx == mx and target.J == tgt["J"], "model-changed", str(spec))
