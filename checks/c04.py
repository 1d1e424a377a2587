"""Binned limits: every (model, binning, data, target, significance, method) of a lattice."""
import itertools

import numpy as np

from checks import _limits

ID = "C04"
PROP = dict(
    title="Binned gamma-ray limits are the tightest rate allowed by the measured bins",
    statement=(
        "For any annihilating or decaying model and any binned flux measurement, the one-bin limit is the smallest rate "
        "at which the flux predicted for the target (J-factor with the non-self-conjugate factor for annihilation, "
        "D-factor for decay, over the target's solid angle and at the target's velocity) reaches some bin's measurement "
        "plus the requested number of upper error bars, and infinite when no bin gets signal. The chi-squared limit uses "
        "only bins overshot by the unit-rate flux and is infinite when there are none, and an unknown method is refused. "
        "Asking for a limit changes neither the measurement nor the model, so it can be asked again with the same answer."),
    quantifier=dict(over=["inputs", "configurations"],
                    text="all combinations of model kind, mass, spectrum, binning, data, target, significance and method"),
    why_tests_cant="No stable test evaluates a binned limit with known data; which bins enter and with which factor only "
                   "shows across bin widths, targets and model kinds.",
    anchors=dict(files=["hazma/theory/_theory_gamma_ray_limits.py", "hazma/flux_measurement.py"],
                 mechanism=[dict(name="binned_limit", where="hazma/theory/_theory_gamma_ray_limits.py"),
                            dict(name="constrain_one_bin / constrain_chi_squared",
                                 where="hazma/theory/_theory_gamma_ray_limits.py")]),
)
TECHNIQUE = "exhaustive enumeration of a configuration lattice against a reference written from the limit's definition"
LEVEL_NOTE = ("Full product of 2 kinds x 4 (thorough 6) masses x 5 spectra (with and without a line) x 4 binnings x 4 data sets x 3 "
              "targets, each with 2 methods x 3 significances; fluxes recomputed by quadrature of the convolved spectrum, "
              "which property C03 decides.")
RULE = "one case per (kind, mass, spectrum, binning, data, target); non-trivial when a limit was compared"
CHUNK = 12

BINS = {
    "log": (np.geomspace(1, 50, 7)[:-1], np.geomspace(1, 50, 7)[1:]),
    "lin": (np.linspace(1, 60, 9)[:-1], np.linspace(1, 60, 9)[1:]),
    "gaps": (np.array([1.0, 4.0, 20.0, 60.0]), np.array([2.5, 12.0, 45.0, 63.0])),
    "one": (np.array([5.0]), np.array([30.0])),
}
DATA = ["falling", "rising", "precise_last", "zero_flux"]
TARGETS = [dict(J=1e29, D=5e25, dOmega=1.4), dict(J=3e30, D=1e24, dOmega=0.02, vx=3e-2), dict(J=2e27, D=7e25, dOmega=10.8, vx=1e-3)]
NSIG = [0.5, 2.0, 5.0]


def cases(tier):
    mxs = [20.0, 50.0, 110.0, 400.0] if tier == "quick" else [20.0, 50.0, 80.0, 150.0, 400.0, 3000.0]
    lines = [False, True]
    for kind, mx, s, ln, b, d, t in itertools.product(("ann", "dec"), mxs, _limits.SPECTRA, lines, BINS, DATA, range(len(TARGETS))):
        if tier == "quick" and ln and (s not in ("power", "zero") or d == "rising"):
            continue
        yield ["limit", kind, mx, s, ln, b, d, t]


def data(b, d):
    lo, hi = BINS[b]
    e = 0.5 * (lo + hi)
    n = len(e)
    i = np.arange(n)
    flux = {"falling": 3e-3 / e ** 2, "rising": 1e-6 * e, "precise_last": 2e-3 / e ** 1.5, "zero_flux": np.where(i % 2 == 0, 0.0, 1e-4)}[d]
    up = {"falling": 0.3 * flux, "rising": 1e-6 * (1 + i), "precise_last": np.where(i == n - 1, 0.01, 0.5) * flux,
          "zero_flux": 1e-5 * np.ones(n)}[d]
    low = 2.5 * up
    return lo, hi, e, flux, up, low


def resolution(en):
    return 0.1 + 0.0 * en


def ref_flux(kind, mx, tgt, dnde, lo, hi):
    """dPhi integrated over each bin for unit rate, by Gauss-Legendre between the spline's knots."""
    if kind == "ann":
        pre = tgt["dOmega"] * tgt["J"] / (4 * np.pi * mx * mx * 4.0)
    else:
        pre = tgt["dOmega"] * tgt["D"] / (4 * np.pi * mx)
    knots = np.asarray(dnde.get_knots())
    x, w = np.polynomial.legendre.leggauss(4)
    res = []
    for a, b in zip(lo, hi):
        p = np.unique(np.concatenate([[a], knots[(knots > a) & (knots < b)], [b]]))
        h, c = 0.5 * np.diff(p)[:, None], 0.5 * (p[1:] + p[:-1])[:, None]
        q = np.clip(c + h * x, knots[0], knots[-1])
        res.append(pre * np.sum(h * w * dnde(q.ravel()).reshape(q.shape)))
    return np.array(res)


def run(spec, T):
    from scipy.stats import chi2, norm
    from hazma.flux_measurement import FluxMeasurement
    from hazma.target_params import TargetParams
    _, kind, mx, s, ln, b, d, t = spec
    tgt = TARGETS[t]
    lo, hi, e, flux, up, low = data(b, d)
    model = _limits.make(kind, mx, s, lines=ln)
    target = TargetParams(**tgt)
    meas = FluxMeasurement(lo.copy(), hi.copy(), flux * e ** 2, (flux + up) * e ** 2, (flux - low) * e ** 2,
                           resolution, target)
    dnde_args = (lo[0], hi[-1]) + ((2 * mx * (1 + 0.5 * tgt.get("vx", 1e-3) ** 2),) if kind == "ann" else ()) + (meas.energy_res,)
    phi = ref_flux(kind, mx, tgt, model.total_conv_spectrum_fn(*dnde_args), lo, hi)
    w = tgt["dOmega"] * (hi - lo)
    keep = [np.array(getattr(meas, a), copy=True) for a in ("e_lows", "e_highs", "fluxes", "upper_errors", "lower_errors")]
    for n in NSIG:
        note = f"{spec} n_sigma={n}"
        pos = phi > 0
        want1 = np.min((w * (flux + n * up))[pos] / phi[pos]) if np.any(pos) else np.inf
        over = np.maximum(phi - w * flux, 0.0)
        c2 = np.sum((over / (w * up)) ** 2)
        want2 = np.sqrt(chi2.ppf(norm.cdf(n), df=len(phi)) / c2) if c2 > 0 else np.inf
        T.step(2)
        T.close(float(model.binned_limit(meas, n_sigma=n, method="1bin")), want1, f"one-bin:{kind}", 1e-5, note=note)
        got2 = float(model.binned_limit(meas, n_sigma=n, method="chi2"))
        if not (np.isfinite(want2) and np.any((over > 0) & (over < 1e-4 * phi))):
            T.close(got2, want2, f"chi2:{kind}", 1e-4, note=note)
        T.state(spec, n)
    T.close(float(model.binned_limit(meas)), float(model.binned_limit(meas, n_sigma=2.0)), "default-significance", 1e-12, note=str(spec))
    for a, k in zip(("e_lows", "e_highs", "fluxes", "upper_errors", "lower_errors"), keep):
        T.check(np.array_equal(getattr(meas, a), k), "measurement-changed", f"{spec}: {a}")
    T.check(model.mx == mx and vars(target) == dict(J=tgt["J"], D=tgt["D"], dOmega=tgt["dOmega"], vx=tgt.get("vx", 1e-3)), "model-changed", str(spec))
    try:
        model.binned_limit(meas, method="nonsense")
        T.check(False, "unknown-method", str(spec))
    except Exception:
        T.check(True, "unknown-method")
    T.outcome(want1, want2)
