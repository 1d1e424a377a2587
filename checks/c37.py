"""Photon spectra from radiative matrix elements."""
import itertools

import numpy as np

from checks import _ps

ID = "C37"
PROP = dict(
    title="FSR spectra are exact ratios of radiative and non-radiative phase space",
    statement=(
        "For every set of final-state masses, energy, photon energy, pair of squared matrix elements and backend, "
        "dnde_photon_fsr is the fixed-photon-energy phase-space integral of the radiative matrix element over the "
        "non-radiative integral, to its own error estimate, which is honest and shrinks with the number of points; it is zero "
        "outside the open kinematic range, common constants cancel at every magnitude, results with a seed repeat, and scalars "
        "give scalars. Every momentum set handed to a matrix element is on shell in the order of the given masses with the "
        "massless photon last and total invariant mass equal to the energy; meaningless requests are refused."),
    quantifier=dict(over=["inputs", "configurations"],
                    text="mass tuples of 2-4 particles over a set with zero, energies, photon energies on both sides of the ends, matrix elements with closed averages, backends"),
    why_tests_cant="Tests compare two processes with stored values; wrong particle order, off-by-a-factor measures and dishonest errors show only for other masses and matrix elements.",
    anchors=dict(files=["hazma/spectra/_fsr.py", "hazma/phase_space/_rambo.py", "hazma/phase_space/_three_body.py"],
                 mechanism=[dict(name="dnde_photon_fsr", where="hazma/spectra/_fsr.py"),
                            dict(name="_nonrad_integral / _dnde_point_quad / _dnde_point_rambo", where="hazma/spectra/_fsr.py")]),
)
TECHNIQUE = "exhaustive enumeration of masses, energies, matrix elements and backends against closed angular averages, with every matrix-element call monitored"
LEVEL_NOTE = ("2 particles: all pairs over 4 masses x 3 energies x 9 photon energies x 7 radiative and 3 non-radiative elements, both backends; 3 particles: triples x "
              "4 x 3 elements; 4 particles: flat and linear elements. Momenta are monitored at every call.")
RULE = "one case per mass tuple, energy and kind; non-trivial when a spectrum was compared inside its range"
CORE = True
CHUNK = 1

M = [0.0, 0.511, 105.66, 139.57]


def cases(tier):
    for ms in itertools.product(M, repeat=2):
        for d in (1.02, 1.7, 12.0) if tier == "quick" else (1.01, 1.05, 1.3, 1.7, 4.0, 12.0, 40.0):
            yield ["two", list(ms), d]
    trip = [[0.0, 0.0, 0.0], [0.0, 105.66, 139.57], [139.57, 105.66, 0.0], [139.57, 139.57, 135.0], [105.66, 0.511, 0.0], [0.511, 493.7, 139.57]]
    for ms in trip if tier == "quick" else [list(t) for t in itertools.product([0.0, 105.66, 139.57], repeat=3)] + trip[3:]:
        for d in (1.1, 3.0):
            for nr in ("one", "p1p3", "e2"):
                yield ["three", ms, d, nr]
    for ms in ([0.0] * 4, [139.57, 139.57, 135.0, 135.0], [105.66, 0.0, 493.7, 0.511]):
        for d in (1.1, 3.0):
            yield ["four", ms, d]
    yield ["api"]


def dot(a, b):
    return a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]


class Monitor:
    """Wraps a matrix element; looks at every momentum set it is given."""

    def __init__(self, T, f, ms, cme, photon, key):
        self.T, self.f, self.ms, self.cme, self.photon, self.key = T, f, ms, cme, photon, key
        self.calls = 0
        self.points = 0

    def __call__(self, p):
        self.calls += 1
        n = len(self.ms) + self.photon
        self.points += 1 if p.ndim == 2 else p.shape[2]
        if self.calls <= 40 or self.calls % 97 == 0:
            ok = p.shape[:2] == (4, n)
            if ok:
                tot = p.sum(axis=1)
                c = self.cme
                ok = np.allclose(dot(tot, tot), c * c, rtol=1e-7)
                for i, m in enumerate(list(self.ms) + [0.0] * self.photon):
                    ok = ok and np.allclose(dot(p[:, i], p[:, i]), m * m, rtol=1e-5, atol=1e-7 * np.max(p[0, i]) ** 2 + 1e-9 * c * c) and np.all(p[0, i] >= 0)
                sub = p[:, :len(self.ms)].sum(axis=1)
                ok = ok and np.allclose(sub[1:], 0.0, atol=1e-6 * c)
            self.T.check(ok, f"momenta:{self.key}", f"masses {self.ms}, cme {self.cme}: momenta {p if p.ndim == 2 else p[:, :, :1]}")
        return self.f(p)


def ones(p):
    return np.ones(p.shape[2:])


# radiative element, and its average over the pair's direction given (E1, E2, p, eg) in the pair's frame, mu = masses
TWO = {
    "flat": (lambda c: lambda p: ones(p), lambda c, e1, e2, k, g: 1.0),
    "kp1": (lambda c: lambda p: dot(p[:, 2], p[:, 0]) / c ** 2, lambda c, e1, e2, k, g: g * e1 / c ** 2),
    "kp2": (lambda c: lambda p: dot(p[:, 2], p[:, 1]) / c ** 2, lambda c, e1, e2, k, g: g * e2 / c ** 2),
    "kp1sq": (lambda c: lambda p: dot(p[:, 2], p[:, 0]) ** 2 / c ** 4, lambda c, e1, e2, k, g: g * g * (e1 * e1 + k * k / 3) / c ** 4),
    "asym": (lambda c: lambda p: 2e-25 * (dot(p[:, 2], p[:, 0]) ** 3 + c ** 6) / c ** 6,
             lambda c, e1, e2, k, g: 2e-25 * (g ** 3 * (e1 ** 3 + e1 * k * k) / c ** 6 + 1)),
    "pole1": (lambda c: lambda p: 1e20 * c * c / dot(p[:, 2], p[:, 0]),
              lambda c, e1, e2, k, g: 1e20 * c * c / (2 * g * k) * np.log((e1 + k) / (e1 - k))),
    "pole2sq": (lambda c: lambda p: 1e-22 * c ** 4 / dot(p[:, 2], p[:, 1]) ** 2,
                lambda c, e1, e2, k, g: 1e-22 * c ** 4 / (g * g * (e2 - k) * (e2 + k))),
}
NR2 = {
    "one": (lambda c, ms: lambda p: ones(p), lambda c, ms: 1.0),
    "e1": (lambda c, ms: lambda p: dot(p[:, 0], p[:, 0] + p[:, 1]) / c ** 2, lambda c, ms: (c * c + ms[0] ** 2 - ms[1] ** 2) / 2 / c ** 2),
    "angle": (lambda c, ms: lambda p: 1.0 + (p[3, 0] / (np.abs(p[3, 0]) + np.abs(p[1, 0]) + np.abs(p[2, 0]) + 1e-300)) * 0.0 + ones(p), lambda c, ms: 2.0),
}


def lib(es, cme, ms, a, b, **kw):
    from hazma.spectra import dnde_photon_fsr
    return dnde_photon_fsr(es, cme, ms, a, b, **kw)


def photon_energies(cme, ms):
    emax = (cme * cme - sum(ms) ** 2) / (2 * cme)
    f = np.array([1e-4, 0.03, 0.2, 0.5, 0.8, 0.97, 0.999])
    return np.concatenate([[-1.0, 0.0], emax * f, [emax * (1 + 1e-12), 1.3 * emax, cme]]), emax


def run(spec, T):
    globals()["_" + spec[0]](spec, T)


def judge(T, got, want, key, note, mc=0, quad_rtol=1e-5):
    """Value within its own error; error small."""
    T.step(np.size(want))
    v, e = (np.asarray(x, float) for x in got)
    if not T.check(v.shape == np.shape(want) == e.shape, f"{key}:shape", f"{note}: {v.shape} {e.shape}, expected {np.shape(want)}"):
        return
    zero = want == 0
    T.check(np.all(v[zero] == 0) and np.all(e[zero] == 0), f"{key}:outside", f"{note}: {v[zero]}")
    v, e, w = v[~zero], e[~zero], want[~zero]
    T.check(np.all(np.isfinite(v)) and np.all(np.isfinite(e)) and np.all(e >= 0), f"{key}:finite", f"{note}: {v} {e}")
    if mc:
        bad = np.abs(v - w) > 6 * e + 1e-9 * w
        T.check(not np.any(bad), f"{key}:value", lambda: f"{note}: got {v[bad]} +- {e[bad]}, expected {w[bad]}")
        bad = e > mc * w
        T.check(not np.any(bad), f"{key}:error", lambda: f"{note}: error {e[bad]} for {v[bad]}")
    else:
        T.close(v, w, f"{key}:value", rtol=quad_rtol, note=note)
        T.check(np.all(e <= 10 * quad_rtol * w), f"{key}:error", f"{note}: error {e} for {v}")
    T.state(note, key)
    T.outcome(w)


def _two(spec, T):
    _, ms, d = spec
    cme = d * (sum(ms) or 50.0)
    es, emax = photon_energies(cme, ms)
    inside = (es > 0) & (es < emax)
    s = cme * cme
    for name, (mk, avg) in TWO.items():
        m = ms[int(name == "pole2sq")]
        if name.startswith("pole") and not 0.02 * cme < m:
            continue      # collinear divergence: k.p is lost to round-off
        for nr, (mkn, nravg) in NR2.items():
            want = np.zeros_like(es)
            for i in np.flatnonzero(inside):
                sp = s - 2 * cme * es[i]
                q = np.sqrt(sp)
                e1 = (sp + ms[0] ** 2 - ms[1] ** 2) / (2 * q)
                k = float(_ps.mom(sp, *ms))
                g = es[i] * cme / q
                if name == "pole1":
                    v = 1e20 * s / (g * k) * (np.log((e1 + k) / ms[0]))
                elif name == "pole2sq":
                    v = 1e-22 * s * s / (g * g * ms[1] ** 2)
                else:
                    v = avg(cme, e1, q - e1, k, g)
                want[i] = es[i] / (4 * np.pi ** 2) * float(_ps.phi2(q, *ms)) * v
            want /= float(_ps.phi2(cme, *ms)) * nravg(cme, ms)
            a = Monitor(T, mk(cme), ms, cme, 1, "radiative")
            b = Monitor(T, mkn(cme, ms), ms, cme, 0, "non-radiative")
            if nr != "one" and name not in ("flat", "asym", "kp2"):
                continue
            judge(T, lib(es, cme, ms, a, b), want, f"auto:{name}", f"{ms} cme={cme} {nr}")
            if nr == "one":
                judge(T, lib(es, cme, ms, a, b, method="quad", epsrel=1e-4), want, f"loose:{name}", f"{ms} cme={cme}", quad_rtol=1e-3)
                if not name.startswith("pole") or m > 0.2 * cme:
                    judge(T, lib(es, cme, ms, a, b, method="rambo", npts=4000, seed=7), want, f"rambo:{name}", f"{ms} cme={cme}", mc=0.3 if name.startswith("pole") else 0.1)
            T.check(a.calls > 0 and b.calls > 0, "called", f"{ms}")


def mean_energy(q, ms, i):
    """<E_i> over flat phase space."""
    if len(ms) == 2:
        return (q * q + ms[i] ** 2 - ms[1 - i] ** 2) / (2 * q)
    rest = [m for j, m in enumerate(ms) if j != i]
    lo, hi = sum(rest), q - ms[i]
    d = lambda m: 2 * m * _ps.phi2_m(q, ms[i], m) * _ps.phin(m, rest, 32)
    n = _ps.quad(d, lo, hi, 48)
    return _ps.quad(lambda m: d(m) * (q * q + ms[i] ** 2 - m * m) / (2 * q), lo, hi, 48) / n


def rad_want(es, inside, cme, ms, lin):
    """Radiative integral for flat (lin None) and k.p_i elements."""
    out = np.zeros_like(es)
    for i in np.flatnonzero(inside):
        sp = cme * cme - 2 * cme * es[i]
        q = np.sqrt(sp)
        v = float(_ps.phin(q, ms)[0])
        if lin is not None:
            v *= es[i] * cme / q * mean_energy(q, ms, lin) / cme ** 2
        out[i] = es[i] / (4 * np.pi ** 2) * v
    return out


def _three(spec, T):
    _, ms, d, nr = spec
    cme = d * (sum(ms) or 50.0)
    es, emax = photon_energies(cme, ms)
    es = es[(es < 0.9 * emax) | (es > emax)]      # at threshold RAMBO's weights have no useful variance
    inside = (es > 0) & (es < emax)
    s = cme * cme
    if nr == "one":
        f, i0 = ones, float(_ps.phin(cme, ms, 64)[0])
    elif nr == "p1p3":
        f = lambda p: dot(p[:, 0], p[:, 2]) / s
        i0 = _ps.dalitz(cme, ms, lambda ss, tt: (tt - ms[0] ** 2 - ms[2] ** 2) / 2 / s)
    else:
        f = lambda p: (dot(p[:, 1], p.sum(axis=1)) / s) ** 2
        i0 = _ps.dalitz(cme, ms, lambda ss, tt: ((s + ms[1] ** 2 - tt) / 2 / s) ** 2)
    c = 3e-18
    for lin in (None, 0, 1, 2):
        want = c * rad_want(es, inside, cme, ms, lin) / i0
        a = Monitor(T, (lambda p: c * ones(p)) if lin is None else (lambda p, lin=lin: c * dot(p[:, 3], p[:, lin]) / s), ms, cme, 1, "radiative")
        b = Monitor(T, f, ms, cme, 0, "non-radiative")
        judge(T, lib(es, cme, ms, a, b, npts=8000, seed=11), want, f"three:{nr}:{lin}", f"{ms} cme={cme}", mc=0.08)
        T.check(a.points == 8000 * int(inside.sum()), "npts", f"{a.points} points for {inside.sum()} energies")


def _four(spec, T):
    _, ms, d = spec
    cme = d * (sum(ms) or 50.0)
    es, emax = photon_energies(cme, ms)
    es = es[[0, 1, 3, 5, 6, -3, -1]]
    inside = (es > 0) & (es < emax)
    i0 = float(_ps.phin(cme, ms, 32)[0])
    for lin in (None, 0, 2):
        want = rad_want(es, inside, cme, ms, lin) / i0
        a = Monitor(T, ones if lin is None else (lambda p: dot(p[:, 4], p[:, lin]) / cme ** 2), ms, cme, 1, "radiative")
        b = Monitor(T, ones, ms, cme, 0, "non-radiative")
        got = lib(es, cme, ms, a, b, npts=8000, seed=5)
        judge(T, got, want, f"four:{lin}", f"{ms} cme={cme}", mc=0.2)
        # the error of the non-radiative integral is in the error
        if lin is None and any(ms):
            from hazma.spectra import dnde_photon_fsr
            big = dnde_photon_fsr(es, cme, ms, a, b, npts=32000, seed=5)
            r = np.asarray(got.error)[inside] / np.asarray(big.error)[inside]
            T.check(np.all((r > 1.2) & (r < 3.3)), "four:error-scaling", f"{ms} {r}")


def _api(spec, T):
    from hazma.hazma_errors import RamboCMETooSmall
    ms2, ms3 = [105.66, 139.57], [105.66, 139.57, 0.511]
    f = lambda p: 1.0 + dot(p[:, 0], p[:, -1]) / 1e5
    es = np.array([5.0, 40.0, 90.0])
    for ms, kw in ((ms2, {}), (ms2, dict(method="rambo", seed=3)), (ms3, dict(seed=3)), (ms3 + [1.0], dict(seed=3))):
        ref = lib(es, 600.0, ms, f, ones, **kw)
        T.check(ref.dnde is ref[0] and ref.error is ref[1], "namedtuple", f"{ref}")
        for form in ([5.0, 40.0, 90.0], (5, 40, 90), np.array([5, 40, 90])):
            got = lib(form, 600.0, ms, f, ones, **kw)
            T.step()
            T.check(np.array_equal(got.dnde, ref.dnde) and np.array_equal(got.error, ref.error), "repeat", f"{ms} {kw} {form}: {got} {ref}")
        got = lib(es, 600.0, tuple(ms), f, ones, **kw)
        T.check(np.array_equal(got.dnde, ref.dnde), "mass-forms", f"{ms}")
        for e in (40.0, 40, np.float64(40.0)):
            v = lib(e, 600.0, ms, f, ones, **kw)
            T.step()
            T.check(np.ndim(v.dnde) == 0 and np.ndim(v.error) == 0 and abs(v.dnde - ref.dnde[1]) <= 8 * ref.error[1] + 8 * v.error + 1e-12 * v.dnde, "scalar", f"{e!r}: {v} vs {ref}")
        v = lib(np.array([]), 600.0, ms, f, ones, **kw)
        T.check(np.shape(v.dnde) == (0,) and np.shape(v.error) == (0,), "empty", f"{v}")
        for c in (1e-40, 1e-9, 1e12, 1e60):
            got = lib(es, 600.0, ms, lambda p: c * f(p), lambda p: c * ones(p), **kw)
            T.step()
            T.close(got.dnde, ref.dnde, "common-constant", rtol=1e-7, note=f"{ms} {kw} {c}")
            T.close(got.error, ref.error, "common-constant-error", rtol=1e-2, atol=1e-12 * np.max(ref.dnde), note=f"{ms} {kw} {c}")
        if kw:
            g1, g2 = lib(es, 600.0, ms, f, ones, seed=4, **{k: v for k, v in kw.items() if k != "seed"}), None
            T.check(not np.array_equal(g1.dnde, ref.dnde), "seed-used", f"{ms}")
            # independent streams: with a scale-free element the same events would give the same value
            h = lambda p: 1.0 + (p[3, 0] / p[0, 0]) ** 2
            z = [0.0] * len(ms)
            g = lib(np.array([10.0, 10.0, 10.0]), 600.0, z, h, ones, **kw)
            T.check(len(set(g.dnde.tolist())) == 3, "streams", f"{g}")
            small, big = (lib(es, 600.0, ms, f, ones, npts=n, **kw) for n in (500, 8000))
            T.check(np.all(small.error > 2 * big.error), "error-npts", f"{small} {big}")
    bad = [
        ((es, 600.0, [105.0], f, ones), {}, ValueError),
        ((es, 600.0, [], f, ones), {}, ValueError),
        ((es, 200.0, ms2, f, ones), {}, RamboCMETooSmall),
        ((es, sum(ms2), ms2, f, ones), {}, RamboCMETooSmall),
        ((es, 600.0, ms2, f, ones), dict(method="simps"), ValueError),
        ((es, 600.0, ms3, f, ones), dict(method="quad"), ValueError),
        ((es, 600.0, ms3, f, ones), dict(npts=1), ValueError),
        ((es, 600.0, ms3, f, ones), dict(npts=0), ValueError),
        ((es, 600.0, ms3, f, ones), dict(npts=100.0), ValueError),
        ((es, 600.0, ms2, f, ones), dict(method="rambo", npts=-5), ValueError),
        ((es, 600.0, ms2, f, lambda p: 0.0 * ones(p)), {}, ValueError),
        ((es, 600.0, ms2, f, lambda p: -ones(p)), {}, ValueError),
        ((es, 600.0, ms3, f, lambda p: -ones(p)), {}, ValueError),
    ]
    for i, (args, kw, exc) in enumerate(bad):
        T.step()
        try:
            v = lib(*args, **kw)
            T.fail(f"refuse:{i}", f"{args[1:3]} {kw}: {v}")
        except exc:
            T.check(True, "x")
    v = lib(es, 600.0, ms2, f, ones, npts=1)      # ignored by the quadrature
    T.check(np.all(v.dnde > 0), "npts-ignored", f"{v}")
    T.outcome("api")
