"""Cross sections of the mediator models, recomputed from their Lagrangians."""
import functools
import math
import warnings

import numpy as np

ID = "C41"
PROP = dict(
    title="Cross sections of the mediator models are those of their Lagrangians",
    statement=(
        "For every scalar- and vector-mediator model each cross section is the spin-averaged one of its Lagrangian at the given energy: annihilation through the mediator "
        "factorises into the dark matter's coupling, the propagator with the model's width and the off-shell width of the mediator into the final state; pairs of mediators "
        "(with the 1/2 for identical particles), their inverse (detailed balance), self-interaction (both channels and their interference, at any mediator mass) and elastic "
        "scattering equal the traces over Dirac matrices integrated over the angle. They are finite, non-negative and zero below threshold, however narrow the mediator, and every final state that occurs is listed."),
    quantifier=dict(over=["inputs", "configurations"], text="models x dark-matter masses x mediator masses from far below to far above x energies from threshold up x all channels"),
    why_tests_cant="The tests pin the values the code gave before; no test says what a cross section should be, nor at any mass and energy.",
    anchors=dict(files=["hazma/scalar_mediator/_scalar_mediator_cross_sections.py", "hazma/vector_mediator/_vector_mediator_cross_sections.py",
                        "hazma/vector_mediator/_gev/cross_sections.py", "rust/src/kernels/scalar_xs.rs", "rust/src/kernels/vector_xs.rs"],
                 mechanism=[dict(name="sigma_xx_to_s_to_*, sigma_xx_to_ss, sigma_ss_to_xx, sigma_x*_to_x*", where="hazma/scalar_mediator/_scalar_mediator_cross_sections.py"),
                            dict(name="sigma_xx_to_v_to_*, sigma_xx_to_vv", where="hazma/vector_mediator/_vector_mediator_cross_sections.py"),
                            dict(name="sigma_xx_to_*", where="hazma/vector_mediator/_gev/cross_sections.py")]),
)
TECHNIQUE = "exhaustive enumeration of a lattice of models, energies and channels, each cross section against traces of Dirac matrices and crossed mediator widths"
LEVEL_NOTE = ("3 families x 3 dark-matter masses x 6 mediator masses x 7 energies x all channels; elastic scattering of scalars compared where the library's closed form "
              "does not cancel (its known defects are recognised by the exact value they give); 30 (thorough 140) feebly coupled models on and around their resonance.")
RULE = "one case per family, dark-matter mass and mediator mass; non-trivial when cross sections were compared"
CORE = True
CYTHON = True
CHUNK = 2

ME, MMU, MPI, MPI0 = 0.510998928, 105.6583715, 139.57018, 134.9766
ALPHA = 1 / 137.04
G = 0.7

# ---------------------------------------------------------------- Dirac matrices
_S = [np.array([[0, 1], [1, 0]], complex), np.array([[0, -1j], [1j, 0]]), np.array([[1, 0], [0, -1]], complex)]
_Z, _I = np.zeros((2, 2)), np.eye(2)
GAM = [np.block([[_I, _Z], [_Z, -_I]]).astype(complex)] + [np.block([[_Z, s], [-s, _Z]]) for s in _S]
MET = np.array([1.0, -1.0, -1.0, -1.0])
ONE = np.eye(4)


def sl(p):
    return np.einsum("i,ni,iab->nab", MET, p, np.array(GAM))


def bar(m):
    return GAM[0] @ np.swapaxes(m.conj(), -1, -2) @ GAM[0]


def dot(a, b):
    return np.sum(MET * a * b, axis=-1)


def tr(m):
    return np.einsum("...ii->...", m)


def mom(e, a, b):
    return math.sqrt(max(0.0, (e - a - b) * (e + a + b) * (e - a + b) * (e + a - b))) / (2 * e)


def vec(m, p, c, sign):
    """Momenta at the cosines c (complex sines outside the physical range)."""
    c = np.asarray(c)
    s = np.sqrt(np.maximum(0.0, 1 - c * c)) if np.all(np.abs(c) <= 1) else np.sqrt((1 - c * c).astype(complex))
    z = np.zeros_like(s)
    return np.stack([z + math.sqrt(m * m + p * p), sign * p * s, z, sign * p * c], axis=-1)


NODES = np.polynomial.legendre.leggauss(80)


def sigma(e, mi, mf, msq, avg, ident, peak):
    """Cross section by quadrature over the angle; `peak` is the scale of 1-c of the forward (and, for identical particles, backward) peak."""
    pi, pf = mom(e, *mi), mom(e, *mf)
    y, w = NODES
    half = math.log1p((1 if ident else 2) / peak) / 2
    u = peak * np.expm1((1 + y) * half)
    tot = 0.0
    for sg in (1, -1) if ident else (1,):
        c = np.clip(sg * (1 - u), -1, 1)
        one = np.ones_like(c)
        tot += np.sum(w * half * (u + peak) * msq(vec(mi[0], pi, one, 1), vec(mi[1], pi, one, -1), vec(mf[0], pf, c, 1), vec(mf[1], pf, c, -1)).real)
    return float(tot * pf / pi / (32 * math.pi * e * e) * avg / (2 if ident else 1))


def line(q, m):
    return (sl(q) + m * ONE) / (dot(q, q) - m * m)[:, None, None]


def xx_to_ss(m):
    def msq(p1, p2, k1, k2):
        a = G * G * (line(p1 - k1, m) + line(p1 - k2, m))
        return tr((sl(p2) - m * ONE) @ a @ (sl(p1) + m * ONE) @ bar(a))
    return msq


def xx_to_vv(m, mv):
    def msq(p1, p2, k1, k2):
        s1, s2 = line(p1 - k1, m), line(p1 - k2, m)
        a, b = sl(p2) - m * ONE, sl(p1) + m * ONE
        # the currents are conserved: the sums over polarisations are -g
        tot = 0.0
        for i in range(4):
            for j in range(4):
                x = G * G * (GAM[j] @ s1 @ GAM[i] + GAM[i] @ s2 @ GAM[j])
                tot = tot + MET[i] * MET[j] * tr(a @ x @ b @ bar(x))
        return tot
    return msq


def xx_to_xx(m, mm, width, vector):
    vert = [(g, g * MET[i]) for i, g in enumerate(GAM)] if vector else [(ONE, ONE)]

    def msq(p1, p2, k1, k2):
        u1, v2, u3, v4 = sl(p1) + m * ONE, sl(p2) - m * ONE, sl(k1) + m * ONE, sl(k2) - m * ONE
        s, t = dot(p1 + p2, p1 + p2), dot(p1 - k1, p1 - k1)
        ds, dt = 1 / (s - mm * mm + 1j * mm * width), 1 / (t - mm * mm + 1j * mm * width)
        ss = tt = st = 0.0
        for a, b in vert:
            for c, d in vert:
                ss = ss + tr(v2 @ a @ u1 @ bar(c)) * tr(u3 @ b @ v4 @ bar(d))
                tt = tt + tr(u3 @ a @ u1 @ bar(c)) * tr(v2 @ b @ v4 @ bar(d))
                st = st + tr(v2 @ a @ u1 @ bar(c) @ u3 @ b @ v4 @ bar(d))
        return G ** 4 * (abs(ds) ** 2 * ss + abs(dt) ** 2 * tt - 2 * (ds * np.conj(dt) * st).real)
    return msq


def compton(e, mx, ms, tmin, flux):
    """x s -> x s integrated over t in [tmin, 0]; momenta continue to complex angles outside the physical range."""
    k = mom(e, mx, ms)
    y, w = NODES
    c = 1 + tmin * (1 - y) / 2 / (2 * k * k)
    one = np.ones_like(c)
    p, q, pp, qp = vec(mx, k, one, 1), vec(ms, k, one, -1), vec(mx, k, c, 1), vec(ms, k, c, -1)
    a = G * G * (line(p + q, mx) + line(p - qp, mx))
    tot = np.sum(w * tr((sl(pp) + mx * ONE) @ a @ (sl(p) + mx * ONE) @ a).real)
    return float(tot * -tmin / 2 / 2 / (16 * math.pi * flux))


# ---------------------------------------------------------------- lattice
def cases(tier):
    mxs = (0.4, 40.0, 200.0, 700.0) if tier == "thorough" else (0.4, 60.0, 200.0)
    ratios = (0.01, 0.1, 0.45, 0.95, 1.05, 1.5, 2.6, 20.0) if tier == "thorough" else (0.02, 0.45, 0.95, 1.5, 2.6, 20.0)
    fams = ("higgs", "scalar", "quarks", "kinetic", "gev") if tier == "thorough" else ("scalar", "vector", "gev", "higgs", "kinetic")
    for f in fams + (("vector",) if "vector" not in fams else ()):
        for mx in mxs:
            for r in ratios if f in ("scalar", "vector", "gev") else ratios[1::2]:
                yield dict(fam=f, mx=mx, ratio=r, tier=tier)
    for e in (415.0, 450.0, 620.0, 1000.0, 1500.0):
        yield dict(fam="pi0pipi", e=e)
    for f in ("scalar", "higgs", "vector", "kinetic", "gev"):
        for g in (1e-3, 1e-5, 1e-7) if tier == "quick" else (1e-2, 1e-3, 1e-4, 1e-5, 1e-6, 1e-7, 1e-8):
            for m in (350.0, 700.0) if tier == "quick" else (3.0, 350.0, 521.7, 700.0):
                yield dict(fam=f, mx=m / 3, narrow=g, m=m)


def build(fam, mx, m, g=1.0):
    from hazma import scalar_mediator as S
    from hazma import vector_mediator as V

    if fam == "scalar":
        return S.ScalarMediator(mx, m, G * g, 0.01 * g, 0.3 * g, 0.4 * g, 1e5)
    if fam == "higgs":
        return S.HiggsPortal(mx, m, G * g, 0.05 * g)
    if fam in ("vector", "quarks"):
        return V.VectorMediator(mx, m, *(g * x for x in (G, 0.1, 0.2, 0.3, 0.4, 0.5)))
    if fam == "kinetic":
        return V.KineticMixing(mx, m, G * g, 0.02 * g)
    return V.VectorMediatorGeV(mx, m, *(g * x for x in (G, 0.1, 0.25, 0.3, 0.4, 0.5, 0.1, 0.2, 0.6)))


def energies(mx, m, fam, tier):
    es = {2 * mx * f for f in (1.0001, 1.05, 1.4, 2.5, 8.0)} | {450.0, 620.0, 780.0, 1019.0, 1300.0, m * 1.0001, m * 0.97, 2 * m * 1.02}
    if tier == "thorough":
        es |= {2 * mx * f for f in (1.000001, 1.2, 1.9, 3.5, 5.0)} | {300.0, 350.0, 540.0, 900.0, 1100.0, 1700.0, m * 1.03, 2 * m * 1.3, 2 * m * 1.0001}
    hi = 1e4 if fam != "gev" else 1800.0
    return sorted(e for e in es if 2 * mx < e < hi)


THRESHOLD = {"mu mu": 2 * MMU, "pi pi": 2 * MPI, "pi0 pi0": 2 * MPI0, "pi0 g": MPI0, "pi0 gamma": MPI0, "k k": 987.4, "k0 k0": 995.2, "eta gamma": 548.0, "pi0 phi": 1154.4,
             "eta phi": 1567.3, "eta omega": 1330.5, "pi0 pi0 gamma": 270.0, "pi pi omega": 1061.8, "pi0 pi0 omega": 1052.6, "vt vt": 0.0}
MC = {"pi0 k0 k0", "pi0 k k", "pi k k0", "pi pi pi pi", "pi pi pi0 pi0", "pi pi pi0", "pi pi eta", "pi pi etap"}


def off_shell(model, fam, e, g=1.0):
    """Widths of a mediator of mass e with the couplings of the model."""
    n = build(fam, model.mx, e, g)
    if fam == "gev":
        cut = _width_funcs(n)
        return {k: v() for k, v in cut.items()} if cut else n.partial_widths()
    return n.partial_widths()


def _width_funcs(n):
    names = {"e e": "width_v_to_e_e", "mu mu": "width_v_to_mu_mu", "ve ve": "width_v_to_ve_ve", "vm vm": "width_v_to_vm_vm", "vt vt": "width_v_to_vt_vt",
             "pi pi": "width_v_to_pi_pi", "k0 k0": "width_v_to_k0_k0", "k k": "width_v_to_k_k", "pi0 gamma": "width_v_to_pi0_gamma", "eta gamma": "width_v_to_eta_gamma",
             "pi0 phi": "width_v_to_pi0_phi", "eta phi": "width_v_to_eta_phi", "eta omega": "width_v_to_eta_omega", "pi0 pi0 gamma": "width_v_to_pi0_pi0_gamma",
             "pi pi omega": "width_v_to_pi_pi_omega", "pi0 pi0 omega": "width_v_to_pi0_pi0_omega"}
    return {k: getattr(n, v) for k, v in names.items() if hasattr(n, v)}


def num(x):
    return float(np.asarray(x).reshape(-1)[0])


class Cmp:
    def __init__(self, T, spec):
        self.T, self.spec, self.n = T, spec, 0

    def __call__(self, what, got, want, rtol, known=None, **info):
        """Fails with key `what` unless got == want; `known` = (key, value) recognises a recorded defect by its exact value."""
        T = self.T
        self.n += 1
        T.step()
        ok = math.isfinite(got) and got >= 0 and (abs(got - want) <= rtol * abs(want) if want else got == 0)
        if ok:
            T.comparisons += 1
            return
        key = what
        if known is not None and math.isfinite(got) and abs(got - known[1]) <= rtol * abs(known[1]):
            key = known[0]
        T.fail(key, f"{self.spec} {info} {what}: {got!r}, expected {want!r}")


def run(spec, T):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    if spec["fam"] == "pi0pipi":
        three_pions(spec, T)
        return
    if "narrow" in spec:
        narrow(spec, T)
        return
    fam, mx, tier = spec["fam"], spec["mx"], spec["tier"]
    m = spec["mx"] * spec["ratio"]
    if fam == "gev":
        m = min(m, 850.0)      # above, each width needs four-body integrals
    model = build(fam, mx, m)
    T.state("model", fam, mx, m)
    cmp = Cmp(T, spec)
    scalar = fam in ("scalar", "higgs")
    gx = model.gsxx if scalar else model.gvxx
    width = model.width_s if scalar else (model.width_v() if callable(model.width_v) else model.width_v)
    funcs = {k: f for k, f in model.annihilation_cross_section_funcs().items() if not (fam == "gev" and k in MC)}
    scale = (gx / G) ** 4
    for e in energies(mx, m, fam, tier):
        T.state("e", fam, mx, m, e)
        d = ((e - m) * (e + m)) ** 2 + (m * width) ** 2
        beta = math.sqrt((1 - 2 * mx / e) * (1 + 2 * mx / e))
        fac = gx ** 2 * beta * e / (2 * d) if scalar else gx ** 2 * (e * e + 2 * mx * mx) / (e * beta * d)
        w = off_shell(model, fam, e)
        xs = {k: num(f(e)) for k, f in funcs.items()}
        listed = set(model.list_annihilation_final_states())
        T.check(all(k in listed or x == 0 for k, x in xs.items()), f"{fam} listed", f"{spec} e={e}: {set(xs) - listed} not in the list of final states")
        for k, got in xs.items():
            if k in ("s s", "v v"):
                if e > 2 * m:
                    bb = 4 * mom(e, mx, mx) * mom(e, m, m) / e ** 2
                    pk = (1 - bb - 2 * m * m / e / e) / bb
                    ref = xx_to_ss(mx) if scalar else xx_to_vv(mx, m)
                    cmp(f"{fam} {k}", got, scale * sigma(e, (mx, mx), (m, m), ref, 0.25, True, pk), 1e-6, e=e)
                else:
                    cmp(f"{fam} {k}", got, 0.0, 0, e=e)
            elif k == "pi0 v":
                lam = mom(e, MPI0, m) * 2 * e if e > MPI0 + m else 0.0
                want = 0.0
                if lam and w.get("pi0 g"):
                    qe = math.sqrt(4 * math.pi * ALPHA) * (2 * model.gvuu + model.gvdd) / 3
                    want = fac * w["pi0 g"] * ((model.gvuu ** 2 - model.gvdd ** 2) / qe) ** 2 * (lam / (e * e - MPI0 ** 2)) ** 3
                cmp(f"{fam} {k}", got, want, 1e-4, known=("pi0-v-colour", want / 9), e=e)
            elif k in w:
                want = fac * w[k]
                known = ("pi0-g-colour", want / 9) if k == "pi0 g" else None
                thr = THRESHOLD.get(k, 0.0)
                cmp(f"{fam} {k}", got, want, (2e-5 if fam != "gev" else 1e-4) / (1 - min(thr / e, 0.9999) ** 2), known=known, e=e)
        # self-interaction
        name = "sigma_xx_to_s_to_xx" if scalar else "sigma_xx_to_v_to_xx"
        if hasattr(model, name) and (tier == "thorough" or e > 2 * mx * 1.01):
            p = mom(e, mx, mx)
            want = scale * sigma(e, (mx, mx), (mx, mx), xx_to_xx(mx, m, width, not scalar), 0.25, False, m * m / (2 * p * p))
            cmp(f"{fam} self-interaction", num(getattr(model, name)(e)), want, 1e-6, e=e)
        if fam == "scalar" and e > 2 * m:
            cmp("ss to xx", num(model.sigma_ss_to_xx(e)), 8 * (mom(e, mx, mx) / mom(e, m, m)) ** 2 * xs["s s"], 1e-9 + 1e-12 / beta ** 2, e=e)
        if fam == "scalar":
            elastic(model, e, mx, m, width, cmp)
    if fam == "gev":
        # energies given as whole numbers
        for e in (1200, 1801):
            if e > 2 * mx:
                for k, fn in funcs.items():
                    w = num(fn(float(e)))
                    if not k.count("pi") + k.count("k") >= 3:
                        cmp(f"{fam} {k} at a whole energy", num(fn(e)), w, 1e-9, e=e)
                        cmp(f"{fam} {k} at a whole energy", float(np.ravel(fn(np.array([e, e + 1])))[0]), w, 1e-9, e=e)
                        T.step(2)
    # below threshold nothing annihilates
    for f in (0.3, 0.99, 1.0):
        T.state("below", fam, mx, m, f)
        for k, fn in model.annihilation_cross_section_funcs().items():
            if f == 1.0:
                continue
            cmp(f"{fam} {k} below threshold", num(fn(2 * mx * f)), 0.0, 0, e=2 * mx * f)
        name = "sigma_xx_to_s_to_xx" if scalar else "sigma_xx_to_v_to_xx"
        if hasattr(model, name):
            cmp(f"{fam} self-interaction below threshold", num(getattr(model, name)(2 * mx * f)), 0.0, 0, e=2 * mx * f)
    T.outcome(fam, cmp.n)


def narrow(spec, T):
    """Feebly coupled mediators, on and next to their (very narrow) resonance."""
    fam, mx, m, g = spec["fam"], spec["mx"], spec["m"], spec["narrow"]
    model = build(fam, mx, m, g)
    cmp = Cmp(T, spec)
    scalar = fam in ("scalar", "higgs")
    gx = model.gsxx if scalar else model.gvxx
    width = model.width_s if scalar else (model.width_v() if callable(model.width_v) else model.width_v)
    funcs = {k: f for k, f in model.annihilation_cross_section_funcs().items() if not (fam == "gev" and k in MC)}
    offs = {0.0} | {s * x for s in (1, -1) for x in (0.4 * width / m, 3 * width / m, 1e3 * width / m, 1e-14, 1e-12, 1e-10, 1e-8, 1e-6, 1e-4)}
    for e in sorted({m * (1 + x) for x in offs}):
        T.state("narrow", fam, m, g, e)
        det = (e - m) * (e + m)
        d = det ** 2 + (m * width) ** 2
        slack = ((abs(det) + 1e-15 * m * m) ** 2 - det ** 2) / d      # from rounding s - m^2
        if slack > 0.05:
            continue
        beta = math.sqrt((1 - 2 * mx / e) * (1 + 2 * mx / e))
        fac = gx ** 2 * beta * e / (2 * d) if scalar else gx ** 2 * (e * e + 2 * mx * mx) / (e * beta * d)
        w = off_shell(model, fam, e, g)
        for k, f in funcs.items():
            if k in w:
                want = fac * w[k]
                got = num(f(e))
                cmp(f"{fam} {k} on a narrow resonance", got, want, 2 * slack + (2e-5 if fam != "gev" else 1e-4) / (1 - min(THRESHOLD.get(k, 0.0) / e, 0.9999) ** 2),
                    known=("pi0-g-colour", want / 9) if k == "pi0 g" else None, e=e)
    T.outcome(fam, cmp.n)


@functools.lru_cache(maxsize=None)
def _vertex(sig):
    """|vertex|^2 of the mediator with a pair, summed over spins, as a polynomial of its mass squared (from the widths)."""
    ch, tm, ident, args = sig
    from hazma import scalar_mediator as S
    qs = np.array([900.0, 1050.0, 1200.0])
    ys = []
    for q in qs:
        n = S.ScalarMediator(*args)
        n.ms = q
        ys.append(n.partial_widths()[ch] * 16 * math.pi * q / math.sqrt(1 - 4 * tm * tm / q / q) * ident)
    return np.polyfit(qs ** 2, ys, 2)


def elastic(model, e, mx, ms, width, cmp):
    from scipy.integrate import quad
    xs = {k: num(v) for k, v in model.elastic_scattering_cross_sections(e).items()}
    args = (model.mx, model.ms, model.gsxx, model.gsff, model.gsGG, model.gsFF, model.lam)
    s = e * e
    vh = 246.22795e3
    # the closed forms cancel near 2 mx, for narrow mediators and for heavy or light ones
    equal = s - 4 * mx * mx
    for name, ch, tm, spins, mult, sgn, ident, off in (("e", "e e", ME, 2, 2, -1, 1, vh * vh / 2), ("mu", "mu mu", MMU, 2, 2, -1, 1, vh * vh / 2),
                                                        ("pi", "pi pi", MPI, 1, 2, 1, 1, 0.5), ("pi0", "pi0 pi0", MPI0, 1, 1, 1, 2, 0.5), ("g", "g g", 0.0, 2, 1, 1, 2, 1.0)):
        if e <= mx + tm:
            cmp(f"elastic {name} below threshold", xs[name], 0.0, 0, e=e)
            continue
        c = _vertex((ch, tm, ident, args))
        f = lambda t: 2 * (4 * mx * mx - t) * sgn * np.polyval(c, t) / ((t - ms * ms) ** 2 + (ms * width) ** 2)

        def integral(tmin):
            # t = -ms^2 expm1(y)
            y, w = np.polynomial.legendre.leggauss(64)
            half = math.log1p(-tmin / ms ** 2) / 2
            t = -ms ** 2 * np.expm1((1 + y) * half)
            return float(np.sum(w * half * (ms ** 2 - t) * f(t))) * model.gsxx ** 2 * mult / (2 * spins) / (16 * math.pi)
        lam = (s - (mx + tm) ** 2) * (s - (mx - tm) ** 2)
        want = integral(-lam / s) / lam
        alt = off * integral(-equal) / (s * equal)
        noise = (width / ms > 1e-9 and equal / s > 0.1 and -1 < math.log10(e / ms) < 1)
        if name == "g":
            noise = noise and e > 1.2 * ms
        if noise:
            cmp(f"elastic {name}", xs[name], want, 1e-3, known=(f"elastic-{name}-equal-mass", alt), e=e)
    if mx + ms < e < 8 * mx and 0.1 * mx < ms < 1.2 * mx:
        k = mom(e, mx, ms)
        cmp("elastic s", xs["s"], compton(e, mx, ms, -4 * k * k, 4 * k * k * s), 1e-6,
            known=("elastic-s-equal-mass", compton(e, mx, ms, -equal, s * equal)), e=e)
    elif e <= mx + ms:
        cmp("elastic s below threshold", xs["s"], 0.0, 0, e=e)


def three_pions(spec, T):
    """x x -> v -> pi0 pi pi from the box anomaly F = 3 (gvuu + gvdd) Nc / (12 pi^2 fpi^3)."""
    e = spec["e"]
    mx, m, fpi = 200.0, 300.0, 92.2138
    model = build("vector", mx, m)
    c = 3 * 3 * (model.gvuu + model.gvdd) / (12 * math.pi ** 2 * fpi ** 3)
    y, w = np.polynomial.legendre.leggauss(64)
    lo, hi = 4 * MPI ** 2, (e - MPI0) ** 2
    g = 0.0
    for yy, ww in zip(y, w):
        a = (1 + yy) * math.pi / 4
        s = lo + (hi - lo) * math.sin(a) ** 2
        k, q = mom(e, math.sqrt(s), MPI0), mom(math.sqrt(s), MPI, MPI)
        g += ww * math.pi / 4 * (hi - lo) * math.sin(2 * a) * c * c * e * e * k * k * q * q * 2 / 9 / (2 * e) * k / (4 * math.pi * e) * q / (4 * math.pi * math.sqrt(s)) / (2 * math.pi)
    width = model.width_v
    d = (e * e - m * m) ** 2 + (m * width) ** 2
    want = g * G * G * (e * e + 2 * mx * mx) / (e * math.sqrt(1 - 4 * mx * mx / e / e) * d)
    T.state("three pions", e)
    T.step()
    cmp = Cmp(T, spec)
    try:
        got = num(model.sigma_xx_to_v_to_pi0pipi(e))
    except AssertionError:
        got = math.nan
    pinned = PI0PIPI.get(e)
    if math.isnan(got):
        T.fail("three-pions-negative" if pinned is None else "three-pions", f"pi0 pi pi raises AssertionError at {e} MeV, expected {want!r}")
    else:
        cmp("three-pions", got, want, 1e-4, known=("three-pions-value", want * pinned) if pinned else None)
    T.outcome("pi0pipi", e)


# what the library gives, as a multiple of the cross section
PI0PIPI = {620.0: 0.3794345, 1000.0: 0.34167616, 1500.0: 0.33587835}
