"""Spectra of the mediator models: composition, boosts and final-state radiation."""
import functools
import math
import warnings

import numpy as np

from checks.c41 import GAM, MET, ONE, bar, dot, sl, tr

ID = "C42"
PROP = dict(
    title="Spectra of the mediator models are those of their final states",
    statement=(
        "For every mediator model and final state, photon, positron and neutrino spectra per annihilation are those of the final state's particles, each once and with its own energy "
        "distribution (form factor weighted for three and four mesons), plus final-state radiation off its charged pairs: the closed forms equal the three-body matrix elements. "
        "Pairs of mediators, and a mediator beside a pion, give the branching-fraction weighted decay spectra, lines included, in flight. All is independent of the energies asked for together and of their form and order, "
        "and photons, electrons and neutrinos together carry the whole energy."),
    quantifier=dict(over=["inputs", "configurations"], text="models x mediator masses x center-of-mass energies x final states x products x product energies"),
    why_tests_cant="No test evaluates these spectra for a model; their content follows from decay trees, boosts and matrix elements at any mass and energy.",
    anchors=dict(files=["hazma/vector_mediator/_gev/spectra.py", "hazma/vector_mediator/_gev/positron.py", "hazma/vector_mediator/_gev/neutrino.py",
                        "hazma/vector_mediator/_vector_mediator_spectra.py", "hazma/vector_mediator/_vector_mediator_fsr.py", "hazma/vector_mediator/_vector_mediator_positron_spectra.py",
                        "hazma/scalar_mediator/_scalar_mediator_spectra.py", "hazma/scalar_mediator/_scalar_mediator_fsr.py", "hazma/scalar_mediator/_scalar_mediator_positron_spectra.py"],
                 mechanism=[dict(name="spectrum_funcs, positron_spectrum_funcs, neutrino_spectrum_funcs", where="hazma/vector_mediator, hazma/scalar_mediator"),
                            dict(name="dnde_xx_to_s_to_ffg, dnde_xx_to_v_to_ffg, dnde_xx_to_*_to_pipig", where="_scalar_mediator_fsr.py, _vector_mediator_fsr.py"),
                            dict(name="dnde_decay_v, dnde_decay_s, scalar_mediator_decay_spectrum", where="Cython modules of the two packages")]),
)
TECHNIQUE = "exhaustive enumeration of a lattice of models, masses, energies and final states against decay trees, numerical boosts and numerical three-body matrix elements"
LEVEL_NOTE = ("GeV vector: 25 final states at 2 (thorough 5) energies, pairs of mediators at 4 (8) mass/energy points; MeV vector and scalar: all final states at 7 (14) mass/energy points; "
              "final-state radiation at 6 (12) energies; single, reordered and partial energies for 6 models. Four-meson distributions are sampled by the library, compared within 4 percent.")
RULE = "one case per model, final state and energy; non-trivial when spectra were compared"
CORE = True
CYTHON = True
CHUNK = 1

ALPHA = 1 / 137.04
Q = "quick"


def cases(tier):
    q = tier == "quick"
    for e in (1250.0, 1800.0) if q else (620.0, 1250.0, 1520.0, 1800.0, 2600.0):
        for fs in FINAL:
            yield ["gev", fs, e]
    for mv, e in ((120.0, 500.0), (300.0, 602.0), (700.0, 1700.0), (1.9, 40.0)) if q else \
            ((120.0, 500.0), (300.0, 602.0), (300.0, 3000.0), (700.0, 1700.0), (700.0, 1410.0), (1.9, 40.0), (900.0, 2400.0), (0.5, 20.0)):
        yield ["gevpair", mv, e]
    pts = ((90.0, 260.0), (250.0, 700.0), (330.0, 661.0), (500.0, 1100.0), (2.4, 200.0), (150.0, 3000.0), (285.0, 5000.0))
    for mv, e in pts if q else pts + ((150.0, 400.0), (600.0, 1900.0), (212.0, 500.0), (285.0, 1500.0), (2.4, 20.0), (400.0, 40000.0), (275.0, 551.0)):
        for kind in ("all", "quarks"):
            yield ["mev", "vector", mv, e, kind]
            yield ["mev", "scalar", mv, e, kind]
    for fam in ("scalar", "vector"):
        for f in ("e", "mu", "pi"):
            for e in (2.1, 15.0, 213.0, 300.0, 700.0, 2000.0) if q else (1.1, 2.1, 5.0, 15.0, 100.0, 213.0, 280.0, 300.0, 500.0, 700.0, 1200.0, 2000.0):
                yield ["fsr", fam, f, e]
    for model in ("gev", "single", "mev"):
        yield ["cmb", model]
    for model in ("mev-scalar", "mev-vector", "gev", "single-ann", "single-dec", "rhn"):
        yield ["form", model]


def library_masses():
    import hazma.parameters as P
    for n, k in dict(e="electron", mu="muon", pi="charged_pion", pi0="neutral_pion", k="charged_kaon", k0="neutral_kaon", kl="neutral_kaon", ks="neutral_kaon", eta="eta",
                     etap="eta_prime", omega="omega", phi="phi").items():
        v = getattr(P, k + "_mass", MASSES[n])
        if abs(v / MASSES[n] - 1) < 5e-5:
            MASSES[n] = v


def run(spec, T):
    library_masses()
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        globals()["_" + spec[0]](spec, T)


def settle(T, got, want, tol, key, note, floor=1e-12):
    T.comparisons += 1
    if not (np.isfinite(got) and abs(got - want) <= tol * abs(want) + floor):
        T.fail(key, f"{note}: {got:.6g} instead of {want:.6g}")


# ---------------------------------------------------------------- GeV vector
NAMES = dict(e=None, mu="muon", pi="charged_pion", pi0="neutral_pion", k="charged_kaon", kl="long_kaon", ks="short_kaon", eta="eta", etap="eta_prime", omega="omega", phi="phi")
FINAL = {
    "e e": "e e", "mu mu": "mu mu", "ve ve": "", "vm vm": "", "vt vt": "", "pi pi": "pi pi", "k k": "k k", "k0 k0": "kl ks", "pi0 gamma": "pi0", "eta gamma": "eta", "pi0 phi": "pi0 phi",
    "eta phi": "eta phi", "eta omega": "eta omega", "pi0 pi0 gamma": "", "pi pi pi0": "pi pi pi0", "pi pi eta": "pi pi eta", "pi pi etap": "pi pi etap", "pi pi omega": "pi pi omega",
    "pi0 pi0 omega": "pi0 pi0 omega", "pi0 k0 k0": "pi0 k0 k0", "pi0 k k": "pi0 k k", "pi k k0": "pi k k0", "pi pi pi pi": "pi pi pi pi", "pi pi pi0 pi0": "pi pi pi0 pi0",
}
MASSES = dict(e=0.510998928, mu=105.6583715, pi=139.57018, pi0=134.9766, k=493.677, k0=497.614, kl=497.614, ks=497.614, eta=547.862, etap=957.78, omega=782.65, phi=1019.461, gamma=0.0, ve=0.0, vm=0.0, vt=0.0)


def gev(mx, mv, g=(.25, .3, .4, .5, .1, .2, .6, .15)):
    from hazma.vector_mediator import VectorMediatorGeV
    return VectorMediatorGeV(mx, mv, .7, *g)


def decay(product, name, x, E):
    """The decay spectrum of a particle of energy E (K0 is half K_L, half K_S)."""
    from hazma import spectra as S
    if name == "k0":
        return 0.5 * (decay(product, "kl", x, E) + decay(product, "ks", x, E))
    long = NAMES[name]
    if long is None or E < MASSES[name] * (1 - 1e-12):
        return np.zeros_like(x)
    kind, fl = product if isinstance(product, tuple) else (product, None)
    fn = getattr(S, f"dnde_{kind}_{long}", None)
    if fn is None:
        return np.zeros_like(x)
    return np.asarray(fn(x, E, flavor=fl) if kind == "neutrino" else fn(x, E))


PRODUCTS = ["photon", "positron", ("neutrino", "e"), ("neutrino", "mu"), ("neutrino", "tau")]


def functions(m, product):
    if product == "photon":
        return m.spectrum_funcs()
    if product == "positron":
        return m.positron_spectrum_funcs()
    return m.neutrino_spectrum_funcs(product[1])


def binned(f, x, e):
    """Call a spectrum with as many energy bins as the reference takes."""
    try:
        return f(x, e, nbins=25)
    except TypeError:
        return f(x, e)


def label(mass):
    return min((abs(MASSES[n] - mass), n) for n in ("pi", "pi0", "k", "k0", "eta", "etap", "omega", "phi"))[1]


def gev_reference(m, fs, e, x):
    """Spectra of a GeV channel from its particles, by product; the FSR separately."""
    from hazma.spectra.altarelli_parisi import dnde_photon_ap_fermion, dnde_photon_ap_scalar
    parts = FINAL[fs].split()
    out = {p: np.zeros_like(x) for p in PRODUCTS}
    fsr = np.zeros_like(x)
    if fs == "pi0 pi0 gamma":
        epi = (e * e + MASSES["pi0"] ** 2 - MASSES["omega"] ** 2) / (2 * e)
        out["photon"] = decay("photon", "pi0", x, epi) + boosted(x, e - epi, MASSES["omega"], omega_pi0_gamma)
        return out, fsr
    if len(fs.split()) == 2:
        ms = [MASSES[n] for n in (parts if len(parts) == 2 else fs.split())]
        for i, n in enumerate(parts):
            E = (e * e + ms[i] ** 2 - ms[1 - i] ** 2) / (2 * e)
            for p in PRODUCTS:
                out[p] += decay(p, n, x, E)
        if fs in ("e e", "mu mu"):
            fsr = 2 * np.asarray(dnde_photon_ap_fermion(x, e * e, MASSES[parts[0]], charge=-1.0))
        elif fs in ("pi pi", "k k"):
            fsr = 2 * np.asarray(dnde_photon_ap_scalar(x, e * e, MASSES[parts[0]], charge=-1.0))
        return out, fsr
    ff = getattr(m, "_ff_" + fs.replace(" ", "_"))
    names = [label(v) for v in ff.fsp_masses]
    if sorted(names) != sorted(parts):
        raise LookupError(f"{fs}: masses {ff.fsp_masses}")
    dists = ff.energy_distributions(q=e, couplings=m._couplings, nbins=25)
    for n, d in zip(names, dists):
        b = np.asarray(d.bins)
        w = np.asarray(d.probabilities) * np.diff(b)
        w = w / w.sum()
        for E, wi in zip(0.5 * (b[1:] + b[:-1]), w):
            for p in PRODUCTS:
                if p != ("neutrino", "tau"):
                    out[p] += wi * decay(p, n, x, E)
    # library radiates off pions of these states only
    if fs in ("pi pi pi0", "pi pi pi pi", "pi pi pi0 pi0"):
        inv = ff.invariant_mass_distributions(q=e, couplings=m._couplings, nbins=25)
        pairs = [(0, 1), (1, 2), (2, 3), (0, 3)] if fs == "pi pi pi pi" else [tuple(i for i, n in enumerate(names) if n == "pi")]
        for pr in pairs:
            d = inv[pr]
            b = np.asarray(d.bins)
            w = np.asarray(d.probabilities) * np.diff(b)
            w = w / w.sum()
            for mm, wi in zip(0.5 * (b[1:] + b[:-1]), w):
                fsr = fsr + wi * (2 if len(pairs) == 1 else 1) * np.asarray(dnde_photon_ap_scalar(x, mm * mm, MASSES["pi"]))
    return out, fsr


def omega_pi0_gamma(x):
    """omega -> pi0 gamma at rest: continuous part and lines."""
    mo, mp = MASSES["omega"], MASSES["pi0"]
    return decay("photon", "pi0", x, (mo * mo + mp * mp) / (2 * mo)), [((mo * mo - mp * mp) / (2 * mo), 1.0)]


def boosted(x, E, M, rest, mass=0.0, edge=None):
    """dN/dE in flight of a parent of energy E and mass M."""
    g = E / M
    b = math.sqrt(max(0.0, 1 - 1 / g ** 2))
    out = np.zeros_like(x)
    top = M / 2 if edge is None else edge
    for i, v in enumerate(x):
        if v <= mass:
            continue
        k = math.sqrt(v * v - mass * mass)
        if b < 1e-9:
            c, lines = rest(np.array([v]))
            out[i] = c[0]
            continue
        lo, hi = max(g * (v - b * k), mass * (1 + 1e-9)), min(g * (v + b * k), top)
        t = np.zeros(0)
        if hi > lo:
            u, w = np.polynomial.legendre.leggauss(12)
            edges = np.geomspace(lo, hi, 61)
            mid, h = (edges[1:] + edges[:-1]) / 2, np.diff(edges) / 2
            t = (mid[:, None] + h[:, None] * u).ravel()
            c, lines = rest(t)
            out[i] = np.sum((h[:, None] * w).ravel() * c / np.sqrt(t * t - mass * mass)) / (2 * b * g)
        else:
            c, lines = rest(np.array([top]))
        for e0, n in lines:
            if n and g * (v - b * k) < e0 < g * (v + b * k):
                out[i] += n / (2 * g * b * math.sqrt(e0 * e0 - mass * mass))
    return out


def _gev(spec, T):
    _, fs, e = spec
    m = gev(250.0, 300.0)
    T.state(fs, e)
    thr = sum(MASSES[n] for n in fs.split()) if fs != "pi0 pi0 gamma" else MASSES["pi0"] + MASSES["omega"]
    body = len(fs.split())
    four = body == 4
    x = np.array([3e-3, 0.02, 0.7, 8.0, 31.0, 53.0, 70.0, 95.0, 140.0, 201.0, 270.0, 360.0, 480.0, 620.0, 840.0, 1500.0])
    lin = np.unique(np.concatenate([np.geomspace(1e-3, e / 2, 120), np.linspace(1.0, e / 2 * 1.02, 300)]))
    tot = 0.0
    try:
        want, fsr = gev_reference(m, fs, e, x) if e > thr else ({p: np.zeros_like(x) for p in PRODUCTS}, np.zeros_like(x))
    except (LookupError, AttributeError):  # form factors kept elsewhere: the balance below remains
        want = None
    for p in PRODUCTS:
        T.step()
        f = functions(m, p)[fs]
        name = p if isinstance(p, str) else "-".join(p)
        v = np.asarray(binned(f, x, e))
        T.check(v.shape == x.shape and np.all(np.isfinite(v)) and np.all(v >= -1e-12 * np.max(v)), f"finite:{fs}:{name}", f"cme {e}: {v}")
        if want is not None:
            w = want[p] + (fsr if p == "photon" else 0)
            sc = np.max(np.abs(w * x))
            for i in range(len(x)):
                settle(T, v[i], w[i], 0.05 if four else 0.015, f"spectrum:{fs}:{name}", f"cme {e} E {x[i]}", floor=(0.08 if four else 0.004) * sc / x[i])
        if e > thr:
            s = np.asarray(binned(f, lin, e))
            tot += np.trapezoid(s * lin, lin) / e
        T.outcome(fs, e, name, np.sum(v * x))
    if e <= thr:
        return
    # lines outside the continuum
    if fs in ("e e", "ve ve", "vm vm", "vt vt"):
        line = 1.0
    elif fs in ("pi0 gamma", "eta gamma"):
        line = (e - MASSES[fs.split()[0]] ** 2 / e) / 2 / e
    else:
        line = 0.0
    tot += line
    if "phi" in fs or "etap" in fs or e < 1.3 * thr:
        return  # tables of phi and eta' lack energy (C14), and tables of slow mesons lose theirs (C20)
    # radiation is not taken from the radiating particles
    settle(T, tot, 1.0 + (0.011 if fs in ("e e", "mu mu", "pi pi") else 0.0), 0.03, f"energy:{fs}", f"cme {e}: photons, electrons and neutrinos over the energy")


def _gevpair(spec, T):
    _, mv, e = spec
    m = gev(0.45 * e, mv)
    light = gev(0.45 * mv, mv)  # the channel functions vanish below the threshold of the dark matter
    T.state("pair", mv, e)
    np.random.seed(5)
    pw = {k: float(v) for k, v in m.partial_widths().items()}
    tot = sum(pw.values())
    grid = np.unique(np.concatenate([np.geomspace(1e-7 * mv, mv / 2, 500), np.linspace(1e-3 * mv, mv / 2 * (1 - 1e-9), 700)]))
    me = MASSES["e"]
    g, b = e / 2 / mv, math.sqrt(max(0.0, 1 - (2 * mv / e) ** 2))
    top = mv / 2 * g * (1 + b)
    x = np.unique(np.concatenate([top * np.array([1e-5, 1e-3, 0.02, 0.1, 0.3, 0.5, 0.7, 0.9, 0.97, 1.1]), [0.6 * mv * g * (1 - b) / 2]]))
    total = 0.0
    for p in PRODUCTS:
        mass = me if p == "positron" else 0.0
        fn, at_rest = functions(m, p), functions(light, p)
        gr = np.unique(np.concatenate([me * (1 + 1e-9) + np.geomspace(1e-6 * mv, mv, 40), grid])) if mass else grid
        gr = gr[(gr > mass) & (gr < mv / 2)]
        rest = np.zeros_like(gr)
        for fs in FINAL:
            if pw.get(fs, 0.0) > 1e-5 * tot:
                rest += pw[fs] / tot * np.asarray(at_rest[fs](gr, mv))
        lines = []
        if p == "photon":
            lines = [((mv - MASSES[n] ** 2 / mv) / 2, pw[n + " gamma"] / tot) for n in ("pi0", "eta") if pw[n + " gamma"] > 0]
        elif p == "positron":
            lines = [(mv / 2, 2 * pw["e e"] / tot)] if pw["e e"] > 0 else []
        else:
            lines = [(mv / 2, 2 * pw[{"e": "ve ve", "mu": "vm vm", "tau": "vt vt"}[p[1]]] / tot)]
        xs = x[x > 1.02 * mass]
        cont = lambda t: (np.interp(t, gr, rest, left=0 if mass else None) if len(gr) else 0 * t, lines)
        want = 2 * boosted(xs, e / 2, mv, cont, mass)
        # the library tabulates on 2 percent energy steps
        near = [2 * boosted(np.maximum(xs * c, 1.01 * mass), e / 2, mv, cont, mass) for c in (0.985, 1.015)]
        name = p if isinstance(p, str) else "-".join(p)
        got = np.asarray(fn["v v"](xs, e))
        T.step()
        T.check(got.shape == xs.shape and np.all(np.isfinite(got)) and np.all(got >= -1e-12 * np.max(got)), f"finite:v v:{name}", f"mv {mv} cme {e}")
        sc = np.max(want * xs) if len(xs) else 0
        for v, w, u, lo, hi in zip(got, want, xs, *near):
            settle(T, v, w, 0.02, f"pair:{name}", f"mv {mv} cme {e} E {u:.4g}", floor=0.004 * sc / u + max(abs(lo - w), abs(hi - w)))
        # the spectrum at an energy does not depend on the others asked for
        for i in (1, len(xs) // 2):
            one = np.asarray(fn["v v"](xs[i:i + 1], e))
            settle(T, one[0], got[i], 0.02, f"grid:v v:{name}", f"mv {mv} cme {e} E {xs[i]:.4g}", floor=0.003 * sc / xs[i])
        lab = np.unique(np.concatenate([np.geomspace(max(1e-7 * mv, 1.0001 * mass), top, 300), np.linspace(max(1e-3 * top, 1.001 * mass), top * 1.01, 700)]))
        total += np.trapezoid(np.asarray(fn["v v"](lab, e)) * lab, lab) / e
        T.outcome("pair", mv, e, name, got.sum())
    settle(T, total, 1.0 + 0.012 * (pw["e e"] + pw["mu mu"] + pw["pi pi"]) / tot, 0.03, "energy:v v", f"mv {mv} cme {e}")


# ---------------------------------------------------------------- final-state radiation
NODES = np.polynomial.legendre.leggauss(48)


@functools.lru_cache(None)
def fsr_grid(fam, f, q):
    m = MASSES[f]
    kmax = (q * q - 4 * m * m) / (2 * q)
    k = np.unique(np.concatenate([np.geomspace(1e-7 * kmax, 0.5 * kmax, 120), kmax * (1 - np.geomspace(1e-6, 0.5, 80))]))
    return k, np.array([radiated(fam, f, q, v) for v in k])


def radiated(fam, f, q, k):
    """dN/dE of photons off a pair from a (pseudo-point) mediator at rest of mass q, from the three-body matrix element."""
    m = MASSES[f]
    s = q * q - 2 * q * k
    if k <= 0 or s <= 4 * m * m or q <= 2 * m:
        return 0.0
    r = math.sqrt(1 - 4 * m * m / s)
    # fractions of 2 q k carried by 2 p1.k; even in u = log(z/(1-z))
    umax = math.log((1 + r) / (1 - r)) if r < 1 else 80.0
    u = umax * NODES[0]
    z = 1 / (1 + np.exp(-u))
    dz = umax * NODES[1] * z * (1 - z)
    E2 = q / 2 - k * z          # (q - p2)^2 = m^2 + 2 p1.k
    E1 = q - k - E2
    P1 = np.sqrt(np.maximum(E1 * E1 - m * m, 0))
    n = len(u)
    z0 = np.zeros(n)
    # cosine between p1 and the photon from p1.k = q k z
    c = np.clip((E1 - q * z) / np.where(P1 > 0, P1, 1), -1, 1)
    sn = np.sqrt(1 - c * c)
    K = np.stack([z0 + k, z0, z0, z0 + k], 1)
    p1 = np.stack([E1, P1 * sn, z0, P1 * c], 1)
    Qv = np.stack([z0 + q, z0, z0, z0], 1)
    p2 = Qv - p1 - K
    d1, d2 = q * k * z, q * k * (1 - z)  # p_i . k
    p0 = math.sqrt(q * q / 4 - m * m)
    if f == "pi":
        if fam == "scalar":
            cur = p1 / d1[:, None] - p2 / d2[:, None]
            msq = -dot(cur, cur)
            born = 1.0
        else:
            a, b_ = p1 + K - p2, p1 - p2 - K
            M = np.einsum("ni,nj->nij", p1 / d1[:, None], a) - np.einsum("ni,nj->nij", p2 / d2[:, None], b_) - 2 * np.diag(MET)[None]
            msq = np.einsum("nij,nij,i,j->n", M, M, MET, MET)
            born = -(-4 * p0 * p0)
    else:
        one = np.broadcast_to(ONE, (n, 4, 4))
        s1, s2, sk = sl(p1), sl(p2), sl(K)
        gams = [one] if fam == "scalar" else [np.broadcast_to(G, (n, 4, 4)) for G in GAM]
        msq = np.zeros(n)
        for j, Gm in enumerate(gams):
            for i in range(4):
                g_i = np.broadcast_to(GAM[i], (n, 4, 4))
                A = g_i @ (s1 + sk + m * one) @ Gm / (2 * d1)[:, None, None] + Gm @ (-s2 - sk + m * one) @ g_i / (2 * d2)[:, None, None]
                t = tr((s1 + m * one) @ A @ (s2 - m * one) @ bar(A)).real
                msq += -MET[i] * (1 if fam == "scalar" else -MET[j]) * t
        a = np.array([[q / 2, 0, 0, p0]])
        b_ = np.array([[q / 2, 0, 0, -p0]])
        born = 0.0
        for j, Gm in enumerate([ONE] if fam == "scalar" else GAM):
            t = tr((sl(a) + m * ONE) @ Gm @ (sl(b_) - m * ONE) @ bar(Gm)).real[0]
            born += t * (1 if fam == "scalar" else -MET[j])
    # dGamma/dk = e^2 |M|^2 dE2 / ((2 pi)^3 8 q), Gamma_0 = |M0|^2 p0 / (8 pi q^2), dE2 = k dz
    return float(4 * math.pi * ALPHA * np.sum(msq * dz) * k / ((2 * math.pi) ** 3 * 8 * q) / (born * p0 / (8 * math.pi * q * q)))


def mev(fam, mx, mm, kind="all"):
    """Mediators with all couplings or those to quarks (vector), gluons and photons (scalar) alone."""
    lep = float(kind == "all")
    if fam == "vector":
        from hazma.vector_mediator import VectorMediator
        return VectorMediator(mx, mm, .7, .25, .3, .4, .5 * lep, .1 * lep)
    from hazma.scalar_mediator import ScalarMediator
    return ScalarMediator(mx, mm, .7, .3 * lep, .2, .8, 246e3)


CH = dict(e="e e", mu="mu mu", pi="pi pi")


def _fsr(spec, T):
    _, fam, f, q = spec
    T.state(*spec)
    m = mev(fam, min(0.3, q / 9), 200.0)
    fn = {"e": "dnde_ee", "mu": "dnde_mumu", "pi": "dnde_pipi"}[f]
    kmax = (q * q - 4 * MASSES[f] ** 2) / (2 * q)
    if kmax <= 0:
        v = np.asarray(getattr(m, fn)(q * np.array([1e-4, 0.1, 0.4, 0.6]), q, "fsr"))
        T.check(np.all(v == 0), f"closed:{fam}:{f}", f"Q {q}: {v}")
        T.step()
        T.comparisons += 1
        return
    x = kmax * np.array([1e-6, 1e-3, 0.03, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99, 0.9999, 1.001, 1.3])
    v = np.asarray(getattr(m, fn)(x, q, "fsr"))
    T.check(np.all(np.isfinite(v)) and v.shape == x.shape, f"finite:{fam}:{f}", f"Q {q}")
    b = math.sqrt(1 - 4 * (MASSES[f] / q) ** 2)
    for k, got in zip(x, v):
        T.step()
        want = radiated(fam, f, q, k)
        settle(T, got, want, 1e-6, f"fsr:{fam}:{f}", f"Q {q} E {k:.5g}", floor=1e-9 / q)
        T.outcome(fam, f, q, got)
    # soft photons: the eikonal factor, for any spin
    soft = 2 * ALPHA / math.pi * ((1 + b * b) / (2 * b) * math.log((1 + b) ** 2 / (1 - b * b)) - 1)
    settle(T, v[0] * x[0], soft, 1e-3, f"soft:{fam}:{f}", f"Q {q}")


# ---------------------------------------------------------------- MeV models
def mev_rest(fam, product, q, bf, x):
    """Decay spectrum of a mediator of mass q at rest (continuous part, lines), or of a channel for bf = {channel: 1}."""
    out = np.zeros_like(x)
    lines = []
    for ch, w in bf.items():
        if w <= 0:
            continue
        if product == "photon":
            for f in ("e", "mu", "pi"):
                if ch == CH[f] and q > 2 * MASSES[f]:
                    k, v = fsr_grid(fam, f, q)
                    ok = (x < k[-1])
                    val = np.zeros_like(x)
                    val[ok] = np.exp(np.interp(np.log(x[ok]), np.log(k), np.log(np.maximum(v * k, 1e-300)))) / x[ok]
                    out += w * val
                    if f != "e":
                        out += 2 * w * decay("photon", f, x, q / 2)
            if ch == "pi0 pi0":
                out += 2 * w * decay("photon", "pi0", x, q / 2)
            if ch == "pi0 g":
                out += w * decay("photon", "pi0", x, (q + MASSES["pi0"] ** 2 / q) / 2)
                lines.append(((q - MASSES["pi0"] ** 2 / q) / 2, w))
            if ch == "g g":
                lines.append((q / 2, 2 * w))
        else:  # positrons only: TheoryCMB doubles them
            if ch in ("mu mu", "pi pi"):
                out += w * decay("positron", ch.split()[0], x, q / 2)
            if ch == "e e":
                lines.append((q / 2, w))
    return out, lines


def shipped(fam, u, E, M, bf):
    """Photon spectrum of one mediator in flight as it ships (and test/parity pins it): quadrature over the angle, ended by an absolute tolerance;
    scalars with half of their final-state radiation and one of their two photons; the photon beside a pi0 as energetic as half the mediator."""
    from scipy.integrate import quad
    g = E / M
    b = math.sqrt(1 - 1 / g ** 2)

    def rest(y):
        c, _ = mev_rest(fam, "photon", M, bf, np.array([y]))
        if fam == "scalar":
            for f in ("e", "mu", "pi"):
                w = bf.get(CH[f], 0.0)
                if w > 0 and M > 2 * MASSES[f]:
                    c = c - 0.5 * (mev_rest(fam, "photon", M, {CH[f]: w}, np.array([y]))[0] - (2 * w * decay("photon", f, np.array([y]), M / 2) if f != "e" else 0))
        return c[0]

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = quad(lambda z: rest(u * g * (1 - b * z)) / (2 * g * abs(1 - b * z)), -1.0, 1.0, points=[-1.0, 1.0], epsabs=1e-10, epsrel=1e-5)[0]
    if g * (1 - b) * M / 2 <= u <= g * (1 + b) * M / 2:
        out += bf.get("g g" if fam == "scalar" else "pi0 g", 0.0) / (M * g * b)
    return out


def _mev(spec, T):
    _, fam, mm, e, kind = spec
    T.state(*spec)
    m = mev(fam, 0.45 * e, mm, kind)
    pw = m.partial_widths()
    bf = {k: float(v) / pw["total"] if pw["total"] > 0 else 0.0 for k, v in pw.items() if k != "total"}
    g, b = e / 2 / mm, math.sqrt(max(0.0, 1 - (2 * mm / e) ** 2))
    pair = {"vector": "v v", "scalar": "s s"}[fam]
    for product in ("photon", "positron"):
        fns = m.spectrum_funcs() if product == "photon" else m.positron_spectrum_funcs()
        mass = MASSES["e"] if product == "positron" else 0.0
        for ch, fn in fns.items():
            parts = ch.split()
            thr = sum({"g": 0.0, "v": mm, "s": mm}.get(n, MASSES.get(n)) for n in parts)
            if e <= thr * (1 + 1e-9):
                continue
            T.step()
            top = e / 2
            x = top * np.array([1e-4, 3e-3, 0.05, 0.13, 0.31, 0.47, 0.62, 0.83, 0.93, 1.05])
            if ch == pair:
                x = np.unique(np.concatenate([x, [0.6 * mm * g * (1 - b) / 2]]))
            x = x[x > 1.05 * mass]
            def reference(x):
                if ch == pair:
                    return 2 * boosted(x, e / 2, mm, lambda t: mev_rest(fam, product, mm, bf, t), mass)
                if ch == "pi0 v":
                    E = (e * e + mm * mm - MASSES["pi0"] ** 2) / (2 * e)
                    return decay("photon", "pi0", x, e - E) + boosted(x, E, mm, lambda t: mev_rest(fam, product, mm, bf, t), mass)
                return mev_rest(fam, product, e, {ch: 1.0}, x)[0]

            want = reference(x)
            slack = np.zeros_like(x)
            if ch in (pair, "pi0 v"):  # positions of edges, from the library's masses of several vintages
                slack = np.maximum.reduce([abs(reference(np.maximum(x * c, 1.01 * mass)) - want) for c in (0.998, 1.002)])
            got = np.asarray(fn(x, e))
            T.check(got.shape == x.shape and np.all(np.isfinite(got)) and np.all(got >= 0), f"finite:{fam}:{ch}:{product}", f"mass {mm} cme {e}: {got}")
            sc = np.max(np.abs(want * x)) if len(x) else 0.0
            odd = want
            if ch == pair and product == "positron" and mm > 2 * mass:  # the known finding: lines as high as those of massless positrons
                r = math.sqrt(1 - (2 * mass / mm) ** 2)

                def massless(t):
                    c, lines = mev_rest(fam, product, mm, bf, t)
                    return c, [(e0, n * r) for e0, n in lines]
                odd = 2 * boosted(x, e / 2, mm, massless, mass)
            for v, w, u, sl_, o in zip(got, want, x, slack, odd):
                fl = 3e-3 * sc / u + sl_
                if abs(v - w) > 0.01 * abs(w) + fl and product == "photon" and ch in (pair, "pi0 v"):
                    # the known findings, recognised by the value they give
                    E = e / 2 if ch == pair else (e * e + mm * mm - MASSES["pi0"] ** 2) / (2 * e)
                    n, more = (2, 0.0) if ch == pair else (1, decay("photon", "pi0", np.array([u]), e - E)[0])
                    o2 = more + n * shipped(fam, u, E, mm, bf)
                    if abs(v - o2) <= 0.01 * abs(o2) + fl:
                        T.fail(f"photon-flight:{fam}", f"mass {mm} cme {e} E {u:.5g}: {v:.6g} instead of {w:.6g}")
                        continue
                line = abs(v - w) > 0.01 * abs(w) + fl and abs(v - o) <= 0.01 * abs(o) + fl
                key = f"positron-line-height:{fam}" if line else f"mev:{fam}:{ch}:{product}"
                if ch == pair and product == "positron" and v < w and u * g - math.sqrt(u * u - mass * mass) * g * b * 0.9 > mm / 2:
                    key = f"positron-forward-cone:{fam}"  # the known finding: only the foremost twentieth of the directions contributes
                settle(T, v, w, 0.01, key, f"mass {mm} cme {e} E {u:.5g}", floor=3e-3 * sc / u + sl_)
            T.outcome(fam, ch, product, mm, e, got.sum())


# ---------------------------------------------------------------- what the CMB sees
def _cmb(spec, T):
    """With efficiencies of one, f_eff is the share of energy in photons, electrons and positrons."""
    from hazma.theory import _theory_cmb as C
    _, which = spec
    T.state("cmb", which)

    class Unit:
        x = np.array([1e-6, 1e9])

        def __call__(self, e):
            return 1.0 + 0.0 * np.asarray(e, dtype=float)

    names = [n for n in ("f_eff_g", "f_eff_ep") if hasattr(C, n)]
    old = {n: getattr(C, n) for n in names}
    mx = 130.0
    if which == "gev":
        m = gev(mx, 3000.0, (0, 0, 0, 0, 1.0, 0, 0, 0))
    elif which == "single":
        from hazma.single_channel import SingleChannelAnn
        m = SingleChannelAnn(mx, "mu mu", 1e-26)
    else:
        from hazma.vector_mediator import VectorMediator
        m = VectorMediator(mx, 3000.0, 1.0, 0, 0, 0, 0, 1.0)
    if len(names) != 2:
        return
    try:
        for n in names:
            setattr(C, n, Unit())
        T.step()
        got = float(np.squeeze(m.f_eff_ep(1e-4)))
        pho = float(np.squeeze(m.f_eff_g(1e-4)))
    finally:
        for n in names:
            setattr(C, n, old[n])
    e = 2 * mx
    x = np.linspace(0.52, mx, 6000)
    want = 2 * np.trapezoid(decay("positron", "mu", x, mx) * x, x) / e
    T.outcome(which, got, pho)
    T.comparisons += 1
    if abs(got / want - 2) < 0.02 and which in ("gev", "single"):
        return T.fail(f"cmb-doubles-{which}", f"annihilation into muons injects {got:.4f} of its energy as e+ e- instead of {want:.4f}")
    settle(T, got, want, 0.01, f"cmb:{which}", "share of e+ e- from muon pairs")


def _form(spec, T):
    """A single energy, documented wherever an array is, gives the array's element; so does any other arrangement."""
    _, model = spec
    e = None
    if model.startswith("mev"):
        m, e = mev(model[4:], 250.0, 330.0), 700.0
    elif model == "gev":
        m, e = gev(600.0, 1500.0), 1330.0
    elif model == "single-ann":
        from hazma.single_channel import SingleChannelAnn
        ms = [SingleChannelAnn(250.0, fs, 1e-26) for fs in ("e e", "mu mu", "pi pi", "pi0 pi0", "pi0 a", "k k", "eta a")]
        e = 600.0
    elif model == "single-dec":
        from hazma.single_channel import SingleChannelDec
        ms = [SingleChannelDec(600.0, fs, 1e-26) for fs in ("e e", "mu mu", "pi pi", "pi0 pi0", "pi0 a", "k k", "eta a")]
    else:
        from hazma.rh_neutrino import RHNeutrino
        ms = [RHNeutrino(320.0, 1e-3, f) for f in ("mu",)]
    if e is not None and not model.startswith("single"):
        ms = [m]
    x = np.array([0.3, 1.0, 7.0, 60.0, 110.0, 160.0, 250.0, 340.0, 900.0])
    for m in ms:
        for what in ("spectrum_funcs", "positron_spectrum_funcs", "neutrino_spectrum_funcs", "_neutrino_spectrum_funcs"):
            if not hasattr(m, what) or model == "gev" and what[0] == "_":
                continue
            for fs, f in (getattr(m, what)("mu") if model == "gev" and what[0] == "n" else getattr(m, what)()).items():
                if fs.count("pi") == 4 or model == "rhn" and len(fs.split()) > 2 and "pi" in fs:
                    continue        # sampled
                for q in (e, 0.3 * e) if e is not None else (None,):
                    g = f if q is None else (lambda y, f=f, q=q: f(y, q))
                    ref = np.asarray(g(x))
                    T.step()
                    if not T.check(ref.shape[-1:] == x.shape, f"form:{model}:shape", f"{what} {fs} {q}: shape {ref.shape}"):
                        continue
                    T.close(np.asarray(g(x[::-1].copy()))[..., ::-1], ref, f"form:{model}:{what}:order", 1e-9, atol=1e-18, note=f"{fs} {q} backwards")
                    T.close(np.asarray(g(x[1::3].copy())), ref[..., 1::3], f"form:{model}:{what}:subset", 1e-9, atol=1e-18, note=f"{fs} {q} every third")
                    for i in (1, 4, 8):
                        for lab, v in (("float", float(x[i])), ("numpy float", np.float64(x[i]))):
                            try:
                                got = np.asarray(g(v))
                            except (TypeError, ValueError, AttributeError, IndexError) as err:
                                T.fail(f"form:{model}:{what}:scalar", f"{fs} at {q}: a {lab} raises {type(err).__name__}: {err}")
                                continue
                            T.check(got.shape == ref.shape[:-1], f"form:{model}:{what}:scalar-shape", f"{fs} {q}: {lab} gives shape {got.shape}")
                            T.close(np.squeeze(got), np.squeeze(ref[..., i]), f"form:{model}:{what}:scalar", 1e-9, atol=1e-18, note=f"{fs} {q} {lab} {x[i]}")
                    T.outcome(fs, ref)
                    T.state(model, what, fs, q)
        for what in ("spectra", "positron_spectra"):
            g = getattr(m, what)
            if model in ("gev", "rhn"):
                continue
            a = (e,) if e is not None else ()
            arr = g(x, *a)
            for i in (1, 5):
                T.step()
                try:
                    one = g(float(x[i]), *a)
                except (TypeError, ValueError, AttributeError, IndexError) as err:
                    T.fail(f"form:{model}:{what}", f"a float raises {type(err).__name__}: {err}")
                    continue
                T.check(set(one) == set(arr), f"form:{model}:{what}:keys", f"{sorted(one)}")
                for k in arr:
                    if k in one:
                        T.close(np.squeeze(one[k]), np.broadcast_to(arr[k], x.shape)[i], f"form:{model}:{what}", 1e-9, atol=1e-18, note=f"{k} at {x[i]}")
