"""The right-handed neutrino: widths, spectra and lines of every final state."""
import functools

import numpy as np

ID = "C39"
PROP = dict(
    title="RHNeutrino widths, spectra and lines are those of a Majorana neutrino mixing",
    statement=(
        "For every mixing flavor, mass and angle, RHNeutrino lists each two- and three-body final state once, together with "
        "its charge conjugate. Every width is the integral over phase space of the squared matrix element of a Majorana "
        "neutrino mixing with one active flavor (summed over the conjugate states), proportional to the squared mixing, and "
        "zero below threshold, and the energy and invariant-mass distributions of a three-body state are those of that matrix element. The spectrum of a final state without taus (whose decays hazma does not describe) is the n-body spectrum of its particles at the neutrino's "
        "mass with that matrix element, the lines sit at the two-body energies of the stable daughter, and photons, "
        "positrons, neutrinos and lines together carry the mass of the decaying neutrino."),
    quantifier=dict(over=["inputs", "configurations"],
                    text="3 flavors x masses over the whole range, both sides of every threshold x mixing angles x every final state x 3 products"),
    why_tests_cant="There are no tests of the model's widths or spectra; factors, conjugates, masses and flavor rows show only against an independent calculation.",
    anchors=dict(files=["hazma/rh_neutrino/_widths.py", "hazma/rh_neutrino/_spectra.py", "hazma/rh_neutrino/_configure.py", "hazma/rh_neutrino/_model.py", "hazma/rh_neutrino/_utils.py"],
                 mechanism=[dict(name="configure, three_lepton_fs_generations", where="hazma/rh_neutrino/_configure.py"),
                            dict(name="width_* / msqrd_*", where="hazma/rh_neutrino/_widths.py"),
                            dict(name="dnde_*", where="hazma/rh_neutrino/_spectra.py")]),
)
TECHNIQUE = "exhaustive enumeration of flavors, masses, angles, final states and products; each width against a phase-space integral of an independent matrix element, each spectrum against the n-body sum with that matrix element"
LEVEL_NOTE = ("3 flavors x 40 masses (1 MeV - 6 GeV and both sides of every threshold) x 3 angles for widths; 3 x 6 (thorough 14) masses x every open final state x photon/positron/neutrino "
              "for spectra; energy balance within 4 percent for the states whose decay tables are complete.")
RULE = "one case per flavor and mass (widths) or flavor, mass and final state (spectra); non-trivial when values were compared"
CORE = True
CHUNK = 1

FL = ["e", "mu", "tau"]
NU = ["ve", "vm", "vt"]


def thresholds():
    from hazma.parameters import standard_model_masses as sm
    out = set()
    for g in range(3):
        for st in states(g):
            m = sum(float(sm[x]) for x in st.split() if x != "a")
            out |= {m * (1 - 1e-3), m * (1 + 1e-3)} if m else set()
    return sorted(out)


def states(g):
    """Every final state, once."""
    v, l = NU[g], FL[g]
    out = [f"{v} {x}" for x in ("a", "pi0", "eta", "rho", "omega", "phi")] + [f"{l} {x}" for x in ("k", "pi", "rho")] + [f"{v} pi pi", f"{l} pi pi0"]
    for h in range(3):
        out += [f"{v} {FL[h]} {FL[h]}", f"{v} {NU[h]} {NU[h]}"]
        if h != g:
            out += [f"{NU[h]} {l} {FL[h]}", f"{NU[h]} {FL[h]} {l}"]
    return out


def cases(tier):
    for g in range(3):
        yield ["list", g]
        for i in range(12 if tier == "quick" else 40):
            yield ["width", g, tier, i]
        for mx in (60.0, 160.0, 320.0, 700.0, 1300.0, 2600.0) if tier == "quick" else (0.5, 1.5, 20.0, 60.0, 120.0, 160.0, 240.0, 320.0, 500.0, 700.0, 950.0, 1300.0, 2600.0, 4500.0):
            for st in states(g):
                yield ["spec", g, mx, st]
        for mx in (40.0, 330.0, 900.0):
            for st in states(g):
                if not {"eta", "omega", "phi", "k", "rho", "tau"} & set(st.split()):
                    yield ["energy", g, mx, st]
        for mx in (330.0, 900.0, 2600.0) if tier == "quick" else (2.0, 120.0, 330.0, 500.0, 900.0, 2600.0, 4500.0):
            for st in states(g):
                if len(st.split()) == 3:
                    yield ["dist", g, mx, st]


def model(g, mx, theta):
    from hazma.rh_neutrino import RHNeutrino
    return RHNeutrino(mx, theta, FL[g])


def parts(st):
    """Masses of the particles of a state."""
    from hazma.parameters import standard_model_masses as sm
    return [0.0 if x == "a" else float(sm[x]) for x in st.split()]


# ---- matrix elements (Dirac N, averaged over its spin), as functions of s = (p2+p3)^2, t = (p1+p3)^2

def dots(M, m, s, t):
    m1, m2, m3 = m
    u = M * M + m1 * m1 + m2 * m2 + m3 * m3 - s - t     # (p1+p2)^2
    P = [(M * M + m1 * m1 - s) / 2, (M * M + m2 * m2 - t) / 2, (M * M + m3 * m3 - u) / 2]
    D = {(0, 1): (u - m1 * m1 - m2 * m2) / 2, (0, 2): (t - m1 * m1 - m3 * m3) / 2, (1, 2): (s - m2 * m2 - m3 * m3) / 2}
    return P, D


@functools.lru_cache(None)
def ff():
    from hazma.form_factors.vector import VectorFormFactorPiPi
    return VectorFormFactorPiPi()


@functools.lru_cache(1 << 16)
def _f2(s):
    return abs(complex(np.squeeze(ff().form_factor(q=np.sqrt(s), couplings=(2 / 3, -1 / 3))))) ** 2


def f2(s):
    return np.vectorize(_f2, otypes=[float])(s)


def msqrd(g, st, M, th):
    """(masses, |M|^2(s,t)) of one charge state, averaged over a Majorana neutrino's two identical copies."""
    from hazma import parameters as pr
    G, Vud, s2 = pr.GF, abs(pr.Vud), pr.sin_theta_weak ** 2
    u2 = (0.5 * np.tan(2 * th)) ** 2
    p = st.split()
    if p[1:] == ["pi", "pi"] or p[1:] == ["pi", "pi0"]:
        mp = pr.charged_pion_mass
        m = (parts(st)[0], mp, mp)
        pre = 2 * G * G * u2 * (1 - 2 * s2) ** 2 if p[2] == "pi" else 4 * G * G * u2 * Vud ** 2

        def f(s, t, w=None):
            P, D = dots(M, m, s, t)
            q2 = 4 * mp * mp - s
            lq, Nq = D[0, 1] - D[0, 2], P[1] - P[2]
            return pre * (f2(s) if w is None else w) * (2 * lq * Nq - P[0] * q2)
        return m, f
    m = tuple(parts(st))
    if p[1][0] == "v":
        same = p[1] == p[0]

        def f(s, t, w=None):
            P, D = dots(M, m, s, t)
            a, b, c = P[0] * D[1, 2], P[1] * D[0, 2], P[2] * D[0, 1]
            # identical neutrinos: both diagrams add, halved for the two of them, thirds to symmetrise
            return 16 * G * G * u2 * ((a + b + c) * 4 / 3 / 2 if same else (b + c) / 2)
        return m, f
    if p[0] == NU[g]:
        gL, gR = (0.5 if p[1] == FL[g] else -0.5) + s2, s2

        def f(s, t, w=None):
            P, D = dots(M, m, s, t)
            ml = m[1]
            a = (gL ** 2 + gR ** 2) / 2 * (P[1] * D[0, 2] + P[2] * D[0, 1])
            return 64 * G * G * u2 * (a + gL * gR * ml * ml * P[0])
        return m, f
    il = 1 + p[1:].index(FL[g])
    ih = 3 - il

    def f(s, t, w=None):
        P, D = dots(M, m, s, t)
        return 64 * G * G * u2 * P[ih] * D[0, il]
    return m, f


def gl(n):
    x, w = np.polynomial.legendre.leggauss(n)
    return (x + 1) / 2, w / 2


def width3(M, m, f, n=80, peak=None):
    """Gamma = int |M|^2 ds dt / (256 pi^3 M^3)."""
    m1, m2, m3 = m
    if M <= m1 + m2 + m3:
        return 0.0
    lo, hi = (m2 + m3) ** 2, (M - m1) ** 2
    edges = [lo] + ([x for x in peak if lo < x < hi] if peak else []) + [hi]
    x, w = gl(n)
    X, W = gl(24)
    tot = 0.0
    for a, b in zip(edges[:-1], edges[1:]):
        # substitution softening both square-root ends
        y = x * x * (3 - 2 * x)
        s = a + (b - a) * y
        dw = w * 6 * x * (1 - x) * (b - a)
        rs = np.sqrt(s)
        e3, e1 = (s - m2 * m2 + m3 * m3) / (2 * rs) if lo > 0 else rs / 2, (M * M - s - m1 * m1) / (2 * rs)
        k = np.sqrt(np.maximum(e3 ** 2 - m3 * m3, 0) * np.maximum(e1 ** 2 - m1 * m1, 0))
        c = m1 * m1 + m3 * m3 + 2 * e1 * e3
        t = (c - 2 * k)[:, None] + (4 * k)[:, None] * X
        wt = f2(s)[:, None] if peak else None
        tot += np.sum(dw[:, None] * (4 * k)[:, None] * W * f(s[:, None], t, w=wt))
    return tot / (256 * np.pi ** 3 * M ** 3)


def width(g, st, M, th):
    """Summed over charge-conjugate states, where these are not listed."""
    from hazma import parameters as pr
    G, Vud, Vus, s2 = pr.GF, abs(pr.Vud), abs(pr.Vus), pr.sin_theta_weak ** 2
    u2 = (0.5 * np.tan(2 * th)) ** 2
    p = st.split()
    if st == f"{NU[g]} a":
        return 9 * pr.alpha_em * G * G * M ** 5 * u2 / (256 * np.pi ** 4)
    m = parts(st)
    if M <= sum(m):
        return 0.0
    if len(p) == 2:
        xl, xh = (m[0] / M) ** 2, (m[1] / M) ** 2
        lam = np.sqrt(max((1 - xl - xh) ** 2 - 4 * xl * xh, 0.0))
        if p[1] in ("pi0", "eta"):
            f = dict(pi0=pr.fpi0, eta=pr.feta)[p[1]]
            return 2 * u2 * G * G * f * f * M ** 3 * (1 - xh) ** 2 / (16 * np.pi)
        if p[1] in ("pi", "k"):
            f, V = dict(pi=(pr.fpi, Vud), k=(pr.fk, Vus))[p[1]]
            return 2 * u2 * G * G * V * V * f * f * M ** 3 / (8 * np.pi) * ((1 - xl) ** 2 - xh * (1 + xl)) * lam
        if p[0] in FL:
            return 2 * u2 * G * G * Vud ** 2 * 0.162e6 ** 2 * M ** 3 / (16 * np.pi * m[1] ** 2) * ((1 - xl) ** 2 + xh * (1 + xl) - 2 * xh ** 2) * lam
        k, gg = dict(rho=(1 - 2 * s2, 0.162e6), omega=(4 * s2 / 3, 0.153e6), phi=(4 * s2 / 3 - 1, 0.234e6))[p[1]]
        return 2 * u2 * (G * k * gg / m[1]) ** 2 * M ** 3 / (32 * np.pi) * (1 + 2 * xh) * (1 - xh) ** 2
    mm, f = msqrd(g, st, M, th)
    if M <= sum(mm):
        return 0.0
    pions = "pi" in p
    peak = [x * x for x in (600.0, 700.0, 740.0, 765.0, 775.0, 781.5, 784.0, 800.0, 830.0, 900.0, 1100.0, 1400.0, 1700.0, 2200.0)] if pions else None
    conj = 1 if p[0] in NU and p[0] != NU[g] else 2
    return conj * width3(M, mm, f, 24 if pions else 80, peak)


def masses_of(g, tier):
    base = list(np.geomspace(0.3, 6000.0, 22))
    return sorted(set(base) | set(thresholds()))


def run(spec, T):
    globals()["_" + spec[0]](spec, T)


def _list(spec, T):
    g = spec[1]
    for mx in (1.0, 500.0, 3000.0):
        m = model(g, mx, 1e-3)
        got = m.list_decay_final_states()
        T.step()
        T.check(len(set(got)) == len(got), "list:once", f"{got}")
        T.check({tuple([x.split()[0]] + sorted(x.split()[1:])) + ((x.split()[1],) if x[0] == "v" and x.split()[0] != NU[g] else ()) for x in got}
                == {tuple([x.split()[0]] + sorted(x.split()[1:])) + ((x.split()[1],) if x[0] == "v" and x.split()[0] != NU[g] else ()) for x in states(g)},
                "list:complete", f"{sorted(got)} instead of {sorted(states(g))}")
        w = m.decay_widths()
        T.check(set(w) == set(got) | {"total"}, "list:widths", f"{sorted(w)}")
        T.close(w["total"], sum(v for k, v in w.items() if k != "total"), "list:total", 1e-12)
        T.state(got)
    # at fixed branching into neutrinos the radiative decay is textbook
    from hazma.parameters import alpha_em
    w = model(g, 1.0, 1e-3).decay_widths()
    v3 = sum(w.get(f"{NU[g]} {n} {n}", 0.0) for n in NU)
    T.close(w[f"{NU[g]} a"] / v3, 27 * alpha_em / (8 * np.pi), "list:radiative", 1e-9)
    T.outcome(sorted(w))


def find(m, st):
    """The model's own name of a state."""
    have = m.list_decay_final_states()
    if st in have:
        return st
    p = st.split()
    alt = [x for x in have if x.split()[0] == p[0] and sorted(x.split()) == sorted(p)]
    return alt[0] if alt else None


def _width(spec, T):
    _, g, tier, i = spec
    ms = masses_of(g, tier)
    for mx in ms[i::12 if tier == "quick" else 40]:
        for th in (1e-5, 0.2, 0.7):
            m = model(g, mx, th)
            got = m.decay_widths()
            T.step()
            for st in states(g):
                name = find(m, st)
                if name is None:
                    T.fail("width:listed", f"{st} of {FL[g]}")
                    continue
                if th == 1e-5 or "pi" not in st.split()[1:] or len(st.split()) < 3:
                    want = width(g, st, mx, th)
                    store = want
                else:   # the integral over the form factor is independent of the angle
                    want = width(g, st, mx, 1e-5) * (np.tan(2 * th) / np.tan(2e-5)) ** 2
                pions = st.split()[-1] in ("pi", "pi0") and len(st.split()) == 3
                edge = mx < 1.02 * sum(parts(st)) if len(st.split()) == 3 else False
                mp = [sum(parts(st)), sum(parts(st)) + 4.7]
                if pions and mp[0] <= mx <= mp[1]:
                    continue    # charged masses are used for both pions
                T.close(got[name], want, f"width:{kind(st, g)}", rtol=5e-3 if pions else 2e-3 if edge else 2e-5, atol=1e-300 if not edge else 1e-9 * got["total"], note=f"{FL[g]} mx={mx} theta={th} {st}")
            T.state(g, round(mx, 6), th)
            T.outcome(g, mx, got["total"] / np.tan(2 * th) ** 2)


def kind(st, g):
    p = st.split()
    if len(p) == 2:
        return ("v " if p[0] in NU else "l ") + p[1]
    if "pi" in p:
        return ("v" if p[0] in NU else "l") + " pi pi"
    if p[1] in NU:
        return "vvv same" if p[0] == p[1] else "vvv"
    return "vll cc" if p[0] != NU[g] else "vll same" if p[1] == FL[g] else "vll"


def funcs(m, product):
    return {"photon": m.spectrum_funcs, "positron": m.positron_spectrum_funcs, "neutrino": m._neutrino_spectrum_funcs}[product]()


def value(m, name, product, es, nb):
    f = funcs(m, product)[name]
    try:
        return np.asarray(f(es, nbins=nb))
    except TypeError:
        return np.asarray(f(es))


def _spec(spec, T):
    from hazma import spectra
    _, g, mx, st = spec
    m = model(g, mx, 1e-3)
    name = find(m, st)
    if name is None:
        return T.fail("spec:listed", f"{st} of {FL[g]}")
    p = st.split()
    es = mx * np.array([2e-3, 0.02, 0.07, 0.12, 0.19, 0.26, 0.33, 0.41, 0.463, 0.52])
    if "rho" in p:
        es = es[::3]
    n3 = len(p) == 3
    open_ = mx > sum(parts(st)) and "a" not in p
    if open_ and "tau" in p:
        T.nontrivial = False
        return
    nb = 8 if "pi" in p else 12
    for product in ("photon", "positron", "neutrino"):
        got = value(m, name, product, es, nb if n3 else None)
        T.step()
        if not open_:
            want = np.zeros(((3,) if product == "neutrino" else ()) + es.shape)
        else:
            ps = [("rho0" if x == "rho" and p[0] in NU else x) for x in p]
            kw = {}
            if n3:
                _, f = msqrd(g, st, mx, 1e-3)
                kw = dict(msqrd=lambda s, t: np.squeeze(f(np.asarray(s), np.asarray(t))), msqrd_signature="st", nbins=nb, three_body_integrator="quad")
            want = np.asarray(getattr(spectra, "dnde_" + product)(es, mx, ps, **kw))
            if n3 and p[-1] == "pi0":
                # the matrix element knows one pion mass: which pion is called the second is a matter of taste
                other = np.asarray(getattr(spectra, "dnde_" + product)(es, mx, [ps[0], ps[2], ps[1]], **kw))
                if np.shape(got) == other.shape and np.max(np.abs(got - other)) < np.max(np.abs(got - want)):
                    want = other
        same = T.close(got, want, f"spec:{product}:{kind(st, g)}", rtol=3e-3 if n3 else 1e-9, atol=1e-5 * np.max(np.abs(want)) if n3 else 0.0, note=f"{FL[g]} mx={mx} {st}")
        T.outcome(product, want)
        T.state(g, mx, st, product, same)
    # lines
    lines = {}
    if len(p) == 2 and mx > sum(parts(st)):
        a, b = parts(st)
        e = (mx * mx + a * a - b * b) / (2 * mx)
        lines = dict(g={"v a": mx / 2}, p={"l": e}, n={"v": e})
    have = dict(g=m.gamma_ray_lines(), p=m.positron_lines(), n=m._neutrino_line_energies())
    want = dict(g=p[-1] == "a", p=p[0] == "e" and len(p) == 2, n=p[0] in NU and len(p) == 2)
    for k in "gpn":
        v = have[k].get(name)
        if v is not None and not np.isscalar(v):
            v = v["energy"]
        exp = want[k] and mx > sum(parts(st))
        T.check((v is not None) == bool(exp), f"line:{k}", f"{FL[g]} mx={mx} {st}: line {v}")
        if exp and v is not None:
            a, b = parts(st)
            T.close(v, (mx * mx + a * a - b * b) / (2 * mx), f"line:{k}-energy", 1e-12, note=f"{FL[g]} mx={mx} {st}")


def _energy(spec, T):
    """Everything a decay leaves behind carries the neutrino's mass."""
    _, g, mx, st = spec
    if mx <= 1.1 * sum(parts(st)):
        T.nontrivial = False
        return
    m = model(g, mx, 1e-3)
    name = find(m, st)
    if name is None:
        return T.fail("energy:listed", st)
    p = st.split()
    x = np.concatenate([np.geomspace(1e-7, 0.02, 60)[:-1], np.linspace(0.02, 0.56, 1400)])
    es = x * mx
    tot = 0.0
    for product in ("photon", "positron", "neutrino"):
        v = value(m, name, product, es, 20 if "pi" not in p or len(p) < 3 else 8)
        v = np.where(np.isfinite(v), v, 0.0)
        e = es
        if v.ndim == 2:
            v = v.sum(axis=0)
        tot += np.trapezoid(v * e, es)
        T.step()
    for d in (m.gamma_ray_lines(), m.positron_lines(), m._neutrino_line_energies()):
        v = d.get(name)
        if v is not None:
            tot += v if np.isscalar(v) else v["energy"]
    # electrons are listed without photon lines of e.g. annihilation; FSR is added on top
    T.close(tot, mx, f"energy:{kind(st, g)}", rtol=0.04, note=f"{FL[g]} mx={mx} {st}")
    T.outcome(round(tot / mx, 3))


def _dist(spec, T):
    """Distributions of a three-body state are those of its matrix element; the pion and neutrino matrix elements are normalised."""
    from hazma.phase_space import ThreeBody
    from hazma.rh_neutrino import _widths as W
    from hazma.rh_neutrino._proto import Generation
    _, g, mx, st = spec
    p = st.split()
    masses, f = msqrd(g, st, mx, 1e-3)
    if mx <= 1.02 * sum(masses):
        T.nontrivial = False
        return
    m = model(g, mx, 1e-3)
    G = [Generation((NU if x in NU else FL).index(x)) for x in p if x in NU + FL]
    tag, extra, amp = (("v_pi_pi" if p[0] in NU else "l_pi0_pi", (ff(),), True) if "pi" in p else
                       ("v_v_v", (G[1],), True) if p[1] in NU else ("v_l_l", tuple(G), False))
    kw = dict(nbins=6)
    M1 = lambda s, t: np.squeeze(f(np.asarray(s), np.asarray(t)))
    if amp and hasattr(W, "msqrd_" + tag):
        h = getattr(W, "msqrd_" + tag)
        m1, m2, m3 = masses
        for y in (0.03, 0.2, 0.5, 0.9):
            s = (m2 + m3) ** 2 + ((mx - m1) ** 2 - (m2 + m3) ** 2) * y
            e3, e1 = (s - m2 * m2 + m3 * m3) / 2 / np.sqrt(s), (mx * mx - s - m1 * m1) / 2 / np.sqrt(s)
            k = np.sqrt(max(e3 ** 2 - m3 ** 2, 0) * max(e1 ** 2 - m1 ** 2, 0))
            t = m1 * m1 + m3 * m3 + 2 * e1 * e3 + 2 * k * np.array([-0.8, 0.1, 0.7])
            T.step()
            got = np.array([float(np.squeeze(h(np.array([s]), np.array([x]), m, *((ff(),) if "pi" in p else extra)))) for x in t])
            T.close(got, np.squeeze(f(np.full(3, s), t)), f"dist:amplitude:{kind(st, g)}", 1e-7, note=f"{FL[g]} mx={mx} {st} s={s}")
    e_fn, i_fn = getattr(W, "energy_distributions_" + tag, None), getattr(W, "invariant_mass_distributions_" + tag, None)
    if e_fn is None or i_fn is None:
        return
    ref = ThreeBody(mx, masses, msqrd=M1)
    want_e, want_i = ref.energy_distributions(nbins=6, method="quad"), ref.invariant_mass_distributions(nbins=6, method="quad")
    T.step()
    got_e, got_i = e_fn(m, *extra, **kw), i_fn(m, *extra, **kw)
    T.check(len(got_e) == 3 and set(map(tuple, got_i)) == set(map(tuple, want_i)), "dist:shape", f"{len(got_e)} {sorted(got_i)}")
    for lab, a, b in [(f"E{i}", x, y) for i, (x, y) in enumerate(zip(got_e, want_e))] + [(f"m{k}", got_i[k], want_i[k]) for k in want_i if k in got_i]:
        T.close(a.bins, b.bins, f"dist:bins:{kind(st, g)}", 1e-9, note=f"{FL[g]} mx={mx} {st} {lab}")
        T.close(a.probabilities, b.probabilities, f"dist:{kind(st, g)}", 1e-5, atol=1e-9 * np.max(b.probabilities), note=f"{FL[g]} mx={mx} {st} {lab}")
        T.outcome(b.probabilities)
    T.state(g, mx, st)
