"""Spectra of n-body final states."""
import itertools

import numpy as np

from checks import _ps

ID = "C23"
PROP = dict(
    title="Spectra of n-body final states sum every particle's decays, lines and FSR",
    statement=(
        "For every final state, energy, product and squared matrix element: one particle gives its own decay spectrum; two "
        "particles give the sum of their spectra at the exact two-body energies; more particles give, for each of them, its "
        "spectrum averaged over its energy distribution, plus the particle's own energy distribution when it is itself the "
        "product (its own flavor only for neutrinos). Photons of final-state radiation are added once for every charged "
        "particle, at the pair's invariant mass, averaged over pairs. Flavors are the rows of the all-flavor spectrum, the "
        "order of particles does not matter, scalars and sequences are answered alike, and states heavier than the energy "
        "or unknown are refused."),
    quantifier=dict(over=["inputs", "configurations"],
                    text="every single state and pair of the 16 states; triples, quadruples and orders over a subset; 3 products; energies, matrix elements and integrators"),
    why_tests_cant="Tests cover a handful of final states and never compare identical charged particles, direct neutrinos by flavor, or the ends of the distributions.",
    anchors=dict(files=["hazma/spectra/_nbody.py", "hazma/spectra/__init__.py", "hazma/phase_space/_three_body.py"],
                 mechanism=[dict(name="_dnde_nbody / _dnde_two_body / _dnde_multi_particle", where="hazma/spectra/_nbody.py"),
                            dict(name="_conv_dnde_dist, _dnde_photon_fsr", where="hazma/spectra/_nbody.py"),
                            dict(name="dnde_photon, dnde_positron, dnde_neutrino", where="hazma/spectra/_nbody.py")]),
)
TECHNIQUE = "exhaustive enumeration of final states, energies, products, matrix elements and integrators against sums built from single-particle spectra"
LEVEL_NOTE = ("All 16 single states and 136 pairs x 3 products x 2 energies x with/without FSR; all triples over 6 (thorough 9) states by quadrature against the "
              "package's own three-body distributions (which C18 decides) and, for a subset, against independent continuous integrals; 3-5 particles by RAMBO "
              "against analytic phase-space densities within statistical errors.")
RULE = "one case per group of final states; non-trivial when spectra were compared"
CORE = True
CHUNK = 1

STATES = ["e", "ve", "vm", "vt", "mu", "pi", "pi0", "k", "kl", "ks", "eta", "etap", "rho", "rho0", "omega", "phi"]
NAME = dict(mu="muon", pi="charged_pion", pi0="neutral_pion", k="charged_kaon", kl="long_kaon", ks="short_kaon", eta="eta",
            etap="eta_prime", rho="charged_rho", rho0="neutral_rho", omega="omega", phi="phi")
CHARGED = dict(e=True, mu=True, pi=False, k=False)   # fermion?
TRI = ["mu", "pi", "pi0", "e", "vm", "kl"]
TRI_MORE = ["eta", "ve", "rho0"]


def cases(tier):
    for p in ("photon", "positron", "neutrino"):
        for s in STATES:
            yield ["one", p, s]
            yield ["two", p, s]
    tri = TRI if tier == "quick" else TRI + TRI_MORE
    for t in itertools.combinations_with_replacement(tri, 3):
        yield ["three", list(t)]
    for t in (["mu", "pi", "pi0"], ["e", "vm", "pi"], ["pi0", "pi", "pi"], ["vt", "vt", "mu"]):
        yield ["perm", t]
    for t in (["mu", "e", "vm"], ["pi0", "pi", "pi"], ["k", "mu", "mu"], ["ve", "vt", "kl"]):
        for f in ("e1", "s12", "asym"):
            yield ["msqrd", t, f]
    for t in (["mu", "mu", "pi0"], ["pi", "mu", "vm"], ["pi0", "kl", "vt"]):
        yield ["cont", t]
    quads = [["mu", "mu", "pi0", "pi0"], ["pi", "pi", "pi", "mu"], ["e", "ve", "vm", "mu"], ["k", "pi", "vt", "kl"], ["pi"] * 5, ["mu", "mu", "vt"]]
    for t in quads if tier == "quick" else quads + [["mu", "mu", "e", "e"], ["eta", "pi", "pi", "pi0"], ["ve", "vm", "vt", "pi0"], ["pi"] * 6]:
        for p in ("photon", "positron", "neutrino"):
            yield ["mc", t, p]
    yield ["api"]


def masses(states):
    from hazma.parameters import standard_model_masses as sm
    return [float(sm[s]) for s in states]


def dec(product, state, es, E):
    """Spectrum of one particle of energy E, from the public single-particle functions."""
    from hazma import spectra
    es = np.asarray(es, float)
    zero = np.zeros(((3,) if product == "neutrino" else ()) + es.shape)
    if state not in NAME:
        return zero
    fn = getattr(spectra, f"dnde_{product}_{NAME[state]}", None)
    if fn is None:
        return zero
    if product == "neutrino":
        return np.array([fn(es, E, flavor=f) for f in ("e", "mu", "tau")])
    return np.asarray(fn(es, E))


def fsr(state, es, s):
    from hazma.parameters import alpha_em
    es = np.asarray(es, float)
    m = masses([state])[0]
    x = 2 * es / np.sqrt(s)
    mu2 = m * m / s
    with np.errstate(all="ignore"):
        lg = np.log((1 - x) / mu2) - 1
        k = (1 + (1 - x) ** 2) / x if CHARGED[state] else 2 * (1 - x) / x
        v = alpha_em / (2 * np.pi) * (2 / np.sqrt(s)) * k * lg
    return np.where((x > 0) & (x < 1 - np.exp(1) * mu2), v, 0.0)


def lib(product, es, cme, states, **kw):
    from hazma import spectra
    return getattr(spectra, f"dnde_{product}")(es, cme, states, **kw)


def grid(cme):
    return np.concatenate([cme * np.array([1.3e-6, 3e-3, 0.03, 0.08, 0.15, 0.22, 0.31, 0.4, 0.45, 0.49]), [0.3, 5.0, 40.0, 135.0, 1.05 * cme]])


def two(product, es, cme, a, b, with_fsr, off=0.0):
    ma, mb = masses([a, b])
    ea = (cme * cme + ma * ma - mb * mb) / (2 * cme)
    r = dec(product, a, es, ea * (1 + off)) + dec(product, b, es, (cme - ea) * (1 + off))
    if product == "photon" and with_fsr:
        for s in (a, b):
            if s in CHARGED:
                r = r + fsr(s, es, cme * cme)
    return r


def direct(product, state):
    if product == "positron":
        return state == "e"
    return product == "neutrino" and state in ("ve", "vm", "vt")


def fold(product, es, states, edists, pairs, with_fsr, average=True):
    """Sum over particles of bins x single-particle spectra."""
    out = np.zeros(((3,) if product == "neutrino" else ()) + np.shape(es))
    for st, (edges, pr) in zip(states, edists):
        c, w = 0.5 * (edges[1:] + edges[:-1]), np.diff(edges)
        for ci, wi, pi in zip(c, w, pr):
            if pi * wi and st in NAME:
                out = out + pi * wi * dec(product, st, es, ci)
        if direct(product, st):
            # the outer half bins are as probable as their bins
            line = np.where((es < edges[0]) | (es > edges[-1]), 0.0, np.interp(es, c, pr))
            if product == "neutrino":
                out[("ve", "vm", "vt").index(st)] += line
            else:
                out = out + line
    if product == "photon" and with_fsr:
        for i, st in enumerate(states):
            if st not in CHARGED:
                continue
            if average:       # every particle: mean over the pairs it is in
                use = [k for k in pairs if i in k]
            else:             # the first pair with this species
                use = [min(k for k in pairs if st in (states[k[0]], states[k[1]]))]
            for k in use:
                edges, pr = pairs[k]
                c, w = 0.5 * (edges[1:] + edges[:-1]), np.diff(edges)
                for ci, wi, pi in zip(c, w, pr):
                    out = out + pi * wi * fsr(st, es, ci * ci) / len(use)
    return out


def dists(cme, states, nbins, **kw):
    from hazma.phase_space import ThreeBody
    ps = ThreeBody(cme, masses(states), **kw)
    e = [(d.bins, d.probabilities) for d in ps.energy_distributions(nbins=nbins)]
    p = {k: (d.bins, d.probabilities) for k, d in ps.invariant_mass_distributions(nbins=nbins).items()}
    return e, p


def same(T, got, want, key, rtol=1e-8, note=""):
    T.step()
    got = np.asarray(got)
    scale = np.max(np.abs(want)) if np.size(want) else 0.0
    T.close(got, want, key, rtol=rtol, atol=1e-12 * scale, note=note)
    T.state(note, key)


def run(spec, T):
    globals()["_" + spec[0]](spec, T)


def _one(spec, T):
    _, product, s = spec
    (m,) = masses([s])
    for r in (1.0, 1.2, 5.0) if m > 0.0 else (0.1, 700.0):
        cme = m * r if m else r
        es = grid(cme)
        want = dec(product, s, es, cme)
        same(T, lib(product, es, cme, s), want, f"{product}:single:{s}", note=f"str cme={cme}")
        same(T, lib(product, es, cme, [s]), want, f"{product}:single:{s}", note=f"list cme={cme}")
        same(T, lib(product, es, cme, (s,)), want, f"{product}:single:{s}", note=f"tuple cme={cme}")
        if product == "neutrino":
            for i, f in enumerate(("e", "mu", "tau")):
                same(T, lib(product, es, cme, s, flavor=f), want[i], f"{product}:single-flavor:{s}", note=f"{f} cme={cme}")
        T.outcome(want)


def _two(spec, T):
    _, product, a = spec
    slow = lambda s: s in ("rho", "rho0") and product == "photon"
    for b in STATES[STATES.index(a):]:
        ms = masses([a, b])
        for cme in (sum(ms) * 1.02 + 0.01, 2.5 * sum(ms) + 300.0)[:1 if slow(a) and slow(b) else 2]:
            es = grid(cme)[:: 3 if slow(a) or slow(b) else 1]
            for f in (True, False) if product == "photon" else (None,):
                kw = {} if f is None else {"include_fsr": f}
                want = two(product, es, cme, a, b, f)
                for st in ([a, b], (b, a)):
                    got = np.asarray(lib(product, es, cme, st, **kw))
                    if got.shape == want.shape and not np.allclose(got, want, rtol=1e-8, atol=1e-12 * np.max(np.abs(want))):
                        # the parents' spectra jump at edges; the energies are only known to roundoff
                        for off in (1e-13, -1e-13):
                            near = two(product, es, cme, a, b, f, off)
                            want = np.where(np.abs(near - got) < np.abs(want - got), near, want)
                    same(T, got, want, f"{product}:two", note=f"{st} cme={cme} {kw}")
            if product == "neutrino":
                for i, fl in enumerate(("e", "mu", "tau")):
                    same(T, lib(product, es, cme, [a, b], flavor=fl), want[i], "neutrino:two-flavor", note=f"{a},{b} {fl} cme={cme}")
            if product == "photon" and not (slow(a) or slow(b)):
                same(T, lib(product, es, cme, [a, b]), two(product, es, cme, a, b, True), "photon:two-default", note=f"{a},{b}")
            T.outcome(want)


def _three(spec, T):
    states = spec[1]
    ms = masses(states)
    cme = 1.6 * sum(ms) + 60.0
    nb = 5 if not {"rho0"} & set(states) else 3
    ed, pd = dists(cme, states, nb)
    es = grid(cme)
    for st, (edges, pr) in zip(states, ed):
        if direct("neutrino", st) or direct("positron", st):
            w = edges[1] - edges[0]   # in, and just beyond, the outer half bins
            es = np.concatenate([es, [edges[0] + 0.2 * w, edges[0] + 0.45 * w, edges[-1] - 0.45 * w, edges[-1] - 0.1 * w, edges[-1] + 0.1 * w]])
    es = np.unique(es)
    for f, av in ((True, True), (True, False), (False, True)):
        same(T, lib("photon", es, cme, states, nbins=nb, include_fsr=f, average_fsr=av), fold("photon", es, states, ed, pd, f, av),
             "photon:three", rtol=1e-7, note=f"{states} fsr={f} average={av}")
    same(T, lib("positron", es, cme, states, nbins=nb), fold("positron", es, states, ed, pd, False), "positron:three", rtol=1e-7, note=f"{states}")
    want = fold("neutrino", es, states, ed, pd, False)
    same(T, lib("neutrino", es, cme, states, nbins=nb), want, "neutrino:three", rtol=1e-7, note=f"{states}")
    for i, fl in enumerate(("e", "mu", "tau")):
        same(T, lib("neutrino", es, cme, states, nbins=nb, flavor=fl), want[i], "neutrino:three-flavor", rtol=1e-7, note=f"{states} {fl}")
    T.outcome(want)


def _perm(spec, T):
    states = spec[1]
    cme = 1.4 * sum(masses(states)) + 200.0
    es = grid(cme)
    for product in ("photon", "positron", "neutrino"):
        ref = lib(product, es, cme, states, nbins=6)
        for p in sorted(set(itertools.permutations(states))):
            same(T, lib(product, es, cme, p, nbins=6), ref, f"{product}:order", rtol=1e-5, note=f"{p}")
        for ti in ("quad", "trapz", "simps"):
            same(T, lib(product, es, cme, states, nbins=6, three_body_integrator=ti), ref, f"{product}:integrator", rtol=1e-2, note=f"{states} {ti}")
        T.outcome(ref)


def _msqrd(spec, T):
    """A matrix element reaches the right particles, in either signature."""
    _, states, kind = spec
    m1, m2, m3 = masses(states)
    cme = 1.5 * (m1 + m2 + m3) + 150.0
    q2 = cme * cme
    # s = (p2+p3)^2, t = (p1+p3)^2
    st = {"e1": lambda s, t: ((q2 + m1 * m1 - s) / (2 * cme * cme)) ** 2,
          "s12": lambda s, t: 1 / ((m1 * m1 + m2 * m2 + m3 * m3 + q2 - s - t) / q2 + 0.05),
          "asym": lambda s, t: 0.01 + (t / q2) ** 3}[kind]
    inv = lambda a, b: (a[0] + b[0]) ** 2 - (a[1] + b[1]) ** 2 - (a[2] + b[2]) ** 2 - (a[3] + b[3]) ** 2
    pm = {"e1": lambda p: (p[0, 0] / cme) ** 2,
          "s12": lambda p: 1 / (inv(p[:, 0], p[:, 1]) / q2 + 0.05),
          "asym": lambda p: 0.01 + (inv(p[:, 0], p[:, 2]) / q2) ** 3}[kind]
    es = grid(cme)
    nb = 5
    ed, pd = dists(cme, states, nb, msqrd=st, msqrd_signature="st")
    for product in ("photon", "positron", "neutrino"):
        want = fold(product, es, states, ed, pd, True)
        a = lib(product, es, cme, states, msqrd=st, nbins=nb, msqrd_signature="st")
        same(T, a, want, f"{product}:msqrd-st", rtol=1e-6, note=f"{states} {kind}")
        same(T, lib(product, es, cme, states, msqrd=pm, nbins=nb, msqrd_signature="momenta"), want, f"{product}:msqrd-momenta", rtol=1e-5, note=f"{states} {kind}")
        flat = lib(product, es, cme, states, nbins=nb)
        if np.max(np.abs(want)) > 0 and len(set(states)) == 3:
            T.check(np.max(np.abs(a - flat)) > 1e-4 * np.max(np.abs(flat)), f"{product}:msqrd-used", f"{states} {kind}: the matrix element changes nothing")
        T.outcome(want)


def e_density(cme, ms, i):
    rest = [m for j, m in enumerate(ms) if j != i]
    lo, hi = ms[i], (cme * cme + ms[i] ** 2 - sum(rest) ** 2) / (2 * cme)
    f = lambda e: np.sqrt(np.maximum(e * e - ms[i] ** 2, 0)) * _ps.phin(np.sqrt(np.maximum(cme * cme + ms[i] ** 2 - 2 * cme * e, 1e-30)), rest, 24)
    return lo, hi, f


def m_density(cme, ms, k):
    a, b = ms[k[0]], ms[k[1]]
    rest = [m for j, m in enumerate(ms) if j not in k]
    lo, hi = a + b, cme - sum(rest)
    f = lambda m: m * _ps.phi2(m, a, b) * np.array([_ps.phin(cme, [mm] + rest, 24)[0] for mm in m])
    return lo, hi, f


def hist(lo, hi, f, nb):
    edges = np.linspace(lo, hi, nb + 1)
    x, w = _ps.gl(6)
    pts = edges[:-1, None] + np.diff(edges)[:, None] * 0.5 * (x + 1)
    v = (f(pts.ravel()).reshape(pts.shape) * w).sum(axis=1)
    return edges, v / (v * np.diff(edges)).sum()


def _cont(spec, T):
    """Against the continuous integral: fine bins converge to it, within the bin width."""
    states = spec[1]
    ms = masses(states)
    cme = 1.5 * sum(ms) + 250.0
    es = cme * np.array([3e-3, 0.03, 0.08, 0.15, 0.2])
    nb = 60
    ed = [hist(*e_density(cme, ms, i), nb) for i in range(3)]
    pd = {k: hist(*m_density(cme, ms, k), nb) for k in itertools.combinations(range(3), 2)}
    for product in ("photon", "positron", "neutrino"):
        want = fold(product, es, states, ed, pd, True)
        got = lib(product, es, cme, states, nbins=nb)
        T.step()
        T.close(got, want, f"{product}:continuous", rtol=2e-2, atol=2e-3 * np.max(np.abs(want)), note=f"{states}")
        T.outcome(want)


def _mc(spec, T):
    _, states, product = spec
    ms = masses(states)
    cme = 1.4 * sum(ms) + 300.0
    es = cme * np.array([3e-3, 0.02, 0.05, 0.08, 0.11, 0.15, 0.2])
    nb = 15
    ed = [hist(*e_density(cme, ms, i), nb) for i in range(len(ms))]
    pd = {k: hist(*m_density(cme, ms, k), nb) for k in itertools.combinations(range(len(ms)), 2)} if product == "photon" else {}
    with _ps.seeded():
        for f in (True, False) if product == "photon" else (None,):
            kw = {} if f is None else {"include_fsr": f}
            want = fold(product, es, states, ed, pd, f)
            got = lib(product, es, cme, states, nbins=nb, npts=1 << 15, three_body_integrator="rambo", **kw)
            T.step()
            T.close(got, want, f"{product}:rambo", rtol=6e-2, atol=6e-3 * np.max(np.abs(want)), note=f"{states} {kw}")
            T.outcome(want)
        if product == "photon":
            a = lib(product, es, cme, states, nbins=nb, npts=1 << 15, three_body_integrator="rambo", average_fsr=False)
            T.close(a, fold(product, es, states, ed, pd, True, False), "photon:rambo-no-average", rtol=6e-2, atol=6e-3 * np.max(np.abs(want)), note=f"{states}")


def _api(spec, T):
    for product in ("photon", "positron", "neutrino"):
        from hazma import spectra
        fn = getattr(spectra, f"dnde_{product}")
        T.check(set(fn.availible_final_states) == set(STATES), f"{product}:available", f"{fn.availible_final_states}")
        for states in ("mu", ["mu"], ["mu", "pi"], ["mu", "pi", "pi0"], ["pi", "pi", "pi0", "pi0"]):
            lst = [states] if isinstance(states, str) else states
            cme = 2.0 * sum(masses(lst)) + 50
            kw = dict(npts=500, nbins=4) if len(lst) > 2 else {}
            with _ps.seeded():
                ref = lib(product, np.array([20.0, 90.0]), cme, states, **kw)
            for form in (20.0, 20, np.float64(20.0)):
                with _ps.seeded():
                    v = lib(product, form, cme, states, **kw)
                T.step()
                T.close(v, np.asarray(ref)[..., 0], f"{product}:scalar", rtol=1e-12, note=f"{states} {form!r}")
            for form in ([20, 90], (20.0, 90.0), np.array([20, 90])):
                with _ps.seeded():
                    v = lib(product, form, cme, states, **kw)
                T.step()
                T.close(v, ref, f"{product}:sequence", rtol=1e-12, note=f"{states} {form!r}")
            low = sum(masses(lst)) * (1 - 1e-6)
            T.step()
            try:
                v = lib(product, 20.0, low, states, **kw)
                T.fail(f"{product}:threshold", f"{states} at {low}: {v}")
            except ValueError:
                T.check(True, "x")
        for bad in ("nope", ["nope"], ["mu", "nope"], ["mu", "pi", "nope"], ["mu", "pi", "pi", "nope"]):
            T.step()
            try:
                v = lib(product, 20.0, 5000.0, bad)
                T.fail(f"{product}:unknown", f"{bad}: {v}")
            except (ValueError, KeyError):
                T.check(True, "x")
        T.step()
        try:
            v = lib(product, 20.0, 5000.0, ["mu", "pi", "pi"], three_body_integrator="nope")
            T.fail(f"{product}:integrator", f"{v}")
        except (ValueError, AssertionError):
            T.check(True, "x")
    try:
        v = lib("neutrino", 20.0, 5000.0, ["mu", "mu"], flavor="nope")
        T.fail("neutrino:flavor", f"{v}")
    except (ValueError, KeyError):
        T.check(True, "x")
    T.outcome("api")
