"""Single-channel dark matter and black holes: rate, spectra and lines of the one channel."""
import itertools
import math
import os
import warnings

import numpy as np

ID = "C43"
PROP = dict(
    title="Single-channel and black-hole dark matter report the data of their channel",
    statement=(
        "For dark matter of any mass annihilating or decaying into any one final state, in either order of its particles: the threshold is "
        "the sum of their masses, the rate is the given one above it (and above twice the dark matter's mass) and zero below; photon and "
        "positron spectra are the n-body spectra of the final state at the total energy; a two-body state with a photon or an electron has a line at "
        "that particle's two-body energy, with branching fraction one, and no other state has lines; two-photon lines count twice in "
        "convolved spectra and in f_eff. A black hole of a tabulated mass has the tabulated spectrum (MeV, interpolated in the energy, zero outside) "
        "times the fraction; an untabulated mass is refused, leaving the object as it was."),
    quantifier=dict(over=["configurations"], text="all ordered pairs and selected triples of particles x annihilation and decay x total energies on both sides of the threshold; all tabulated black holes"),
    why_tests_cant="Tests use a few final states at one energy; energies of lines differ only for unequal masses, and wrong thresholds only show close to them.",
    anchors=dict(files=["hazma/single_channel.py", "hazma/pbh.py", "hazma/theory/__init__.py"],
                 mechanism=[dict(name="SingleChannelAnn, SingleChannelDec", where="hazma/single_channel.py"), dict(name="PBH", where="hazma/pbh.py")]),
)
TECHNIQUE = "exhaustive enumeration of final states, orders, model kinds and energies around thresholds against kinematics, n-body spectra and tables read independently"
LEVEL_NOTE = ("All ordered pairs of 18 particles, 12 triples, both kinds, 5 total energies (thorough 11) each; spectra at 5 energies; 100 masses of each of the three black-hole tables.")
RULE = "one case per kind and first particle, and per black-hole table; non-trivial when rates, lines or spectra were compared"
CORE = True
CHUNK = 1

NAMES = ["e", "mu", "ve", "vm", "vt", "pi", "pi0", "k", "kl", "ks", "eta", "etap", "rho", "rho0", "omega", "phi", "a", "photon"]
TRIPLES = ["pi pi pi0", "pi0 pi0 pi0", "e mu pi", "mu mu pi0", "pi pi eta", "k k pi0", "e e pi0", "ve mu pi", "pi pi rho0", "eta pi0 pi0", "mu pi ve", "e e e"]
PHOTON = ("a", "photon")
ES = np.array([0.7, 12.0, 61.5, 170.0, 480.0])


def cases(tier):
    for kind in ("ann", "dec"):
        for n in NAMES:
            yield ["pair", kind, n, tier]
        for f in TRIPLES:
            yield ["triple", kind, f, tier]
    for t in ("primary", "secondary", "blackhawk"):
        yield ["pbh", t]


def mass(n):
    from hazma import parameters as p
    return dict(e=p.electron_mass, mu=p.muon_mass, ve=0.0, vm=0.0, vt=0.0, pi=p.charged_pion_mass, pi0=p.neutral_pion_mass, k=p.charged_kaon_mass,
                kl=p.neutral_kaon_mass, ks=p.neutral_kaon_mass, eta=p.eta_mass, etap=p.eta_prime_mass, rho=p.rho_mass, rho0=p.rho_mass,
                omega=p.omega_mass, phi=p.phi_mass, a=0.0, photon=0.0)[n]


def run(spec, T):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            if spec[0] == "pbh":
                return black_hole(spec[1], T)
            fss = [f"{spec[2]} {n}" for n in NAMES] if spec[0] == "pair" else [spec[2]]
            for fs in fss:
                single(T, spec[1], fs, spec[3])


def line(fs, which, q):
    """Energy of the monochromatic particle of a two-body state, or None."""
    p = fs.split()
    if len(p) != 2:
        return None
    for a, b in (p, p[::-1]):
        if a in which:
            return (q * q + mass(a) ** 2 - mass(b) ** 2) / (2 * q)
    return None


def single(T, kind, fs, tier):
    from hazma import spectra
    from hazma.single_channel import SingleChannelAnn, SingleChannelDec
    parts = fs.split()
    thr = sum(mass(p) for p in parts)
    # photons and neutrinos have no spectra of their own
    base = max(thr, 10.0)
    ratios = (0.9, 1.0 + 1e-6, 1.3, 2.7, 8.0) if tier == "quick" else (0.5, 0.9, 1 - 1e-6, 1 + 1e-6, 1.01, 1.3, 1.9, 2.7, 5.0, 8.0, 20.0)
    for r in ratios:
        q = base * r
        shown = f"{kind} {fs} q={q:.10g}"
        if kind == "ann":
            m, closed = SingleChannelAnn(0.45 * q, fs, 3e-17), SingleChannelAnn(0.55 * q, fs, 3e-17)
            args = (q,)
            T.check(m.list_annihilation_final_states() == [fs], "states", f"{shown}: {m.list_annihilation_final_states()}")
            rate = m.annihilation_cross_sections(q)
            T.close(float(m.annihilation_cross_section_funcs()[fs](q)), 3e-17 if q > thr else 0.0, "rate:function", 1e-12, note=shown)
            T.close(float(closed.annihilation_cross_sections(q)["total"]), 0.0, "rate:below-rest", 0.0, note=shown)
        else:
            m = SingleChannelDec(q, fs, 3e-17)
            args = ()
            T.check(m.list_decay_final_states() == [fs], "states", f"{shown}: {m.list_decay_final_states()}")
            rate = m.decay_widths()
        T.step()
        T.check(set(rate) == {fs, "total"}, "rate:keys", f"{shown}: {rate}")
        want = 3e-17 if q > thr else 0.0
        T.close([float(rate[fs]), float(rate["total"])], [want, want], "rate", 1e-12, note=shown)
        T.close(float(m.fs_mass), thr, "threshold", 1e-12, note=shown)
        for nm, which, got in (("photon", PHOTON, m.gamma_ray_lines(*args)), ("positron", ("e",), m.positron_lines(*args))):
            e = line(fs, which, q)
            T.step()
            got = {k: v for k, v in got.items() if v["bf"] != 0}
            if e is None or q < thr:
                T.check(got == {}, f"line:{nm}", f"{shown}: {got}")
            elif T.check(list(got) == [fs], f"line:{nm}", f"{shown}: {got}"):
                T.close([float(got[fs]["energy"]), float(got[fs]["bf"])], [e, 1.0], f"line:{nm}", 1e-12, note=shown)
        T.state(kind, fs, r)
        if len(parts) == 3 and (any(p in PHOTON for p in parts) or r > 3):
            continue        # the three-body spectra integrate over the phase space at every energy
        if "rho" in fs and r != 1.3:
            continue        # slow spectra
        for nm, fn, one, by in (("photon", spectra.dnde_photon, m.total_spectrum, m.spectra), ("positron", spectra.dnde_positron, m.total_positron_spectrum, m.positron_spectra)):
            if len(parts) == 3 and nm == "positron":
                continue
            T.step()
            want = np.zeros(len(ES))
            if q > thr:
                state = np.random.get_state()
                want = np.asarray(fn(ES, q, final_states=parts))
                np.random.set_state(state)
            tol = 1e-9 if len(parts) == 2 else 0.05
            got = np.asarray(one(ES, *args))
            T.close(got, want, f"spectrum:{nm}", tol, 1e-12 + (tol > 1e-3) * 0.05 * np.max(np.abs(want)), note=shown)
            if len(parts) == 2:
                d = by(ES, *args)
                T.close(np.asarray(d[fs]), want, f"spectrum:{nm}:state", tol, 1e-12, note=shown)
                T.close(np.asarray(d["total"]), want, f"spectrum:{nm}:total", tol, 1e-12, note=shown)
        T.outcome(fs, r, round(q, 3))
    if len(parts) == 2 and all(p in PHOTON for p in parts) and parts[0] == parts[1]:
        two_photons(T, kind, fs)


def two_photons(T, kind, fs):
    """Numbers of photons: the convolved spectrum of a two-photon line integrates to two."""
    from hazma.single_channel import SingleChannelAnn, SingleChannelDec
    m = SingleChannelAnn(100.0, fs, 1e-20) if kind == "ann" else SingleChannelDec(200.0, fs, 1e-20)
    args = (200.0 * (1 + 1e-9),) if kind == "ann" else ()
    f = m.total_conv_spectrum_fn(50.0, 150.0, *args, lambda e: 0.03, 600)
    x = np.linspace(60.0, 140.0, 4001)
    y = f(x)
    T.step()
    T.close(float(np.sum(y) * (x[1] - x[0])), 2.0, "two-photons:convolved", 1e-3, note=f"{kind} {fs}")
    if kind == "ann" and hasattr(m, "f_eff_g"):
        from hazma.cmb import f_eff_g
        e = 100.0
        T.close(float(m.f_eff_g(1e-12)), float(f_eff_g(e)), "two-photons:cmb", 1e-3, note=fs)


def black_hole(which, T):
    import hazma
    from hazma.parameters import g_to_MeV
    from hazma.pbh import PBH
    name = dict(primary="pbh_primary_spectra_bh.csv", secondary="pbh_secondary_spectra.csv", blackhawk="pbh_secondary_spectra_bh.csv")[which]
    with open(os.path.join(os.path.dirname(hazma.__file__), "pbh_data", name)) as fh:
        rows = [r.split(",") for r in fh.read().split("\n") if r.strip()]

    def number(x):
        try:
            return float(x)
        except ValueError:
            a, e = x.split("e")     # "1e15.05"
            return float(a) * 10 ** float(e)

    grams = [number(x) for x in rows[0][2:]]
    tab = np.array([[float(x) for x in r[1:]] for r in rows[1:]])
    eg, data = tab[:, 0] * 1e3, tab[:, 1:] * 1e-3
    kw = dict(spectrum_kind="primary" if which == "primary" else "secondary", bh_secondary=which == "blackhawk")
    es = np.unique(np.concatenate([np.geomspace(eg[0] / 2, eg[-1] * 2, 61), eg[[0, 1, 5, -2, -1]], 0.5 * (eg[:40] + eg[1:41])]))
    one = None
    for j, g in enumerate(grams):
        for frac in (1, 0.25) if j % 10 == 0 else (1,):
            m = PBH(g * g_to_MeV, frac, **kw)
            want = np.interp(es, eg, data[:, j], left=0.0, right=0.0)
            T.step()
            T.state(which, j, frac)
            T.outcome(which, j)
            T.close(m.total_spectrum(es), want, "pbh:spectrum", 1e-9, note=f"{which} {g} g")
            T.close(np.asarray(m.spectra(es)["all"]), want, "pbh:spectrum", 1e-9, note=f"{which} {g} g")
            T.close(float(m.total_spectrum(es[30:31])[0]), want[30], "pbh:one-energy", 1e-9, note=f"{which} {g} g")
            T.check(m.decay_widths() == {"all": frac, "total": frac} and m.gamma_ray_lines() == {}, "pbh:rate", f"{which} {g} g: {m.decay_widths()}")
            T.check(list(m.list_decay_final_states() or []) == ["all"], "pbh:states", f"{m.list_decay_final_states()}")
            if one is None:
                one = m
            one.mx = g * g_to_MeV
            T.close(one.total_spectrum(es), want, "pbh:moved", 1e-9, note=f"{which} {g} g")
            T.check(math.isclose(one.mx, g * g_to_MeV), "pbh:moved", f"{one.mx}")
            for bad in (1.01 * g * g_to_MeV, -1.0, 0.0, math.nan):
                try:
                    one.mx = bad
                    T.fail("pbh:refused", f"mass {bad!r} accepted")
                except ValueError:
                    pass
                T.close(one.total_spectrum(es), want, "pbh:refused", 1e-9, note=f"{which} {g} g after {bad}")
