"""Units, masses, widths, codes and the CKM matrix are mutually consistent and those of nature."""
import itertools
import math
import os
import tempfile

import numpy as np

ID = "C26"
PROP = dict(
    title="Units, particle tables and conversion helpers are consistent",
    statement=(
        "The conversion factors form one consistent system based on the exact SI definitions (time, length, mass, cross "
        "section and their inverses), cross-section conversion is linear and invertible for scalars and arrays; every entry "
        "of the mass, width and PDG-code tables agrees with its named constant and with the measured value; the CKM matrix "
        "is unitary for all Wolfenstein parameters, has the apex it was given, and its named elements are its entries; "
        "tabulated-data interpolators pass through their file's points with the requested behaviour outside."),
    quantifier=dict(over=["inputs"], text="every entry of the tables, a lattice of Wolfenstein parameters, values and argument forms"),
    why_tests_cant="The existing tests only compare the Rust constants with Python's, not with anything independent, and no conversion is tested.",
    anchors=dict(files=["hazma/parameters.py"],
                 mechanism=[dict(name="conversion factors, tables, CKM", where="hazma/parameters.py"),
                            dict(name="convert_sigmav, load_interp", where="hazma/parameters.py")]),
)
TECHNIQUE = "exhaustive enumeration of the tables and of a parameter lattice against independent values and algebra"
LEVEL_NOTE = "All table entries; 5 x 5 x 5 x 5 Wolfenstein parameters; conversions on decades from 1e-60 to 1e30."
RULE = "one case per group of constants or lattice point; non-trivial when values were compared"

HBAR = 6.62607015e-34 / (2 * math.pi)
QE = 1.602176634e-19
C = 299792458.0
# measured masses in MeV (PDG), relative tolerance wide enough for other editions
MASS = dict(e=0.51099895, mu=105.65838, tau=1776.9, ve=0, vm=0, vt=0, h=125200, pi=139.57039, pi0=134.9768, k=493.677, k0=497.611, kl=497.611,
            ks=497.611, eta=547.862, etap=957.78, rho=775.3, rho0=775.3, omega=782.66, phi=1019.461, photon=0, a=0)
QUARK = dict(u=(1.7, 2.6), d=(4.1, 5.2), s=(88, 102), c=(1200, 1350), b=(4100, 4300), t=(171000, 175000))
NAMES = dict(e="electron_mass", mu="muon_mass", tau="tau_mass", u="up_quark_mass", c="charm_quark_mass", t="top_quark_mass", d="down_quark_mass",
             s="strange_quark_mass", b="bottom_quark_mass", h="higgs_mass", pi="charged_pion_mass", pi0="neutral_pion_mass", k="charged_kaon_mass",
             k0="neutral_kaon_mass", kl="long_kaon_mass", ks="short_kaon_mass", eta="eta_mass", etap="eta_prime_mass", rho="rho_mass",
             rho0="rho_mass", omega="omega_mass", phi="phi_mass")
LIFE = dict(mu=2.197e-6, tau=2.903e-13, pi0=8.43e-17, pi=2.6033e-8, k=1.238e-8, ks=0.8954e-10, kl=5.116e-8)
WIDTH = dict(t=1420, z=2495.2, w=2085, h=3.7, eta=1.31e-3, rho=148, omega=8.68, eta_prime=0.19, phi=4.25)
CODES = dict(d=1, u=2, s=3, c=4, b=5, t=6, e=11, ve=12, mu=13, vm=14, tau=15, vt=16, g=21, a=22, z=23, w=24, h=25, pi0=111, rho0=113, kl=130, pi=211,
             rho=213, eta=221, omega=223, ks=310, k0=311, k=321, etap=331, phi=333)
WOLF = [[0.0, 0.1, 0.225, 0.3, 0.5], [0.0, 0.4, 0.826, 1.2, 2.0], [-0.5, 0.0, 0.159, 0.4, 1.0], [-0.9, 0.0, 0.2, 0.348, 1.0]]


def cases(tier):
    for k in ("units", "sigmav", "masses", "widths", "codes", "ckm", "misc", "couplings"):
        yield [k]
    for c in itertools.product(range(5), repeat=4):
        yield ["wolfenstein", list(c)]
    for n in (2, 3, 7):
        for o in range(3):
            yield ["interp", n, o]


def run(spec, T):
    from hazma import parameters as P
    T.step()
    T.state(spec)
    globals()["r_" + spec[0]](spec[1:], T, P)


def r_units(_, T, P):
    r = 1e-12
    s = 1 / (HBAR / QE * 1e-6)
    T.close(P.speed_of_light, C, "c", 0)
    T.close(P.s_to_inv_MeV, s, "s", r)
    T.close(P.m_to_inv_MeV, s / C, "m", r)
    T.close(P.cm_to_inv_MeV, s / C / 100, "cm", r)
    T.close(P.sv_inv_MeV_to_cm3_per_s, (100 * C / s) ** 2 * (100 * C), "sv", r)
    T.close(P.g_to_MeV, 1e-3 * C ** 2 / QE * 1e-6, "g", r)
    T.close(P.MeV_to_g * P.g_to_MeV, 1, "MeV to g", r)
    T.close(P.Msun_to_g, 1.988e33, "Msun", 1e-3)
    T.close(P.g_to_Msun * P.Msun_to_g, 1, "g to Msun", r)
    T.close(P.barn_to_inv_MeV2, 1e-24 * (s / C / 100) ** 2, "barn", 1e-5)
    T.close(P.cm_to_inv_MeV ** 3 / P.s_to_inv_MeV * P.sv_inv_MeV_to_cm3_per_s, 1, "sv from lengths and times", r)


def r_sigmav(_, T, P):
    xs = [10.0 ** k for k in range(-60, 31, 3)] + [0.0, 3, 1]
    k = P.convert_sigmav(1.0, "cm^3 / s")
    T.close(k, P.sv_inv_MeV_to_cm3_per_s, "conversion factor", 5e-3)
    for x in xs:
        T.step(4)
        T.close(P.convert_sigmav(x, "cm^3 / s"), x * k, "linear", 1e-12)
        T.close(P.convert_sigmav(x, "MeV^-2"), x / k, "linear back", 1e-12)
        T.close(P.convert_sigmav(P.convert_sigmav(x, "cm^3 / s"), "MeV^-2"), x, "round trip", 1e-12)
    a = np.array(xs)
    b = a.copy()
    T.close(P.convert_sigmav(a, "cm^3 / s"), b * k, "array", 1e-12)
    T.close(P.convert_sigmav(a, "MeV^-2"), b / k, "array back", 1e-12)
    T.check(np.array_equal(a, b), "modified")


def r_masses(_, T, P):
    t = P.standard_model_masses
    for n, v in t.items():
        if n in NAMES:
            T.check(getattr(P, NAMES[n]) == v, f"mass:{n}:named", v)
        if n in MASS:
            T.close(v, MASS[n], f"mass:{n}:measured", 3e-3)
        elif n in QUARK:
            T.check(QUARK[n][0] <= v <= QUARK[n][1], f"mass:{n}:measured", v)
        else:
            T.check(v >= 0, f"mass:{n}")
    T.check(set(MASS) | set(QUARK) <= set(t), "mass table is complete", sorted((set(MASS) | set(QUARK)) - set(t)))
    for n, w in (("electron_mass", 0.5109989461), ("muon_mass", 105.6583745), ("charged_pion_mass", 139.57039), ("neutral_pion_mass", 134.9768),
                 ("charged_kaon_mass", 493.677), ("neutral_kaon_mass", 497.611), ("eta_mass", 547.862), ("tau_mass", 1776.86)):
        T.close(getattr(P, n), w, n, 2e-5)
    T.close(P.charged_B_mass, 5279.3, "B", 1e-4)
    T.close([P.wboson_mass, P.zboson_mass], [80385, 91187.6], "W, Z", 1e-3)
    T.close(P.pion_mass_chiral_limit, (P.charged_pion_mass + P.neutral_pion_mass) / 2, "pion chiral", 1e-3)
    T.close(P.kaon_mass_chiral_limit, (P.charged_kaon_mass + P.neutral_kaon_mass) / 2, "kaon chiral", 1e-3)
    T.check(list(P.lepton_masses) == [P.electron_mass, P.muon_mass], "leptons")


def r_widths(_, T, P):
    s = 1 / (HBAR / QE * 1e-6)
    for n, v in P.SM_WIDTHS.items():
        if n in LIFE:
            T.close(v, 1 / (LIFE[n] * s), f"width:{n}", 5e-3)
        elif n in WIDTH:
            T.close(v, WIDTH[n], f"width:{n}", 2e-2)
        else:
            T.check(v > 0, f"width:{n}")
    T.check(set(LIFE) | set(WIDTH) <= set(P.SM_WIDTHS), "width table is complete")
    T.close(P.k_width, P.SM_WIDTHS["k"], "k_width", 5e-3)
    T.close(P.kl_width, P.SM_WIDTHS["kl"], "kl_width", 5e-3)
    T.close(P.rho_width, P.SM_WIDTHS["rho"], "rho_width", 2e-2)
    T.close(P.B_width, 1 / (1.638e-12 * s), "B_width", 0.1)


def r_codes(_, T, P):
    for n, v in P.PDG_CODES.items():
        T.check(v == CODES.get(n, v), f"code:{n}", v)
    T.check(set(CODES) <= set(P.PDG_CODES), "codes complete")
    T.check(len(set(P.PDG_CODES.values())) == len(P.PDG_CODES), "codes distinct")


def r_ckm(_, T, P):
    V = P.CKM
    T.close(V @ V.conj().T, np.eye(3), "unitary", 1e-12, 1e-12)
    for i, a in enumerate("uct"):
        for j, b in enumerate("dsb"):
            T.check(getattr(P, f"V{a}{b}") == V[i, j], f"V{a}{b}")
    T.close(abs(V), [[0.9743, 0.2250, 0.0037], [0.2249, 0.9735, 0.0418], [0.0086, 0.0411, 0.99912]], "moduli", 3e-2)
    apex(T, V, 0.159, 0.348, 0.05)


def apex(T, V, rho, eta, tol):
    z = -V[0, 0] * np.conj(V[0, 2]) / (V[1, 0] * np.conj(V[1, 2]))
    T.close(z, rho + 1j * eta, "apex", tol, 1e-9)


def r_wolfenstein(spec, T, P):
    f = getattr(P, "_ckm_wolfenstein", None)
    if f is None:
        return
    l, a, r, e = (w[i] for w, i in zip(WOLF, spec[0]))
    if a * l * l >= 1 or abs(a * l ** 3 * (r + 1j * e)) > 0.9:
        return
    V = f(l, a, r, e)
    T.close(V @ V.conj().T, np.eye(3), "unitary", 1e-12, 1e-12)
    T.close(V.conj().T @ V, np.eye(3), "unitary", 1e-12, 1e-12)
    if l and a:
        apex(T, V, r, e, 1e-9)
        T.close(abs(V[0, 1]) / math.hypot(abs(V[0, 0]), abs(V[0, 1])), l, "lambda", 1e-12)
    T.outcome(abs(V))


def r_misc(_, T, P):
    T.close(P.alpha_em, 7.2973525693e-3, "alpha", 1e-3)
    T.close(P.qe ** 2 / (4 * math.pi), P.alpha_em, "qe", 1e-12)
    T.close(P.GF, 1.1663787e-11, "GF", 1e-4)
    T.close(P.vh, 1 / math.sqrt(math.sqrt(2) * P.GF), "vh from GF", 1e-3)
    T.close(P.plank_mass, 1.22091e22, "Planck", 1e-3)
    T.close(P.temp_cmb_formation, 0.235e-6, "T_CMB", 0.2)
    T.close(P.sin_theta_weak_sqrd, 0.2229, "sin2", 5e-2)
    T.close([P.sin_theta_weak ** 2, P.cos_theta_weak ** 2 + P.sin_theta_weak ** 2], [P.sin_theta_weak_sqrd, 1], "weak angle", 1e-12)
    T.close(P.sin_theta_weak_sqrd, 1 - (P.wboson_mass / P.zboson_mass) ** 2, "on-shell sin2", 1e-2)
    T.close(P.rho_crit, 1.05375e-2, "rho_crit", 1e-2)
    T.close(P.sm_entropy_density_today, 2891.2, "entropy", 1e-2)
    T.close(P.omega_h2_cdm, 0.12, "omega", 2e-2)
    T.close(P.dimensionless_hubble_constant, 0.6774, "h", 2e-2)
    T.close([P.Qu, P.Qd, P.Qe], [2 / 3, -1 / 3, -1], "charges", 1e-12)
    T.close(P.b0, P.pion_mass_chiral_limit ** 2 / (P.up_quark_mass + P.down_quark_mass), "b0", 1e-2)
    T.close([P.fpi, P.fpi0, P.fk], [92.2, 91.9, 110.4], "decay constants", 1e-2)
    T.close(2 * P.fpi * P.fpi, P.fpi * P.fpi * 2, "fpi")


def r_couplings(_, T, P):
    L = P.LECS
    for k, n in (("1", "Lr1"), ("2", "Lr2"), ("3", "L3"), ("4", "Lr4"), ("5", "Lr5"), ("6", "Lr6"), ("7", "L7"), ("8", "Lr8"), ("SU2_Er", "Er"), ("SU2_Gr", "Gr")):
        T.check(L[k] == getattr(P, n), f"LEC {k}")
    T.close([P.Lr1, P.Lr2, P.L3, P.Lr4, P.Lr5, P.Lr6, P.L7, P.Lr8],
            [0.56e-3, 1.21e-3, -2.79e-3, -0.36e-3, 1.4e-3, 0.07e-3, -0.44e-3, 0.78e-3], "LECs", 1e-9)
    T.check(P.nlo_lec_mu == P.rho_mass, "LEC scale")


def r_interp(spec, T, P):
    n, o = spec
    xs = np.array([1.0, 2.5, 3.0, 7.0, 11.0, 30.0, 31.0])[:n]
    ys = np.array([4.0, -1.0, 2.0, 0.0, 9.0, 5.0, 5.0])[:n]
    fd, path = tempfile.mkstemp(suffix=".dat")
    os.close(fd)
    try:
        np.savetxt(path, np.array([xs, ys]).T, delimiter=",")
        f = [lambda: P.load_interp(path), lambda: P.load_interp(path, fill_value=-3.0), lambda: P.load_interp(path, bounds_error=True)][o]()
    finally:
        os.unlink(path)
    out = [xs[0] - 0.5, xs[-1] + 1e-6, 1e9]
    inn = [*xs, *((xs[1:] + xs[:-1]) / 2)]
    T.close(f(np.array(inn)), np.interp(inn, xs, ys), "interp", 1e-12, 1e-12)
    for x in inn:
        T.close(float(f(float(x))), float(np.interp(x, xs, ys)), "interp:scalar", 1e-12, 1e-12)
    for x in out:
        if o < 2:
            T.close(float(f(x)), [0.0, -3.0][o], f"interp:outside:{o}", 0)
        else:
            try:
                f(x)
                T.fail("interp:outside:2", "no error")
            except ValueError:
                T.comparisons += 1
