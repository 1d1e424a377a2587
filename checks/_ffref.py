"""Reference vector form factors, restated from the papers the library cites (GeV inside, MeV at the border).

Each ``F_<mode>(q[, s, t], c, **par)`` returns the form factor in the library's units (powers of MeV);
``MODES`` says how currents, phase space and symmetry factors go together.
"""
import math

import numpy as np
from scipy.optimize import brentq
from scipy.special import gamma, gammaln

from . import _ps


def masses():
    from hazma import parameters as p
    return dict(pi=p.charged_pion_mass, pi0=p.neutral_pion_mass, k=p.charged_kaon_mass, k0=p.neutral_kaon_mass,
                eta=p.eta_mass, etap=p.eta_prime_mass, omega=p.omega_mass, phi=p.phi_mass, g=0.0,
                fpi=p.fpi)


A = np.asarray


def iso(c):
    u, d, s = c
    return 3.0 * (u + d), u - d, -3.0 * s


def b2(s, m):
    return np.maximum(1 - 4 * m * m / s, 0.0)


def gp(s, m, w, mp):
    return np.sqrt(s) / m * (b2(s, mp) / b2(m * m, mp)) ** 1.5 * w


def hh(s, m, w, mp):
    v = np.sqrt(b2(s, mp))
    return w / m / np.pi * s * (v / np.sqrt(b2(m * m, mp))) ** 3 * np.log((1 + v) / (1 - v))


def bw_gs(s, m, w, mp):
    """Gounaris-Sakurai, 1002.0279 eqs. 2-6."""
    v2 = b2(m * m, mp)
    v = np.sqrt(v2)
    r = 2 * mp * mp / m ** 2
    dh = w / np.pi / m / v2 * ((3 - 2 * v2 - 3 * r) * np.log((1 + v) / (1 - v)) + 2 * v * (1 - r / (1 - v2)))
    hr = hh(m * m, m, w, mp)
    h0 = -8 * mp * mp / np.pi * w / m / v ** 3 - hr + m * m * dh
    H = hh(s, m, w, mp) - hr - (s - m * m) * dh
    return (m * m + h0) / (m * m - s + H - 1j * np.sqrt(s) * gp(s, m, w, mp))


def bw(s, m, w):
    return m * m / (m * m - s - 1j * m * w)


def bw_s(s, m, w):
    """Breit-Wigner whose width comes with the energy instead of the mass."""
    return m * m / (m * m - s - 1j * np.sqrt(s) * w)


def bw_p(s, m, w, mp):
    return bw_s(s, m, gp(s, m, w, mp))


def tower(beta, n):
    k = np.arange(n)
    # gamma(2 - beta + n) / gamma(1 + n), by recurrence
    g = np.empty(n)
    g[0] = gamma(2 - beta)
    for i in range(1, n):
        g[i] = g[i - 1] * (1 - beta + i) / i
    c = gamma(beta - 0.5) / (0.5 + k) / math.sqrt(math.pi) * np.sin(np.pi * (beta - 1 - k)) / np.pi * g
    return c * (-1.0) ** k


_C = {}


def rho_pi(n):
    if n not in _C:
        mag = A([1.0, 1.0, 0.59, 4.8e-2, 0.40, 0.43])
        wgt = mag * np.exp(1j * A([0.0, 0.0, -2.2, -2.0, -2.9, 1.19]))
        m0 = A([0.77337, 1.490, 1.870, 2.12, 2.321, 2.567])
        w0 = A([0.1471, 0.429, 0.357, 0.3, 0.444, 0.491])
        c = tower(2.148, n).astype(complex)
        c[0] = 1.087633403691967
        c[1:6] = wgt[1:] * c[1:6].sum() / wgt[1:].sum()
        m = m0[0] * np.sqrt(1 + 2.0 * np.arange(n))
        m[:6] = m0
        w = w0[0] / m0[0] * m
        w[:6] = w0
        _C[n] = m, w, c
    return _C[n]


def pipi(q, c, M, charged, n_max=2000):
    s = np.atleast_1d(q / 1e3)[:, None] ** 2
    m, w, cp = rho_pi(n_max)
    t = (c[0] - c[1]) * cp * bw_gs(s, m, w, M["pi"] / 1e3)
    if not charged:
        return math.sqrt(2) * t.sum(1)
    d = 0.00187 * np.exp(0.106j)
    t[:, 0] *= ((1 + d * bw(s, 0.7824, 0.00833)) / (1 + d))[:, 0]
    return t.sum(1)


K_PAR = dict(
    rho=([1.1148916618504967, -0.050374779737077324, -0.014908906283692132, -0.03902475997619905, -0.038341465215871416],
         [0.77549, 1.5206995754050117, 1.7409719246639341, 1.9922811314327789],
         [0.1494, 0.21341728317817743, 0.08412224414791908, 0.2899733272437917], None),
    omega=([1.3653229680598022, -0.02775156567495144, -0.32497165559032715, 1.3993153161869765],
           [0.78265, 1.4144344268685891, 1.655375231284883], [8.49e-3, 0.0854413887755723, 0.16031760444832305], 0.5),
    phi=([0.965842498579515, -0.002379766320723148, -0.1956211640216197, 0.16527771485190898],
         [1.0194209171596993, 1.594759278457624, 2.156971341201067],
         [4.252653332329334e-3, 0.028741821847408196, 0.6737556174184005], 0.2))


def k_tower(which, n):
    if (which, n) not in _C:
        mag, m0, w0, g = K_PAR[which]
        beta = brentq(lambda b: 2 / math.sqrt(math.pi) * math.exp(gammaln(b - 0.5) - gammaln(b - 1)) - mag[0], 1.0 + 1e-9, 20, xtol=1e-14)
        c = tower(beta, n)
        c[:len(mag)] = mag
        c[len(mag)] += 1 - c.sum()
        m = m0[0] * np.sqrt(1 + 2.0 * np.arange(n))
        m[:len(m0)] = m0
        w = m * (w0[0] / m0[0] if g is None else g)
        w[:len(w0)] = w0
        _C[which, n] = m, w, c
    return _C[which, n]


def kk(q, c, M, charged, n_max=200):
    s = np.atleast_1d(q / 1e3)[:, None] ** 2
    ci0, ci1, cs = iso(c)
    m, w, a = k_tower("rho", n_max)
    t = (0.5 if charged else -0.5) * ci1 * a * bw_gs(s, m, w, M["pi"] / 1e3)
    m, w, a = k_tower("omega", n_max)
    t = t + ci0 / 6 * a * bw(s, m, w)
    m, w, a = k_tower("phi", n_max)
    p = cs / 3 * a * bw_p(s, m, w, M["k" if charged else "k0"] / 1e3)
    if not charged:
        p[:, 0] *= 1.055
    return (t + p).sum(1)


def alpha_em(s):
    """Running fine-structure constant at a momentum transfer squared in GeV^2."""
    a0 = 7.2973525698e-3

    def pi(r):
        if r < 1e-3:
            return -5 / 3 - math.log(r)
        if r > 1e6:
            return 0.0
        if 4 * r > 1:
            b = math.sqrt(4 * r - 1)
            return 1 / 3 - (1 + 2 * r) * (2 - b * math.acos(1 - 1 / (2 * r)))
        b = math.sqrt(1 - 4 * r)
        return 1 / 3 - (1 + 2 * r) * (2 + b * math.log(abs((b - 1) / (b + 1))))
    if s < 1e-6:
        return a0
    x = sum(pi(m * m / s) for m in (0.510998928e-3, 0.1056583715, 1.77682, 173.21)) * a0 / (3 * math.pi)
    for top, a, b, c in ((9e-2, 0, 0.00835, 1), (9.0, 0, 0.00238, 3.927), (1e4, 0.00165, 0.00299, 1), (math.inf, 0.00221, 0.00293, 1)):
        if s < top:
            x += a + b * math.log(1 + c * s)
            break
    return a0 / (1 - x)


P_PIG = dict(fpi=0.09266, amplitude0=0.007594981126020603, amplitude_rho=1.0, amplitude_omega=0.8846540224221084,
             amplitude_phi=-0.06460651106718258, mass_rho=0.77526, mass_omega=0.78265, mass_phi=1.01946,
             width_rho=0.1491, width_omega=0.00849, width_phi=0.004247)


def pi_gamma(q, c, M, **p):
    p = {**P_PIG, **p}
    q = np.atleast_1d(q) / 1e3
    s = q * q
    t = 0
    for n, k in zip(("omega", "rho", "phi"), iso(c)):
        t = t + p["amplitude_" + n] * k / (s - p["mass_" + n] ** 2 + 1j * q * p["width_" + n])
    f = p["amplitude0"] * 4 * math.sqrt(2) * s / (3 * p["fpi"]) * t - (2 * c[0] + c[1]) / (4 * np.pi ** 2 * p["fpi"])
    return 1e-3 * np.sqrt(4 * np.pi * A([alpha_em(x) for x in s])) * f


P_EG = dict(masses=[0.77526, 0.78284, 1.01952, 1.465, 1.70], widths=[0.1491, 0.00868, 0.00421, 0.40, 0.30],
            amps=[0.0861, 0.00824, 0.0158, 0.0147, 0.0], phases=list(np.array([0.0, 11.3, 170.0, 61.0, 0.0]) * np.pi / 180))


def eta_gamma(q, c, M, **p):
    p = {**P_EG, **p}
    q = np.atleast_1d(q) / 1e3
    s = q * q
    ci0, ci1, cs = iso(c)
    t = 0
    for i, k in enumerate((ci1, ci0, cs, ci1, cs)):
        m, w = p["masses"][i], p["widths"][i]
        if i == 0:
            mp = M["pi"] / 1e3
            w = w * m * m / s * ((s - 4 * mp * mp) / (m * m - 4 * mp * mp)) ** 1.5
        t = t + k * p["amps"][i] * np.exp(1j * p["phases"][i]) * bw_s(s, m, w)
    return 1e-3 * t


P_EO = dict(masses=[1.43, 1.67], widths=[0.215, 0.113], amps=[0.0862, 0.0648], phases=[1.0, -1.0])
P_EP = dict(masses=[1.67, 2.14], widths=[0.122, 0.0435], amps=[0.175, 0.00409], phases=[0.0, 2.19])


def eta_omega(q, c, M, **p):
    p = {**P_EO, **p}
    s = (np.atleast_1d(q) / 1e3) ** 2
    return 1e-3 * iso(c)[0] * sum(a * f * bw(s, m, w) for a, f, m, w in zip(p["amps"], p["phases"], p["masses"], p["widths"]))


def eta_phi(q, c, M, **p):
    p = {**P_EP, **p}
    s = (np.atleast_1d(q) / 1e3) ** 2
    return 1e-3 * iso(c)[2] * sum(a * np.exp(1j * f) * bw(s, m, w) for a, f, m, w in zip(p["amps"], p["phases"], p["masses"], p["widths"]))


P_PO = dict(g_rho_omega_pi=15.9, amps=[1.0, 0.175, 0.014], phases=list(np.array([0.0, 124.0, -63.0]) * np.pi / 180),
            rho_masses=[0.77526, 1.510, 1.720], rho_widths=[0.1491, 0.44, 0.25], frho=5.06325)


def pi_omega(q, c, M, **p):
    p = {**P_PO, **p}
    q = np.atleast_1d(q) / 1e3
    s = q * q
    mp, mw = M["pi0"] / 1e3, M["omega"] / 1e3
    k = _ps.mom(s, mp, mw)
    t = 0
    for i, (a, f, m, w) in enumerate(zip(p["amps"], p["phases"], p["rho_masses"], p["rho_widths"])):
        if i == 0:
            w = w * m * m / s * ((s - 4 * mp * mp) / (m * m - 4 * mp * mp)) ** 1.5 + p["g_rho_omega_pi"] ** 2 * k ** 3 / (12 * np.pi)
        t = t + a * np.exp(1j * f) * bw_s(s, m, w)
    return 1e-3 * p["g_rho_omega_pi"] / p["frho"] * (c[0] - c[1]) * t


P_PP = dict(amps=[0.177522453644825, 0.023840592398187477, 0.0], phases=[0.0, 123.82008351626034 * np.pi / 180, 0.0],
            rho_masses=[0.77526, 1.593, 1.909], rho_widths=[0.1491, 0.203, 0.048], br4pi=[0.0, 0.33, 0.0])


def pi_phi(q, c, M, **p):
    p = {**P_PP, **p}
    s = (np.atleast_1d(q) / 1e3) ** 2
    t4 = 16 * (M["pi0"] / 1e3) ** 2
    t = 0
    for a, f, m, w, b in zip(p["amps"], p["phases"], p["rho_masses"], p["rho_widths"], p["br4pi"]):
        ws = w * (1 - b + b * m * m / s * ((s - t4) / (m * m - t4)) ** 1.5)
        t = t + a * np.exp(1j * f) * bw_s(s, m, ws)
    return 1e-3 * (c[0] - c[1]) * t


P_PPE = dict(masses=[0.77549, 1.54, 1.76, 2.15], widths=[0.1494, 0.356, 0.113, 0.32], amps=[1.0, 0.326, 0.0115, 0.0], phases=[0, 3.14, 3.14, 0.0])
P_PPEP = dict(masses=[0.77549, 1.54, 1.76, 2.11], widths=[0.1494, 0.356, 0.113, 0.176], amps=[1.0, 0.0, 0.0, 0.02], phases=[0.0, np.pi, np.pi, np.pi])


def _ppe(q, s, c, M, pre, p):
    mp = M["pi"] / 1e3
    s, q2 = s / 1e6, (q / 1e3) ** 2

    def rho(x):
        m, w = p["masses"][0], p["widths"][0]
        return bw_s(x, m, w * m * m / x * ((x - 4 * mp * mp) / (m * m - 4 * mp * mp)) ** 1.5)
    a = A(p["amps"]) * np.exp(1j * A(p["phases"]))
    tot = a[0] * rho(q2)
    for i in (1, 2, 3):
        m, w = p["masses"][i], p["widths"][i]
        tot = tot + a[i] * bw_s(q2, m, w * q2 / m ** 2)
    return 1e-9 * pre / (4 * math.sqrt(3) * np.pi ** 2 * (M["fpi"] / 1e3) ** 3) * (c[0] - c[1]) * rho(s) * tot / a.sum()


def pi_pi_eta(q, s, t, c, M, **p):
    return _ppe(q, s, c, M, 1.0, {**P_PPE, **p})


def pi_pi_etap(q, s, t, c, M, **p):
    return _ppe(q, s, c, M, math.sqrt(2), {**P_PPEP, **p})


P_PPO = dict(masses=[0.783, 1.420, 1.6608543573197], widths=[0.00849, 0.315, 0.3982595005228462], amps=[0.0, 0.0, 2.728870588760009], phases=[0.0, np.pi, 0.0])


def pi_pi_omega(q, s, t, c, M, **p):
    p = {**P_PPO, **p}
    q = np.asarray(q) / 1e3
    return 0 * s + iso(c)[0] * sum(a * np.exp(1j * f) * bw_s(q * q, m, w) for a, f, m, w in zip(p["amps"], p["phases"], p["masses"], p["widths"]))


P_KKP = dict(iso_scalar_masses=[1019.461e-3, 1633.4e-3, 1957e-3], iso_scalar_widths=[4.249e-3, 218e-3, 267e-3],
             iso_scalar_amps=[0.0, 0.233, 0.0405], iso_scalar_phases=[0, 1.1e-07, 5.19],
             iso_vector_masses=[775.26e-3, 1470e-3, 1720e-3], iso_vector_widths=[149.1e-3, 400e-3, 250e-3],
             iso_vector_amps=[-2.34, 0.594, -0.0179], iso_vector_phases=[0, 0.317, 2.57], g_ks_k_pi=5.37392360229)


def _kkp(q, s, t, c, M, ms, signs, p):
    q2 = (q / 1e3) ** 2
    a = {}
    for n, k in (("scalar", -3 * c[2]), ("vector", c[0] - c[1])):
        a[n] = k * sum(am * np.exp(1j * f) * bw(q2, m, w) for am, f, m, w in zip(*(p[f"iso_{n}_{x}"] for x in ("amps", "phases", "masses", "widths"))))

    def kst(x, m1, m2):
        m, w = 0.8956, 0.047
        b = lambda y: np.maximum((1 - (m1 + m2) ** 2 / y) * (1 - (m1 - m2) ** 2 / y), 0.0)
        return 1 / (m * m - x - 1j * np.sqrt(x) * np.sqrt(x) / m * (b(x) / b(m * m)) ** 1.5 * w)
    m1, m2, m3 = (M[x] / 1e3 for x in ms)
    pre = 2 * p["g_ks_k_pi"] / math.sqrt(6)
    return 1e-9 * pre * ((a["scalar"] + signs[0] * a["vector"]) * kst(s / 1e6, m2, m3) + (a["scalar"] + signs[1] * a["vector"]) * kst(t / 1e6, m1, m3))


def pi0_k0_k0(q, s, t, c, M, **p):
    return _kkp(q, s, t, c, M, ("k0", "k0", "pi0"), (1, 1), {**P_KKP, **p})


def pi0_k_k(q, s, t, c, M, **p):
    return _kkp(q, s, t, c, M, ("k", "k", "pi0"), (-1, -1), {**P_KKP, **p})


def pi_k_k0(q, s, t, c, M, **p):
    return _kkp(q, s, t, c, M, ("k0", "k", "pi"), (-1, 1), {**P_KKP, **p})


P_3PI = dict(masses=[0.7824, 1.01924, 1.375, 1.631], widths=[0.00869, 0.00414, 0.250, 0.245], couplings=[18.20, -0.87, -0.77, -1.12],
             masses_rho_i0=[0.77609, 1.465, 1.7], widths_rho_i0=[0.14446, 0.31, 0.235], couplings_rho_i0=[0.0, -0.72, -0.59],
             masses_rho_i1=[0.77609, 1.7], widths_rho_i1=[0.14446, 0.26], mass_omega_i1=0.78259, width_omega_i1=0.00849,
             coupling_omega_pre=3.768, coupling_omega_pi_pi=0.185, sigma=-0.1)


def pi_pi_pi0(q, s, t, c, M, **p):
    p = {**P_3PI, **p}
    ci0, ci1, cs = iso(c)
    q2, s, t = q * q / 1e6, s / 1e6, t / 1e6
    mc, mn = M["pi"] / 1e3, M["pi0"] / 1e3
    u = q2 + mn ** 2 + 2 * mc ** 2 - s - t

    def rho(x, m, w, a, b):
        th = (a + b) ** 2
        return m * m / (x - m * m + 1j * np.sqrt(x) * w * m * m / x * ((x - th) / (m * m - th)) ** 1.5)

    def H(i):
        m, w = p["masses_rho_i0"][i], p["widths_rho_i0"][i]
        return rho(s, m, w, mc, mc) + rho(t, m, w, mn, mc) + rho(u, m, w, mn, mc)
    B = [bw(q2, m, w) for m, w in zip(p["masses"], p["widths"])]
    k = p["couplings"]
    f = (ci0 * (k[0] * B[0] + k[2] * B[2] + k[3] * B[3]) + cs * k[1] * B[1]) * H(0)
    f = f + cs * p["couplings_rho_i0"][1] * B[1] * H(1) + ci0 * p["couplings_rho_i0"][2] * B[3] * H(2)
    m1 = p["masses_rho_i1"]
    g = sum(x * rho(s, m, w, mc, mc) / m ** 2 for x, m, w in zip((1, p["sigma"]), m1, p["widths_rho_i1"]))
    f = f + ci1 * p["coupling_omega_pre"] * m1[0] ** 2 * p["coupling_omega_pi_pi"] * bw(q2, p["mass_omega_i1"], p["width_omega_i1"]) / p["mass_omega_i1"] ** 2 * g
    return 1e-9 * f


# ---- four pions, 0804.0359 ----------------------------------------------------------------
P_4PI = dict(mass_rho_bars=(1.437, 1.738, 2.12), width_rho_bars=(0.6784824438511003, 0.8049287553822373, 0.20919646790795576),
             beta_a1s=(-0.051871563361440096, -0.041610293030827125, -0.0018934309483457441),
             beta_f0s=(73860.28659732222, -26182.725634782986, 333.6314358023821),
             beta_omegas=(-0.36687866443745953, 0.036253295280213906, -0.004717302695776386), beta_b_rhos=(-0.145, 0.08, -0.0075),
             coupling_f0=124.10534971287902, coupling_a1=-201.79098091602876, coupling_rho=-2.3089567893904537, coupling_omega=-1.5791482789120541,
             coupling_rho_gamma=0.1212, coupling_rho_pi_pi=5.997, coupling_omega_pi_rho=42.3)
G = A([1.0, -1.0, -1.0, -1.0])
MP = 0.13957061
RHO, RHO1, RHO2 = (0.7755, 0.1494), (1.459, 0.4), (1.72, 0.25)


def dot(a, b):
    return np.tensordot(G, a * b, 1)


def sq(a):
    return dot(a, a)


def bw3(s, mw):
    m, w = mw
    g = m * m / s * ((s - 4 * MP ** 2) / (m * m - 4 * MP ** 2)) ** 3
    # below the two-pion threshold the library's convention is a vanishing (signed) width
    return bw(s, m, w * np.sqrt(np.maximum(g, 0.0)))


def four_pi(P, neutral=True, **p):
    """Current of four pions with momenta P (4 components, 4 pions, n), GeV."""
    p = {**P_4PI, **p}
    if not neutral:
        a, b, c, d = P[:, 0], P[:, 1], P[:, 2], P[:, 3]
        o = [(c, d, a, b), (a, d, c, b), (c, b, a, d), (a, b, c, d)]
        return sum(four_pi(np.stack(x, axis=1), True, **p) for x in o)
    q1, q2, q3, q4 = (P[:, i] for i in range(4))
    Q = q1 + q2 + q3 + q4
    Q2 = sq(Q)
    tr = lambda v: v - Q * dot(Q, v) / Q2

    def F(bs):
        n = bw3(Q2, RHO) + sum(b * bw3(Q2, mw) for b, mw in zip(bs, zip(p["mass_rho_bars"], p["width_rho_bars"])))
        return n / (1 + sum(bs))

    def a1prop(s):
        m = 1.23

        def g(x):
            y = x - 9 * MP ** 2
            return np.where(x > 0.838968432668, 1.623 * x + 10.38 - 9.32 / x + 0.65 / x ** 2, 4.1 * y ** 3 * (1 - 3.3 * y + 5.8 * y * y))
        return bw(s, m, 0.2 * g(s) / g(m * m))

    def f0prop(s):
        m = 1.35
        return bw(s, m, 0.2 * np.sqrt(np.maximum(m * m / s * (s - 4 * MP ** 2) / (m * m - 4 * MP ** 2), 0.0)))
    bb, t1, t2 = p["beta_b_rhos"]
    rhoB = lambda s: (bw3(s, RHO) + bb * bw3(s, RHO1)) / (1 + bb)
    rhoT = lambda s: (bw3(s, RHO) + t1 * bw3(s, RHO1) + t2 * bw3(s, RHO2)) / (1 + t1 + t2)

    def a1(a, b, c, d):
        r = sq(Q - a)
        return p["coupling_a1"] * F(p["beta_a1s"]) * a1prop(r) * rhoB(sq(c + d)) * tr((c - d) + a * dot(b, c - d) / r)
    J = a1(q3, q2, q1, q4) + a1(q3, q1, q2, q4) - a1(q4, q2, q1, q3) - a1(q4, q1, q2, q3)
    J = J + p["coupling_f0"] * F(p["beta_f0s"]) * rhoT(sq(q3 + q4)) * f0prop(sq(q1 + q2)) * tr(q3 - q4)

    def om(a, b):
        k = 2 * p["coupling_omega"] * p["coupling_omega_pi_rho"] * p["coupling_rho_pi_pi"] * F(p["beta_omegas"])
        h = bw3(sq(b + q3), RHO) + bw3(sq(b + q4), RHO) + bw3(sq(q3 + q4), RHO)
        v = (b * (dot(a, q4) * dot(q3, Q) - dot(a, q3) * dot(q4, Q)) + q3 * (dot(a, b) * dot(q4, Q) - dot(a, q4) * dot(b, Q))
             + q4 * (dot(a, q3) * dot(b, Q) - dot(a, b) * dot(q3, Q)))
        return k * bw(sq(Q - a), 0.78265, 0.00849) * h * v
    J = J + om(q1, q2) + om(q2, q1)
    D = lambda s: bw3(s, RHO) / RHO[0] ** 2 - bw3(s, RHO1) / RHO1[0] ** 2

    def g(a, b, c, d):
        return a * D(sq(a + c)) * (D(sq(b + d)) * dot(a + b + 3 * c + d, b - d) + 2)
    v = (g(q1, q2, q3, q4) + g(q4, q1, q2, q3) - g(q1, q2, q4, q3) - g(q3, q1, q2, q4)
         + g(q2, q1, q3, q4) + g(q4, q2, q1, q3) - g(q2, q1, q4, q3) - g(q3, q2, q1, q4))
    return J + p["coupling_rho"] * p["coupling_rho_pi_pi"] ** 3 * p["coupling_rho_gamma"] * D(Q2) * tr(v)


def four_pi_sq(P, c, neutral, **p):
    J = four_pi(P, neutral, **p)
    Q2 = sq(P.sum(1))
    return (c[0] - c[1]) ** 2 / (2.0 if neutral else 4.0) * -np.real(dot(J, np.conj(J))) / (3 * Q2)


# name: (class, fsp, kind, reference, constructor parameters)
MODES = {
    "pi_pi": ("VectorFormFactorPiPi", ("pi", "pi"), "PP", lambda q, c, M, **p: pipi(q, c, M, True, **p), dict(n_max=2000)),
    "pi0_pi0": ("VectorFormFactorPi0Pi0", ("pi0", "pi0"), "PP", lambda q, c, M, **p: pipi(q, c, M, False, **p), dict(n_max=2000)),
    "k_k": ("VectorFormFactorKK", ("k", "k"), "PP", lambda q, c, M, **p: kk(q, c, M, True, **p), dict(n_max=200)),
    "k0_k0": ("VectorFormFactorK0K0", ("k0", "k0"), "PP", lambda q, c, M, **p: kk(q, c, M, False, **p), dict(n_max=200)),
    "pi0_gamma": ("VectorFormFactorPi0Gamma", ("pi0", "g"), "PA", pi_gamma, P_PIG),
    "eta_gamma": ("VectorFormFactorEtaGamma", ("eta", "g"), "PA", eta_gamma, P_EG),
    "eta_omega": ("VectorFormFactorEtaOmega", ("eta", "omega"), "PV", eta_omega, P_EO),
    "eta_phi": ("VectorFormFactorEtaPhi", ("eta", "phi"), "PV", eta_phi, P_EP),
    "pi0_omega": ("VectorFormFactorPi0Omega", ("pi0", "omega"), "PV", pi_omega, P_PO),
    "pi0_phi": ("VectorFormFactorPi0Phi", ("pi0", "phi"), "PV", pi_phi, P_PP),
    "pi_pi_eta": ("VectorFormFactorPiPiEta", ("eta", "pi", "pi"), "PPP2", pi_pi_eta, P_PPE),
    "pi_pi_etap": ("VectorFormFactorPiPiEtaPrime", ("etap", "pi", "pi"), "PPP2", pi_pi_etap, P_PPEP),
    "pi_pi_omega": ("VectorFormFactorPiPiOmega", ("omega", "pi", "pi"), "PPV", pi_pi_omega, P_PPO),
    "pi0_pi0_omega": ("VectorFormFactorPi0Pi0Omega", ("omega", "pi0", "pi0"), "PPV", pi_pi_omega, P_PPO),
    "pi0_k0_k0": ("VectorFormFactorPi0K0K0", ("k0", "k0", "pi0"), "PPP", pi0_k0_k0, P_KKP),
    "pi0_k_k": ("VectorFormFactorPi0KpKm", ("k", "k", "pi0"), "PPP", pi0_k_k, P_KKP),
    "pi_k_k0": ("VectorFormFactorPiKK0", ("k0", "k", "pi"), "PPP", pi_k_k0, P_KKP),
    "pi_pi_pi0": ("VectorFormFactorPiPiPi0", ("pi0", "pi", "pi"), "PPP", pi_pi_pi0, P_3PI),
}
TWO = [m for m in MODES if len(MODES[m][1]) == 2]
THREE = [m for m in MODES if len(MODES[m][1]) == 3]


def lorentz2(kind, q, m1, m2):
    k = _ps.mom(q * q, m1, m2)
    if kind == "PP":
        return 4 * k * k / (3 * q * q)
    return 2 * k * k / 3


def lorentz3(kind, q, s, t, ms):
    """-g_{mu nu} J^mu J^nu* / (3 q^2) without the form factor; s=(p2+p3)^2, t=(p1+p3)^2."""
    e1, e2 = (q * q + ms[0] ** 2 - s) / (2 * q), (q * q + ms[1] ** 2 - t) / (2 * q)
    if kind == "PPV":  # vector first
        return (2 + (e1 / ms[0]) ** 2) / (3 * q * q)
    p1, p2, p3 = (e ** 2 - m ** 2 for e, m in zip((e1, e2, q - e1 - e2), ms))
    return (p1 * p2 - ((p3 - p1 - p2) / 2) ** 2) / 3


def J2(mode, q, c, M, **p):
    _, fsp, kind, ref, _ = MODES[mode]
    m1, m2 = (M[x] for x in fsp)
    q = np.atleast_1d(np.asarray(q, float))
    out = np.zeros(len(q))
    on = q > m1 + m2
    if on.any():
        qq = q[on]
        out[on] = _ps.mom(qq ** 2, m1, m2) / (4 * np.pi * qq) * lorentz2(kind, qq, m1, m2) * abs(ref(qq, c, M, **p)) ** 2
    return out


def sym3(mode):
    return 0.5 if mode == "pi0_pi0_omega" else 1.0


def J3(mode, q, c, M, n=60, **p):
    _, fsp, kind, ref, _ = MODES[mode]
    ms = [M[x] for x in fsp]
    if q <= sum(ms):
        return 0.0
    return sym3(mode) * _ps.dalitz(q, ms, lambda s, t: lorentz3(kind, q, s, t, ms) * abs(ref(q, s, t, c, M, **p)) ** 2, n)
