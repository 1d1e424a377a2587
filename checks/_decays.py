"""Rest-frame decay spectra and boost integrals, written from the published formulas and tables."""
import functools
import math
import os

import numpy as np

ME, MMU, MPI0, MPI = 0.5109989461, 105.6583745, 134.9768, 139.57039
META, METAP, MK, MK0 = 547.862, 957.78, 493.677, 497.611
MRHO, MOMEGA, MPHI = 775.26, 782.66, 1019.461
ALPHA = 1 / 137.035999084
BR_MU, BR_E = 0.9998770, 1.230e-4
F_A, F_V, F_V_SLOPE, F_PI = 0.0119, 0.0254, 0.10, 130.41 / math.sqrt(2)
MASS = dict(muon=MMU, neutral_pion=MPI0, charged_pion=MPI, charged_kaon=MK, long_kaon=MK0, short_kaon=MK0, eta=META,
            eta_prime=METAP, charged_rho=MRHO, neutral_rho=MRHO, omega=MOMEGA, phi=MPHI)


def two_body(M, m, other):
    """Energy of the particle of mass m in M -> m + other."""
    return (M * M + m * m - other * other) / (2 * M)


_GL = np.polynomial.legendre.leggauss(40)


def glint(f, a, b, breaks=(), sub=1):
    """Integral of the vectorised f between a and b, smooth between the breaks."""
    pts = [a] + sorted(x for x in breaks if a < x < b) + [b]
    tot = 0.0
    for u, v in zip(pts, pts[1:]):
        ed = np.linspace(u, v, sub + 1)
        for p, q in zip(ed, ed[1:]):
            x = 0.5 * (q - p) * _GL[0] + 0.5 * (p + q)
            tot += 0.5 * (q - p) * np.dot(_GL[1], f(x))
    return tot


def window(e, m, E, M):
    """Energies in the parent's frame which reach the laboratory energy e."""
    g = E / M
    b = math.sqrt(max((E - M) * (E + M), 0)) / E
    k = math.sqrt(max((e - m) * (e + m), 0))
    hi = g * (e + b * k)
    lo = max(g * (e * e - b * b * k * k) / (e + b * k), m)
    return lo, hi, b, g


def boosted(rest, e, E, M, m=0.0, breaks=(), top=math.inf, sub=1):
    """1/(2 b g) times the integral of rest(x)/sqrt(x^2-m^2) over the window."""
    lo, hi, b, g = window(e, m, E, M)
    hi = min(hi, top)
    if hi <= lo:
        return 0.0
    if m:
        y, inv = (lambda x: math.acosh(max(x / m, 1.0))), (lambda t: m * np.cosh(t))
    else:
        y, inv = math.log, np.exp
    return glint(lambda t: rest(inv(t)), y(lo), y(hi), [y(x) for x in breaks if x > m], sub) / (2 * b * g)


def box(e, e0, E, M, m=0.0):
    """A line at e0 of a parent of energy E."""
    lo, hi, b, g = window(e0, m, E, M)
    k0 = math.sqrt((e0 - m) * (e0 + m))
    return 1 / (2 * b * g * k0) if lo < e < hi else 0.0


# ---- muon ---------------------------------------------------------------------------------

def muon_photon(e, endpoint=None):
    """mu -> e nu nu gamma (leading logarithm and constant), rest frame."""
    e = np.asarray(e, float)
    r = (ME / MMU) ** 2
    y = 2 * e / MMU
    with np.errstate(all="ignore"):
        v = (ALPHA / (3 * math.pi * y) * (2 / MMU)
             * ((3 - 5 * y + 6 * y ** 2 - 6 * y ** 3 + 2 * y ** 4) * np.log((1 - y) / r)
                + (1 - y) / 12 * (-102 + 46 * y - 101 * y ** 2 + 55 * y ** 3)))
    return np.where((y > 0) & (y < (1 - r if endpoint is None else endpoint)), v, 0.0)


MUON_PHOTON_TOP = MMU / 2 * (1 - (ME / MMU) ** 2)


def _muon_photon_flight_scalar(e, E):
    return boosted(muon_photon, e, E, MMU, top=MUON_PHOTON_TOP, sub=2)


def muon_photon_flight(e, E):
    return np.array([_muon_photon_flight_scalar(x, E) for x in np.atleast_1d(e)])


def michel(e):
    """Positron of mu -> e nu nu with electron mass, normalised to one."""
    r = ME / MMU
    x = 2 * np.asarray(e, float) / MMU
    norm = 1 - 8 * r ** 2 + 8 * r ** 6 - r ** 8 - 12 * r ** 4 * math.log(r * r)
    with np.errstate(all="ignore"):
        v = 2 * np.sqrt(np.maximum(x * x - 4 * r * r, 0)) * (x * (3 + 3 * r * r - 2 * x) - 4 * r * r)
    return np.where((x > 2 * r) & (x < 1 + r * r), v, 0) * 2 / MMU / norm


MICHEL_TOP = MMU / 2 * (1 + (ME / MMU) ** 2)


def michel_flight(e, E):
    return np.array([boosted(michel, x, E, MMU, m=ME, top=MICHEL_TOP, sub=2) for x in np.atleast_1d(e)])


def muon_nu(e, flavor):
    r2 = (ME / MMU) ** 2
    x = 2 * np.asarray(e, float) / MMU
    norm = 1 - 8 * r2 + 8 * r2 ** 3 - r2 ** 4 - 12 * r2 ** 2 * math.log(r2)
    gap = 1 - r2 - x
    with np.errstate(all="ignore"):
        if flavor == "e":
            v = 12 * x ** 2 * gap ** 2 / (1 - x)
        else:
            v = 2 * x ** 2 * gap ** 2 / (1 - x) ** 3 * (3 + r2 * (3 - x) - 5 * x + 2 * x ** 2)
    return np.where((x > 0) & (gap > 0), v, 0.0) * 2 / MMU / norm


MUON_NU_TOP = MMU / 2 * (1 - (ME / MMU) ** 2)
# the density changes over m_e^2/m_mu^2 of the range at its end
MUON_NU_BREAKS = [MUON_NU_TOP - MMU / 2 * (ME / MMU) ** 2 * 4.0 ** k for k in range(-1, 7)]


def muon_nu_flight(e, E, flavor):
    return np.array([boosted(lambda x: muon_nu(x, flavor), x, E, MMU, breaks=MUON_NU_BREAKS, top=MUON_NU_TOP, sub=2)
                     for x in np.atleast_1d(e)])


def graded(points, rel=(1e-5, 1e-4, 1e-3, 1e-2)):
    """Points and a few neighbours on both sides, where boosted spectra bend."""
    return sorted({x * f for x in points for r in (0,) + rel for f in (1 - r, 1 + r)})


E_MU_PI = two_body(MPI, MMU, 0)


def flight_ends(x, E, M, m=0.0):
    lo, hi, _, _ = window(x, m, E, M)
    return [lo, hi]


# ---- charged pion -------------------------------------------------------------------------

def pi_lnug(e, ml):
    """Photon of pi -> l nu gamma per pi -> l nu: inner bremsstrahlung, structure and interference."""
    e = np.asarray(e, float)
    x, r = 2 * e / MPI, (ml / MPI) ** 2
    fv = F_V * (1 + F_V_SLOPE * (1 - x))
    with np.errstate(all="ignore"):
        f = (r + x - 1) * (MPI ** 2 * x ** 4 * (F_A ** 2 + fv ** 2) * (r ** 2 - r * x + r - 2 * (x - 1) ** 2)
                           - 12 * math.sqrt(2) * F_PI * MPI * r * (x - 1) * x ** 2 * (F_A * (r - 2 * x + 1) + fv * x)
                           - 24 * F_PI ** 2 * r * (x - 1) * (4 * r * (x - 1) + (x - 2) ** 2))
        g = (12 * math.sqrt(2) * F_PI * r * (x - 1) ** 2 * np.log(r / (1 - x))
             * (MPI * x ** 2 * (F_A * (x - 2 * r) - fv * x) + math.sqrt(2) * F_PI * (2 * r ** 2 - 2 * r * x - x ** 2 + 2 * x - 2)))
        v = ALPHA * (f + g) / (24 * math.pi * MPI * F_PI ** 2 * (r - 1) ** 2 * (x - 1) ** 2 * r * x)
    return np.where((x > 0) & (x < 1 - r), v, 0.0)


def pion_photon(e):
    return BR_MU * (muon_photon_flight(e, E_MU_PI) + pi_lnug(e, MMU)) + BR_E * pi_lnug(e, ME)


PION_PHOTON_BREAKS = sorted(flight_ends(MUON_PHOTON_TOP, E_MU_PI, MMU) + [MPI / 2 * (1 - (m / MPI) ** 2) for m in (ME, MMU)])
PION_PHOTON_TOP = PION_PHOTON_BREAKS[-1]


@functools.lru_cache(None)
def _pion_photon_grid():
    """pion_photon on Gauss nodes is expensive: tabulate x*f in log x between the breaks."""
    segs = []
    pts = [1e-9] + PION_PHOTON_BREAKS
    for a, b in zip(pts, pts[1:]):
        n = 90
        t = np.cos(np.pi * (np.arange(n) + 0.5) / n)
        la, lb = math.log(a), math.log(b)
        x = np.exp(0.5 * (lb - la) * t + 0.5 * (la + lb))
        segs.append((la, lb, np.polynomial.chebyshev.chebfit(t, x * pion_photon(x), n - 1)))
    return segs


def pion_photon_fast(e):
    e = np.asarray(e, float)
    out = np.zeros(e.shape)
    le = np.log(e)
    for la, lb, c in _pion_photon_grid():
        s = (le > la) & (le <= lb)
        out[s] = np.polynomial.chebyshev.chebval((2 * le[s] - la - lb) / (lb - la), c) / e[s]
    return out


# ---- tables -------------------------------------------------------------------------------

@functools.lru_cache(None)
def table(kind, name):
    import hazma
    path = os.path.join(os.path.dirname(hazma.__file__), "spectra", "_" + kind, "data", name)
    rows = [[float(x) for x in l.split(",")] for l in open(path) if l.strip() and not l.lstrip().startswith("#")]
    a = np.array(rows)
    return a[:, 0], a[:, 1:].sum(axis=1)


def lin_integral(x, y, lo, hi):
    """Integral of the piecewise linear interpolant (zero outside)."""
    lo, hi = max(lo, x[0]), min(hi, x[-1])
    if hi <= lo:
        return 0.0
    pts = np.concatenate([[lo], x[(x > lo) & (x < hi)], [hi]])
    v = np.interp(pts, x, y)
    return float(np.sum((v[1:] + v[:-1]) / 2 * np.diff(pts)))


def photon_table(x, y, e, E, M):
    """Boost integral of a photon table with 1/E below it; (right value, value with the recorded cell defect)."""
    lo, hi, b, g = window(e, 0.0, E, M)
    if lo > x[-1]:
        return 0.0, 0.0
    if hi < x[0]:
        v = y[0] * x[0] / e
        return v, v
    yy = y / x
    tail = y[0] * (x[0] / lo - 1) if lo < x[0] else 0.0
    right = (tail + lin_integral(x, yy, lo, hi)) / (2 * b * g)
    # recorded defect (docs/followups boost-integral-drops-last-interior-cell)
    tot = tail
    n = len(x)
    il = 0 if lo < x[0] else int(np.searchsorted(x, lo))
    lb = max(lo, x[0])
    if hi > x[-1]:
        ih, ub = n - 1, x[-1]
    else:
        ub = hi
        first = int(np.searchsorted(x, hi))
        ih = first - 1 if abs(x[first] - hi) > 1e-6 else first
    if il < ih:
        xs, ys = x[il:ih], yy[il:ih]
        tot += float(np.sum((ys[1:] + ys[:-1]) / 2 * np.diff(xs)))
    if il > 0 and abs(x[il] - lb) > 1e-6:
        m = (yy[il] - yy[il - 1]) / (x[il] - x[il - 1])
        tot += (x[il] - lb) * (0.5 * m * (x[il] + lb) + yy[il - 1] - m * x[il - 1])
    if ih < n - 1 and abs(ub - x[ih]) > 1e-6:
        m = (yy[ih + 1] - yy[ih]) / (x[ih + 1] - x[ih])
        tot += (ub - x[ih]) * (0.5 * m * (ub + x[ih]) + yy[ih] - m * x[ih])
    return right, tot / (2 * b * g)


LINES = dict(
    charged_kaon=[], long_kaon=[(MK0 / 2, 2 * 5.47e-4)], short_kaon=[(MK0 / 2, 2 * 2.63e-6)], eta=[(META / 2, 2 * 0.3941)],
    eta_prime=[(METAP / 2, 2 * 2.307e-2)],
    omega=[(two_body(MOMEGA, 0, MPI0), 8.34e-2), (two_body(MOMEGA, 0, META), 4.5e-4)],
    phi=[(two_body(MPHI, 0, META), 1.303e-2), (two_body(MPHI, 0, METAP), 6.22e-5)])
# recorded defects: the eta' line without its factor two, the phi lines at the meson's energy
BAD_LINES = dict(LINES, eta_prime=[(METAP / 2, 2.307e-2)],
                 phi=[(two_body(MPHI, META, 0), 1.303e-2), (two_body(MPHI, METAP, 0), 6.22e-5)])
