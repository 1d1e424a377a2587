"""Reference early-universe thermodynamics, from the tabulated degrees of freedom."""
import numpy as np

MPL = 1.22091e22
RHO, S0 = 1.05375e-2, 2891.2


def table():
    from vf import env
    d = np.array([[float(x) for x in l.split(",")] for l in
                  (env.REPO / "hazma/relic_density/smdof.dat").read_text().splitlines()[1:] if l.strip()])
    return d[:, 0] * 1e3, d[:, 1], d[:, 2]


_S = {}


def splines():
    if not _S:
        from scipy.interpolate import CubicSpline
        t, g, h = table()
        _S.update(t=t, g=CubicSpline(t, g), h=CubicSpline(t, h))
    return _S


def gstar(T):
    s = splines()
    return s["g"](np.clip(T, s["t"][0], s["t"][-1]))


def heff(T):
    s = splines()
    return s["h"](np.clip(T, s["t"][0], s["t"][-1]))


def entropy(T):
    return 2 * np.pi ** 2 / 45 * heff(T) * T ** 3


def dentropy(T):
    s = splines()
    inside = (T >= s["t"][0]) & (T <= s["t"][-1])
    dh = np.where(inside, s["h"](np.clip(T, s["t"][0], s["t"][-1]), 1), 0.0)
    return 2 * np.pi ** 2 / 45 * (3 * heff(T) * T ** 2 + dh * T ** 3)


_X, _W = np.polynomial.laguerre.laggauss(60)
_LX, _LW = np.polynomial.legendre.leggauss(40)


def neq(T, m, g, fermion):
    """Momentum integral of the Fermi-Dirac or Bose-Einstein distribution (divided by exp(-m/T) inside)."""
    x = m / T
    # momentum p = T u; E/T = sqrt(u^2 + x^2)
    um = np.sqrt((60 + x) ** 2 - x ** 2)
    edges = np.concatenate([[0.0], np.geomspace(um * 1e-4, um, 50)])
    h, c = 0.5 * np.diff(edges)[:, None], 0.5 * (edges[1:] + edges[:-1])[:, None]
    u, w = c + h * _LX, h * _LW
    e = np.sqrt(u * u + x * x)
    f = 1.0 / (np.exp(e) + (1.0 if fermion else -1.0))
    return g / (2 * np.pi ** 2) * T ** 3 * np.sum(w * u * u * f)


def tcs(x, m, sigma, breaks=()):
    """Gondolo-Gelmini thermal average; sigma(e_cm) vectorised."""
    from scipy.special import k1e, kve
    edges = np.concatenate([[0.0], np.geomspace(1e-8, 60.0 / x, 140), [b / m - 2 for b in breaks if 0 < b / m - 2 < 60.0 / x]])
    edges = np.unique(edges)
    h, c = 0.5 * np.diff(edges)[:, None], 0.5 * (edges[1:] + edges[:-1])[:, None]
    d, w = c + h * _LX, h * _LW
    z = 2 + d
    f = sigma(m * z) * z ** 2 * (z ** 2 - 4) * k1e(x * z) * np.exp(-x * d)
    return x / (2 * kve(2, x)) ** 2 * np.sum(w * f)
