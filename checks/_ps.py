"""Reference Lorentz-invariant phase space: closed forms and recursive Gauss-Legendre integrals."""
import math

import numpy as np

_GL = {}


def gl(n):
    if n not in _GL:
        _GL[n] = np.polynomial.legendre.leggauss(n)
    return _GL[n]


def quad(f, a, b, n=64):
    """Gauss-Legendre with a sine map that removes square-root endpoints."""
    x, w = gl(n)
    th = 0.25 * np.pi * (x + 1)  # 0 .. pi/2
    q = a + (b - a) * np.sin(th) ** 2
    return float(np.sum(0.25 * np.pi * w * (b - a) * np.sin(2 * th) * f(q)))


def mom(s, m1, m2):
    """CM momentum from the squared energy."""
    e = np.sqrt(s)
    v = (e - m1 - m2) * (e + m1 + m2) * (e - m1 + m2) * (e + m1 - m2)
    return np.sqrt(np.maximum(v, 0.0)) / (2 * e)


def phi2(q, m1, m2):
    return mom(np.asarray(q, float) ** 2, m1, m2) / (4 * np.pi * np.asarray(q, float))


def phin(q, ms, n=48):
    """Flat phase-space volume of len(ms) particles at energies q (array), with (2 pi)^4 in the measure."""
    ms = list(ms)
    q = np.atleast_1d(np.asarray(q, float))
    if all(m == 0 for m in ms):
        return massless(q, len(ms))
    if len(ms) == 2:
        return phi2(q, *ms)
    out = []
    for qq in q:
        lo, hi = sum(ms[1:]), qq - ms[0]
        if hi <= lo:
            out.append(0.0)
            continue
        out.append(quad(lambda m: 2 * m / (2 * np.pi) * phi2_m(qq, ms[0], m) * phin(m, ms[1:], n), lo, hi, n))
    return np.array(out)


def phi2_m(q, m1, m):
    """Two-body volume with an array of second masses."""
    v = (q - m1 - m) * (q + m1 + m) * (q - m1 + m) * (q + m1 - m)
    return np.sqrt(np.maximum(v, 0.0)) / (2 * q) / (4 * np.pi * q)


def massless(q, n):
    return (2 * np.pi) ** (4 - 3 * n) * (np.pi / 2) ** (n - 1) * q ** (2 * n - 4) / (math.factorial(n - 1) * math.factorial(n - 2))


def dalitz(q, ms, f, n=40, i=0):
    """Integral of f(s, t), s=(p2+p3)^2, t=(p1+p3)^2, over three-body phase space.

    Done as p1 recoiling against (23), whose rest-frame angle is integrated too.
    """
    m1, m2, m3 = ms
    x, w = gl(n)

    def inner(m23):
        m23 = np.atleast_1d(m23)
        s = m23 ** 2
        k = mom(s, m2, m3)[:, None]
        p = np.sqrt(np.maximum((q - m1 - m23) * (q + m1 + m23) * (q - m1 + m23) * (q + m1 - m23), 0.0)) / (2 * q)
        # energies and momentum of 1 in the (23) frame
        e1 = ((q * q - s - m1 * m1) / (2 * m23))[:, None]
        p1 = (p * q / m23)[:, None]
        e3 = np.sqrt(m3 * m3 + k * k)
        z = x[None, :]
        t = m1 * m1 + m3 * m3 + 2 * (e1 * e3 - p1 * k * z)
        val = f(np.broadcast_to(s[:, None], t.shape), t)
        return np.sum(0.5 * w * val, axis=1) * (k[:, 0] / (4 * np.pi * m23)) * p / (4 * np.pi * q) * 2 * m23 / (2 * np.pi)
    lo, hi = m2 + m3, q - m1
    return quad(inner, lo, hi, n) if hi > lo else 0.0


class seeded:
    """Makes generators that are asked for without a seed start from a fixed one."""

    def __init__(self, seed=20):
        self.seed = seed

    def __enter__(self):
        self.orig = np.random.default_rng
        np.random.default_rng = lambda s=None, *a, **k: self.orig(self.seed if s is None else s, *a, **k)

    def __exit__(self, *_):
        np.random.default_rng = self.orig
