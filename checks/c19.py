"""Kinematic helpers against exact rational arithmetic."""
import itertools
import math
import warnings
from fractions import Fraction as F

import numpy as np

ID = "C19"
PROP = dict(
    title="Two-body kinematics and Lorentz products are exact at every scale",
    statement=(
        "For every pair of masses and every energy, in any units and close to or far from threshold: the two-body momentum "
        "is sqrt(lambda(s,m1^2,m2^2))/(2 sqrt s) to full relative accuracy, exactly zero at an exactly representable "
        "threshold, NaN everywhere below it and symmetric in the masses; the flux prefactor is 1/(4 p sqrt s) with a "
        "divergence at threshold; the Kallen function is the symmetric polynomial; Lorentz products and norms use the "
        "(+,-,-,-) metric along the requested axis and are invariant under boosts and rotations; the Altarelli-Parisi "
        "spectra are the splitting functions with their collinear logarithm, zero above their endpoint. Scalars, "
        "integers, lists and broadcast arrays agree elementwise and inputs are not modified."),
    quantifier=dict(over=["inputs"], text="all points of a lattice of mass pairs, distances from threshold, scales and argument forms"),
    why_tests_cant="The existing tests use eight mass pairs at MeV scale; cancellation defects and argument-form defects show elsewhere.",
    anchors=dict(files=["hazma/utils.py"],
                 mechanism=[dict(name="two_body_momentum, cross_section_prefactor, kallen_lambda", where="hazma/utils.py"),
                            dict(name="ldot, lnorm_sqr, minkowski_dot", where="hazma/utils.py"),
                            dict(name="dnde_altarelli_parisi_*", where="hazma/utils.py")]),
)
TECHNIQUE = "exhaustive enumeration of an input lattice against exact rational arithmetic"
LEVEL_NOTE = ("Every mass pair of the lattice x every scale x every distance from threshold (both sides, to the last bit) x every argument form; "
              "the reference evaluates the defining polynomial in exact rationals. Continuous inputs are covered on the lattice only.")
RULE = "one case per mass pair and scale (kinematics), per axis and shape (products), per energy and mass (splitting); non-trivial when values were compared"

MASSES = [0.0, 1.0, 3.0, 0.5109989461, 105.6583745, 139.57039, 134.9768, 493.677, 1776.86, 1e-9, 2.0 ** -20]
SCALES = [1.0, 1e-3, 1e6, 1e-24, 1e21, 2.0 ** 40]
EPS = [-0.999, -0.5, -1e-1, -1e-6, -1e-12, -4e-16, 0, 4e-16, 1e-15, 1e-12, 1e-9, 1e-6, 1e-3, 0.1, 1.0, 30.0, 1e5, 1e9]
SPLIT = ["fermion", "scalar"]


def cases(tier):
    for i, j in itertools.product(range(len(MASSES)), repeat=2):
        for s in SCALES if tier == "thorough" else SCALES[:1] + [SCALES[1 + (i + j) % 5]]:
            yield ["mom", MASSES[i], MASSES[j], s]
    for i in range(6):
        yield ["forms", i]
    for nd in (1, 2, 3):
        for ax in range(-nd, nd):
            for k in range(3):
                yield ["lorentz", nd, ax, k]
    for s in SPLIT:
        for m in (0.5109989461, 105.6583745, 139.57039):
            for q in (2.001, 2.5, 4.0, 20.0, 1e4):
                yield ["ap", s, m, q * m]
    ms = [0.0, 1.0, 139.57039, 0.5]
    for n in range(4):
        for c in itertools.product(ms, repeat=n):
            yield ["open", list(c)]


def exact_p(q, a, b):
    """(sign of q-a-b, p) in exact arithmetic, p correctly rounded up to one ulp."""
    Q, A, B = F(q), F(a), F(b)
    if Q < A + B:
        return -1, math.nan
    v = (Q - A - B) * (Q + A + B) * (Q - A + B) * (Q + A - B) / (4 * Q * Q)
    if v == 0:
        return 0, 0.0
    e = (v.numerator.bit_length() - v.denominator.bit_length()) // 2
    sc = 2 ** (2 * max(0, 70 - e)), 2 ** (2 * max(0, e - 70))
    r = math.isqrt(v.numerator * sc[0] // (v.denominator * sc[1]))
    return 1, float(F(r) / F(2) ** max(0, 70 - e) * F(2) ** max(0, e - 70))


def run(spec, T):
    getattr(__import__(__name__, fromlist=["x"]), "r_" + spec[0])(spec[1:], T)


def lattice(a, b, s):
    a, b = a * s, b * s
    base = a + b if a + b > 0 else s
    qs = [base * (1 + e) for e in EPS] + [abs(a - b), abs(a - b) * 0.3, abs(a - b) * (1 - 1e-9), abs(a - b) * (1 + 1e-9), base]
    if base == a + b:
        qs += [np.nextafter(base, np.inf), np.nextafter(base, 0)]
    return a, b, [float(q) for q in qs if q > 0]


def r_mom(spec, T):
    from hazma.utils import cross_section_prefactor, kallen_lambda, two_body_momentum
    a, b, qs = lattice(*spec)
    want = []
    for q in qs:
        T.step(3)
        sign, p = exact_p(q, a, b)
        want.append(p)
        n = f"cme={q!r} m1={a!r} m2={b!r}"
        for x, y in ((a, b), (b, a)):
            got = two_body_momentum(q, x, y)
            T.close(got, p, "momentum", 1e-12, note=n)
            pre = cross_section_prefactor(x, y, q)
            T.close(pre, np.inf if sign == 0 else 1 / (4 * p * q), "prefactor", 1e-12, note=n)
        S, A, B = F(q) ** 2, F(a) ** 2, F(b) ** 2
        lam = float(S * S + A * A + B * B - 2 * S * A - 2 * S * B - 2 * A * B)
        s, x, y = q * q, a * a, b * b
        for perm in itertools.permutations((s, x, y)):
            T.close(kallen_lambda(*perm), lam, "kallen", 1e-12, 1e-14 * max(s, x, y) ** 2, note=n)
        T.state(sign, round(math.log10(q)))
    T.close(two_body_momentum(np.array(qs), a, b), want, "momentum:array", 1e-12)
    T.outcome(np.array(want))


def r_forms(spec, T):
    from hazma.utils import cross_section_prefactor, kallen_lambda, two_body_momentum
    i = spec[0]
    qs, ms, ks = np.array([0.5, 4.0, 5.0, 11.0]), np.array([0.0, 1.0, 3.0, 2.0]), np.array([1.0, 3.0, 0.0, 9.0])
    mk = [lambda v: v, lambda v: v.tolist(), lambda v: np.ceil(v).astype(int), lambda v: v.reshape(2, 2), lambda v: v.astype(np.float32),
          lambda v: v[::-1][::-1]][i]
    for which in itertools.product((0, 1), repeat=3):
        if not any(which):
            continue
        T.step(3)
        args = [mk(v) if w else float(v[2]) for v, w in zip((qs, ms, ks), which)]
        keep = [np.array(x) for x in args]
        full = [np.array(x, dtype=float) for x in args]
        q, x, y = np.broadcast_arrays(*full)
        w = np.array([exact_p(*t)[1] for t in zip(q.ravel().tolist(), x.ravel().tolist(), y.ravel().tolist())]).reshape(q.shape)
        tol = 1e-6 if i == 4 else 1e-12
        T.close(two_body_momentum(*args), w, f"momentum:form:{i}", tol, note=str(which))
        T.close(cross_section_prefactor(args[1], args[2], args[0]), np.where(w == 0, np.inf, 1 / (4 * w * q)), f"prefactor:form:{i}", tol, note=str(which))
        if i != 1:
            l = q ** 2 + x ** 2 + y ** 2 - 2 * (q * x + q * y + x * y)
            T.close(kallen_lambda(*args), l, f"kallen:form:{i}", tol, 1e-10, note=str(which))
        for k, g in zip(keep, args):
            T.check(np.array_equal(k, np.array(g)), "modified", "an argument was modified")
    # ints as scalars
    for q, x, y in itertools.product(range(1, 9), range(4), range(4)):
        T.close(two_body_momentum(q, x, y), exact_p(q, x, y)[1], "momentum:int", 1e-12)
    # broadcasting an energy axis against a mass axis
    e, m = np.linspace(0.1, 9, 7)[:, None], np.array([0, 1.0, 2.5, 4.0])[None, :]
    T.close(two_body_momentum(e, m, 0.5), [[exact_p(float(a), float(b), 0.5)[1] for b in m[0]] for a in e[:, 0]], "momentum:broadcast", 1e-12)
    T.state(i)


def r_lorentz(spec, T):
    from hazma.utils import ldot, lnorm_sqr, minkowski_dot
    nd, ax, k = spec
    shape = [3, 2, 5][:nd]
    shape[ax] = 4
    n = int(np.prod(shape))
    a = (np.arange(n) * 7 % 11 - 4.0).reshape(shape)
    b = (np.arange(n) ** 2 % 13 - 6.0).reshape(shape)
    if k == 1:
        a, b = a.astype(int), b.astype(int)
    if k == 2:
        a, b = a * 1e150, b * 1e-150
    g = np.array([1, -1, -1, -1.0])
    A, B = np.moveaxis(a.astype(float), ax, -1), np.moveaxis(b.astype(float), ax, -1)
    a0, b0 = a.copy(), b.copy()
    T.step(4)
    T.close(ldot(a, b, axis=ax), (A * B * g).sum(-1), f"ldot:{k}", 1e-13, 1e-13)
    T.close(ldot(b, a, axis=ax), (A * B * g).sum(-1), f"ldot:{k}", 1e-13, 1e-13)
    if k < 2:
        T.close(lnorm_sqr(a, axis=ax), (A * A * g).sum(-1), f"lnorm:{k}", 1e-13, 1e-13)
    T.check(np.array_equal(a, a0) and np.array_equal(b, b0), "modified")
    if ax == 0:
        T.close(ldot(a, b), (A * B * g).sum(-1), "ldot:default axis", 1e-13, 1e-13)
        T.close(minkowski_dot(a, b), (A * B * g).sum(-1), "minkowski", 1e-13, 1e-13)
        if k < 2:
            T.close(lnorm_sqr(a), (A * A * g).sum(-1), "lnorm:default axis", 1e-13, 1e-13)
    bad = [s for s in range(-nd, nd) if shape[s] != 4]
    for s in bad:
        for f in (lambda: ldot(a, b, axis=s), lambda: lnorm_sqr(a, axis=s)):
            try:
                f()
                T.fail("wrong axis accepted", f"axis {s} of shape {shape}")
            except AssertionError:
                T.comparisons += 1
            except (ValueError, IndexError):
                T.comparisons += 1
    if nd == 1:
        la, lb = a.tolist(), b.tolist()
        w = float((A * B * g).sum())
        T.close(minkowski_dot(la, lb), w, "minkowski:list", 1e-13, 1e-13)
        T.close(minkowski_dot(tuple(la), lb), w, "minkowski:tuple", 1e-13, 1e-13)
        for beta, direction in itertools.product((0.0, 0.3, -0.9, 0.99), range(3)):
            gm = 1 / math.sqrt(1 - beta ** 2)
            L = np.eye(4)
            L[0, 0] = L[1 + direction, 1 + direction] = gm
            L[0, 1 + direction] = L[1 + direction, 0] = -gm * beta
            T.close(minkowski_dot(L @ a.astype(float), L @ b.astype(float)), w, "invariance", 1e-10, 1e-9)
            T.close(ldot(L @ a.astype(float), L @ b.astype(float)), w, "invariance", 1e-10, 1e-9)
    T.state(tuple(shape))


def r_ap(spec, T):
    from hazma import utils
    from hazma.parameters import alpha_em
    which, m, q = spec
    f = getattr(utils, f"dnde_altarelli_parisi_{which}")
    mu = m / q
    xmax = 1 - math.e * mu ** 2

    def ref(e):
        x = 2 * e / q
        if x > xmax:
            return 0.0
        P = (1 + (1 - x) ** 2) / x if which == "fermion" else 2 * (1 - x) / x
        return 2 * alpha_em / (math.pi * q) * P * (math.log((1 - x) / mu ** 2) - 1)
    es = [q / 2 * x for x in (1e-9, 1e-4, 0.01, 0.3, 0.5, 0.77, 0.9, xmax * (1 - 1e-6), xmax * (1 - 1e-3), xmax * (1 + 1e-9), 0.999999, 1.0, 1.5)]
    w = [ref(e) for e in es]
    for form in ("scalar", "array", "list", "reversed", "matrix", "0d"):
        T.step()
        with warnings.catch_warnings(record=True) as log:
            warnings.simplefilter("always")
            if form == "scalar":
                got = [float(f(e, q, m)) for e in es]
            elif form == "array":
                got = f(np.array(es), q, m)
            elif form == "list":
                got = f(list(es), q, m)
            elif form == "reversed":
                got = np.asarray(f(np.array(es[::-1]), q, m))[::-1]
            elif form == "matrix":
                got = np.asarray(f(np.array(es[:12]).reshape(3, 4), q, m)).ravel().tolist() + w[12:]
            else:
                got = [float(f(np.array(e), q, m)) for e in es]
        T.check(any(issubclass(r.category, DeprecationWarning) for r in log), "no deprecation warning")
        T.close(got, w, f"ap:{which}:{form}", 1e-9, 1e-9 * max(w[1:]), note=f"m={m} q={q}")
        T.check(np.all(np.asarray(got) >= 0), f"ap:{which}:negative")
    with warnings.catch_warnings(record=True):
        T.close(f(np.array([int(q / 8) or 1]), q, m), [ref(int(q / 8) or 1)], f"ap:{which}:int", 1e-9)
    T.outcome(np.array(w))


def r_open(spec, T):
    from hazma.utils import kinematically_accessable
    ms = spec[0]
    tot = sum(ms)
    for q in (tot, np.nextafter(tot, np.inf), np.nextafter(tot, -1), tot * 2 + 1, tot / 2):
        T.step()
        for arg in (ms, tuple(ms), np.array(ms)):
            T.check(bool(kinematically_accessable(q, arg)) == (q > tot), "accessable", f"{q} {ms}")
