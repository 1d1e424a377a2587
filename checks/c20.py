"""Boosting, marginalising and collinear-radiation utilities for energy spectra."""
import itertools
import math
import warnings

import numpy as np

ID = "C20"
PROP = dict(
    title="Boost, marginalisation and collinear-FSR utilities are their integrals",
    statement=(
        "For every product mass, boost velocity, energy, spectrum and calling form (scalar, integer, list, array; extra "
        "arguments; vectorised or not; every integration method): boosting a line gives the unit-area box between its "
        "kinematic ends, boosting it twice gives the convolution of the two boxes, boosting a spectrum function gives "
        "1/(2 gamma beta) times the integral of dN/dE over k between gamma(E-beta k) and gamma(E+beta k), boosting a table "
        "gives that integral of its linear interpolant; a zero boost returns the spectrum itself and velocities outside [0,1) "
        "give zeros, as do energies below the mass. Marginalising is the probability-weighted rule integral over the "
        "parent energies. Altarelli-Parisi spectra are alpha q^2/2pi times the splitting function times log(s(1-x)/m^2)-1 "
        "where positive and zero elsewhere, with dN/dE = 2/sqrt(s) dN/dx."),
    quantifier=dict(over=["inputs", "configurations"],
                    text="products of masses, velocities, energies around every kinematic end, spectra, methods and argument forms"),
    why_tests_cant="These utilities have no tests of their own; spectra that use them are compared with stored numbers.",
    anchors=dict(files=["hazma/spectra/boost.py", "hazma/spectra/convolve.py", "hazma/spectra/altarelli_parisi.py"],
                 mechanism=[dict(name="boost_delta_function, double_boost_delta_function, dnde_boost_array, make_boost_function, dnde_boost", where="hazma/spectra/boost.py"),
                            dict(name="make_marginal_fn, marginalize", where="hazma/spectra/convolve.py"),
                            dict(name="dndx_photon_ap_*, dnde_photon_ap_*", where="hazma/spectra/altarelli_parisi.py")]),
)
TECHNIQUE = "exhaustive enumeration of a lattice of masses, velocities, energies, spectra, methods and argument forms against closed-form and directly summed integrals"
LEVEL_NOTE = "Full product of 4 masses x 9 velocities x 3 line energies with energies on both sides of every kinematic end; 7 spectra x 4 methods; 4 tables; marginalisation and collinear radiation over their whole configuration lattices."
RULE = "one case per (mass, velocity, line or spectrum) and per configuration; non-trivial when values were compared"
CORE = True
CHUNK = 4

MASSES = [0.0, 0.511, 105.66, 139.57]
BETAS = [1e-4, 1e-2, 0.1, 0.3, 0.6, 0.8, 0.95, 0.999, 0.99999]
BAD = [0.0, -1e-30, -0.3, -2.0, 1.0, 1.5]
LINES = [1.001, 1.7, 12.0]
FNS = ["p0", "p1", "p2", "soft", "exp", "args", "cut"]
METHODS = ["quad", "quadrature", "trapz", "simps"]


def cases(tier):
    bs = BETAS if tier == "quick" else BETAS + [1e-3, 0.03, 0.2, 0.5, 0.7, 0.9, 0.99, 0.9999]
    for m in MASSES:
        for l in LINES:
            for b in bs + BAD:
                yield ["delta", m, l, b]
            for b1, b2 in itertools.product(bs, repeat=2):
                yield ["double", m, l, b1, b2]
    for m in MASSES:
        for b in bs[1:] + BAD:
            for f in FNS:
                for meth in METHODS:
                    yield ["fn", m, b, f, meth]
            for t in range(5):
                yield ["table", m, b, t]
    for m1, m2 in itertools.product(METHODS, repeat=2):
        yield ["hist", m1, m2]
    for c in itertools.product((2, 3, 4, 9), ("trapz", "simpson"), (False, True), (0, 1, 2)):
        yield ["marg", *c]
    for c in itertools.product(("fermion", "scalar"), (0.511, 105.66, 493.7), (1.5, 2.05, 5.0, 100.0), (-1.0, 1.0, 0.5)):
        yield ["ap", *c]


def lab_energies(m, e0, betas):
    """Energies on both sides of every end the composed boosts can reach, and the interior."""
    ends = {e0}
    for b in betas:
        if not 0 < b < 1:
            continue
        nxt = set()
        g = 1 / math.sqrt(1 - b * b)
        for e in ends:
            k = math.sqrt(max(e * e - m * m, 0))
            nxt |= {g * (e - b * k), g * (e + b * k)}
        ends |= nxt
    out = set()
    for e in ends:
        out |= {e * (1 - 1e-6), e * (1 + 1e-6)}
    s = sorted(ends)
    for a, b in zip(s, s[1:]):
        out |= {0.5 * (a + b), a + 0.1 * (b - a), b - 0.01 * (b - a)}
    out |= {0.5 * m, m * (1 + 1e-6), 2 * s[-1] + 1.0}
    return np.array(sorted(e for e in out if e > 0))


def box(e, e0, m, b):
    g = 1 / math.sqrt((1 - b) * (1 + b))
    k0 = math.sqrt((e0 - m) * (e0 + m))
    lo, hi = g * (e0 - b * k0), g * (e0 + b * k0)
    return np.where((e > lo) & (e < hi), 1 / (2 * g * b * k0), 0.0)


def forms(T, fn, es, want, key, rtol, atol=0.0):
    got = fn(es)
    T.step()
    T.close(got, want, key, rtol, atol)
    got = fn(list(es))
    T.close(got, want, key + "-list", rtol, atol)
    for i in range(0, len(es), max(1, len(es) // 5)):
        T.close(np.reshape(fn(float(es[i])), ()), want[i], key + "-scalar", rtol, atol, note=f"E={es[i]}")
    T.outcome(want)


def not_on_edge(es, edges, tol=1e-7):
    keep = np.ones(len(es), bool)
    for x in edges:
        keep &= np.abs(es - x) > tol * abs(x)
    return es[keep]


def run(spec, T):
    from hazma.spectra import boost
    kind = spec[0]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            globals()["run_" + kind](spec[1:], T, boost)


def run_delta(spec, T, boost):
    m, l, b = spec
    e0 = l * m if m else 50.0 * l
    es = lab_energies(m, e0, [b])
    if not 0 < b < 1:
        es = np.unique(np.concatenate([es, [e0]]))
        forms(T, lambda e: boost.boost_delta_function(e, e0, m, b), es, np.zeros(len(es)), "delta-zero", 1e-12)
        return
    want = box(es, e0, m, b)
    g = 1 / math.sqrt(1 - b * b)
    k0 = math.sqrt(e0 * e0 - m * m)
    if b * k0 / e0 > 1e-5:      # the ends are separated by more than the offsets used
        forms(T, lambda e: boost.boost_delta_function(e, e0, m, b), es, want, "delta", 1e-9)
    ints = np.arange(1, 1 + int(min(4 * g * e0, 300)))
    ints = not_on_edge(ints, [g * (e0 - b * k0), g * (e0 + b * k0), m])
    T.close(boost.boost_delta_function(ints, e0, m, b), box(ints.astype(float), e0, m, b), "delta-int", 1e-9)
    for i in ints[:: max(1, len(ints) // 7)]:
        T.close(np.reshape(boost.boost_delta_function(int(i), e0, m, b), ()), box(float(i), e0, m, b), "delta-int-scalar", 1e-9)
    T.close(boost.boost_delta_function(np.array([]), e0, m, b), np.array([]), "delta-empty")


def run_double(spec, T, boost):
    m, l, b1, b2 = spec
    e0 = l * m if m else 50.0 * l
    g1, g2 = (1 / math.sqrt((1 - b) * (1 + b)) for b in (b1, b2))
    k0 = math.sqrt((e0 - m) * (e0 + m))
    lo1, hi1 = g1 * (e0 - b1 * k0), g1 * (e0 + b1 * k0)
    es = lab_energies(m, e0, [b1, b2])
    k = np.sqrt(np.maximum((es - m) * (es + m), 0))
    # invert: rapidity-like variable y = log(e + k), a boost shifts nothing but the ends
    lo2, hi2 = g2 * (es - b2 * k), g2 * (es + b2 * k)
    a, b = np.maximum(lo1, lo2), np.minimum(hi1, hi2)
    a, b = np.maximum(a, m), np.maximum(b, m)
    y = (lambda e: np.arccosh(np.maximum(e / m, 1))) if m else np.log
    want = np.where((b > a) & (es > m), (y(b) - y(a)) / (4 * g1 * g2 * b1 * b2 * k0), 0.0)
    peak = np.max(want) if len(want) else 0
    # end points are known to the relative accuracy with which boosted energies are
    atol = 2e-6 * max(peak, 1e-300)
    if min(b1, b2) < 5e-3:
        atol = peak * 2e-2 if m else peak * 1e-3
    forms(T, lambda e: boost.double_boost_delta_function(e, e0, m, b1, b2), es, want, "double", 1e-6, atol)
    ints = np.unique(np.round(es[(es > 2) & (es < 1e6)]).astype(int))
    ints = ints[ints > m]
    T.close(boost.double_boost_delta_function(ints, e0, m, b1, b2),
            boost.double_boost_delta_function(ints.astype(float), e0, m, b1, b2), "double-int", 1e-12)
    # boosts in either order give the same composed spectrum
    T.close(boost.double_boost_delta_function(es, e0, m, b2, b1)[es > m * (1 + 1e-3)], want[es > m * (1 + 1e-3)],
            "double-order", 1e-6, max(atol, peak * 1e-6))


def spectrum(name, m):
    """(fn(e,*args), args, integral of fn/k as function of e)."""
    sc = m if m else 40.0

    def kk(e):
        return np.sqrt(np.maximum(e * e - m * m, 0))
    if name == "p0":
        return (lambda e: kk(e) * 0.3), (), lambda e: 0.3 * e
    if name == "p1":
        return (lambda e: kk(e) * e), (), lambda e: e * e / 2
    if name == "p2":
        return (lambda e: kk(e) * (e - sc) ** 2), (), lambda e: (e - sc) ** 3 / 3
    if name == "soft":
        return (lambda e: kk(e) / e), (), np.log
    if name == "exp":
        return (lambda e: kk(e) * np.exp(-e / (3 * sc))), (), lambda e: -3 * sc * np.exp(-e / (3 * sc))
    if name == "args":
        return (lambda e, p, q: kk(e) * (p + q * e)), (2.0, -0.01), lambda e: 2 * e - 0.005 * e * e
    if name == "cut":
        # scalar-only function (python branch), continuous
        return (lambda e: math.sqrt(max(e * e - m * m, 0)) * (1.0 if e < 0 else 2.0)), (), lambda e: 2.0 * e
    raise KeyError(name)


def run_fn(spec, T, boost):
    m, b, name, meth = spec
    fn, args, prim = spectrum(name, m)
    vec = name != "cut"
    sc = m if m else 40.0
    es = sc * np.array([0.5, 1.02, 1.3, 2.0, 3.7, 10.0])
    if m == 0:
        es = sc * np.array([0.01, 0.4, 1.0, 5.0])
    above = es > m
    npts = 7 if meth == "simps" else 5
    kw = dict(npts=npts) if meth in ("trapz", "simps") else {}

    def call(e, **k2):
        return boost.make_boost_function(fn, m, vectorized=vec)(e, b, method=meth, args=args, **{**kw, **k2})

    def rest(e):
        return fn(e, *args) if vec else np.array([fn(x, *args) for x in np.atleast_1d(e)])

    if b < 0 or b >= 1:
        want = np.zeros(len(es))
        use = es
    elif b == 0:
        use = es[above]
        want = np.asarray(rest(use), dtype=float)
    else:
        use = es
        g = 1 / math.sqrt((1 - b) * (1 + b))
        k = np.sqrt(np.maximum(es * es - m * m, 0))
        lo, hi = g * (es - b * k), g * (es + b * k)
        # gamma(E - beta k) without cancellation
        lo = np.where(above, np.maximum((es * es - b * b * k * k) * g / (es + b * k), m), m)
        want = np.zeros(len(es))
        for i in np.flatnonzero(above):
            if meth in ("quad", "quadrature"):
                v = prim(hi[i]) - prim(lo[i])
            else:
                x = np.linspace(lo[i], hi[i], npts)
                x = np.maximum(x, m)
                kx = np.sqrt(x * x - m * m)
                y = np.array([np.reshape(rest(np.array([xx])), ()) for xx in x]) / kx
                if meth == "trapz":
                    v = np.sum((y[1:] + y[:-1]) / 2 * np.diff(x))
                else:
                    h = x[1] - x[0]
                    v = h / 3 * (y[0] + y[-1] + 4 * y[1:-1:2].sum() + 2 * y[2:-1:2].sum())
            want[i] = v / (2 * g * b)
    tol = 1e-6 if meth in ("quad", "quadrature") else 1e-7
    if not 0 < b < 1:
        tol = 1e-12
    T.step(2)
    if 0 < b < 1 and 1 / (1 - b) > 1e4 and name in ("soft", "exp") and meth.startswith("quad"):
        tol = 1e-4
    T.close(call(use), want, "fn-" + meth, tol, note=f"{name}")
    T.outcome(want)
    T.close(boost.dnde_boost(fn, use, b, m, method=meth, vectorized=vec, args=args, **kw), want, "dnde_boost-" + meth, tol, note=name)
    if len(use) > 1:
        T.close(call(use[::-1].copy()), want[::-1], "fn-order", tol)
        T.close(call(use[:1]), want[:1], "fn-single", tol)
    if meth.startswith("quad") and 0 < b < 1:
        T.close(call(use, epsabs=0.0, epsrel=1e-10, limit=200), want, "fn-kwargs", max(tol, 1e-8))
    ints = np.arange(int(m) + 2, int(m) + 6)
    T.close(call(ints), call(ints.astype(float)), "fn-int", 1e-12)
    T.step(4)


def grid(t, m):
    lo = m if m else 0.0
    if t == 0:
        return np.linspace(lo + 1.0, lo + 300.0, 12), lambda e: np.ones_like(e)
    if t == 1:
        return (lo + np.geomspace(0.5, 2000.0, 25)), lambda e: 3.0 / e
    if t == 2:
        return np.concatenate([[0.3 * (m or 1.0)], lo + np.array([2.0, 3.0, 50.0, 51.0, 400.0])]), lambda e: e * np.exp(-e / 100.0)
    if t == 4:  # down to a product at rest
        return lo + np.array([0.0, 0.7, 1.5, 4.0, 9.0, 30.0, 31.0, 100.0]), lambda e: 1.0 + e
    return (lo + np.arange(1, 9)).astype(int), lambda e: (e % 3 + 1).astype(float)


def run_table(spec, T, boost):
    m, b, t = spec
    es, f = grid(t, m)
    y = f(es)
    keep = (es.copy(), y.copy())
    got = boost.dnde_boost_array(y, es, b, m)
    T.step()
    T.close(es, keep[0], "table-inputs-changed")
    T.close(y, keep[1], "table-inputs-changed")
    if b < 0 or b >= 1:
        T.close(got, np.zeros(len(es)), "table-zero")
        return
    if b == 0:
        T.close(got, y, "table-rest")
        return
    e = es.astype(float)
    g = 1 / math.sqrt((1 - b) * (1 + b))
    ab = e > m
    x = e[ab]
    k = np.sqrt((x - m) * (x + m))
    h = y[ab] / k
    lo, hi = g * (x * x - b * b * k * k) / (x + b * k), g * (x + b * k)
    want = np.zeros(len(e))
    vals = []
    for a, c in zip(lo, hi):
        a, c = max(a, x[0]), min(c, x[-1])
        if c <= a:
            vals.append(0.0)
            continue
        pts = np.concatenate([[a], x[(x > a) & (x < c)], [c]])
        hh = np.interp(pts, x, h)
        vals.append(np.sum((hh[1:] + hh[:-1]) / 2 * np.diff(pts)))
    want[ab] = np.array(vals) / (2 * g * b)
    T.close(got, want, "table", 1e-8, 1e-13 * np.max(want))
    T.close(boost.dnde_boost_array(list(y), list(es), b, m), want, "table-list", 1e-8, 1e-13 * np.max(want))
    if m == 0:
        T.close(boost.dnde_boost_array(y, es, b), want, "table-default-mass", 1e-8, 1e-13 * np.max(want))
    T.outcome(want)


def run_hist(spec, T, boost):
    """One boosted function called with alternating methods, velocities and arguments."""
    m1, m2 = spec
    f = boost.make_boost_function(lambda e, p=1.0: p * e, 0.0)
    g = boost.make_boost_function(lambda e, p=1.0: p * np.sqrt(e * e - 4.0), 2.0)
    es = np.array([3.0, 7.0])

    def want(fun, b, p):
        k = es if fun is f else np.sqrt(es ** 2 - 4)
        if b == 0:
            return p * k
        return p * k      # 1/(2 g b) * integral of p over width 2 g b k
    seq = [(f, m1, 0.4, 1.0), (g, m2, 0.9, 2.0), (f, m2, 0.0, 3.0), (g, m1, 0.2, 1.0), (f, m1, 0.4, 1.0)]
    for r in range(len(seq)):
        for fun, meth, b, p in seq[r:] + seq[:r]:
            T.step()
            T.close(fun(es, b, method=meth, args=(p,)), want(fun, b, p), "history", 1e-8)
            T.state(r, meth, b, p)


def run_marg(spec, T, boost):
    from hazma.spectra import convolve
    n, method, vec, na = spec
    if method == "simpson" and n % 2 == 0:
        n += 1
    args = (0.7, 3.0)[:na]
    cmes = np.linspace(5.0, 9.0, n)
    if method == "trapz":
        cmes = cmes + 0.3 * np.sin(np.arange(n))
    probs = 1 + np.cos(np.arange(n)) ** 2
    calls = []

    def fn(e, q, *a):
        calls.append(np.ndim(e))
        return np.exp(-e / q) * (1 + sum(a) * q) / q

    def scalar_fn(e, q, *a):
        return math.exp(-e / q) * (1 + sum(a) * q) / q
    use = fn if vec else scalar_fn
    for es in (np.array([1.0, 2.5, 4.0]), np.array([3.0]), np.array([7.0, 1.0, 1.0, 2.0, 0.1])):
        tab = np.array([p * fn(es, q, *args) for p, q in zip(probs, cmes)])
        if method == "trapz":
            want = ((tab[1:] + tab[:-1]) / 2 * np.diff(cmes)[:, None]).sum(axis=0)
        else:
            h = cmes[1] - cmes[0]
            want = h / 3 * (tab[0] + tab[-1] + 4 * tab[1:-1:2].sum(axis=0) + 2 * tab[2:-1:2].sum(axis=0))
        for c, p in ((cmes, probs), (list(cmes), list(probs))):
            T.step(2)
            T.close(convolve.marginalize(use, es, c, p, method=method, vectorized=vec, args=args), want, "marginalize", 1e-12)
            f = convolve.make_marginal_fn(use, c, p, method=method, vectorized=vec, args=args)
            T.close(f(es), want, "make_marginal_fn", 1e-12)
            T.close(f(es[::-1].copy()), want[::-1], "make_marginal_fn-order", 1e-12)
            T.close(f(list(es)), want, "make_marginal_fn-list", 1e-12)
        if method == "trapz":
            T.close(convolve.marginalize(use, es, cmes, probs, method="trapezoid", vectorized=vec, args=args), want, "marginalize-trapezoid", 1e-12)
            if vec:
                T.close(convolve.marginalize(use, es, cmes, probs, args=args), want, "marginalize-defaults", 1e-12)
            else:
                T.close(convolve.make_marginal_fn(use, cmes, probs, args=args)(es), want, "make_marginal_fn-defaults", 1e-12)
        T.outcome(want)


def run_ap(spec, T, boost):
    from hazma import parameters
    from hazma.spectra import altarelli_parisi as ap
    import hazma.spectra as sp
    kind, m, r, q = spec
    s = (r * m) ** 2
    xm = 1 - math.e * m * m / s          # where the logarithm reaches one
    x = [1e-4, 0.01, 0.2, 0.5, 0.9, 1.0, 1.3]
    if xm > 0:
        x += [xm * (1 - 1e-6), xm * (1 + 1e-6), 0.5 * xm]
    x = np.array(sorted(x))

    def want(x):
        with np.errstate(all="ignore"):
            spl = 2 * (1 - x) / x if kind == "scalar" else (1 + (1 - x) ** 2) / x
            lg = np.log(np.maximum(s * (1 - x) / m ** 2, 1e-300)) - 1
        return np.where(lg > 0, q * q * parameters.alpha_em / (2 * math.pi) * spl * lg, 0.0)
    for mod in (ap, sp):
        for nm, jac in (("dndx_photon_ap_", 1.0), ("dnde_photon_ap_", 2 / math.sqrt(s))):
            fn = getattr(mod, nm + kind, None)
            if fn is None:
                if mod is ap:
                    T.fail(nm, "missing")
                continue
            u = x / jac
            w = want(x) * jac
            scale = np.max(np.abs(w)) or 1.0
            T.step(3)
            T.close(fn(u, s, m, q), w, nm, 1e-9, 1e-13 * scale)
            T.close(fn(list(u), s, m, charge=q), w, nm + "list", 1e-9, 1e-13 * scale)
            for i in range(len(u)):
                T.close(np.reshape(fn(float(u[i]), s, m, q), ()), w[i], nm + "scalar", 1e-9, 1e-13 * scale)
            T.close(fn(1, s, m, q), np.asarray(fn(np.array([1.0]), s, m, q))[0], nm + "int", 1e-12)
            T.close(fn(u, s, mass=m), w / q ** 2, nm + "default-charge", 1e-9, 1e-13 * scale)
    T.outcome(want(x))
