"""The compiled numerics: quadrature, interpolation, special functions."""
import itertools
import math

import numpy as np

ID = "C25"
PROP = dict(
    title="The compiled quadrature, interpolation and special functions are SciPy's",
    statement=(
        "For every integrand, finite interval (either direction), tolerance, subdivision limit and list of break points, the "
        "compiled quad gives scipy.integrate.quad's value, error estimate, evaluation and subdivision counts and termination "
        "flag, refuses what it refuses, hands over the integrand's own exception, and evaluates only inside the interval; one "
        "application of the Kronrod rules integrates polynomials of their degree exactly and reports the integral of |f|. Interpolation is numpy.interp for every "
        "grid, spence, K1 and Kn are scipy.special's over their whole domain including the edges."),
    quantifier=dict(over=["inputs", "configurations"],
                    text="36 integrands x 9 intervals x 8 tolerances x 5 limits x 8 break-point lists; all monomials; all small grids over a value set; special functions on dense lattices of all their branches"),
    why_tests_cant="Tests cover selected integrands, mostly at hazma's own settings; a wrong branch of the extrapolation, of the point filter or of an error flag shows only on particular singularities.",
    anchors=dict(files=["rust/src/quad.rs", "rust/src/quad_probe.rs", "rust/src/interp.rs", "rust/src/interp_probe.rs", "rust/src/special.rs", "rust/src/special_probe.rs"],
                 mechanism=[dict(name="quad, qagse, qagpe, qelg, qpsrt, qk15, qk21", where="rust/src/quad.rs"),
                            dict(name="interp", where="rust/src/interp.rs"),
                            dict(name="spence, bessel_k1, bessel_kn", where="rust/src/special.rs")]),
)
TECHNIQUE = "exhaustive enumeration of integrands, intervals and options in lock-step with the SciPy/NumPy originals, including the trace of evaluations"
LEVEL_NOTE = ("Each option combination of the lattice is run on both implementations and the outcome tuples compared; interpolation on all grids of up to 4 nodes "
              "over 5 ordinates incl. nan/inf at nodes, mid-points and beyond; special functions on 20 000 (thorough 200 000) abscissae of every branch.")
RULE = "one case per integrand and interval, per grid length, per function and decade; non-trivial when outcomes were compared"
CORE = True
CHUNK = 1

EPS = 2.220446049250313e-16

F = {
    "one": lambda x: 1.0, "zero": lambda x: 0.0, "x": lambda x: x, "poly9": lambda x: x ** 9 - 3 * x ** 4 + 1, "poly40": lambda x: x ** 40,
    "exp": lambda x: math.exp(-x * x), "cos20": lambda x: math.cos(20 * x), "cos300": lambda x: math.cos(300 * x),
    "sqrt": lambda x: math.sqrt(abs(x)), "isqrt": lambda x: 1 / math.sqrt(abs(x)) if x else 0.0, "log": lambda x: math.log(abs(x)) if x else 0.0,
    "logsq": lambda x: math.log(abs(x)) ** 2 if x else 0.0, "pow-.9": lambda x: abs(x) ** -0.9 if x else 0.0, "inv": lambda x: 1 / x if x else 0.0,
    "invsq": lambda x: 1 / (x * x) if x else 0.0, "abs": lambda x: abs(x - 0.3), "step": lambda x: float(x > 0.3), "step2": lambda x: float(x > 1 / 3) - 0.5,
    "peak3": lambda x: 1 / ((x - 0.4) ** 2 + 1e-6), "peak5": lambda x: 1 / ((x - 0.4) ** 2 + 1e-10), "spike": lambda x: math.exp(-((x - 0.123) / 1e-5) ** 2),
    "isqrt-both": lambda x: 1 / math.sqrt(abs(1 - x * x)) if abs(x) != 1 else 0.0, "xlogx": lambda x: x * math.log(abs(x)) if x else 0.0,
    "pv": lambda x: 1 / (x - 0.5) if x != 0.5 else 0.0, "osc": lambda x: math.cos(1 / x) if x else 0.0, "oscsing": lambda x: math.cos(30 * x) / math.sqrt(abs(x)) if x else 0.0,
    "nan": lambda x: float("nan"), "nan-part": lambda x: float("nan") if x > 0.7 else x, "inf": lambda x: float("inf"), "inf-part": lambda x: float("inf") if x > 0.9 else 1.0,
    "big": lambda x: 1e300 * math.cos(x), "tiny": lambda x: 1e-300 * math.exp(x), "neg": lambda x: -1 / (1 + 25 * x * x),
    "odd": lambda x: math.sin(x) ** 3, "saw": lambda x: x * 7 % 1.0, "weier": lambda x: sum(0.5 ** k * math.cos(7 ** k * math.pi * x) for k in range(8)),
}
IV = [(0.0, 1.0), (1.0, 0.0), (-1.0, 1.0), (0.0, 10.0), (-3.0, 2.0), (0.25, 0.25), (1e-8, 1.0), (2.0, 100.0), (-1e-3, 1e5)]
TOL = [(1.49e-8, 1.49e-8), (1e-10, 1e-5), (0.0, 1e-3), (0.0, 1e-13), (1e-2, 0.0), (0.0, 1e-14), (-1.0, 1e-20), (0.0, 0.0)]
LIM = [50, 1, 2, 7, 300]
PTS = [None, [], [0.4], [-1.0, 1.0], [0.4, 0.4], [2.0, 5.0, 3.0], [1 / 3, 0.3, 0.5, 0.0], [-50.0, 0.1, 1e6]]


def cases(tier):
    for f in F:
        yield ["quad", f, 0 if tier == "quick" else 1]
    for r in ("qk15", "qk21"):
        yield ["rule", r]
    yield ["errors"]
    for n in (1, 2, 3, 4):
        yield ["interp", n]
    yield ["interp-big"]
    n = 20 if tier == "quick" else 200
    for fn in ("spence", "bessel_k1"):
        for k in range(-12, 7 if fn == "spence" else 3):
            yield ["special", fn, k, 1, n * 60]
    for order in (0, 1, 2, 3, 5, 10, -2):
        for k in range(-8, 3):
            yield ["special", "bessel_kn", k, order, n * 10]
    yield ["edges"]


def run(spec, T):
    globals()["_" + spec[0].split("-")[0]](spec, T)


def core(name):
    import importlib
    return importlib.import_module("hazma._core." + name)


def scipy_quad(f, a, b, **kw):
    """(value, abserr, neval, last, ier) or the exception type; scipy does without QUADPACK when a == b."""
    from scipy import integrate
    xs = []

    def g(x):
        xs.append(x)
        return f(x)
    try:
        r = integrate.quad(g, a, b, full_output=1, **kw)
    except Exception as e:
        return type(e), xs
    info = r[2]
    ier = 0
    if len(r) > 3:
        m = r[3]
        ier = 1 if "maximum number of subdivisions" in m else 2 if "occurrence of roundoff" in m else 3 if "Extremely bad integrand" in m \
            else 4 if "does not converge" in m else 5 if "probably divergent" in m else 9
    return (r[0], r[1], info["neval"], info.get("last"), ier), xs


SMOOTH = {"one", "zero", "x", "poly9", "poly40", "exp", "cos20", "cos300", "spike", "neg", "odd", "tiny", "nan", "nan-part", "inf", "inf-part", "abs", "peak3"}
DIVERGENT = {"inv", "invsq", "pv"}


def _quad(spec, T):
    """Lock-step with scipy.  Round-off decides some close calls of the extrapolation differently
    (well under a tenth of the runs of the worst integrand); those are held to the claimed errors."""
    _, name, deep = spec
    f = F[name]
    q = core("quad").quad
    runs, off, first = 0, 0, None
    for (a, b), (ea, er), lim, pts in itertools.product(IV, TOL, LIM, PTS):
        if not deep and lim == 300 and (pts is not None or name in ("weier", "osc")):
            continue
        kw = dict(epsabs=ea, epsrel=er, limit=lim)
        if pts is not None:
            kw["points"] = list(pts)
        xs = []

        def g(x):
            xs.append(x)
            return f(x)
        note = f"{name} [{a},{b}] {kw}"
        want, wx = scipy_quad(f, a, b, **kw)
        T.step()
        try:
            got = q(g, a, b, **kw)
        except Exception as e:
            got = type(e)
        if isinstance(want, type) or isinstance(got, type):
            T.check(got is want or (isinstance(got, type) and isinstance(want, type) and issubclass(got, want)), "refused", f"{note}: {got}, scipy {want}")
            T.outcome(str(want))
            continue
        lo, hi = min(a, b), max(a, b)
        T.check(all(lo <= x <= hi for x in xs), "inside", lambda: f"{note}: {min(xs)} {max(xs)}")
        T.check(len(xs) == got[2], "neval-count", f"{note}: {len(xs)} calls, neval {got[2]}")
        runs += 1
        if not same(got, want):
            off += 1
            first = first or f"{note}: {got}, scipy {want}"
            if got[4] == want[4] == 0:
                T.check(abs(got[0] - want[0]) <= 2 * (got[1] + want[1]) + 1e-12 * abs(want[0]), "value", f"{note}: {got}, scipy {want}")
        T.state(note)
        T.outcome(want)
    T.check(off <= (0.02 if name in SMOOTH else 0.4 if name in DIVERGENT else 0.2) * runs, "trace", f"{off} of {runs} runs differ from scipy; first {first}")


def same(got, want):
    v, e, n, last, ier = got
    wv, we, wn, wl, wier = want
    if not math.isfinite(wv):
        return (math.isnan(v) and math.isnan(wv)) or v == wv
    scale = max(abs(wv), we, 1e-300)
    return n == wn and ier == wier and (wl is None or last == wl) and abs(v - wv) <= 1e-11 * scale and abs(e - we) <= 0.05 * we + 1e-12 * scale


def _rule(spec, T):
    rule = getattr(core("quad"), spec[1])
    deg = 23 if spec[1] == "qk15" else 31     # 3n+1 for the (2n+1)-point extension, n = 7 odd gains one
    for a, b in ((-1.0, 1.0), (0.0, 1.0), (2.0, -3.0), (0.5, 0.5), (1e-9, 3e-9), (-4e5, 1e5)):
        c, h = (a + b) / 2, (b - a) / 2
        for k in range(deg + 1):
            f = lambda x: ((x - c) / (h or 1.0)) ** k
            want = h * (2.0 / (k + 1) if k % 2 == 0 else 0.0)
            xs = []

            def g(x):
                xs.append(x)
                return f(x)
            T.step()
            r, e, ra, rs = rule(g, a, b)
            T.check(abs(r - want) <= 1e-13 * abs(h), "rule:exact", f"{spec[1]} degree {k} on [{a},{b}]: {r}, exact {want}")
            T.check(len(xs) == (15 if spec[1] == "qk15" else 21) and all(min(a, b) <= x <= max(a, b) for x in xs), "rule:points", f"{spec[1]}: {len(xs)}")
            if k % 2 == 0:
                T.check(abs(ra - abs(want)) <= 1e-13 * abs(h), "rule:resabs", f"{spec[1]} degree {k}: {ra}")
            T.check(e >= 0 and rs >= 0 and ra >= 0, "rule:signs", f"{e} {ra} {rs}")
            if k < 14:
                T.check(e <= 1e-12 * abs(h), "rule:error-zero", f"{spec[1]} degree {k}: error {e}")
        # not exact beyond, and the error estimate covers it
        for f, F_ in ((lambda x: abs(x - c) , h * abs(h)), (lambda x: math.exp((x - c) / (abs(h) or 1) * 3), (h and h / 3 * 2 * math.sinh(3)))):
            r, e, ra, rs = rule(f, a, b)
            T.check(abs(r - F_) <= e + 1e-13 * abs(F_), "rule:error", f"{spec[1]} [{a},{b}]: {r} +- {e}, exact {F_}")
    # qags' first pass is the rule
    if spec[1] == "qk21":
        q = core("quad").quad
        for n in ("exp", "poly9", "odd"):
            v = q(F[n], -1.0, 1.0, epsabs=1e3)
            T.check(v[0] == rule(F[n], -1.0, 1.0)[0] and v[2] == 21, "rule:first-pass", f"{n}: {v}")
    # exceptions
    for exc in (ZeroDivisionError, KeyError):
        def bad(x):
            raise exc("here")
        try:
            T.fail("rule:exception", f"{rule(bad, 0.0, 1.0)}")
        except exc:
            T.check(True, "x")
    T.outcome(spec)


def _errors(spec, T):
    q = core("quad").quad
    for n in (1, 5, 22, 60):
        for pts in (None, [0.3]):
            calls = []

            def bad(x):
                calls.append(x)
                if len(calls) >= n:
                    raise KeyError(n)
                return abs(x - 0.1234)
            kw = {} if pts is None else {"points": pts}
            T.step()
            try:
                r = q(bad, 0.0, 1.0, epsabs=0.0, epsrel=1e-12, **kw)
                T.fail("exception-lost", f"{n} {pts}: {r}")
            except KeyError as e:
                T.check(e.args == (n,) and len(calls) == n, "exception", f"{n} {pts}: {e.args}, {len(calls)} calls")
    for v in ("x", None, [1.0, 2.0], 1j):
        T.step()
        try:
            T.fail("result-type", f"{v!r}: {q(lambda x: v, 0.0, 1.0)}")
        except TypeError:
            T.check(True, "x")
    for lim in (0, -1, -10 ** 9, 2 ** 31, 10 ** 12, 2 ** 31 - 1):
        for pts in (None, [0.3], [0.1, 0.2, 0.3]):
            kw = dict(limit=lim, **({} if pts is None else {"points": pts}))
            # scipy reserves `limit` doubles; only ask it where that is small
            want = ValueError if lim < 1 else OverflowError if lim >= 2 ** 31 else None
            T.step()
            try:
                got = q(lambda x: x, 0.0, 1.0, **kw)
                T.check(want is None and abs(got[0] - 0.5) < 1e-14, "limit", f"{kw}: {got}")
            except Exception as e:
                T.check(want is not None and type(e) is want, "limit", f"{kw}: {e!r}")
    for args in (("x", 1.0), (0.0, None), (0.0, [1.0])):
        try:
            T.fail("bounds-type", f"{q(lambda x: x, *args)}")
        except TypeError:
            T.check(True, "x")
    T.outcome("errors")


def _interp(spec, T):
    fn = core("interp").interp
    if spec[0] == "interp-big":
        for n in (5, 37, 100, 501):
            for kind in range(3):
                xp = [np.linspace(-3, 9, n), np.geomspace(1e-6, 400, n), np.cumsum(1 + np.sin(np.arange(n)) ** 2)][kind]
                fp = np.cos(5 * np.arange(n)) * np.exp(-np.arange(n) / n * 20)
                x = np.unique(np.concatenate([xp, np.nextafter(xp, -np.inf), np.nextafter(xp, np.inf), xp[:-1] + np.diff(xp) * 0.3, [xp[0] - 1, xp[-1] + 1, -np.inf, np.inf]]))
                T.step(x.size)
                got, want = fn(x, xp, fp), np.interp(x, xp, fp)
                T.close(got, want, "interp", rtol=1e-12, atol=1e-14 * np.max(np.abs(fp)), note=f"{n} {kind}")
                T.check(np.array_equal(fn(xp, xp, fp), fp), "interp:nodes", f"{n} {kind}")
                T.close(fn(x, xp[::-1][::-1], np.array([fp, fp]).T[:, 1]), want, "interp:strided", rtol=1e-12, atol=1e-14 * np.max(np.abs(fp)))
        for a, b in (([], []), ([1.0, 2.0], [1.0]), ([1.0], [])):
            T.step()
            try:
                T.fail("interp:refuse", f"{fn(1.0, np.array(a), np.array(b))}")
            except ValueError:
                T.check(True, "x")
        T.outcome("big")
        return
    n = spec[1]
    Y = [0.0, -2.0, 3.5, float("nan"), float("inf")]
    for xp in ([0.0, 1.0, 2.5, 2.75][:n], [-1e-300, 0.0, 1e-300, 1e300][:n], [1.0, 1.0, 2.0, 2.0][:n]):
        xp = np.array(xp)
        x = np.concatenate([xp, xp[:-1] + np.diff(xp) / 2, xp[:-1] + np.diff(xp) / 3, [xp[0] - 1, xp[-1] + 1, np.nan, np.inf, -np.inf, -0.0]])
        for fp in itertools.product(Y, repeat=n):
            fp = np.array(fp)
            want = np.interp(x, xp, fp)
            T.step(x.size)
            got = fn(x, xp, fp)
            T.close(got, want, "interp:small", rtol=1e-13, atol=1e-15, note=f"{xp} {fp} at {x}")
            T.state(n, tuple(fp), tuple(xp))
        T.outcome(want)


def _special(spec, T):
    import scipy.special as sp
    _, name, k, order, n = spec
    x = np.geomspace(10.0 ** k, 10.0 ** (k + 1), n)
    if name == "spence" and k == 0:
        x = np.concatenate([x, np.linspace(0.4, 1.6, 5 * n), np.nextafter([0.5, 1.0, 1.5, 2.0], 0), np.nextafter([0.5, 1.0, 1.5, 2.0], 9)])
    fn = getattr(core("special"), name)
    got = fn(order, x) if name == "bessel_kn" else fn(x)
    want = dict(spence=sp.spence, bessel_k1=sp.k1).get(name, lambda x: sp.kn(abs(order), x))(x)
    T.step(x.size)
    # near the underflow of K both lose digits, one step apart
    big = want > 1e-280 if name != "spence" else np.ones(x.size, bool)
    rtol = 1e-13 if name != "spence" else 1e-12
    if name == "spence":
        T.close(got, want, "spence", rtol=rtol, atol=1e-15, note=f"decade {k}")
    else:
        T.close(got[big], want[big], f"{name}", rtol=1e-12, note=f"order {order} decade {k}")
        T.close(got[~big], want[~big], f"{name}:tail", rtol=1e-3, atol=1e-280, note=f"order {order} decade {k}")
        T.check(np.all(np.diff(got) <= 0), f"{name}:decreasing", f"decade {k}")
    for i in (0, n // 3, n - 1):
        v = fn(order, float(x[i])) if name == "bessel_kn" else fn(float(x[i]))
        T.check(v == got[i], "special:scalar", f"{name} {x[i]}")
    T.state(*spec)
    T.outcome(want[:: max(1, n // 20)])


def _edges(spec, T):
    import scipy.special as sp
    s = core("special")
    xs = [0.0, -0.0, -1.0, -1e-300, float("nan"), float("inf"), float("-inf"), 1.0, 1e300, 1e-300, 700.0, 2.0, 0.5, 1.5]
    for x in xs:
        T.step()
        T.close(s.spence(x), sp.spence(x), "edge:spence", rtol=1e-13, note=f"{x}")
        T.close(s.bessel_k1(x), sp.k1(x), "edge:k1", rtol=1e-11, atol=1e-290, note=f"{x}")
        for n in (0, 1, 2, 3, -1, -2, 7):
            w = sp.kn(abs(n), x)
            T.close(s.bessel_kn(n, x), w, "edge:kn", rtol=1e-11, atol=1e-290, note=f"n={n} x={x}")
    T.outcome("edges")
