"""Relic density: both methods against an independently integrated Boltzmann equation."""
import itertools

import numpy as np

from checks import _thermo as th

ID = "C28"
PROP = dict(
    title="Relic densities solve the Boltzmann equation",
    statement=(
        "For every dark-matter mass and thermally averaged cross section (any size and temperature dependence, supplied by "
        "the model or averaged from its cross section) the numerical relic density is that of the Boltzmann equation in an "
        "expanding Standard-Model bath, and the semi-analytic one follows from the freeze-out condition with the requested "
        "departure from equilibrium and the subsequent annihilation, the two agreeing within several percent. Stronger "
        "annihilation never leaves more dark matter, and the integrator's method, start and accuracy options do not change "
        "the answer beyond their accuracy."),
    quantifier=dict(over=["inputs", "configurations"],
                    text="all combinations of mass, cross-section size, temperature dependence, way of supplying it and solver options"),
    why_tests_cant="The test checks four tuned points with constant cross sections supplied by the model.",
    anchors=dict(files=["hazma/relic_density/_rd.py", "hazma/relic_density/_approx.py", "hazma/relic_density/_diffeq.py"],
                 mechanism=[dict(name="relic_density", where="hazma/relic_density/_rd.py"),
                            dict(name="compute_xstar, compute_alpha", where="hazma/relic_density/_approx.py"),
                            dict(name="solve_boltzmann", where="hazma/relic_density/_diffeq.py")]),
)
TECHNIQUE = "exhaustive enumeration of a lattice of freeze-out scenarios against an independent integration of the Boltzmann equation"
LEVEL_NOTE = ("Freeze-out anywhere from x = 0.1 to 60 (annihilation from 1e-12 to 1e16 times the thermal one). "
              "5-8 masses x 5-7 sizes x 4 temperature dependences supplied by the model, plus averaged cross sections, "
              "plus 4 solvers x 3 starting points; the reference integrates the abundance with its own thermodynamics.")
RULE = "one case per scenario; non-trivial when a relic density was compared with the reference"
CHUNK = 1

TEMP = {"s": lambda x: 1.0 + 0 * x, "p": lambda x: 6.0 / x, "sp": lambda x: 1.0 + 3.0 / x, "sommer": lambda x: np.sqrt(x / 20.0)}


class Model:
    def __init__(self, mx, sv, dep):
        self.mx, self.sv, self.dep = mx, sv, dep

    def thermal_cross_section(self, x):
        return self.sv * TEMP[self.dep](x)


class Averaged:
    def __init__(self, mx, sv):
        self.mx, self.sv = mx, sv

    def annihilation_cross_sections(self, e_cm):
        v = np.sqrt(np.maximum(1 - 4 * self.mx ** 2 / e_cm ** 2, 1e-300))
        return {"total": self.sv / (2 * v) / (e_cm / (2 * self.mx)) ** 2}


def cases(tier):
    ms = [1.0, 100.0, 5e3, 1e6] if tier == "quick" else [1.0, 10.0, 100.0, 1e3, 5e3, 5e4, 1e6]
    for m, r, d in itertools.product(ms, (0.03, 1.0, 10.0, 300.0) if tier == "quick" else (0.01, 0.1, 1.0, 3.0, 30.0, 300.0, 1e4), TEMP):
        yield ["model", m, 1.8e-15 * r, d]
    for m, r in itertools.product(ms, (0.1, 1.0, 30.0)):
        yield ["averaged", m, 1.8e-15 * r]
    # feeble and strong annihilation: freeze-out between x = 0.1 and 60
    for m, r, d in itertools.product((1.0, 100.0, 1e6), (1e-12, 1e-8, 1e-6, 1e-3, 1e4, 1e8, 1e12, 1e16), (None, 0.3, 1.5) if tier != "quick" else (None, 1.5)):
        yield ["extreme", m, 1.8e-15 * r, d]
    for meth, x0, xf in itertools.product(("Radau", "BDF", "LSODA"), (1.0, 4.0), (None, 2000.0)):
        yield ["options", meth, x0, xf]


def yeq(x, m):
    T = m / x
    from scipy.special import kn
    n = np.arange(1, 6)
    return 2.0 * m ** 2 * T * np.sum((-1.0) ** (n + 1) / n * kn(2, n * x)) / (2 * np.pi ** 2) / float(th.entropy(T))


def lam(x, m):
    return np.sqrt(np.pi / 45) * m * th.MPL * float(th.gstar(m / x))


def boltzmann(m, sv, x0=1.0, xf=None):
    """ln Y by implicit midpoint with Newton, uniform in ln x, step halved until it settles."""
    from scipy.integrate import solve_ivp
    xf = x0 * np.exp(7.0) if xf is None else xf

    def rhs(l, w):
        x = np.exp(l)
        ye = yeq(x, m) if x < 600 else 0.0
        return [-lam(x, m) / x * sv(x) * (np.exp(w[0]) - ye * (ye * np.exp(-w[0])))]

    def jac(l, w):
        x = np.exp(l)
        ye = yeq(x, m) if x < 600 else 0.0
        return [[-lam(x, m) / x * sv(x) * (np.exp(w[0]) + ye * (ye * np.exp(-w[0])))]]
    s = solve_ivp(rhs, (np.log(x0), np.log(xf)), [np.log(yeq(x0, m))], method="BDF", jac=jac, rtol=1e-8, atol=1e-9)
    return np.exp(s.y[0, -1])


def semi(m, sv, delta=None):
    from scipy.optimize import brentq
    db = 1.0 if delta is None else delta * (2 + delta) / (1 + delta)

    def f(lx):
        x = np.exp(lx)
        h = 1e-4
        T = lambda k: m / (x * (1 + k * h))
        n = lambda k: yeq(x * (1 + k * h), m) * float(th.entropy(T(k)))
        # d yeq / dx by the quotient rule with the table's own derivative
        dn = (n(-2) - 8 * n(-1) + 8 * n(1) - n(2)) / (12 * h * x)
        s, ds = float(th.entropy(m / x)), float(th.dentropy(m / x)) * (-m / x ** 2)
        dy = dn / s - n(0) * ds / s ** 2
        return x * x * dy / yeq(x, m) + lam(x, m) * db * sv(x) * yeq(x, m)
    xs = np.exp(brentq(f, np.log(0.01), np.log(100.0), xtol=1e-10))
    u, w = np.polynomial.legendre.leggauss(60)
    edges = np.linspace(np.log(xs), np.log(100 * xs), 9)
    al = 0.0
    for a, b in zip(edges[:-1], edges[1:]):
        l = 0.5 * (a + b) + 0.5 * (b - a) * u
        al += sum(0.5 * (b - a) * wi * lam(np.exp(li), m) * sv(np.exp(li)) / np.exp(li) for li, wi in zip(l, w))
    y = yeq(xs, m)
    return y / (1 + y * al)


def run(spec, T):
    from hazma.relic_density import relic_density
    om = lambda y, m: y * m * th.S0 / th.RHO
    if spec[0] == "options":
        _, meth, x0, xf = spec
        mod = Model(500.0, 1.5e-15, "s")
        ref = om(boltzmann(500.0, lambda x: 1.5e-15, x0, xf), 500.0)
        T.step(2)
        T.close(relic_density(mod, semi_analytic=False, method=meth, x0=x0, xf=xf), ref, "options", 0.03, note=str(spec))
        T.close(relic_density(mod, semi_analytic=False, method=meth, x0=x0, xf=xf, rtol=1e-7, atol=1e-7), ref, "options:tight", 2e-4, note=str(spec))
        return
    _, m, sv = spec[:3]
    if spec[0] == "extreme":
        mod = Model(m, sv, "s")
        got = relic_density(mod, delta=spec[3])
        T.step()
        T.state(spec)
        T.outcome(got)
        T.close(got, om(semi(m, mod.thermal_cross_section, spec[3]), m), "semi-analytic:extreme", 1e-4, note=str(spec))
        return
    if spec[0] == "model":
        mod = Model(m, sv, spec[3])
        fn = mod.thermal_cross_section
        worse = Model(m, sv * 1.5, spec[3])
    else:
        mod, worse = Averaged(m, sv), Averaged(m, sv * 1.5)
        memo = {}

        def fn(x):
            if x > 300:
                return 0.0  # documented cut-off of the average
            k = float(x)
            if k not in memo:
                memo[k] = th.tcs(k, m, lambda e: mod.annihilation_cross_sections(e)["total"])
            return memo[k]
    T.step(4)
    tol = 4e-3 if spec[0] == "model" else 2e-2
    for delta in (None, 0.3, 1.5):
        got = relic_density(mod, delta=delta)
        T.close(got, om(semi(m, fn, delta), m), f"semi-analytic:{spec[0]}" + ("" if delta is None else ":delta"), tol, note=f"{spec} delta={delta}")
    base = relic_density(mod, semi_analytic=True)
    T.check(relic_density(worse) < base * 1.0001, "monotonic", str(spec))
    T.outcome(base)
    if spec[0] == "model":
        ref = om(boltzmann(m, fn), m)
        got = relic_density(mod, semi_analytic=False)
        T.close(got, ref, "boltzmann", 0.02, note=str(spec))
        T.close(relic_density(mod, semi_analytic=False, rtol=1e-7, atol=1e-7), ref, "boltzmann:tight", 5e-4, note=str(spec))
        T.close(base, ref, "methods-agree", 0.25, note=str(spec))
        T.outcome(ref)
    T.state(spec)
