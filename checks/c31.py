"""Two-body vector form factors: the published amplitudes, in every argument form and configuration."""
import itertools

import numpy as np

from . import _ffref as R
from . import _ps

ID = "C31"
PROP = dict(
    title="Two-meson and meson-photon form factors are the published amplitudes",
    statement=(
        "For every two-body final state of a vector mediator (pi pi, pi0 pi0, K K, K0 K0, pi0/eta gamma, eta/pi0 with omega/phi), "
        "every choice of quark couplings (tuple, list or named) and every energy given as scalar, integer, list-like or array: "
        "the form factor is the published vector-meson-dominance amplitude with the parameters the object was built with, the "
        "integrated form factor is that amplitude squared over two-body phase space, zero at and below threshold; the width is "
        "m_V J/2 and the annihilation cross section carries the mediator's propagator. Results do not depend on earlier calls "
        "or other instances, and the fine-structure constant runs."),
    quantifier=dict(over=["inputs", "histories", "configurations"],
                    text="final states x couplings x energies and argument forms; constructor parameters one at a time; call sequences of depth 3 over two instances"),
    why_tests_cant="The tests compare stored numbers for four of the ten final states, at default parameters and one coupling set.",
    anchors=dict(files=["hazma/form_factors/vector/_two_body.py", "hazma/form_factors/vector/_base.py", "hazma/form_factors/vector/_alpha.py"],
                 mechanism=[dict(name="VectorFormFactor*.form_factor/integrated_form_factor/width/cross_section", where="hazma/form_factors/vector/"),
                            dict(name="alpha_em", where="hazma/form_factors/vector/_alpha.py")]),
)
TECHNIQUE = "exhaustive enumeration of final states, coupling and energy lattices, parameter variations and bounded call sequences against an independent restatement of the amplitudes"
LEVEL_NOTE = "Ten final states, twelve coupling sets, ~40 energies from below threshold to 5 GeV, every constructor parameter moved once, all call sequences of depth 3 over six operations."
RULE = "one case per final state and couplings, moved parameter, call sequence or alpha energy range; non-trivial when values were compared"

COUP = [(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, 0.0, 1.0), (2 / 3, -1 / 3, -1 / 3), (0.7, 0.7, 0.0), (0.4, -0.4, 0.0), (0.0, 0.0, 0.0),
        (1e-5, 3e-5, -2e-5), (0.7, -0.3, 0.5), (-1.0, -1.0, -1.0), (1, 2, 3), (1, -1, 0), (1e-9, 3e-9, -2e-9), (2e-14, -1e-14, 3e-14)]
HIST = ["ff", "array", "width", "xsec", "other", "instance"]


def cases(tier):
    for m in R.TWO:
        for i in range(len(COUP)):
            yield ["ff", m, i]
        for name in R.MODES[m][4]:
            v = R.MODES[m][4][name]
            for j in range(len(v) if isinstance(v, (list, tuple)) else 1):
                yield ["par", m, name, j]
        for h in itertools.product(range(len(HIST)), repeat=3 if tier == "quick" else 4):
            yield ["hist", m, list(h)]
    for r in ([1e-12, 1e-6], [1e-6, 1e-3], [1e-3, 0.3], [0.3, 10], [10, 1e3], [1e3, 1e6], [1e6, 1e9]):
        yield ["alpha", r]


def energies(th):
    return np.array(sorted({th * (1 + d) for d in (1e-6, 1e-3, 0.02, 0.1, 0.3, 0.7, 1.0)} |
                           {float(q) for q in (600, 771, 775.26, 782.65, 801, 950, 1019.46, 1021, 1180, 1410.7, 1500, 1670, 1850, 2140, 2500, 3333, 5000) if q > 1.001 * th}))


def new(mode, **kw):
    import hazma.form_factors.vector as V
    return getattr(V, R.MODES[mode][0])(**kw)


def tol(mode):
    return 1e-7 if mode in ("k_k", "k0_k0") else 1e-9  # the kaon towers are normalised by bisection


def run(spec, T):
    k = spec[0]
    if k == "alpha":
        from hazma.form_factors.vector import _alpha
        f = getattr(_alpha, "alpha_em", None)
        T.check(True, "none")
        if f is None:
            return
        s = np.geomspace(*spec[1], 25)
        s = s[(abs(s / 9e-2 - 1) > 1e-9) & (abs(s / 9 - 1) > 1e-9) & (abs(s / 1e4 - 1) > 1e-9)]
        want = np.array([R.alpha_em(x) for x in s])
        T.step(3)
        T.close(np.asarray(f(s)), want, "alpha", 1e-10, note=str(spec))
        for i in (0, len(s) // 2, -1):
            T.close(np.ravel(f(s[i])), [want[i]], "alpha:scalar", 1e-10, note=str(s[i]))
        T.close(np.asarray(f(s[::-1])), want[::-1], "alpha:order", 1e-10)
        T.outcome(want)
        return
    mode = spec[1]
    M = R.masses()
    _, fsp, kind, ref, pars = R.MODES[mode]
    th = sum(M[x] for x in fsp)
    qs = energies(th)
    if k == "ff":
        from hazma.form_factors.vector import VectorFormFactorCouplings
        c = COUP[spec[2]]
        o = new(mode)
        T.close(o.fsp_masses, [M[x] for x in fsp], f"{mode}:masses", 1e-12)
        rt, note = tol(mode), f"{mode} {c}"
        want = ref(qs, c, M)
        T.step(6)
        scale = 1e-12 * max(map(abs, c)) * np.max(np.abs(ref(qs, (1.0, 0.3, 0.7), M)))
        for cc in (c, VectorFormFactorCouplings(*c), list(c)):
            T.close(o.form_factor(q=qs, couplings=cc), want, f"{mode}:form-factor", rt, scale, note=note)
        T.close(o.form_factor(q=qs[::-1].copy(), couplings=c), want[::-1], f"{mode}:form-factor:order", rt, scale, note=note)
        for i in range(0, len(qs), 5):
            T.close(np.ravel(o.form_factor(q=float(qs[i]), couplings=c)), want[i:i + 1], f"{mode}:form-factor:scalar", rt, scale, note=f"{note} {qs[i]}")
            T.close(np.ravel(o.form_factor(q=qs[i:i + 1], couplings=c)), want[i:i + 1], f"{mode}:form-factor:single", rt, scale, note=f"{note} {qs[i]}")
        ints = np.array(sorted({int(q) for q in qs if int(q) > th}))
        T.close(o.form_factor(q=ints, couplings=c), ref(ints.astype(float), c, M), f"{mode}:form-factor:integers", rt, scale, note=note)
        m1, m2 = (M[x] for x in fsp)
        # close to threshold the closed form in the masses cancels: absolute accuracy of a squared mass over s
        T.close(o.squared_lorentz_structure(qs), R.lorentz2(kind, qs, m1, m2), f"{mode}:lorentz", 1e-9, 1e-13 * (1.0 if kind == "PP" else 1e7), note=note)
        full = np.concatenate([[0.2 * th, 0.999 * th, th], qs])
        J = R.J2(mode, full, c, M)
        at = 1e-11 * np.max(J) if np.max(J) > 0 else 1e-24
        T.step(8)
        rt *= 3
        got = o.integrated_form_factor(q=full, couplings=c)
        T.close(got, J, f"{mode}:integrated", rt, at, note=note)
        T.check(np.all(np.asarray(got)[:3] == 0), f"{mode}:below-threshold", lambda: f"{note}: {got[:3]}")
        width = 0.5 * full * J
        T.close(o.width(full, c), width, f"{mode}:width", rt, at * 3e3, note=note)
        T.close(o.width(mv=ints, couplings=c), 0.5 * ints * R.J2(mode, ints, c, M), f"{mode}:width:integers", rt, at * 3e3, note=note)
        for i in (0, 2, 5, 9, len(full) - 1):
            q = float(full[i])
            T.close(np.ravel(o.integrated_form_factor(q=q, couplings=c)), J[i:i + 1], f"{mode}:integrated:scalar", rt, at, note=f"{note} {q}")
            T.close(np.ravel(o.width(q, c)), width[i:i + 1], f"{mode}:width:scalar", rt, at * 3e3, note=f"{note} {q}")
            T.check(np.ndim(o.width(q, c)) == 0, f"{mode}:width:shape", note)
        for mx, mv, g, wv in ((1.0, 777.0, 1.0, 5.0), (0.05 * th, 3000.0, 0.3, 100.0), (0.499 * th, 1.1 * th, -2.0, 1e-3), (0.3 * th, 0.5 * th, 1, 0.0)):
            sig = cross(full, J, mx, mv, g, wv)
            T.step(2)
            T.close(o.cross_section(q=full[3:], mx=mx, mv=mv, gvxx=g, wv=wv, couplings=c), sig[3:], f"{mode}:cross-section", rt, 1e-10 * np.max(sig) if np.max(sig) else 1e-30, note=f"{note} {mx, mv, g, wv}")
            T.close(np.ravel(o.cross_section(q=float(full[7]), mx=mx, mv=mv, gvxx=g, wv=wv, couplings=c)), sig[7:8], f"{mode}:cross-section:scalar", rt, 1e-10 * np.max(sig) if np.max(sig) else 1e-30, note=note)
            low = o.cross_section(q=full[1:3], mx=0.2 * th, mv=mv, gvxx=g, wv=wv, couplings=c)
            T.check(np.all(np.asarray(low) == 0), f"{mode}:cross-section:below", lambda: f"{note} {low}")
        T.outcome(J)
        T.state(spec)
    elif k == "par":
        _, _, name, j = spec
        v = pars[name]
        c = (0.7, -0.3, 0.5)
        if isinstance(v, (list, tuple)):
            nv = np.array(v, float)
            nv[j] = nv[j] * 1.13 + 0.021
            given = nv.copy()
        else:
            nv = given = int(v * 0.1) if isinstance(v, int) else v * 1.13 + 0.021
        T.step(3)
        base = new(mode)
        before = base.form_factor(q=qs, couplings=c)
        try:
            o = new(mode, **{name: given})
        except TypeError:
            if mode in ("k_k", "k0_k0"):
                T.check(True, "no-parameters")  # n_max is not a constructor argument of the kaons
                return
            raise
        want = ref(qs, c, M, **{name: nv})
        T.close(o.form_factor(q=qs, couplings=c), want, f"{mode}:parameter:{name}", tol(mode), 1e-12 * np.max(abs(want)), note=f"{mode} {name}[{j}]")
        T.close(base.form_factor(q=qs, couplings=c), before, f"{mode}:instances", 0, note=f"{mode} {name}")
        T.close(new(mode).form_factor(q=qs, couplings=c), before, f"{mode}:defaults", 0, note=f"{mode} {name}")
        T.check(np.array_equal(given, nv), f"{mode}:argument", f"{name} changed by the constructor")
        T.outcome(want)
    else:
        c, c2 = (0.7, -0.3, 0.5), (-0.2, 0.9, 0.1)
        a, b = new(mode), None
        q1, q2 = float(qs[6]), qs[2:9].copy()
        for h in spec[2]:
            T.step()
            op = HIST[h]
            if op == "ff":
                a.form_factor(q=q1, couplings=c2)
            elif op == "array":
                a.integrated_form_factor(q=q2, couplings=c2)
            elif op == "width":
                a.width(0.5 * th, c)
            elif op == "xsec":
                a.cross_section(q=q2, mx=3.0, mv=900.0, gvxx=0.1, wv=2.0, couplings=c2)
            elif op == "other":
                new(R.TWO[(R.TWO.index(mode) + 1) % len(R.TWO)]).width(1500.0, c)
            elif op == "instance":
                b = new(mode)
                b.width(2000.0, c2)
        for o in (a, b):
            if o is not None:
                T.close(o.form_factor(q=qs, couplings=c), ref(qs, c, M), f"{mode}:history", tol(mode), note=str(spec))
                T.close(o.width(qs, c), 0.5 * qs * R.J2(mode, qs, c, M), f"{mode}:history:width", 3 * tol(mode), 1e-11 * np.max(qs * R.J2(mode, qs, c, M)), note=str(spec))
        T.check(np.array_equal(q2, qs[2:9]), f"{mode}:energies", "the caller's energies were changed")
        T.state(mode, spec[2])


def cross(q, J, mx, mv, g, wv):
    with np.errstate(all="ignore"):
        r = g * g * (q * q + 2 * mx * mx) * 0.5 * q * J / (np.sqrt(q * q - 4 * mx * mx) * ((q * q - mv * mv) ** 2 + (mv * wv) ** 2))
    return np.where(J > 0, r, 0.0)
