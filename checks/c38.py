"""Three- and four-body vector form factors: currents, phase-space integrals and distributions."""
import itertools

import numpy as np

from . import _ffref as R
from . import _ps
from .c18 import e_density, generic
from .c31 import COUP, cross

ID = "C38"
PROP = dict(
    title="Three- and four-meson form factors integrate the published currents",
    statement=(
        "For every three- and four-meson final state of a vector mediator and every choice of quark couplings and parameters, "
        "the form factor (or current) at any point of phase space, at one or several energies, is the published amplitude with the "
        "object's parameters, also as a method of the mediator model with its current couplings; the "
        "integrated form factor is the squared current over phase space with its identical-particle factor, zero below "
        "threshold and equal for scalars, integers and arrays and for either integrator; the width is m_V J/2 and the cross "
        "section carries the propagator; energy and invariant-mass distributions are normalised, cover exactly the kinematic "
        "range and have the current's shape. Results do not depend on earlier calls or other instances."),
    quantifier=dict(over=["inputs", "histories", "configurations"],
                    text="final states x couplings x energies x points of phase space; constructor parameters one at a time; call sequences over two instances"),
    why_tests_cant="The stable tests cover no three- or four-body form factor; the others compare stored numbers at default parameters.",
    anchors=dict(files=["hazma/form_factors/vector/_three_body.py", "hazma/form_factors/vector/_four_body.py", "hazma/form_factors/vector/_pi_pi_pi_pi.py"],
                 mechanism=[dict(name="VectorFormFactorPPP/PPP2/PPV", where="hazma/form_factors/vector/_three_body.py"),
                            dict(name="_VectorFormFactorPiPiPiPiBase", where="hazma/form_factors/vector/_pi_pi_pi_pi.py")]),
)
TECHNIQUE = "exhaustive enumeration of final states, couplings, phase-space lattices, parameter variations and bounded call sequences against an independent restatement of the currents"
LEVEL_NOTE = ("Eight three-body and two four-body final states; couplings and phase-space lattices; every constructor parameter moved once; the form-factor methods of the model after reassigned couplings. "
              "Monte-Carlo integrators run with their generator seeded and are held to their statistical error.")
RULE = "one case per final state with couplings, energy, moved parameter or call sequence; non-trivial when values were compared"
CORE = True
CYTHON = True
CHUNK = 2

E3 = [1e-3, 0.1, 0.35, 0.9, 2.0]
HIST = ["ff", "width", "dist", "other", "instance"]
FOUR = {"4pi": ("VectorFormFactorPiPiPiPi", ("pi",) * 4), "2pi2pi0": ("VectorFormFactorPiPiPi0Pi0", ("pi", "pi", "pi0", "pi0"))}


def cases(tier):
    for m in R.MODES:
        yield ["model", m]
    for m in R.THREE:
        for i in range(len(COUP)):
            yield ["ff", m, i]
        for d in E3:
            for i in ((2, 7, 8) if tier == "quick" else range(len(COUP))):
                yield ["j3", m, d, i]
        for d in (0.05, 0.4) if tier == "quick" else (0.01, 0.05, 0.2, 0.4, 0.8):
            for i in (8,) if tier == "quick" else (0, 1, 2, 8):
                yield ["dist", m, d, i]
        for name, v in R.MODES[m][4].items():
            for j in range(len(v) if isinstance(v, (list, tuple)) else 1):
                yield ["par", m, name, j]
        for h in itertools.product(range(len(HIST)), repeat=2):
            yield ["hist", m, list(h)]
        yield ["slow", m]
    for m in FOUR:
        for i in range(len(COUP)):
            yield ["four", m, i]
        for name, v in R.P_4PI.items():
            for j in range(len(v) if isinstance(v, (list, tuple)) else 1):
                yield ["par4", m, name, j]
        for d in (0.2, 0.6, 1.5):
            yield ["j4", m, d]
        yield ["hist4", m]


def new(mode, **kw):
    import hazma.form_factors.vector as V
    return getattr(V, FOUR[mode][0] if mode in FOUR else R.MODES[mode][0])(**kw)


def lattice(q, ms, n=6):
    """Points (s, t) in the interior of the Dalitz region."""
    m1, m2, m3 = ms
    out = []
    for a in (np.arange(n) + 0.5) / n:
        s = (m2 + m3 + a * (q - m1 - m2 - m3)) ** 2
        k = _ps.mom(s, m2, m3)
        p = q * _ps.mom(q * q, m1, np.sqrt(s)) / np.sqrt(s)
        e1, e3 = np.hypot(m1, p), np.hypot(m3, k)
        for z in np.linspace(-0.95, 0.95, n):
            out.append((s, m1 * m1 + m3 * m3 + 2 * (e1 * e3 - p * k * z)))
    return np.array(out).T


def call(o, kind, q, s, t, c):
    if kind == "PPV":
        return o.form_factor(q, couplings=c)
    if kind == "PPP2":
        return o.form_factor(q, s, couplings=c)
    return o.form_factor(q, s, t, couplings=c)


def run(spec, T):
    k, mode = spec[:2]
    M = R.masses()
    if mode in FOUR:
        return four(spec, T, M)
    _, fsp, kind, ref, pars = R.MODES[mode]
    ms = [M[x] for x in fsp]
    th = sum(ms)
    C0 = (0.7, -0.3, 0.5)
    ext = dict(epsrel=1e-3) if kind == "PPP" else {}
    if kind == "PPP":
        ext["method"] = "quad"
    if k == "model":
        from hazma.vector_mediator import VectorMediatorGeV
        g = dict(gvxx=1.0, gvee=0.1, gvmumu=0.2, gvveve=0.3, gvvmvm=0.0, gvvtvt=0.5)
        for c in ((0.7, -0.3, 0.5), (0.0, 1.0, 0.0), (-1.0, 2.0, 3.0)):
            m = VectorMediatorGeV(mx=400.0, mv=900.0, gvuu=c[0], gvdd=c[1], gvss=c[2], **g)
            w = VectorMediatorGeV(mx=400.0, mv=900.0, gvuu=0.11, gvdd=0.13, gvss=-0.17, **g)
            w.mx = 250.0
            w.gvss, w.gvuu, w.gvdd = c[2], c[0], c[1]
            w.mv = 1700.0
            for q in (1.04 * th, 1.5 * th, 3.0 * th):
                if kind in ("PPP", "PPP2"):
                    s, t = lattice(q, ms)
                    want = ref(q, s, t, c, M)
                else:
                    s = t = None
                    want = np.ravel(ref(q, *lattice(q, ms), c, M))[:1] if kind == "PPV" else ref(np.array([q]), c, M)
                for lab, o in (("fresh", m), ("set", w)):
                    f = getattr(o, "form_factor_" + mode)
                    a = () if s is None else (s,) if kind == "PPP2" else (s, t)
                    T.step()
                    T.close(np.ravel(f(q, *a)), want, f"{mode}:model:{lab}", 1e-7, 1e-11 * np.max(np.abs(want)), note=f"{c} {q}")
            T.outcome(want)
        T.state(spec)
        return
    if k == "ff":
        from hazma.form_factors.vector import VectorFormFactorCouplings
        c = COUP[spec[2]]
        o = new(mode)
        if kind != "PPV":
            # energies as an array, as documented: of each number of energies and shape, beside as many invariant masses
            for shape in ((1,), (2,), (3,), (4,), (5,), (2, 3), (4, 3)):
                n = int(np.prod(shape))
                qa = th * np.linspace(1.03, 3.0, n)
                st = np.array([lattice(x, ms)[:, 14] for x in qa])
                want = np.array([ref(float(x), y[:1], y[1:], c, M)[0] for x, y in zip(qa, st)]).reshape(shape)
                T.step()
                T.close(call(o, kind, qa.reshape(shape), st[:, 0].reshape(shape), st[:, 1].reshape(shape), c), want, f"{mode}:form-factor:array", 1e-9,
                        1e-11 * max(np.max(np.abs(want)), 1e-12), note=f"{c} {shape}")
        T.close(np.sort(o.fsp_masses), np.sort(ms), f"{mode}:masses", 1e-12)
        for q in [th * (1 + d) for d in E3] + [int(th) + 300]:
            s, t = lattice(q, ms)
            want = ref(float(q), s, t, c, M)
            scale = 1e-11 * max(map(abs, c)) * np.max(np.abs(ref(float(q), s, t, (1.0, 0.3, 0.7), M)))
            note = f"{mode} {c} q={q}"
            T.step(4)
            if kind == "PPV":
                want = want[0]
                T.close(call(o, kind, q, s, t, c), want, f"{mode}:form-factor", 1e-9, scale, note=note)
                qa = np.array([q, q + 1.0, q])
                T.close(call(o, kind, qa, s, t, c), [want, ref(q + 1.0, s, t, c, M)[0], want], f"{mode}:form-factor:array", 1e-9, scale, note=note)
            else:
                for cc in (c, VectorFormFactorCouplings(*c), list(c)):
                    T.close(call(o, kind, q, s, t, cc), want, f"{mode}:form-factor", 1e-9, scale, note=note)
                for i in (0, 7, 20, 35):
                    T.close(np.ravel(call(o, kind, q, float(s[i]), float(t[i]), c)), want[i:i + 1], f"{mode}:form-factor:scalar", 1e-9, scale, note=note)
            lor = R.lorentz3(kind, q, s, t, ms)
            sq = np.asarray(o.squared_lorentz_structure(q, *lib_st(kind, q, s, t, ms)))
            T.close(sq, lor, f"{mode}:lorentz", 1e-8, 1e-10 * np.max(lor), note=note)
            i = 14
            T.close(np.ravel(o.squared_lorentz_structure(q, *[float(x[i]) for x in lib_st(kind, q, s, t, ms)])), lor[i:i + 1], f"{mode}:lorentz:scalar", 1e-8, 1e-10 * np.max(lor), note=note)
            T.outcome(want)
        T.state(spec)
    elif k == "j3":
        c = COUP[spec[3]]
        q = th * (1 + spec[2])
        o = new(mode)
        want = R.J3(mode, q, c, M, 200 if kind == "PPP" else 400)
        rt = {"PPV": 1e-5, "PPP2": 1e-6, "PPP": 5e-3}[kind]
        note = f"{mode} {c} q={q}"
        at = 1e-30
        T.step(5)
        got = o.integrated_form_factor(q, c, **ext)
        T.close(got, want, f"{mode}:integrated", rt, at, note=note)
        T.check(np.ndim(got) == 0, f"{mode}:integrated:shape", note)
        if spec[2] in (0.1, 2.0):
            arr = np.array([0.5 * th, th, q])
            T.close(o.integrated_form_factor(arr, couplings=c, **ext), [0, 0, got], f"{mode}:integrated:array", 1e-9, at, note=note)
            T.close(o.width(arr, c, **ext), [0, 0, 0.5 * q * got], f"{mode}:width", 1e-9, at, note=note)
            for mx, mv, g, wv in ((1.0, 777.0, 1.0, 5.0), (0.499 * th, 1.1 * th, -2.0, 1e-3)):
                T.close(o.cross_section(q=arr[1:], mx=mx, mv=mv, gvxx=g, wv=wv, couplings=c, **ext), [0, cross(q, got, mx, mv, g, wv)], f"{mode}:cross-section", 1e-9, at, note=note)
            T.close(o.width(q, c, **ext), 0.5 * q * got, f"{mode}:width:scalar", 1e-9, at, note=note)
        T.check(o.integrated_form_factor(0.9 * th, c, **ext) == 0, f"{mode}:below-threshold", note)
        if kind == "PPP":
            with _ps.seeded():
                got = o.integrated_form_factor(q, c, method="rambo", npts=20000)
            T.close(got, want, f"{mode}:rambo", 0.12, at, note=note)
            if spec[2] == 0.35:
                # the library's own choice of integrator
                with _ps.seeded():
                    T.close(o.integrated_form_factor(q, c), want, f"{mode}:default", 0.12, at, note=note)
                with _ps.seeded():
                    T.close(o.width(mv=q, couplings=c), 0.5 * q * want, f"{mode}:default:width", 0.12, at, note=note)
        part = getattr(o, "_partially_integrated_form_factor", None)
        if part is not None:
            lo, hi = (ms[1] + ms[2]) ** 2, (q - ms[0]) ** 2
            T.close(_ps.quad(lambda s: np.array([part(q, x, couplings=c) for x in s]), lo, hi, 400), want / R.sym3(mode), f"{mode}:partial", max(rt, 1e-4), at, note=note)
        T.outcome(want)
        T.state(spec)
    elif k == "slow":
        # integer energies and arrays of several energies
        o = new(mode)
        q = int(th * 1.2)
        a = o.integrated_form_factor(q, C0, **ext)
        T.step(4)
        T.close(a, R.J3(mode, float(q), C0, M, 200), f"{mode}:integer", 5e-3 if kind == "PPP" else 1e-6)
        qs = np.array([q + 90, int(0.8 * th), q])
        got = o.integrated_form_factor(qs, couplings=C0, **ext)
        T.close(got[1:], [0, a], f"{mode}:integers", 1e-9, 1e-30)
        T.close(got[0], o.integrated_form_factor(float(qs[0]), C0, **ext), f"{mode}:integers", 1e-9)
        T.close(o.width(qs, C0, **ext), 0.5 * qs * got, f"{mode}:width:integers", 1e-9)
        xs = o.cross_section(q=qs, mx=2, mv=1500, gvxx=1, wv=4, couplings=C0, **ext)
        T.close(xs, cross(qs.astype(float), got, 2.0, 1500.0, 1.0, 4.0), f"{mode}:cross-section:integers", 1e-9)
    elif k == "dist":
        c = COUP[spec[3]]
        q = th * (1 + spec[2])
        o = new(mode)

        def f(s, t):
            return R.lorentz3(kind, q, s, t, ms) * abs(ref(q, s, t, c, M)) ** 2
        if np.max(f(*lattice(q, ms))) == 0:
            T.check(True, "none")
            return
        order = ms
        for nb in (4, 25):
            note = f"{mode} q={q} {c} {nb} bins"
            T.step(2)
            ds = o.energy_distributions(q=q, nbins=nb, couplings=c, **ext)
            T.check(len(ds) == 3, f"{mode}:energies", note)
            for i, d in enumerate(ds):
                generic(T, d, order[i], (q * q + order[i] ** 2 - (th - order[i]) ** 2) / (2 * q), nb, f"{mode}:energy", f"{note} particle {i}")
                want = e_density(q, order, i, f, np.array(d.bin_centers))
                want /= np.sum(want * np.diff(d.bins))
                T.close(d.probabilities, want, f"{mode}:energy:shape", 2e-3, 2e-4 * np.max(want), note=f"{note} particle {i}")
            dm = o.invariant_mass_distributions(q=q, nbins=nb, couplings=c, **ext)
            T.check(set(dm) == {(0, 1), (0, 2), (1, 2)}, f"{mode}:pairs", lambda: f"{note} {list(dm)}")
            for (x, y), d in dm.items():
                i = ({0, 1, 2} - {x, y}).pop()
                generic(T, d, order[x] + order[y], q - order[i], nb, f"{mode}:mass", f"{note} pair {x}{y}")
                cen = np.array(d.bin_centers)
                want = e_density(q, order, i, f, (q * q + order[i] ** 2 - cen * cen) / (2 * q)) * cen
                want /= np.sum(want * np.diff(d.bins))
                # the vector modes take their masses from bins of energies
                loose = kind == "PPV"
                if not loose or nb > 10:
                    T.close(d.probabilities, want, f"{mode}:mass:shape", 2e-3, (6e-2 if loose else 2e-4) * np.max(want), note=f"{note} pair {x}{y}")
            T.outcome(want)
            T.state(spec, nb)
    elif k == "par":
        _, _, name, j = spec
        v = pars[name]
        if isinstance(v, (list, tuple)):
            nv = np.array(v, float)
            nv[j] = nv[j] * 1.13 + 0.021
            given = nv.copy()
        else:
            nv = given = v * 1.13 + 0.021
        q = th * 1.4
        s, t = lattice(q, ms)
        base = new(mode)
        before = call(base, kind, q, s, t, C0)
        T.step(3)
        o = new(mode, **{name: given})
        want = ref(q, s, t, C0, M, **{name: nv})
        if kind == "PPV":
            want = want[0]
        T.close(call(o, kind, q, s, t, C0), want, f"{mode}:parameter:{name}", 1e-9, 1e-12 * np.max(abs(want)), note=f"{mode} {name}[{j}]")
        T.close(call(base, kind, q, s, t, C0), before, f"{mode}:instances", 0)
        T.close(call(new(mode), kind, q, s, t, C0), before, f"{mode}:defaults", 0)
        T.outcome(want)
    else:
        a, b = new(mode), None
        q = th * 1.3
        s, t = lattice(q, ms)
        s0, t0 = s.copy(), t.copy()
        for h in spec[2]:
            op = HIST[h]
            T.step()
            if op == "ff":
                call(a, kind, q * 1.2, s, t, (0.1, 0.9, -0.4))
            elif op == "width":
                a.width(q * 1.1, (0.1, 0.9, -0.4), **({"method": "rambo", "npts": 50} if kind == "PPP" else {}))
            elif op == "dist":
                a.energy_distributions(q=q * 1.1, nbins=3, couplings=(0.1, 0.9, -0.4), **({"method": "rambo", "npts": 50} if kind == "PPP" else {}))
            elif op == "other":
                call(new(R.THREE[(R.THREE.index(mode) + 1) % len(R.THREE)]), R.MODES[R.THREE[(R.THREE.index(mode) + 1) % len(R.THREE)]][2], 2500.0, 1e6, 1e6, C0)
            else:
                b = new(mode)
                call(b, kind, q * 1.05, s, t, (0.3, 0.3, 0.3))
        want = ref(q, s, t, C0, M)
        if kind == "PPV":
            want = want[0]
        for o in (a, b):
            if o is not None:
                T.close(call(o, kind, q, s, t, C0), want, f"{mode}:history", 1e-9, note=str(spec))
                if kind != "PPP":
                    T.close(o.integrated_form_factor(q, C0), R.J3(mode, q, C0, M, 60), f"{mode}:history:integrated", 1e-2, note=str(spec))
        T.check(np.array_equal(s, s0) and np.array_equal(t, t0), f"{mode}:arguments", "the caller's invariants were changed")
        T.state(mode, spec[2])


def lib_st(kind, q, s, t, ms):
    """Invariants in the order the library documents: with the vector last for PPV."""
    if kind != "PPV":
        return s, t
    # masses are V, 1, 2 and s = (p1+p2)^2, t = (pV+p2)^2; wanted (p2+pV)^2 and (p1+pV)^2
    return t, q * q + sum(m * m for m in ms) - s - t


def momenta(q, ms):
    """A lattice of four-body configurations: two pairs back to back, in every orientation of a small set."""
    out = []
    free = q - sum(ms)
    for (a, b), (c, d) in (((0, 1), (2, 3)), ((0, 2), (1, 3)), ((0, 3), (1, 2))):
        for x, y in ((0.1, 0.2), (0.4, 0.3), (0.7, 0.2), (0.05, 0.9)):
            m12, m34 = ms[a] + ms[b] + x * free, ms[c] + ms[d] + y * (1 - x) * free
            for z1, f1, z2, f2 in ((0.3, 0.4, -0.5, 2.0), (-0.8, 1.0, 0.9, 4.0), (0.95, 3.0, 0.1, 0.2)):
                P = np.zeros((4, 4))
                p = float(_ps.mom(q * q, m12, m34))
                for (i, j), mm, sg, z, ph in (((a, b), m12, 1, z1, f1), ((c, d), m34, -1, z2, f2)):
                    kk = float(_ps.mom(mm * mm, ms[i], ms[j]))
                    dr = np.array([np.sqrt(1 - z * z) * np.cos(ph), np.sqrt(1 - z * z) * np.sin(ph), z])
                    e = np.hypot(mm, p)
                    for idx, m, sgn in ((i, ms[i], 1), (j, ms[j], -1)):
                        v = sgn * kk * dr
                        E = np.hypot(m, kk)
                        P[0, idx] = (e * E + sg * p * v[2]) / mm
                        P[1:3, idx] = v[:2]
                        P[3, idx] = (e * v[2] + sg * p * E) / mm
                out.append(P)
    return np.stack(out, axis=-1)


def rot(P):
    """Rotated configurations: the lattice above singles out the z axis."""
    a, b = 0.7, 1.9
    A = np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]]) @ np.array([[np.cos(b), 0, np.sin(b)], [0, 1, 0], [-np.sin(b), 0, np.cos(b)]])
    Q = P.copy()
    Q[1:] = np.einsum("ij,jkn->ikn", A, P[1:])
    return Q


def four(spec, T, M):
    k, mode = spec[:2]
    ms = [M[x] for x in FOUR[mode][1]]
    th = sum(ms)
    neutral = mode != "4pi"
    # the four-pion fit comes with its own pion masses
    ms = [next(float(m) for m in new(mode).fsp_masses if abs(m / x - 1) < 1e-5) for x in ms]
    th = sum(ms)
    if k == "four":
        c = COUP[spec[2]]
        o = new(mode)
        T.close(np.sort(o.fsp_masses), np.sort(ms), f"{mode}:masses", 1e-5)
        sq = getattr(o, "_msqrd", None)
        for d in (0.1, 0.6, 1.8):
            P = rot(momenta(th * (1 + d), ms))
            want = R.four_pi(P * 1e-3, neutral)
            T.step(2)
            T.close(o.form_factor(P), want, f"{mode}:current", 1e-8, 1e-9 * np.max(abs(want)), note=f"{mode} {d}")
            if sq is not None:
                w = R.four_pi_sq(P * 1e-3, c, neutral)
                T.close(sq(P * 1e-3, gvuu=c[0], gvdd=c[1]), w, f"{mode}:squared", 1e-8, 1e-9 * np.max(abs(w)), note=f"{mode} {d} {c}")
            T.outcome(want)
    elif k == "par4":
        _, _, name, j = spec
        v = R.P_4PI[name]
        if isinstance(v, tuple):
            nv = list(v)
            nv[j] = nv[j] * 1.13 + 0.021
            nv = tuple(nv)
        else:
            nv = v * 1.13 + 0.021
        P = rot(momenta(th * 1.7, ms))
        base = new(mode)
        before = base.form_factor(P)
        T.step(3)
        o = new(mode, **{name: nv})
        want = R.four_pi(P * 1e-3, neutral, **{name: nv})
        T.close(o.form_factor(P), want, f"{mode}:parameter:{name}", 1e-8, 1e-9 * np.max(abs(want)), note=f"{name}[{j}]")
        T.close(base.form_factor(P), before, f"{mode}:instances", 0)
        T.close(new(mode).form_factor(P), before, f"{mode}:defaults", 0)
        T.outcome(want)
    elif k == "j4":
        from hazma.phase_space import Rambo
        q = th * (1 + spec[2])
        c = (0.7, -0.3, 0.5)
        o = new(mode)
        # reference: the squared reference current over independently seeded phase-space points
        n = 60000
        P, w = Rambo(q * 1e-3, [m * 1e-3 for m in ms]).generate(n, seed=77)
        val = w * R.four_pi_sq(P, c, neutral)
        want, err = np.mean(val), np.std(val) / np.sqrt(n)
        T.step(6)
        with _ps.seeded():
            got = o.integrated_form_factor(q, c, npts=20000)
        tol = 6 * err * 2
        T.close(got, want, f"{mode}:integrated", 1e-3, tol, note=f"{spec} error {err}")
        with _ps.seeded():
            T.close(o.integrated_form_factor(np.array([0.5 * th, q, 0.99 * th]), c, npts=20000), [0, want, 0], f"{mode}:integrated:array", 1e-3, tol, note=str(spec))
        with _ps.seeded():
            T.close(o.width(q, c, npts=20000), 0.5 * q * want, f"{mode}:width", 1e-3, 0.5 * q * tol, note=str(spec))
        with _ps.seeded():
            T.close(o.width(np.array([0.5 * th, q]), c, npts=20000), [0, 0.5 * q * want], f"{mode}:width:array", 1e-3, 0.5 * q * tol, note=str(spec))
        for mx, mv, g, wv in ((1.0, 777.0, 1.0, 5.0), (0.3 * th, 1.1 * th, -2.0, 1e-3)):
            with _ps.seeded():
                f = cross(q, 1.0, mx, mv, g, wv)
                T.close(o.cross_section(q, mx, mv, g, wv, c, npts=20000), f * want, f"{mode}:cross-section", 1e-3, f * tol, note=str(spec))
            with _ps.seeded():
                T.close(o.cross_section(np.array([0.9 * th, q]), mx, mv, g, wv, c, npts=20000), [0, f * want], f"{mode}:cross-section:array", 1e-3, f * tol, note=str(spec))
        T.check(o.integrated_form_factor(0.9 * th, c, npts=20) == 0, f"{mode}:below-threshold", str(spec))
        # distributions: fractions of the reference current per bin
        nb = 5
        neff = np.sum(val) ** 2 / np.sum(val ** 2) / 3
        tol = 7 * 0.5 / np.sqrt(neff)
        with _ps.seeded():
            ds = o.energy_distributions(q, nb, c, npts=20000)
            dm = o.invariant_mass_distributions(q, nb, c, npts=20000)
        T.check(len(ds) == 4, f"{mode}:energies", str(spec))
        for i, d in enumerate(ds):
            generic(T, d, ms[i], (q * q + ms[i] ** 2 - (th - ms[i]) ** 2) / (2 * q), nb, f"{mode}:energy", f"{spec} particle {i}")
            h = np.histogram(P[0, i] * 1e3, bins=d.bins, weights=val)[0] / np.sum(val)
            T.close(d.probabilities * np.diff(d.bins), h, f"{mode}:energy:shape", 0, tol, note=f"{spec} particle {i}")
        T.check(set(dm) == set(itertools.combinations(range(4), 2)), f"{mode}:pairs", lambda: str(list(dm)))
        for (x, y), d in dm.items():
            v = P[:, x] + P[:, y]
            m = 1e3 * np.sqrt(v[0] ** 2 - np.sum(v[1:] ** 2, axis=0))
            generic(T, d, ms[x] + ms[y], q - (th - ms[x] - ms[y]), nb, f"{mode}:mass", f"{spec} pair {x}{y}")
            h = np.histogram(m, bins=d.bins, weights=val)[0] / np.sum(val)
            T.close(d.probabilities * np.diff(d.bins), h, f"{mode}:mass:shape", 0, tol, note=f"{spec} pair {x}{y}")
        T.outcome(want)
        T.state(spec)
    else:
        c = (0.7, -0.3, 0.5)
        P = rot(momenta(th * 1.7, ms))
        want = R.four_pi(P * 1e-3, neutral)
        P0 = P.copy()
        a = new(mode)
        for n in range(1, 4):
            for h in itertools.product(("ff", "width", "dist", "other"), repeat=n):
                op = h[-1]
                T.step()
                if op == "ff":
                    a.form_factor(P)
                elif op == "width":
                    a.width(900.0, (0.1, 0.9, 0.0), npts=50)
                elif op == "dist":
                    a.energy_distributions(900.0, 3, (0.1, 0.9, 0.0), npts=50)
                else:
                    new("4pi" if neutral else "2pi2pi0").form_factor(P)
                T.state(mode, h)
            T.close(a.form_factor(P), want, f"{mode}:history", 1e-8, 1e-9 * np.max(abs(want)))
        T.check(np.array_equal(P, P0), f"{mode}:arguments", "the caller's momenta were changed")
