"""Phase-space integrals: all integrators against closed forms and independent quadrature."""
import itertools

import numpy as np

from checks import _ps

ID = "C16"
PROP = dict(
    title="All phase-space integrators compute the same Lorentz-invariant integral",
    statement=(
        "For every set of final-state masses, energy and squared matrix element, the two-body, three-body and RAMBO "
        "integrators return the Lorentz-invariant phase-space integral of the squared matrix element (one if none is "
        "given), whichever signature the matrix element is written in (angle, invariant masses or four-momenta) and "
        "whichever method is chosen, within the error they report. It vanishes for three bodies below threshold, does not "
        "depend on the order in which particles are listed (with the matrix element relabelled), and scales as a power of "
        "energy for massless particles. Unknown methods and wrong numbers of masses are refused."),
    quantifier=dict(over=["inputs", "configurations"],
                    text="all mass tuples over a small set of values, energies from threshold to far above, matrix elements, signatures and methods"),
    why_tests_cant="The tests compare three processes with stored numbers; the integrators are never compared with each other.",
    anchors=dict(files=["hazma/phase_space/_two_body.py", "hazma/phase_space/_three_body.py", "hazma/phase_space/_rambo.py"],
                 mechanism=[dict(name="TwoBody.integrate", where="hazma/phase_space/_two_body.py"),
                            dict(name="ThreeBody.integrate", where="hazma/phase_space/_three_body.py"),
                            dict(name="Rambo.integrate", where="hazma/phase_space/_rambo.py")]),
)
TECHNIQUE = "exhaustive enumeration of (masses, energy, matrix element, signature, method) against independent quadrature"
LEVEL_NOTE = ("Two- and three-body: all mass tuples over 3-4 values x 3-4 energies x 5-6 matrix elements x both signatures; RAMBO: "
              "all mass multisets up to 5 particles, compared within 6 of its own standard errors (fixed seed).")
RULE = "one case per configuration; non-trivial when an integral was compared"

V2 = [0.0, 0.3, 1.0, 7.0]
V3 = [0.0, 0.5, 2.0]
M2 = {
    "none": (None, lambda z: 1 + 0 * z),
    "const": (lambda z: 2.5, lambda z: 2.5 + 0 * z),
    "z": (lambda z: 1 + 0.5 * z, lambda z: 1 + 0.5 * z),
    "z2": (lambda z: z ** 2, lambda z: z ** 2),
    "pole": (lambda z: 1 / (1.2 - z), lambda z: 1 / (1.2 - z)),
}


def M3(q):
    return {
        "none": lambda s, t: 1.0 + 0 * s,
        "s": lambda s, t: s / q ** 2,
        "t": lambda s, t: t / q ** 2,
        "st": lambda s, t: (s - 2 * t) ** 2 / q ** 4 + 0.1,
        "bw": lambda s, t: 1 / ((s / q ** 2 - 0.3) ** 2 + 0.04),
        "bwt": lambda s, t: s / q ** 2 / ((t / q ** 2 - 0.3) ** 2 + 0.04),
    }


def cases(tier):
    for m1, m2 in itertools.product(V2, repeat=2):
        for d in (0.0, 1e-6, 0.1, 2.0, 100.0):
            if d or m1 == m2:  # the rounded sum of unequal masses lies off their threshold
                yield ["two", m1, m2, d]
    names = list(M3(1.0))
    for ms in itertools.product(V3, repeat=3):
        for d in (0.05, 0.6, 20.0):
            for n in names:
                yield ["three", list(ms), d, n]
        yield ["below", list(ms)]
    vals = [0.0, 0.5, 2.0]
    for n in range(2, 5 if tier == "quick" else 6):
        for ms in itertools.combinations_with_replacement(vals, n):
            for d in (0.05, 0.6, 20.0):
                yield ["rambo", list(ms), d]
    yield ["refused"]


def run(spec, T):
    from hazma.phase_space import Rambo, ThreeBody
    from hazma.phase_space._two_body import TwoBody
    k = spec[0]
    if k == "two":
        _, m1, m2, d = spec
        q = (m1 + m2) * (1 + d) if m1 + m2 else 1.0 + d
        x, w = _ps.gl(200)
        vol = float(_ps.phi2(q, m1, m2))
        p = vol * 4 * np.pi * q
        for n, (f, ref) in M2.items():
            want = vol * 0.5 * np.sum(w * ref(x))
            T.step(2)
            got, err = TwoBody(q, [m1, m2], msqrd=f).integrate()
            T.close(got, want, "two:angle", 1e-8, 1e-14, note=f"{spec} {n}")
            T.check(abs(err) <= 1e-6 * abs(want) + 1e-12, "two:error-estimate", f"{spec} {n} {err}")
            got, err = TwoBody(q, [m1, m2], msqrd=f, msqrd_signature="z").integrate()
            T.close(got, want, "two:angle", 1e-8, 1e-14, note=f"{spec} {n} signature z")
            if p > 0 and f is not None:
                def fm(ps):
                    assert ps.shape == (4, 2)
                    tot = ps.sum(axis=1)
                    assert np.allclose(tot, [q, 0, 0, 0], atol=1e-9 * q)
                    assert np.allclose(ps[0] ** 2 - np.sum(ps[1:] ** 2, axis=0), [m1 ** 2, m2 ** 2], atol=1e-9 * q * q)
                    return f(ps[3, 0] / p)
                T.step(2)
                T.close(TwoBody(q, (m1, m2), msqrd=fm, msqrd_signature="momenta").integrate()[0], want, "two:momenta", 1e-6, note=f"{spec} {n}")
                r = Rambo(q, [m1, m2], msqrd=fm)
                two = getattr(r, "_integrate_two_body", None)
                if two is not None and q > m1 + m2:
                    T.close(two()[0], want, "two:rambo-quadrature", 1e-6, note=f"{spec} {n}")
            T.state(spec, n)
            T.outcome(want)
            # weak and strong couplings, and other units of energy
            for c in (1e-30, 1e-9, 1e10):
                T.step(2)
                got, err = TwoBody(q, [m1, m2], msqrd=lambda z: c * ref(z)).integrate()
                T.close(got, c * want, "two:coupling", 1e-7, note=f"{spec} {n} x {c}")
                T.check(abs(err) <= 1e-6 * abs(c * want), "two:coupling-error-estimate", f"{spec} {n} x {c}: {err}")
                unit = np.sqrt(c)
                got, err = TwoBody(unit * q, [unit * m1, unit * m2], msqrd=f).integrate()
                T.close(got, want, "two:units", 1e-8 if d > 1e-3 else 1e-6, note=f"{spec} {n} in units of {unit}")
        if q > m1 + m2 and m1 + m2 > 0 or m1 + m2 == 0:
            val = Rambo(q, [m1, m2]).integrate(50, seed=1)[0]
            T.close(val, vol, "two:rambo", 1e-5 if d < 1e-3 else 1e-9, note=str(spec))
            two = getattr(Rambo(q, [m1, m2]), "_integrate_two_body", None)
            if two is not None:
                T.close(two()[0], vol, "two:rambo-quadrature", 1e-8, note=str(spec))
    elif k == "three":
        _, ms, d, n = spec
        q = sum(ms) * (1 + d) if sum(ms) else 1.0 + d
        f = M3(q)[n]
        # The helicity-angle quadrature of the reference resolves these matrix elements to 1e-8
        want = _ps.dalitz(q, ms, f, 60)
        T.step(3)
        got, err = ThreeBody(q, ms, msqrd=None if n == "none" else f).integrate()
        T.close(got, want, "three:st", 1e-5, 3 * err, note=str(spec))
        T.check(abs(err) <= 1e-4 * abs(want) + 1e-6, "three:error-estimate", f"{spec} {err}")
        T.state(spec)
        T.outcome(want)

        for c, unit in ((1e-14, 1.0), (1.0, 1e-6), (1e-25, 1e4), (1e12, 1e3)):
            T.step()
            mu = [m * unit for m in ms]
            got, err = ThreeBody(q * unit, mu, msqrd=lambda s, t: c * f(s / unit ** 2, t / unit ** 2)).integrate()
            scale = c * unit ** 2
            T.close(got / scale, want, "three:coupling", 1e-5, 3 * err / scale, note=f"{spec} x {c} in units of {unit}")
            T.check(abs(err) <= 1e-4 * abs(scale * want), "three:coupling-error-estimate", f"{spec} x {c} in units of {unit}: {err}")

        def fm(ps):
            s = np.square(ps[0, 1] + ps[0, 2]) - np.sum(np.square(ps[1:, 1] + ps[1:, 2]), axis=0)
            t = np.square(ps[0, 0] + ps[0, 2]) - np.sum(np.square(ps[1:, 0] + ps[1:, 2]), axis=0)
            return f(s, t)
        if n in ("s", "st", "bwt"):
            # edges of the region, where rounding makes a momentum imaginary, are left out by the integrator's nodes
            got, err = ThreeBody(q, ms, msqrd=fm, msqrd_signature="momenta").integrate()
            T.close(got, want, "three:momenta", 1e-4, 3 * err, note=str(spec))
        # the same integral with particles 1 and 2 exchanged
        got, err = ThreeBody(q, (ms[1], ms[0], ms[2]), msqrd=lambda s, t: f(t, s)).integrate()
        T.close(got, want, "three:relabelled", 1e-5, 3 * err, note=str(spec))
        with _ps.seeded():
            got, err = ThreeBody(q, ms, msqrd=None if n == "none" else f).integrate(method="rambo", npts=4000)
        T.close(got, want, "three:rambo", 1e-9, 8 * err, note=f"{spec} error {err}")
        T.check(0 < err < 0.3 * want or np.isclose(got, want, rtol=1e-6), "three:rambo-error", f"{spec} {got} {err}")
        got, err = Rambo(q, ms, msqrd=fm).integrate(20000, seed=11)
        T.close(got, want, "rambo:three", 1e-9, 6 * err, note=f"{spec} error {err}")
    elif k == "below":
        ms = spec[1]
        if sum(ms):
            for fr in (0.1, 0.7, 0.999):
                T.step()
                r = ThreeBody(fr * sum(ms), ms, msqrd=lambda s, t: 1.0).integrate()
                T.check(tuple(r) == (0.0, 0.0), "three:below-threshold", lambda: f"{spec} {fr}: {r}")
        T.check(True, "none")
    elif k == "rambo":
        _, ms, d = spec
        q = sum(ms) * (1 + d) if sum(ms) else 1.0 + d
        want = float(_ps.phin(q, ms, 40 if len(ms) < 5 else 24)[0])
        for n, b, seed in ((20000, None, 5), (20000, 2500, 6)):
            T.step()
            got, err = Rambo(q, ms).integrate(n, batch_size=b, seed=seed)
            T.close(got, want, "rambo:flat", 2e-5, 6 * err, note=f"{spec} {n} {b} error {err}")
            T.check(err < 0.05 * want, "rambo:error", f"{spec} {err}")
        if sum(ms) == 0:
            T.close(got, want, "rambo:massless", 1e-9, note=str(spec))
        T.outcome(want)
    else:
        for bad in (lambda: ThreeBody(3.0, [0.1, 0.1]), lambda: ThreeBody(3.0, [0.1] * 4), lambda: TwoBody(3.0, [0.1] * 3),
                    lambda: ThreeBody(3.0, [0.1] * 3, msqrd_signature="z"), lambda: TwoBody(3.0, [0.1] * 2, msqrd_signature="st"),
                    lambda: ThreeBody(3.0, [0.1] * 3).integrate(method="nonsense"),
                    lambda: ThreeBody(3.0, [0.1] * 3).energy_distributions(5, method="nonsense"),
                    lambda: ThreeBody(3.0, [0.1] * 3).invariant_mass_distributions(5, method="nonsense")):
            T.step()
            try:
                bad()
                T.check(False, "accepted", "an invalid configuration was accepted")
            except (AssertionError, ValueError):
                T.check(True, "accepted")
