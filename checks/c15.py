"""RAMBO events: conservation, mass shell, weights, reproducibility."""
import itertools
import math

import numpy as np

ID = "C15"
PROP = dict(
    title="Generated phase-space events conserve momentum and lie on the mass shell",
    statement=(
        "For every set of two or more final-state masses, every energy above their sum, every batch structure and every "
        "seed, the phase-space generator returns events whose four-momenta sum to the centre-of-mass energy at rest, each "
        "particle on its own mass shell with positive energy, and a positive finite weight equal to the RAMBO weight of "
        "that event (times the squared matrix element of that event, if one is given). Equal seeds give equal events, different seeds different "
        "ones, whatever the object was used for before; batches are full and together hold at least the requested number. "
        "Integrals, widths and cross sections are the weights' mean with the mean's standard error and the proper flux "
        "factor."),
    quantifier=dict(over=["inputs", "configurations", "histories"],
                    text="all mass multisets of up to 5 particles over {0, small, large}, energies from just above threshold to far above, seeds, sizes and batch sizes"),
    why_tests_cant="The tests check momentum conservation for one mass set at one energy and one seed.",
    anchors=dict(files=["hazma/phase_space/_rambo.py"],
                 mechanism=[dict(name="Rambo.generate / generator / integrate", where="hazma/phase_space/_rambo.py")]),
)
TECHNIQUE = "exhaustive enumeration of generator configurations (masses, energy, seed, batch structure), every event checked"
LEVEL_NOTE = ("All multisets of 2-5 masses over 4 values x 5 energies x 2-4 seeds x sizes 1, 2, 64; weights recomputed from the "
              "momenta with the published formula; the sequence of random events is part of the enumerated seed.")
RULE = "one case per (masses, energy); non-trivial when events were produced and checked"

VALS = [0.0, 0.511, 105.66, 938.3]


def cases(tier):
    nmax = 5 if tier == "quick" else 7
    for n in range(2, nmax + 1):
        for ms in itertools.combinations_with_replacement(VALS, n):
            for d in (1e-6, 1e-2, 0.5, 3.0, 1e3):
                if sum(ms) == 0 and d < 1:
                    continue
                order = ms if (n + len(set(ms))) % 2 else ms[::-1]
                yield ["ev", list(order), d]


def weight(ps, ms, q):
    n = len(ms)
    p = np.sqrt(np.sum(ps[1:] ** 2, axis=0))
    e = ps[0]
    c = (np.pi / 2) ** (n - 1) * q ** (2 * n - 4) / (math.factorial(n - 1) * math.factorial(n - 2)) * (2 * np.pi) ** (4 - 3 * n)
    return c * q * (np.sum(p, axis=0) / q) ** (2 * n - 3) * np.prod(p / e, axis=0) / np.sum(p * p / e, axis=0)


def events(T, key, ps, ws, ms, q, size, note, fac=None, ftol=1.0):
    n = len(ms)
    ok = T.check(np.shape(ps) == (4, n, size) and np.shape(ws) == (size,), key + ":shape", lambda: f"{note}: {np.shape(ps)} {np.shape(ws)}")
    if not ok:
        return
    tot = np.sum(ps, axis=1)
    T.close(tot[0], np.full(size, q), key + ":energy", 1e-10 * ftol, note=note)
    T.close(tot[1:], np.zeros((3, size)), key + ":momentum", 0, 1e-9 * q * ftol, note=note)
    e2 = np.sum(ps[1:] ** 2, axis=0) + np.array(ms)[:, None] ** 2
    T.close(ps[0] ** 2, e2, key + ":mass-shell", 1e-9 * ftol, 1e-12 * q * q * ftol, note=note)
    T.check(np.all(ps[0] > 0), key + ":positive-energy", note)
    T.check(np.all(np.isfinite(ws)) and (fac is not None or np.all(ws > 0)), key + ":weight-positive", lambda: f"{note}: {ws[:4]}")
    w = weight(np.asarray(ps, float), ms, q)
    T.close(ws, w * (1.0 if fac is None else fac(ps)), key + ":weight", 1e-6 * ftol, note=note)


def run(spec, T):
    from hazma.phase_space import Rambo
    from hazma.utils import cross_section_prefactor
    _, ms, d = spec
    q = sum(ms) * (1 + d) if sum(ms) else d
    q0 = q
    masses = np.array(ms)
    g = Rambo(q, masses)

    def msq(ps):
        return 1.0 + ps[0, 0] * ps[0, 1] / q0 ** 2

    gm = Rambo(q, list(ms), msqrd=msq)
    T.close(g.masses, masses, "masses", 0)
    seen = {}
    for seed, size in itertools.product((0, 7), (1, 2, 64)):
        note = f"{spec} seed {seed} size {size}"
        T.step(3)
        ps, ws = g.generate(size, seed=seed)
        ps, ws = np.array(ps), np.array(ws)
        events(T, "generate", ps, ws, ms, q, size, note)
        pm, wm = gm.generate(size, seed=seed)
        events(T, "matrix-element", pm, wm, ms, q, size, note, msq)
        again = g.generate(size, seed=seed)
        T.check(np.array_equal(again[0], ps) and np.array_equal(again[1], ws), "seed:reproducible", note)
        other = g.generate(size, seed=seed + 1)
        T.check(not np.array_equal(other[0], ps), "seed:different", note)
        if size > 1:
            T.check(np.all(np.ptp(ps[0, 0]) > 0) or len(ms) == 2, "events-differ", note)
        T.state(spec, seed, size)
        seen[seed, size] = ws
        if size == 64:
            for o, w in ((g, ws), (gm, np.array(wm))):
                T.step(4)
                val, err = o.integrate(size, seed=seed)
                se = np.std(w, ddof=1) / 8.0
                # rounding of equal weights makes the error itself arbitrary at that level
                T.close(val, np.mean(w), "integrate:value", 1e-10, note=note)
                T.close(err, se, "integrate:error", 1e-8, 1e-12 * abs(np.mean(w)), note=note)
                wd, werr = o.decay_width(size, seed=seed)
                T.close([wd, werr], [np.mean(w) / (2 * q), se / (2 * q)], "decay_width", 1e-8, 1e-12 * abs(np.mean(w)) / q, note=note)
                xs, xerr = o.cross_section(0.1 * q, 0.2 * q, size, seed=seed)
                pi = np.sqrt((1 - 0.09) * (1 - 0.01)) * q / 2
                T.close([xs, xerr], np.array([np.mean(w), se]) / (4 * pi * q), "cross_section", 1e-8, 1e-12 * abs(np.mean(w)) / (4 * pi * q), note=note)
    for n, b in ((1, 1), (10, 4), (12, 4), (3, 8)):
        note = f"{spec} {n} in batches of {b}"
        T.step()
        got = [(np.array(p), np.array(w)) for p, w in g.generator(n, b, seed=3)]
        T.check(len(got) == -(-n // b), "batches:count", lambda: f"{note}: {len(got)}")
        for p, w in got:
            events(T, "batches", p, w, ms, q, b, note)
        T.check(all(not np.array_equal(x[0], y[0]) for x, y in itertools.combinations(got, 2)), "batches:differ", note)
        again = [np.array(p) for p, _ in g.generator(n, b, seed=3)]
        T.check(all(np.array_equal(x[0], y) for x, y in zip(got, again)), "batches:reproducible", note)
        ws = np.concatenate([w for _, w in got])
        if b > 1 and n != b:
            val, err = g.integrate(n, batch_size=b, seed=3)
            T.close(val, np.mean(ws), "batches:integral", 1e-9, note=note)
            es = np.array([np.std(w, ddof=1) / np.sqrt(b) for _, w in got])
            T.close(err, np.sqrt(np.sum(es ** 2)) / len(es), "batches:error", 1e-7, 1e-12 * np.mean(ws), note=note)
    if d >= 1e-2:
        p32, w32 = g.generate(16, seed=5, dtype=np.float32)
        events(T, "single-precision", np.asarray(p32, float), np.asarray(w32, float), ms, q, 16, str(spec), ftol=1e6)
        p64, w64 = g.generate(16, seed=5)
        events(T, "after-single-precision", p64, w64, ms, q, 16, str(spec))
    # the same event in other units of energy
    p0, w0 = (np.array(x) for x in g.generate(64, seed=7))
    for unit in (1e-12, 1e-6, 1e6):
        note = f"{spec} in units of {unit}"
        T.step()
        p, w = Rambo(q * unit, masses * unit).generate(64, seed=7)
        p, w = np.array(p) / unit, np.array(w) / unit ** (2 * len(ms) - 4)
        events(T, "units", p, w, ms, q, 64, note)
        T.close(w, w0, "units:weight", 1e-6, note=note)
        T.close(p, p0, "units:momenta", 1e-6, 1e-9 * q, note=note)
    T.outcome(seen[0, 64])
