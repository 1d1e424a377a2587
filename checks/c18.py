"""Phase-space distributions: shapes, limits, normalisation, expectation values."""
import itertools

import numpy as np

from checks import _ps

ID = "C18"
PROP = dict(
    title="Phase-space distributions are normalised densities on the kinematic range",
    statement=(
        "For every set of final-state masses, energy above threshold, matrix element and number of bins, the energy and "
        "invariant-mass distributions cover exactly the kinematically allowed range of each particle or pair with the "
        "requested number of bins, are non-negative, integrate to one, and follow the differential phase-space density; "
        "quadrature, Monte Carlo and batched Monte Carlo agree within statistical errors. A distribution evaluates to zero "
        "outside its range, and its expectation values are the integrals of the function with the density by the "
        "requested rule, for scalar and vector valued functions with extra arguments."),
    quantifier=dict(over=["inputs", "configurations"],
                    text="all mass tuples over a small set, energies, matrix elements, bin numbers, methods; all small histograms over a set of values"),
    why_tests_cant="No test looks at a distribution's range, normalisation or expectation value.",
    anchors=dict(files=["hazma/phase_space/_dist.py", "hazma/phase_space/_utils.py", "hazma/phase_space/_three_body.py", "hazma/phase_space/_rambo.py"],
                 mechanism=[dict(name="PhaseSpaceDistribution1D", where="hazma/phase_space/_dist.py"),
                            dict(name="energy_limits / invariant_mass_limits", where="hazma/phase_space/_utils.py"),
                            dict(name="energy_distributions", where="hazma/phase_space/_three_body.py")]),
)
TECHNIQUE = "exhaustive enumeration of configurations and small histograms against analytic densities"
LEVEL_NOTE = ("Three-body by quadrature: all mass triples over 3 values x 3 energies x 3 matrix elements x 2 bin numbers; RAMBO for 2-4 "
              "particles with and without batches; all histograms of up to 4 bins over 4 values x uneven edges.")
RULE = "one case per configuration; non-trivial when a distribution was compared"

V = [0.0, 0.5, 2.0]
F = {"flat": lambda q: None, "s": lambda q: lambda s, t: s, "bw": lambda q: lambda s, t: 1 / ((s / q ** 2 - 0.4) ** 2 + 0.04)}


def cases(tier):
    for ms in itertools.product(V, repeat=3):
        for d in (0.05, 0.6, 20.0):
            for f in F:
                yield ["three", list(ms), d, f]
    for n in (2, 3, 4):
        for ms in itertools.combinations_with_replacement(V, n):
            for d in (0.05, 0.6, 20.0):
                yield ["rambo", list(ms), d]
    for n in range(1, 5):
        for y in itertools.product([0.0, 0.3, 2.0, 7.0], repeat=n):
            yield ["hist", list(y)]
    yield ["hist", [1.0, -2.0]]
    yield ["hist", [0.5, -0.1, 0.7]]
    for n in (2, 3, 4):
        for ms in itertools.product([0.0, 0.5, 105.0], repeat=n):
            yield ["limits", list(ms)]


def e_density(q, ms, i, f, e):
    """d/dE_i of the three-body integral (up to a constant), by the angle in the other pair's frame."""
    i1, i2, i3 = i, *(j for j in range(3) if j != i)
    m1, m2, m3 = ms[i1], ms[i2], ms[i3]
    x, w = _ps.gl(64)
    e = np.asarray(e, float)[:, None]
    s = q * q + m1 * m1 - 2 * q * e
    rs = np.sqrt(np.maximum(s, 1e-300))
    k = _ps.mom(s, m2, m3)
    p = np.sqrt(np.maximum(e * e - m1 * m1, 0))
    # invariants of the pairs (1,3) and (1,2) against the angle
    e1, p1, e3 = (q * q - s - m1 * m1) / (2 * rs), p * q / rs, np.sqrt(m3 * m3 + k * k)
    s13 = m1 * m1 + m3 * m3 + 2 * (e1 * e3 - p1 * k * x[None, :])
    s12 = q * q + m1 ** 2 + m2 ** 2 + m3 ** 2 - s - s13
    inv = {frozenset((i2, i3)): np.broadcast_to(s, s13.shape), frozenset((i1, i3)): s13, frozenset((i1, i2)): s12}
    val = 1.0 + 0 * s13 if f is None else f(inv[frozenset((1, 2))], inv[frozenset((0, 2))])
    return (np.sum(w * val, axis=1) * (p * k / rs)[:, 0])


def generic(T, d, lo, hi, nbins, key, note):
    w = np.diff(d.bins)
    T.check(len(d) == nbins and len(d.bins) == nbins + 1 and len(d.bin_centers) == nbins, key + ":bins", lambda: f"{note}: {len(d)} bins of {nbins}")
    T.close([d.bins[0], d.bins[-1]], [lo, hi], key + ":range", 1e-9, 1e-12 * hi, note=note)
    T.close(d.limits(), [lo, hi], key + ":limits", 1e-9, 1e-12 * hi, note=note)
    T.close(d.bin_centers, d.bins[:-1] + 0.5 * w, key + ":centres", 1e-12, note=note)
    T.check(np.all(d.probabilities >= 0), key + ":negative", note)
    T.close(np.sum(w * d.probabilities), 1.0, key + ":normalised", 1e-9, note=note)


def run(spec, T):
    from hazma.phase_space import PhaseSpaceDistribution1D, Rambo, ThreeBody, _utils as PU
    k = spec[0]
    if k == "three":
        _, ms, d, fn = spec
        q = sum(ms) * (1 + d) if sum(ms) else 1.0 + d
        f = F[fn](q)
        tb = ThreeBody(q, ms, msqrd=f)
        lims = [(m, (q * q + m * m - (sum(ms) - m) ** 2) / (2 * q)) for m in ms]
        for nb in (3, 12):
            note = f"{spec} {nb} bins"
            T.step(2)
            ds = tb.energy_distributions(nb)
            T.check(len(ds) == 3, "three:energies", note)
            for i, dist in enumerate(ds):
                generic(T, dist, *lims[i], nb, "three:energy", f"{note} particle {i}")
                want = e_density(q, ms, i, f, np.array(dist.bin_centers))
                want /= np.sum(want * np.diff(dist.bins))
                T.close(dist.probabilities, want, "three:energy:shape", 2e-5, 1e-7 * np.max(want), note=f"{note} particle {i}")
            dm = tb.invariant_mass_distributions(nb)
            T.check(set(dm) == {(0, 1), (0, 2), (1, 2)}, "three:pairs", lambda: f"{note}: {list(dm)}")
            for (a, b), dist in dm.items():
                i = ({0, 1, 2} - {a, b}).pop()
                generic(T, dist, ms[a] + ms[b], q - ms[i], nb, "three:mass", f"{note} pair {a}{b}")
                c = np.array(dist.bin_centers)
                want = e_density(q, ms, i, f, (q * q + ms[i] ** 2 - c * c) / (2 * q)) * c
                want /= np.sum(want * np.diff(dist.bins))
                T.close(dist.probabilities, want, "three:mass:shape", 2e-5, 1e-7 * np.max(want), note=f"{note} pair {a}{b}")
            T.state(spec, nb)
            T.outcome(want)
        with _ps.seeded():
            T.step(2)
            n = 4000
            ds = tb.energy_distributions(5, method="rambo", npts=n)
            dm = tb.invariant_mass_distributions(5, method="rambo", npts=n)
        for i, dist in enumerate(ds):
            generic(T, dist, *lims[i], 5, "three:rambo:energy", f"{spec} particle {i}")
            T.close(dist.probabilities * np.diff(dist.bins), fractions(q, ms, i, f, dist.bins), "three:rambo:energy:shape", 0, 0.08, note=str(spec))
        for (a, b), dist in dm.items():
            i = ({0, 1, 2} - {a, b}).pop()
            generic(T, dist, ms[a] + ms[b], q - ms[i], 5, "three:rambo:mass", f"{spec} {a}{b}")
            T.close((dist.probabilities * np.diff(dist.bins))[::-1], fractions(q, ms, i, f, ((q * q + ms[i] ** 2 - dist.bins ** 2) / (2 * q))[::-1]),
                    "three:rambo:mass:shape", 0, 0.08, note=str(spec))
    elif k == "rambo":
        _, ms, d = spec
        q = sum(ms) * (1 + d) if sum(ms) else 1.0 + d
        n = len(ms)
        lims = [(m, (q * q + m * m - (sum(ms) - m) ** 2) / (2 * q)) for m in ms]
        for N, b in ((20000, None), (20000, 5000), (20000, 20000)):
            note = f"{spec} {N} batches {b}"
            T.step(2)
            r = Rambo(q, ms, msqrd=lambda p: 1 + 3 * p[0, 0] / q)
            w = r.generate(N, seed=5)[1]
            tol = 3.5 / np.sqrt(np.sum(w) ** 2 / np.sum(w * w))  # 7 standard deviations of a fraction of a half
            if n > 2:
                for i, dist in enumerate(r.energy_distributions(N, 6, batch_size=b, seed=1)):
                    generic(T, dist, *lims[i], 6, "rambo:energy", note)
                    T.close(dist.probabilities * np.diff(dist.bins), moment(q, ms, i, dist.bins), "rambo:energy:shape", 0, tol, note=f"{note} particle {i}")
                dm = r.invariant_mass_distributions(N, 6, batch_size=b, seed=1)
                T.check(set(dm) == set(itertools.combinations(range(n), 2)), "rambo:pairs", lambda: f"{note} {list(dm)}")
                for (x, y), dist in dm.items():
                    generic(T, dist, ms[x] + ms[y], q - (sum(ms) - ms[x] - ms[y]), 6, "rambo:mass", note)
                    if n == 3:
                        i = ({0, 1, 2} - {x, y}).pop()
                        fr = moment(q, ms, i, ((q * q + ms[i] ** 2 - dist.bins ** 2) / (2 * q))[::-1])[::-1]
                        T.close(dist.probabilities * np.diff(dist.bins), fr, "rambo:mass:shape", 0, tol, note=f"{note} {x}{y}")
            T.check(True, "none")
    elif k == "hist":
        y = spec[1]
        n = len(y)
        for edges in (np.linspace(1.0, 3.0, n + 1), 2.0 * 1.7 ** np.arange(n + 1), -3.0 + np.arange(n + 1) ** 1.5):
            for ex, ey in ((edges, np.array(y)), (list(edges), list(y))):
                T.step()
                keep = (np.array(ex), np.array(ey))
                d = PhaseSpaceDistribution1D(ex, ey)
                T.check(np.array_equal(keep[0], ex) and np.array_equal(keep[1], ey), "hist:inputs", str(spec))
                w = np.diff(edges)
                tot = float(np.dot(w, y))
                if min(y) < 0:
                    T.check(np.all(np.isnan(d.probabilities)) if tot <= 0 else True, "hist:negative", str(spec))
                    continue
                p = np.array(y) / tot if tot > 0 else np.array(y)
                if hasattr(PU, "normalize_distribution"):
                    T.close(PU.normalize_distribution(np.array(y), edges), p, "hist:normalize", 1e-12, note=str(spec))
                T.close(d.probabilities, p, "hist:normalised", 1e-12, note=str(spec))
                c = edges[:-1] + w / 2
                T.close(d.bin_centers, c, "hist:centres", 1e-12, note=str(spec))
                T.close(d.limits(), [edges[0], edges[-1]], "hist:limits", 0)
                xs = np.linspace(edges[0] - 1, edges[-1] + 1, 31)
                want = np.where((xs < edges[0]) | (xs > edges[-1]), 0.0, np.interp(xs, c, p))
                T.close(d(xs), want, "hist:call", 1e-12, 1e-15, note=str(spec))
                T.close(d(c), p, "hist:call", 1e-12, note=str(spec))
                T.close([d(edges[0] - 1e-6), d(edges[-1] + 1e-6)], [0, 0], "hist:outside", 0, note=str(spec))
                # the caller goes on using the arrays handed over
                mine = (edges.copy(), np.array(y, float))
                d = PhaseSpaceDistribution1D(*mine)
                for a in mine:
                    a *= 3.0
                T.close(d.limits(), [edges[0], edges[-1]], "hist:shared", 0, note=str(spec))
                T.close(d(xs), want, "hist:shared", 1e-12, 1e-15, note=str(spec))
                for fn, args in ((lambda x: x, ()), (lambda x, a, b: a * x ** 2 + b, (2.0, -1.0)), (lambda x: np.array([1.0, x, np.sin(x)]), ())):
                    vals = np.array([fn(x, *args) for x in c])
                    dens = (p[:, None] * vals if vals.ndim > 1 else p * vals)
                    T.step(2)
                    T.close(d.expect(fn, args=args), np.trapezoid(dens, c, axis=0), "hist:expect:trapz", 1e-12, 1e-14, note=str(spec))
                    if n > 2:
                        from scipy.integrate import simpson
                        T.close(d.expect(fn, method="simps", args=args), simpson(dens, x=c, axis=0), "hist:expect:simps", 1e-12, 1e-13, note=str(spec))
                    if vals.ndim == 1:
                        g, gw = np.polynomial.legendre.leggauss(10)
                        tot2 = 0.0
                        nodes, heights = np.concatenate([edges[:1], c, edges[-1:]]), np.concatenate([p[:1], p, p[-1:]])
                        for a, b, pa, pb in zip(nodes[:-1], nodes[1:], heights[:-1], heights[1:]):
                            u = 0.5 * (b - a) * g + 0.5 * (a + b)
                            tot2 += 0.5 * (b - a) * np.sum(gw * (pa + (pb - pa) * (u - a) / (b - a)) * np.array([fn(x, *args) for x in u]))
                        T.close(d.expect(fn, method="quad", args=args), tot2, "hist:expect:quad", 2e-3, 2e-3 * np.max(np.abs(vals)), note=str(spec))
                try:
                    d.expect(lambda x: x, method="nonsense")
                    T.check(False, "hist:method", str(spec))
                except ValueError:
                    T.check(True, "hist:method")
        for bad in (([1.0, 2.0], [1.0, 2.0]), ([[1.0, 2.0]], [1.0])):
            try:
                PhaseSpaceDistribution1D(*bad)
                T.check(False, "hist:shapes", str(bad))
            except AssertionError:
                T.check(True, "hist:shapes")
        T.state(spec)
        T.outcome(y)
    else:
        from hazma.phase_space import _utils as u
        ms = spec[1]
        for q in (sum(ms) + 1.0, sum(ms) * 3 + 0.1):
            T.step(2)
            if hasattr(u, "energy_limits"):
                T.close(u.energy_limits(q, ms), [(m, (q * q + m * m - (sum(ms) - m) ** 2) / (2 * q)) for m in ms], "limits:energy", 1e-12, note=str(spec))
            if hasattr(u, "invariant_mass_limits"):
                lim = u.invariant_mass_limits(q, ms)
                want = {(i, j): (ms[i] + ms[j], q - (sum(ms) - ms[i] - ms[j])) for i, j in itertools.combinations(range(len(ms)), 2)}
                T.check(set(lim) == set(want), "limits:pairs", str(spec))
                for key in want:
                    T.close(lim[key], want[key], "limits:mass", 1e-12, 1e-12 * q, note=str(spec))
            if hasattr(u, "two_body_phase_space_prefactor"):
                T.close(u.two_body_phase_space_prefactor(np.array([q, 2 * q]), ms[0], ms[1]),
                        _ps.phi2(np.array([q, 2 * q]), ms[0], ms[1]), "limits:prefactor", 1e-6, note=str(spec))


def fractions(q, ms, i, f, edges):
    e = np.concatenate([np.linspace(a, b, 24, endpoint=False) + (b - a) / 48 for a, b in zip(edges[:-1], edges[1:])])
    v = e_density(q, ms, i, f, e).reshape(-1, 24).sum(axis=1) * np.diff(edges)
    return v / v.sum()


_MC = {}


def moment(q, ms, i, edges):
    """Bin contents for the matrix element 1 + 3 E_0 / q."""
    if len(ms) == 3:
        return fractions(q, ms, i, lambda s, t: 1 + 3 * (q * q + ms[0] ** 2 - s) / (2 * q) / q, edges)
    # four bodies: E_i recoils against a three-body system; E_0's average there is its share by symmetry of the flat volume
    e = np.concatenate([np.linspace(a, b, 12, endpoint=False) + (b - a) / 24 for a, b in zip(edges[:-1], edges[1:])])
    rest = [m for j, m in enumerate(ms) if j != i]
    M = np.sqrt(np.maximum(q * q + ms[i] ** 2 - 2 * q * e, 0))
    vol = np.array([volume(m, rest) for m in M])
    if i == 0:
        fac = 1 + 3 * e / q
    else:
        # mean energy of particle 0 in the rest system's frame, boosted: gamma * <E0>
        fac = 1 + 3 * (q - e) / q * np.array([mean_energy(m, rest) for m in M]) / np.maximum(M, 1e-12)
    v = (vol * np.sqrt(np.maximum(e * e - ms[i] ** 2, 0)) * fac).reshape(-1, 12).sum(axis=1) * np.diff(edges)
    return v / v.sum()


def volume(m, ms):
    return _ps.dalitz(m, ms, lambda s, t: 1.0 + 0 * s, 16) if m > sum(ms) else 0.0


def mean_energy(m, ms):
    # particle 0 of the four is the first of the remaining three
    if m <= sum(ms):
        return ms[0]
    return _ps.dalitz(m, ms, lambda s, t: (m * m + ms[0] ** 2 - s) / (2 * m), 16) / volume(m, ms)
