"""Decay spectra of parents at rest and in flight."""
import math
import warnings

import numpy as np

from . import _decays as D

ID = "C22"
PROP = dict(
    title="Decay spectra of moving parents are boost integrals of the rest-frame decay",
    statement=(
        "For every photon, positron and neutrino spectrum function (muon, pions, kaons, eta, eta', rho, omega, phi), every "
        "parent energy and every product energy: at rest the function is the decay spectrum of its particle (published muon "
        "and pion formulas, shipped tables, zero outside the decay's energy range), below the parent's mass it is zero, and in "
        "flight it is the isotropic boost integral of that spectrum plus the boxes of its lines with their branching "
        "fractions and two-body energies. Numbers of particles are therefore independent of the parent's energy and the "
        "mean product energy grows with gamma."),
    quantifier=dict(over=["inputs"], text="34 spectrum functions x a lattice of parent energies x product energies on both sides of every end, line and table node"),
    why_tests_cant="Tests compare sampled values with stored ones, defects included, or check the Rust kernels against stored points; they cannot tell right from wrong values.",
    anchors=dict(files=["rust/src/kernels", "rust/src/boost.rs", "hazma/spectra/_positron/_utils.py", "hazma/spectra/_neutrino/_utils.py",
                        "hazma/spectra/_photon/__init__.py", "hazma/spectra/_positron/__init__.py", "hazma/spectra/_neutrino/__init__.py"],
                 mechanism=[dict(name="boost_integrate_linear_interp, boost_delta_function", where="rust/src/boost.rs"),
                            dict(name="dnde_photon_*, dnde_positron_*, dnde_neutrino_* kernels", where="rust/src/kernels"),
                            dict(name="dnde_positron / dnde_neutrino", where="hazma/spectra/_positron/_utils.py, hazma/spectra/_neutrino/_utils.py")]),
)
TECHNIQUE = "exhaustive enumeration of spectrum functions, parent energies and product energies around every kinematic end against independently integrated rest-frame spectra"
LEVEL_NOTE = ("All 34 functions x 7 (thorough 14) parent energies (rho: 3) x product energies on both sides of every boosted end, line and a selection of table nodes. "
              "Recorded upstream defects are recognised by the exact wrong value their description predicts; any other deviation is a violation.")
RULE = "one case per function and parent energy; non-trivial when values were compared with the boost integral"
CORE = True
CHUNK = 1

GAMMAS = [0.5, 1.0, 1.001, 1.2, 2.0, 6.0, 30.0]
MORE = [1.00001, 1.01, 1.05, 1.5, 3.0, 12.0, 100.0, 1000.0]
TABLES = ["charged_kaon", "long_kaon", "short_kaon", "eta", "eta_prime", "omega", "phi"]
POS = dict(charged_kaon="charged_kaon", long_kaon="long_kaon", short_kaon="short_kaon", eta="eta", eta_prime="eta_prime",
           charged_rho="rho", neutral_rho="rho", omega="omega", phi="phi")
NU = dict(charged_kaon="charged_kaon", long_kaon="long_kaon", short_kaon="short_kaon", eta="eta", eta_prime="eta_prime",
          charged_rho="charged_rho", neutral_rho="neutral_rho", omega="omega", phi="phi")


def cases(tier):
    gs = GAMMAS if tier == "quick" else GAMMAS + MORE
    for n in ("neutral_rho", "charged_rho"):
        for g in (0.5, 1.0, 1.3, 5.0) if tier == "quick" else (0.5, 1.0, 1.01, 1.3, 2.0, 5.0, 12.0):
            yield ["photon", n, g]
    for g in gs:
        for n in ["charged_pion", "muon", "neutral_pion"] + TABLES:
            if n != "charged_pion" or g <= 100:     # QUADPACK does not resolve the cone beyond
                yield ["photon", n, g]
        for n in ["muon", "charged_pion"] + sorted(POS):
            yield ["positron", n, g]
        for n in ["muon", "charged_pion"] + sorted(NU):
            yield ["neutrino", n, g]


def lattice(ends, E, M, m, extra=()):
    """Lab energies on both sides of the boosted images of rest-frame energies."""
    if E <= M:
        marks = sorted(ends)
    else:
        marks = sorted(y for x in ends for y in D.flight_ends(x, E, M, m))
    out = set()
    for x in marks:
        out |= {x * (1 - 1e-5), x * (1 + 1e-5)}
    for a, b in zip(marks, marks[1:]):
        out |= {0.5 * (a + b), a + 0.07 * (b - a), math.sqrt(a * b) if a > 0 else b / 3}
    hi = marks[-1]
    out |= {hi * f for f in (1e-6, 1e-3, 0.03, 0.2, 0.6, 0.9, 0.99, 1.2, 3.0)} | set(extra)
    # nothing on an end itself: which side it belongs to is a matter of rounding
    return np.array(sorted(x for x in out if x > m * (1 + 1e-4) and all(abs(x - y) > 3e-6 * y for y in marks)))


def run(spec, T):
    from hazma import spectra
    kind, name, g = spec
    M = D.MASS[name]
    E = M if g == 1.0 else g * M
    fn = getattr(spectra, f"dnde_{kind}_{name}")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            globals()["run_" + kind](T, fn, name, M, E)


def below(T, fn, E, kind):
    es = np.array([1e-3, 1.0, 0.3 * E, 0.6 * E])
    got = np.asarray(fn(es, E))
    T.step()
    T.close(got, np.zeros((3, 4) if kind == "neutrino" else 4), "below-threshold")


def settle(T, key, es, got, want, rtol, atol, known=()):
    """want, or else one of the recorded wrong values (finding key, values) with the same tolerances."""
    got = np.asarray(got, float)
    T.outcome(want)
    if got.shape != np.shape(want):
        T.fail(key, f"shape {got.shape} for {np.shape(want)}")
        return
    for i in range(len(es)):
        T.comparisons += 1
        if abs(got[i] - want[i]) <= atol + rtol * abs(want[i]):
            continue
        for fkey, vals in known:
            if vals is not None and abs(got[i] - vals[i]) <= atol + rtol * abs(vals[i]):
                T.fail(fkey, f"E={es[i]!r}: {got[i]!r}, the boost integral is {want[i]!r}")
                break
        else:
            T.fail(key, f"E={es[i]!r}: got {got[i]!r}, expected {want[i]!r} (rtol {rtol}, atol {atol})")
            return


def shipped_pion(restf, e, E, M):
    """The recorded quadrature of the pion's neutrinos: default tolerances, over the whole window, beyond the end of restf too."""
    from scipy.integrate import quad
    lo, hi, _, _ = D.window(e, 0.0, E, M)
    val = quad(lambda x: float(restf(np.array([x]))[0]) / x, max(lo, 0.0), hi)[0]
    return val / (2 * math.sqrt((E / M) ** 2 - 1))


def run_photon(T, fn, name, M, E):
    if E < M:
        below(T, fn, E, "photon")
        return
    rest = E == M
    if name == "neutral_pion":
        if rest:
            got = fn(np.array([1.0, 67.0, 68.0]), E)
            T.step()
            T.close(got, np.zeros(3), "photon-neutral_pion-rest")
            return
        es = lattice([M / 2], E, M, 0.0)
        want = np.array([2 * 0.98823 * D.box(e, M / 2, E, M) for e in es])
        b32 = float(np.float32(math.sqrt((1 - M / E) * (1 + M / E))))
        single = np.where((es > E / 2 * (1 - b32)) & (es < E / 2 * (1 + b32)), 2 * 0.98823 / (E * b32), 0.0)
        settle(T, "photon-neutral_pion", es, fn(es, E), want, 2e-6, 0, [("photon-neutral_pion-single-precision", single)])
    elif name == "muon":
        r = (D.ME / M) ** 2
        ends = [D.MUON_PHOTON_TOP, M / 2 * (1 - math.sqrt(r))]
        es = lattice(ends, E, M, 0.0)
        if rest:
            want = D.muon_photon(es)
            settle(T, "photon-muon", es, fn(es, E), want, 1e-9, 1e-16,
                   [("photon-muon-rest-endpoint", D.muon_photon(es, endpoint=1 - math.sqrt(r)))])
        else:
            want = D.muon_photon_flight(es, E)
            settle(T, "photon-muon", es, fn(es, E), want, 1e-6, 1e-9 * np.max(want) + 1e-14)
    elif name == "charged_pion":
        es = lattice(D.PION_PHOTON_BREAKS, E, M, 0.0)
        if rest:
            want = D.pion_photon(es)
        else:
            want = np.array([D.boosted(D.pion_photon_fast, e, E, M, breaks=D.PION_PHOTON_BREAKS, top=D.PION_PHOTON_TOP, sub=2) for e in es])
        got = np.asarray(fn(es, E))
        # the angular quadrature finds nothing when the contributing cone is narrower than its rule resolves
        cone = np.zeros(len(es), bool)
        if not rest:
            b, g = D.window(1.0, 0.0, E, M)[2:]
            c = (1 - D.PION_PHOTON_TOP / (es * g)) / b
            cone = c > 0.93
        T.step()
        settle(T, "photon-charged_pion", es[~cone], got[~cone], want[~cone], 3e-4, 3e-10)
        bad = cone & (got <= want * (1 + 3e-4) + 3e-10) & (got >= -1e-12)
        settle(T, "photon-charged_pion", es[cone], got[cone], want[cone], 3e-4, 3e-10,
               [("photon-charged_pion-forward-cone", np.where(bad, got, np.nan)[cone])])
    elif name in ("neutral_rho", "charged_rho"):
        run_rho(T, fn, name, M, E, rest)
    else:
        x, y = D.table("photon", name + "_photon.csv")
        if rest:
            es = np.unique(np.concatenate([x[[0, 1, 7, len(x) // 2, -2, -1]], 0.5 * (x[1:] + x[:-1])[::17], [x[0] / 3, x[0] * 1e-4, x[-1] * 1.01, 2 * M]]))
            want = np.where(es > x[-1], 0.0, np.where(es < x[0], y[0] * x[0] / es, np.interp(es, x, y)))
            settle(T, "photon-" + name, es, fn(es, E), want, 1e-9, 0)
        else:
            ln, bad = D.LINES[name], D.BAD_LINES[name]
            ends = [x[0], x[len(x) // 3], x[-1]] + [l[0] for l in ln] + [l[0] for l in bad]
            es = lattice(ends, E, M, 0.0)
            both = np.array([D.photon_table(x, y, e, E, M) for e in es])
            lines = np.array([sum(w * D.box(e, e0, E, M) for e0, w in ln) for e in es])
            blines = np.array([sum(w * D.box(e, e0, E, M) for e0, w in bad) for e in es])
            peak = np.max(both[:, 0])
            known = [("photon-table-cell", both[:, 1] + lines)]
            if ln != bad:
                known += [("photon-" + name + "-lines", both[:, 0] + blines), ("photon-" + name + "-lines", both[:, 1] + blines)]
            settle(T, "photon-" + name, es, fn(es, E), both[:, 0] + lines, 1e-6, 1e-10 * peak, known)
    T.step()


def run_rho(T, fn, name, M, E, rest):
    e_pi = D.two_body(M, D.MPI, D.MPI if name == "neutral_rho" else D.MPI0)
    e_pi0 = D.two_body(M, D.MPI0, D.MPI)
    pion_ends = sorted(y for x in D.PION_PHOTON_BREAKS for y in D.flight_ends(x, e_pi, D.MPI))
    box_ends = D.flight_ends(D.MPI0 / 2, e_pi0, D.MPI0)

    def restf(e):
        e = np.atleast_1d(e)
        v = np.array([D.boosted(D.pion_photon_fast, x, e_pi, D.MPI, breaks=D.PION_PHOTON_BREAKS, top=D.PION_PHOTON_TOP) for x in e])
        if name == "neutral_rho":
            return 2 * v
        return v + np.array([2 * 0.98823 * D.box(x, D.MPI0 / 2, e_pi0, D.MPI0) for x in e])
    breaks = pion_ends + (box_ends if name == "charged_rho" else [])
    top = max(breaks)
    es = np.array([0.5, 5.0, 30.0, 100.0, 200.0, 330.0, 0.999 * top, 1.001 * top]) if rest else \
        np.array(sorted([0.7, 8.0, 60.0, 200.0] + [y * f for x in (box_ends if name == "charged_rho" else []) for y in D.flight_ends(x, E, M) for f in (0.93, 1.08)]
                        + [0.3 * top * E / M, 1.1 * D.flight_ends(top, E, M)[1]]))
    want = restf(es) if rest else np.array([D.boosted(restf, e, E, M, breaks=breaks, top=top) for e in es])
    got = np.asarray(fn(es, E))
    known = [("photon-rho-rest-branch", want / es)] if rest else []
    # the pions' forward cone is missing above some energy (recorded), with it what the boost integral gets from there
    b, g = D.window(1.0, 0.0, e_pi, D.MPI)[2:]
    first = D.PION_PHOTON_TOP / (g * (1 - 0.93 * b))
    lim = first if rest else D.window(first, 0.0, E, M)[0]
    for sel, kn in ((es < lim, known), (es >= lim, known + [("photon-rho-forward-cone", np.where((got >= -1e-12) & (got <= want * 1.001), got, np.nan))])):
        settle(T, "photon-" + name, es[sel], got[sel], want[sel], 1e-3, 1e-9, [(k, v[sel]) for k, v in kn])


def run_positron(T, fn, name, M, E):
    if E < M:
        below(T, fn, E, "positron")
        return
    rest, me = E == M, D.ME
    rf = (1 - 8 * (me / D.MMU) ** 2 + 8 * (me / D.MMU) ** 6 - (me / D.MMU) ** 8 - 12 * (me / D.MMU) ** 4 * math.log((me / D.MMU) ** 2))
    wrong = rf * rf     # normalisation divided instead of multiplied
    out = np.array([0.1, 0.4])
    T.close(fn(out, E), np.zeros(2), "positron-below-mass")
    if name == "muon":
        es = lattice([me, D.MICHEL_TOP, 10.0], E, M, me)
        want = D.michel(es) if rest else D.michel_flight(es, E)
        settle(T, "positron-muon", es, fn(es, E), want, 1e-7, 1e-8 * np.max(want), [("positron-muon-normalization", want * wrong)])
    elif name == "charged_pion":
        ends = D.flight_ends(D.MICHEL_TOP, D.E_MU_PI, D.MMU, me)
        line = D.two_body(M, me, 0)
        es = lattice([me, 5.0] + ends + [line], E, M, me)
        if rest:
            T.close(fn(es, E), np.zeros(len(es)), "positron-charged_pion-rest-note")
            return
        mu = np.array([D.boosted(lambda x: D.michel_flight(x, D.E_MU_PI), e, E, M, m=me, breaks=D.graded(ends), top=max(ends)) for e in es])
        ln = np.array([D.BR_E * D.box(e, line, E, M, me) for e in es])
        settle(T, "positron-charged_pion", es, fn(es, E), D.BR_MU * mu + ln, 2e-5 if E < 50 * M else 1e-3, 1e-6 * np.max(mu) + 2e-10,
               [("positron-muon-normalization", D.BR_MU * mu * wrong + ln)])
    else:
        x, y = D.table("positron", POS[name] + "_positron.csv")
        if name == "neutral_rho":
            y = 2 * y       # the table is that of one charged pion; both decay
        generic_table(T, fn, "positron-" + name, x, y, M, E, rest, electron_mass(), lambda f, es: f(es, E))
    T.step()


def electron_mass():
    from hazma import parameters
    return parameters.electron_mass


def generic_table(T, fn, key, x, y, M, E, rest, m, call, order=1, lines=()):
    from scipy.interpolate import InterpolatedUnivariateSpline
    x = x.copy()
    k = np.sqrt(np.maximum(x * x - m * m, 0)) if m else x
    ok = k > 0
    z = np.zeros(len(x))
    z[ok] = y[ok] / k[ok]
    spl = InterpolatedUnivariateSpline(x[ok], z[ok], k=order)
    x0, x1 = x[ok][0], x[ok][-1]
    if rest:
        es = np.unique(np.concatenate([x[ok][[0, 3, len(x) // 2, -2, -1]], 0.5 * (x[1:] + x[:-1])[ok[1:]][3::17], [x0 * 0.9 if not m else x0, x1 * 1.001, 2 * x1]]))
        es = es[es > m * 1.001]
        kk = np.sqrt(es * es - m * m) if m else es
        want = np.where((es >= x0) & (es <= x1), spl(es) * kk, 0.0)
    else:
        es = lattice([x0 if not m else m * 1.01, x[len(x) // 3], x[len(x) // 2], x1] + [e0 for e0, _ in lines], E, M, m)
        want = np.zeros(len(es))
        for i, e in enumerate(es):
            lo, hi, b, g = D.window(e, m, E, M)
            if hi > x0 and lo < x1:
                want[i] = spl.integral(max(lo, x0), min(hi, x1)) / (2 * b * g)
    table = want
    if not rest:
        want = want + sum(np.array([br * D.box(e, e0, E, M, m) for e in es]) for e0, br in lines)
    peak = np.max(np.abs(want)) or 1.0
    settle(T, key, es, call(fn, es), want, 1e-5, 1e-9 * peak)
    # the interpolation between table rows follows the table: coarse agreement with straight lines
    if not rest:
        coarse = np.array([D.lin_integral(x[ok], z[ok], lo, hi) / (2 * b * g) for lo, hi, b, g in (D.window(e, m, E, M) for e in es)])
        wide = np.array([D.window(e, m, E, M)[1] / D.window(e, m, E, M)[0] > 1.3 for e in es])
        settle(T, key + "-lines", es[wide], table[wide], coarse[wide], 2e-2, 2e-3 * peak)


def run_neutrino(T, fn, name, M, E):
    if E < M:
        below(T, fn, E, "neutrino")
        return
    rest = E == M
    for flav in ("e", "mu"):
        call = lambda f, es: f(es, E, flavor=flav)
        if name == "muon":
            es = lattice([5.0, D.MUON_NU_TOP], E, M, 0.0)
            want = D.muon_nu(es, flav) if rest else D.muon_nu_flight(es, E, flav)
            settle(T, "neutrino-muon", es, call(fn, es), want, 1e-6, 1e-9 * np.max(want))
        elif name == "charged_pion":
            ends = D.flight_ends(D.MUON_NU_TOP, D.E_MU_PI, D.MMU)
            le, lm = D.two_body(M, 0, D.ME), D.two_body(M, 0, D.MMU)
            es = lattice([5.0] + ends + [le, lm], E, M, 0.0)
            restf = lambda x: D.muon_nu_flight(x, D.E_MU_PI, flav)
            known = []
            if rest:
                want = D.BR_MU * restf(es)
            else:
                cont = np.array([D.boosted(restf, e, E, M, breaks=D.graded(ends), top=max(ends)) for e in es])
                ln = np.array([D.BR_E * D.box(e, le, E, M) if flav == "e" else D.BR_MU * D.box(e, lm, E, M) for e in es])
                want = D.BR_MU * cont + ln
                if flav == "e":
                    known = [("neutrino-pion-electron-line", D.BR_MU * cont + 2 * ln)]
            # absolute tolerance of the quadrature, 1.5e-8, over 2 beta gamma
            quad = 2e-8 / (2 * math.sqrt((E / M) ** 2 - 1)) if not rest else 0
            # the known finding: the quadrature runs beyond the end of the muon's spectrum and finds nothing in a narrow remainder
            if not rest:
                part = np.array([(max(ends) - lo) / (hi - lo) for lo, hi, _, _ in (D.window(e, 0.0, E, M) for e in es)])
                lines = known[0][1] - D.BR_MU * cont if known else ln
                first = np.array([shipped_pion(restf, e, E, M) if p < 0.5 else np.nan for e, p in zip(es, part)]) * D.BR_MU + lines
                known.append(("neutrino-pion-upper-end", first))
            settle(T, "neutrino-charged_pion", es, call(fn, es), want, 2e-5, 3e-8 + quad + 1e-9 * np.max(want), known)
        else:
            x, y = D.table("neutrino", f"{NU[name]}_neutrino_{flav}.csv")
            lines = [(D.two_body(M, 0.0, D.MMU), 0.6356)] if (name, flav) == ("charged_kaon", "mu") else []
            generic_table(T, fn, f"neutrino-{name}", x, y, M, E, rest, 0.0, call, order=2, lines=lines)
        T.step()
        got = np.asarray(fn(np.array([1.0, 20.0]), E))
        T.close(got[0 if flav == "e" else 1], call(fn, np.array([1.0, 20.0])), "neutrino-flavor-row")
    T.close(fn(np.array([1.0, 20.0]), E, flavor="tau"), np.zeros(2), "neutrino-tau")
