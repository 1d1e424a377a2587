"""What a caller of hazma.spectra may rely on: elementwise, pure, finite, non-negative, inside the kinematic range."""
import math
import warnings

import numpy as np

from . import _decays as D

ID = "C21"
PROP = dict(
    title="Decay spectrum functions are elementwise, pure and within kinematic limits",
    statement=(
        "Every dnde_photon_*, dnde_positron_* and dnde_neutrino_* decay spectrum: for every parent energy the value at an energy is a finite, "
        "non-negative number which does not depend on the container it was asked in (number, numpy scalar, array of any "
        "layout or order, list, with repetitions, among any neighbours, empty), on earlier calls, or on whether one neutrino flavor or all "
        "three are requested (rows e, mu, tau; no tau neutrinos; any other flavor is refused); scalars give scalars (one per "
        "flavor), arrays fresh arrays of the same length. It is zero below the parent's rest mass, for positrons lighter than "
        "an electron, and above the largest energy momentum conservation allows."),
    quantifier=dict(over=["inputs", "histories"], text="34 spectrum functions x parent energies x containers x orders of calls"),
    why_tests_cant="Tests evaluate a few functions on sorted grids; a wrong mask, a value depending on its neighbours, or a flavor mix-up needs other containers or orders.",
    anchors=dict(files=["hazma/spectra/_photon/__init__.py", "hazma/spectra/_positron/__init__.py", "hazma/spectra/_positron/_utils.py",
                        "hazma/spectra/_neutrino/__init__.py", "hazma/spectra/_neutrino/_utils.py", "rust/src/dispatch.rs"],
                 mechanism=[dict(name="dnde_positron / dnde_neutrino", where="hazma/spectra/_positron/_utils.py, hazma/spectra/_neutrino/_utils.py"),
                            dict(name="map_unary / map_flavors", where="rust/src/dispatch.rs")]),
)
TECHNIQUE = "exhaustive enumeration of spectrum functions, parent energies, containers and call orders against the function's own scalar values and kinematic limits"
LEVEL_NOTE = ("All 34 functions x 6 (thorough 12) parent energies x 16 containers/orders. Photon tables may spill one interpolation cell (6 percent) over their end. Interpolated tables may undershoot zero by 2e-4 of their "
              "peak; integer arrays may be refused with ValueError (compiled functions document this) but not misread.")
RULE = "one case per function and parent energy; non-trivial when containers were compared"
CORE = True
CHUNK = 1
QUICK = [0.6, 1.0, 1.0003, 1.4, 4.0, 25.0]
MORE = [0.999999, 1.0000001, 1.05, 2.0, 9.0, 80.0]
NAMES = ["muon", "charged_pion", "charged_kaon", "long_kaon", "short_kaon", "eta", "eta_prime", "charged_rho", "neutral_rho", "omega", "phi"]


def cases(tier):
    for kind in ("photon", "positron", "neutrino"):
        for n in NAMES + (["neutral_pion"] if kind == "photon" else []):
            for g in QUICK + (MORE if tier == "thorough" else []):
                yield [kind, n, g]


def top_energy(kind, name, M):
    """Largest energy in the parent's frame: against the lightest system allowed opposite to it."""
    if kind == "photon":
        return M / 2
    if kind == "positron":
        return (M * M + D.ME ** 2) / (2 * M)
    return M / 2


def run(spec, T):
    from hazma import spectra
    kind, name, g = spec
    M = D.MASS[name]
    E = M if g == 1.0 else g * M
    fn = getattr(spectra, f"dnde_{kind}_{name}")
    flavors = kind == "neutrino"
    key = f"{kind}-{name}"
    slow = kind == "photon" and ("rho" in name or name == "charged_pion")
    b = math.sqrt(max(0.0, 1 - (M / E) ** 2))
    m = D.ME if kind == "positron" else 0.0
    e0 = top_energy(kind, name, M)
    edge = max(E, M) / M * (e0 + b * math.sqrt(e0 * e0 - m * m)) if E >= M else e0
    inside = [edge * f for f in ((0.013, 0.4) if slow else (1e-3, 0.05, 0.31, 0.52, 0.77, 0.96))] + ([7.0] if slow else [1.0, 7.0, 30.0])
    out = [edge * (1.0001 if kind != "photon" or name in ("muon", "charged_pion", "neutral_pion") or "rho" in name else 1.06) + 1e-4, edge * 2.5, 1e5]
    low = [0.3, 0.5] if kind == "positron" else []
    es = inside + out + low
    # a line of the parent at rest has no finite density
    if name == "neutral_pion" and g == 1.0:
        es = [e for e in es if abs(e - M / 2) > 1e-6 * M]
    if name == "neutral_pion" and g > 1:
        es = es + [M / 2]
    n = len(es)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            body(T, fn, key, flavors, es, n, M, E, edge, m, out, low)


def body(T, fn, key, flavors, es, n, M, E, edge, m, out, low):
    calls = [0]

    def f(x, **kw):
        T.step()
        calls[0] += 1
        return fn(x, E, **kw)
    base = np.asarray(f(np.array(es)), float)
    T.state(key, E)
    T.outcome(np.round(base, 12).tolist())
    shape = (3, n) if flavors else (n,)
    if base.shape != shape:
        T.fail(key + ":shape", f"{base.shape} for {n} energies")
        return
    T.check(np.all(np.isfinite(base)), key + ":finite", f"{es}: {base}")
    peak = np.max(np.abs(base))
    T.check(np.all(base >= -2e-4 * peak - 1e-11), key + ":sign", f"{es}: {base}")
    if E < M:
        T.check(np.all(base == 0), key + ":below-rest-mass", f"{base}")
    else:
        T.check(peak > 0 or (key, E) == ("photon-neutral_pion", M) or (key.endswith("charged_pion") and E == M), key + ":empty", "identically zero")
    for i, e in enumerate(es):
        if e in out or e in low:
            spill = base[..., i]
            if key == "photon-phi" and E > M:        # recorded: its lines are at the mesons' energies
                wrong = sum(w * D.box(e, x, E, M) for x, w in D.BAD_LINES["phi"])
                if wrong and abs(spill - wrong) <= 1e-6 * wrong:
                    T.fail("photon-phi-lines", f"E={e}: {spill}, the range ends at {edge}")
                    continue
            T.check(np.all(np.abs(spill) <= 1e-13 * peak), key + ":outside", f"E={e}: {spill}, the range ends at {edge}")
    tol = dict(rtol=1e-10, atol=1e-13 * peak)
    same = lambda got, want: np.shape(got) == np.shape(want) and np.allclose(np.asarray(got, float), want, **tol)

    def grid(x, idx, what):
        keep = np.array(x, copy=True)
        got = f(x)
        T.check(isinstance(got, np.ndarray) and got.dtype == np.float64 and same(got, base[..., idx]), key + ":container",
                f"{what}: {got!r}, expected {base[..., idx]!r}")
        T.check(np.array_equal(np.asarray(x), keep), key + ":argument-changed", what)
        if isinstance(x, np.ndarray) and isinstance(got, np.ndarray):
            T.check(not np.shares_memory(got, x) and got.flags.writeable, key + ":fresh", what)
            got[...] = -7.0           # must not reach anything the function keeps
    a = np.array(es)
    idx = list(range(n))
    rev = idx[::-1]
    perm = [(7 * i + 3) % n for i in idx] if math.gcd(7, n) == 1 else [(5 * i + 3) % n for i in idx]
    grid(a, idx, "array")
    grid(a[::-1], rev, "reversed view")
    grid(a[perm], perm, "permuted")
    grid(np.repeat(a, 2)[::2], idx, "strided view")
    grid(np.column_stack([a, -a])[:, 0], idx, "column")
    ro = a.copy()
    ro.flags.writeable = False
    grid(ro, idx, "read-only array")
    grid(list(es), idx, "list")
    grid(a[:1], [0], "one element")
    grid(a[[2, 2, 0]], [2, 2, 0], "repetition")
    grid(a[:3], [0, 1, 2], "three elements")
    grid(a[[-1, 0]], [n - 1, 0], "two elements")
    got = f(np.array([]))
    T.check(np.shape(got) == ((3, 0) if flavors else (0,)), key + ":empty-array", f"{got!r}")
    # scalars
    for i, e in enumerate(es):
        for x in (e, np.float64(e)) + ((int(e),) if e == int(e) else ()):
            got = f(x)
            ok = same(np.asarray(got, float), base[..., i])
            if not flavors:
                ok = ok and (isinstance(got, float) or (isinstance(got, np.ndarray) and got.ndim == 0 and False))
            T.check(ok, key + ":scalar", f"{type(x).__name__} {x!r}: {got!r} ({type(got).__name__}), in an array {base[..., i]!r}")
    # integers in arrays: refused or understood
    whole = [7, 100, 30]
    want = np.asarray(f(np.array(whole, float)), float)
    for x in (np.array(whole), whole):
        try:
            got = f(x)
        except ValueError:
            T.comparisons += 1
            continue
        T.check(same(got, want), key + ":integers", f"{x!r}: {got!r}, as floats {want!r}")
    if flavors:
        for row, fl in enumerate(("e", "mu", "tau")):
            got = f(a, flavor=fl)
            T.check(same(got, base[row]), key + ":flavor", f"{fl}: {got!r}, row {base[row]!r}")
            s = f(es[1], flavor=fl)
            T.check(same(np.asarray(s, float), base[row, 1]), key + ":flavor-scalar", f"{fl}: {s!r}")
            T.check(same(f(list(es), flavor=fl), base[row]), key + ":flavor-list", fl)
        T.check(np.all(base[2] == 0), key + ":tau", f"{base[2]}")
        T.check(same(f(a, flavor=None), base), key + ":flavor", "None")
        for bad in ("x", "E", "electron", 0.5):
            for x in (a, es[1]):
                try:
                    f(x, flavor=bad)
                    T.fail(key + ":flavor-refusal", f"{bad!r} accepted")
                except (ValueError, KeyError, TypeError):
                    T.comparisons += 1
    # other parents in between leave no trace
    f(a[:2])
    fn(np.array([1.0, 2.0]), 0.9 * M)
    fn(3.0, 1.01 * M)
    T.check(same(f(a), base), key + ":history", "value changed after other calls")
    T.check(same(fn(a, np.float64(E)), base), key + ":parent-type", "np.float64")
