"""The calling convention of every hazma._core entry point."""
import array
import collections
import math

import numpy as np

ID = "C24"
PROP = dict(
    title="Every compiled entry point maps scalars, arrays and sequences alike",
    statement=(
        "Every hazma._core function of an energy (spectra, cross sections, boosts, interpolation, special functions): a number "
        "of any numeric type or 0-d array gives a Python float (neutrinos: three floats); a 1-D float64 array of any layout, "
        "or a sequence converting to one, gives a fresh array of its length (3 x N for neutrinos) holding, at each position, "
        "the value of the scalar call, whatever the other elements are; the argument is never changed. Other ranks and "
        "dtypes raise ValueError, non-numbers TypeError, both naming the quantity. Positional and keyword calls agree."),
    quantifier=dict(over=["inputs", "configurations"], text="43 entry points x 2 settings of the other arguments x 40 forms of the first argument"),
    why_tests_cant="Tests check the convention on probes computing the identity and on a few kernels; a grid may go wrong in one kernel or for one layout only.",
    anchors=dict(files=["rust/src/dispatch.rs", "rust/src/photon.rs", "rust/src/positron.rs", "rust/src/neutrino.rs", "rust/src/scalar_mediator.rs",
                        "rust/src/vector_mediator.rs"],
                 mechanism=[dict(name="classify, map_unary, map_unary_try, map_flavors, require_vector", where="rust/src/dispatch.rs")]),
)
TECHNIQUE = "exhaustive enumeration of entry points x argument forms against the scalar call as reference"
LEVEL_NOTE = "All 43 energy-like entry points x up to 2 settings x 40 argument forms (numeric types, layouts, sequences, wrong ranks, dtypes and types) on grids with thresholds, zeros, infinities and nan."
RULE = "one case per entry point and setting; non-trivial when values or exceptions were compared"
CORE = True
CHUNK = 1

SM = dict(mx=100.0, ms=300.0, gsxx=1.0, gsff=0.5, gsGG=0.1, gsFF=0.2, lam=2e5, width_s=3.0, vs=0.01)
VM = dict(mx=100.0, mv=300.0, gvxx=1.0, gvuu=0.3, gvdd=-0.2, gvss=0.1, gvee=0.05, gvmumu=0.7, width_v=2.0)
TAB = dict(x=np.geomspace(1, 100, 9), y=np.geomspace(3, 0.1, 9))


def entries():
    """module, function, name of the mapped argument, its place, other arguments, quantity, grid, shape"""
    M = dict(muon=105.6583745, pion=139.57039, kaon=493.677, rho=775.26, eta=547.862, eta_prime=957.78, omega=782.66, phi=1019.461)
    for kind, fns in (("photon", dict(muon="muon", charged_pion="pion", neutral_pion="pion", charged_kaon="kaon", long_kaon="kaon", short_kaon="kaon",
                                      eta="eta", eta_prime="eta_prime", charged_rho="rho", neutral_rho="rho", omega="omega", phi="phi")),
                      ("positron", dict(muon="muon", charged_pion="pion")), ("neutrino", dict(muon="muon", charged_pion="pion"))):
        for n, arg in fns.items():
            m = M[arg] + (4.1 if n.endswith("0") or n in ("long_kaon", "short_kaon") else 0)
            for e in (0.8 * m, 1.7 * m):
                grid = [1e-3, 2.0, 10.0, 52.0, 0.3 * e, 0.5 * e, 0.8 * e, 3 * e]
                if "rho" in n:
                    grid = grid[1:7:2] + [3 * e]
                yield kind, f"dnde_{kind}_{n}", kind + "_energies", 0, {arg + "_energy": e}, kind.capitalize() + " energies", grid, "flavors" if kind == "neutrino" else ""
    ecm = [150.0, 200.0, 201.0, 260.0, 279.2, 300.0, 450.0, 700.0, 3000.0]
    for f in ("ss_to_xx", "xg_to_xg", "xl_to_xl", "xpi0_to_xpi0", "xpi_to_xpi", "xs_to_xs", "xx_to_s_to_ff", "xx_to_s_to_gg", "xx_to_s_to_pi0pi0",
              "xx_to_s_to_pipi", "xx_to_ss"):
        for kw in (SM, dict(SM, mx=400.0, ms=150.0)):
            kw = dict(kw, mf=0.511) if f in ("xl_to_xl", "xx_to_s_to_ff") else kw
            yield "scalar_mediator", "sigma_" + f, "e_cms", 0, kw, None, ecm, ""
    for f in ("xx_to_v_to_ff", "xx_to_v_to_pi0g", "xx_to_v_to_pi0v", "xx_to_v_to_pipi", "xx_to_vv"):
        for kw in (VM, dict(VM, mx=400.0, mv=150.0)):
            if f == "xx_to_v_to_ff":
                kw = dict(mx=kw["mx"], mv=kw["mv"], gvxx=1.0, gvll=0.7, width_v=2.0, ml=105.6)
            yield "vector_mediator", "sigma_" + f, "e_cms", 0, kw, None, ecm, ""
    yield "boost", "boost_beta", "energy", 0, dict(mass=3.0), "Parent energies", [3.0, 3.1, 10.0, 1e6, 1.0], ""
    yield "boost", "boost_gamma", "energy", 0, dict(mass=3.0), "Parent energies", [3.0, 3.1, 10.0, 1e6, 1.0], ""
    for b in (0.0, 0.6):
        yield "boost", "boost_delta_function", "e", 1, dict(e0=10.0, m=1.0, beta=b), "Product energies", [1.0, 5.0, 5.1, 10.0, 19.0, 25.0, 0.5], ""
    yield "boost", "boost_integrate_linear_interp", "photon_energy", 0, dict(beta=0.6, **TAB), "Photon energies", [0.1, 1.0, 2.0, 30.0, 90.0, 300.0], ""
    yield "interp", "interp", "x", 0, dict(xp=np.array([1.0, 2.0, 5.0]), fp=np.array([3.0, 1.0, 7.0])), "Interpolation abscissae", [0.5, 1.0, 1.3, 2.0, 4.9, 5.0, 9.0], ""
    yield "special", "bessel_k1", "x", 0, {}, "Bessel arguments", [1e-3, 0.5, 2.0, 2.5, 30.0, 700.0], ""
    for n in (0, 2, 3):
        yield "special", "bessel_kn", "x", 1, dict(n=n), "Bessel arguments", [1e-3, 0.5, 2.0, 9.0, 9.7, 30.0], ""
    yield "special", "spence", "x", 0, {}, "Spence arguments", [0.0, 0.1, 0.5, 1.0, 1.6, 3.0, 50.0], ""
    yield "dispatch", "roundtrip", "x", 0, dict(quantity="Some energies"), "Some energies", [1.0, -2.0, 3.5], ""
    yield "dispatch", "roundtrip_flavors", "x", 0, dict(quantity="Some energies"), "Some energies", [1.0, -2.0, 3.5], "flavors"
    yield "dispatch", "roundtrip_vector", "values", 0, dict(quantity="Some values"), "Some values", [1.0, -2.0, 3.5], "vector"


def cases(tier):
    for i in range(len(list(entries()))):
        yield [i]


def run(spec, T):
    import hazma._core as core
    module, name, arg, pos, kw, quantity, grid, shape = list(entries())[spec[0]]
    key = f"{module}.{name}"
    raw = getattr(getattr(core, module), name)

    def f(x):
        T.step()
        return raw(**{arg: x}, **kw)

    def outcome(x):
        try:
            return "ok", f(x)
        except Exception as e:  # noqa: BLE001
            return type(e).__name__, str(e)
    T.state(*spec)
    if shape == "vector":
        vector(T, key, f, outcome, quantity, grid)
        return
    if module != "dispatch":
        grid = grid + [0.0, -1.0, math.inf, math.nan] if "sigma" not in name and "rho" not in name else grid
    if name == "boost_integrate_linear_interp":
        grid = [g for g in grid if g == g]
    ref = {}
    for v in grid:
        try:
            got = f(v)
        except (ValueError, ZeroDivisionError, ArithmeticError) as e:      # a kernel may refuse an energy
            ref[repr(v)] = e
            continue
        want_type = tuple if shape else float
        T.check(type(got) is want_type and (not shape or [type(g) for g in got] == [float] * 3), key + ":scalar-type", f"{type(got)} for {v!r}")
        ref[repr(v)] = got
        T.outcome(repr(got))
    good = [v for v in grid if not isinstance(ref[repr(v)], Exception)]
    bad = [v for v in grid if isinstance(ref[repr(v)], Exception)]
    same = lambda a, b: np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-12, atol=0, equal_nan=True)
    # numbers of every type
    for v in good:
        forms = [np.float64(v), np.array(v)]
        if math.isfinite(v) and float(np.float32(v)) == v:
            forms += [np.float32(v), np.array(v, np.float32)]
        if math.isfinite(v) and v == int(v):
            forms += [int(v), np.int64(v), np.int32(v), np.array(int(v))]
        if v in (0.0, 1.0):
            forms += [bool(v), np.bool_(v), np.array(bool(v))]
        for x in forms:
            st, got = outcome(x)
            T.check(st == "ok" and type(got) is (tuple if shape else float) and same(got, ref[repr(v)]), key + ":number",
                    f"{type(x).__name__} {x!r}: {st} {got!r}, scalar call {ref[repr(v)]!r}")

    def expect(vals):
        a = np.array([ref[repr(float(v))] for v in vals], float).reshape((len(vals), 3) if shape else (len(vals),))
        return a.T if shape else a

    def grid_ok(x, vals, what):
        a = np.asarray(x)
        before = a.copy()
        st, got = outcome(x)
        want = expect(vals)
        if st != "ok":
            T.fail(key + ":grid", f"{what}: {st} {got}")
            return
        T.check(isinstance(got, np.ndarray) and got.dtype == np.float64 and got.shape == want.shape and same(got, want), key + ":grid",
                f"{what}: {got!r}, element by element {want!r}")
        if isinstance(got, np.ndarray):
            T.check(got.flags.writeable, key + ":fresh", f"{what}: result is read-only")
            T.check(not np.shares_memory(got, a), key + ":fresh", f"{what}: result shares memory with the argument")
        T.check(np.array_equal(np.asarray(x), before, equal_nan=True), key + ":argument-changed", what)
    g = np.array(good)
    n = len(good)
    grid_ok(g, good, "array")
    grid_ok(g[::-1], good[::-1], "reversed view")
    grid_ok(np.repeat(g, 2)[::2], good, "strided view")
    grid_ok(np.asfortranarray(np.column_stack([g, g + 1]))[:, 0], good, "Fortran column")
    grid_ok(np.column_stack([g, g + 1])[:, 0], good, "C column")
    ro = g.copy()
    ro.flags.writeable = False
    grid_ok(ro, good, "read-only")
    grid_ok(list(good), good, "list")
    grid_ok(tuple(good), good, "tuple")
    grid_ok([np.float64(v) for v in good], good, "list of numpy floats")
    grid_ok(array.array("d", good), good, "array.array")
    grid_ok(collections.deque(good), good, "deque")
    for k in (1, 2, 3, 4):
        grid_ok(g[:k], good[:k], f"first {k}")
    grid_ok(g[[0] * 5], [good[0]] * 5, "repeated element")
    perm = [(5 * i + 2) % n for i in range(n)]
    if len(set(perm)) == n:
        grid_ok(g[perm], [good[i] for i in perm], "permuted")
    grid_ok(np.array([]), [], "empty array")
    grid_ok([], [], "empty list")
    if "rho" not in name and "charged_pion" not in name:
        grid_ok(np.tile(g, 40), list(good) * 40, "long")
    for v in bad:
        st, _ = outcome(np.array(good[:2] + [v]))
        T.check(st == type(ref[repr(v)]).__name__, key + ":refused", f"{v!r} alone raises {type(ref[repr(v)]).__name__}, within a grid {st}")
    # positional = keyword
    if good:
        import inspect
        order = list(inspect.signature(raw).parameters)
        st, got = "ok", raw(*[good[0] if p == arg else kw[p] for p in order])
        T.step()
        T.check(same(got, ref[repr(good[0])]), key + ":positional", f"{got!r}")
    # refusals
    q = quantity
    for x, exc in [(g.reshape(1, -1), "ValueError"), (np.zeros((2, 2, 2)), "ValueError"), ([[1.0, 2.0]], "ValueError"), (np.ones((1, 1), int), "ValueError"),
                   (np.arange(3), "ValueError"), (np.ones(3, np.float32), "ValueError"), (np.ones(2, complex), "ValueError"), (np.ones(2, bool), "ValueError"),
                   (np.array([1.0, 2.0], object), "ValueError"), ([1, 2], "ValueError"), (["1.0"], "ValueError"), ("15.0", "ValueError"),
                   (np.array("15.0"), "ValueError"), (np.array(1j), "ValueError"), ({}, "ValueError"),
                   (None, "TypeError"), (object(), "TypeError"), (1j, "TypeError"), (iter([1.0]), "TypeError"), (len, "TypeError")]:
        st, msg = outcome(x)
        T.check(st == exc and (q is None or msg.startswith(q + " ")) and (q is not None or "must be" in msg), key + ":refusal", f"{x!r}: {st} {msg!r}, expected {exc} naming {q}")
    # other arguments
    for p, v in kw.items():
        if isinstance(v, float) and good:
            for w in (np.float64(v), np.array(v)) + ((int(v),) if v == int(v) else ()):
                T.step()
                try:
                    got = raw(**{arg: good[0]}, **dict(kw, **{p: w}))
                    T.check(same(got, ref[repr(good[0])]), key + ":parameter", f"{p}={w!r}: {got!r}")
                except Exception as e:  # noqa: BLE001
                    T.fail(key + ":parameter", f"{p}={w!r}: {type(e).__name__} {e}")
            for w in (None, "x", object()):
                T.step()
                try:
                    raw(**{arg: good[0]}, **dict(kw, **{p: w}))
                    T.fail(key + ":parameter-refusal", f"{p}={w!r} accepted")
                except TypeError:
                    T.comparisons += 1
                except Exception as e:  # noqa: BLE001
                    T.fail(key + ":parameter-refusal", f"{p}={w!r}: {type(e).__name__}")


def vector(T, key, f, outcome, quantity, grid):
    g = np.array(grid)
    for x in (g, g[::-1], np.repeat(g, 2)[::2], list(grid), tuple(grid), np.array([]), [], np.column_stack([g, g])[:, 0]):
        st, got = outcome(x)
        T.check(st == "ok" and isinstance(got, np.ndarray) and np.array_equal(got, np.asarray(x, float)) and not np.shares_memory(got, np.asarray(x)),
                key + ":grid", f"{x!r}: {st} {got!r}")
        T.outcome(repr(got))
    for x in (1.0, 3, None, object(), np.float64(1)):
        st, msg = outcome(x)
        T.check(st == "ValueError" and msg == quantity + " must be a list or array.", key + ":refusal", f"{x!r}: {st} {msg}")
    for x in (g.reshape(1, -1), np.zeros((2, 2)), [[1.0]], np.array(1.0), np.arange(3), [1, 2], np.ones(2, np.float32)):
        st, msg = outcome(x)
        T.check(st in (("TypeError", "ValueError") if np.ndim(x) == 0 else ("ValueError",)), key + ":refusal", f"{x!r}: {st} {msg}")
