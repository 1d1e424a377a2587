"""Telescopes, targets and backgrounds are those of their tables, in every argument form."""
import cmath
import itertools
import math
import os
import re
import warnings

import numpy as np

ID = "C30"
PROP = dict(
    title="Telescopes, targets and backgrounds answer from their tables, for any input",
    statement=(
        "For every shipped telescope and every energy, given as scalar, integer, list or array: the effective area is the "
        "linear interpolation of its own data file, non-negative and zero outside the tabulated energies; the energy "
        "resolution is positive everywhere in reach and equals its own table or constant; background models return their "
        "flux function, warn exactly when an energy lies outside their range, and interpolated ones cover exactly the table; "
        "parametric backgrounds return their published flux and its exact derivatives for every parameter choice; "
        "targets hold the factors given to them and can be printed; cone targets have the solid angle of their cone, smaller "
        "regions have larger average factors and optimistic profiles are not weaker."),
    quantifier=dict(over=["inputs"], text="every instrument, background and target x a lattice of energies (table nodes, midpoints, outside, extreme) x argument forms"),
    why_tests_cant="There are no tests of instrument data, targets or background models.",
    anchors=dict(files=["hazma/gamma_ray_parameters.py", "hazma/background_model.py", "hazma/target_params.py"],
                 mechanism=[dict(name="effective_area_*, energy_res_*, solid_angle_cone, *_targets", where="hazma/gamma_ray_parameters.py"),
                            dict(name="BackgroundModel", where="hazma/background_model.py"),
                            dict(name="TargetParams", where="hazma/target_params.py")]),
)
TECHNIQUE = "exhaustive enumeration of the shipped tables and argument forms against an independent reading of the data files"
LEVEL_NOTE = "Every instrument, every table node and midpoint, energies outside, and six argument forms; all combinations of present and absent target fields."
RULE = "one case per instrument, background, target set or target construction; non-trivial when values were compared"

AREAS = ["adept", "amego", "comptel", "all_sky_astrogam", "e_astrogam", "egret", "fermi", "gecco", "grams", "grams_upgrade", "mast", "pangu"]
FWHM = 1 / (2 * math.sqrt(2 * math.log(2)))
RES = {"adept": 0.3 * FWHM, "comptel": 0.05 * FWHM, "egret": 0.18 * FWHM, "fermi": 0.075, "grams": 0.05, "grams_upgrade": 0.05, "pangu": 0.4,
       "amego": ("amego", 1), "all_sky_astrogam": ("e_astrogam", 1), "e_astrogam": ("e_astrogam", 1), "gecco": ("gecco", FWHM),
       "gecco_large": ("gecco_large", 1), "integral": ("integral", 1), "mast": ("mast", 1)}


def cases(tier):
    for n in AREAS:
        yield ["area", n]
    for n in sorted(RES):
        yield ["res", n]
    for b in ("default", "gecco", "gc", "table", "function"):
        yield ["bg", b]
    for n in ("galactic", "extragalactic", "gecco"):
        for i in range(4):
            yield ["param", n, i]
    for n in ("gc", "draco", "m31", "fornax", "comptel_diffuse", "egret_diffuse", "fermi_diffuse", "integral_diffuse"):
        yield ["targets", n]
    vals = [None, 0.0, 1.5e30, 7]
    for c in itertools.product(range(4), repeat=3):
        yield ["target", list(c)]
    yield ["cone"]


def data(sub, name):
    import hazma
    path = os.path.join(os.path.dirname(hazma.__file__), "gamma_ray_data", sub, name + ".dat")
    lines = [l.split("#")[0].strip() for l in open(path)]
    rows = [[float(x) for x in l.split(",")] for l in lines if l]
    return np.array(sorted(rows)).T


def lin(xs, ys, e, extrapolate):
    if e < xs[0] or e > xs[-1]:
        if not extrapolate:
            return 0.0
        i = 0 if e < xs[0] else len(xs) - 2
    else:
        i = min(max(int(np.searchsorted(xs, e)) - 1, 0), len(xs) - 2)
    return ys[i] + (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i]) * (e - xs[i])


def forms(f, es):
    es = np.array(es, dtype=float)
    yield "array", f(es), es
    yield "list", f(es.tolist()), es
    yield "scalars", np.array([float(f(float(e))) for e in es]), es
    yield "matrix", np.asarray(f(np.array([es, es[::-1]])))[1][::-1], es
    ints = np.unique(np.clip(es, 1, 10 ** 6).astype(int))
    yield "ints", f(ints), ints
    yield "int scalars", np.array([float(f(int(e))) for e in ints]), ints


def lattice(xs):
    return sorted({*xs.tolist(), *((xs[1:] + xs[:-1]) / 2).tolist(), xs[0] * (1 - 1e-9), xs[-1] * (1 + 1e-9), xs[0] / 2, xs[0] / 100, xs[-1] * 3, 0.0, 1e7})


def run(spec, T):
    globals()["r_" + spec[0]](spec[1:], T)


def r_area(spec, T):
    from hazma import gamma_ray_parameters as g
    n = spec[0]
    xs, ys = data("A_eff", n)
    f = getattr(g, "effective_area_" + n)
    es = lattice(xs)
    for fn in (f, getattr(g, "A_eff_" + n)):
        for form, got, at in forms(fn, es):
            T.step()
            T.close(got, [lin(xs, ys, float(e), False) for e in at], f"area:{n}:{form}", 1e-9, 1e-9 * ys.max())
    T.check(np.all(f(np.array(es)) >= 0), f"area:{n}:negative")
    T.state(n)
    T.outcome(ys)


def r_res(spec, T):
    from hazma import gamma_ray_parameters as g
    n = spec[0]
    f = getattr(g, "energy_res_" + n)
    r = RES[n]
    if isinstance(r, tuple):
        xs, ys = data("energy_res", r[0])
        es = lattice(xs)
        ref = lambda e: r[1] * lin(xs, ys, e, True)
    else:
        es, ref = [1e-3, 0.2, 1.0, 5.0, 77.0, 1e3, 1e6], lambda e: r
    for form, got, at in forms(f, es):
        T.step()
        T.close(got, [ref(float(e)) for e in at], f"res:{n}:{form}", 1e-9, 1e-12)
    T.check(np.all(np.asarray(f(np.geomspace(1e-2, 1e5, 60))) > 0), f"res:{n}:positive")
    T.state(n)


def warned(f, e):
    with warnings.catch_warnings(record=True) as log:
        warnings.simplefilter("always")
        v = f(e)
    return v, [str(w.message) for w in log if "applicable" in str(w.message)]


def r_bg(spec, T):
    from hazma import gamma_ray_parameters as g
    from hazma.background_model import BackgroundModel
    from scipy.interpolate import interp1d
    n = spec[0]
    if n == "default":
        m, ref, rng = g.default_bg_model, lambda e: 2.74e-3 / e ** 2, [0.0, 10.0e3]
    elif n == "gecco":
        m, ref, rng = g.gecco_bg_model, lambda e: 8e-3 / e ** 2, [0.2, 4e3]
    elif n == "function":
        m, ref, rng = BackgroundModel((2.0, 9.0), lambda e: 3 + e), lambda e: 3 + e, [2.0, 9.0]
    else:
        if n == "gc":
            xs, ys = data("bg_model", "gc")
            m = g.gc_bg_model
        else:
            xs, ys = np.array([1.0, 2.0, 5.0, 7.0]), np.array([4.0, 1.0, 3.0, 0.5])
            m = BackgroundModel.from_interp(interp1d(xs, ys, bounds_error=False, fill_value="extrapolate"))
        rng = [xs[0], xs[-1]]
        ref = lambda e: lin(xs, ys, e, True)
    T.close(m.e_range, rng, f"bg:{n}:range", 1e-14)
    lo, hi = (float(x) for x in m.e_range)
    inside = [max(lo, 1e-3), (lo + hi) / 2, hi, max(lo, 1e-3) * 1.01, hi * 0.999]
    outside = [hi * 1.01, hi * 30] + ([lo * 0.99, lo / 10] if lo > 0 else [])
    for e in inside:
        T.step()
        v, w = warned(m.dPhi_dEdOmega, e)
        T.close(v, ref(e), f"bg:{n}:value", 1e-9)
        T.check(not w, f"bg:{n}:warned inside", e)
    v, w = warned(m.dPhi_dEdOmega, np.array(inside))
    T.close(v, [ref(e) for e in inside], f"bg:{n}:array", 1e-9)
    T.check(not w, f"bg:{n}:warned inside")
    if n != "gc":
        for e in outside:
            T.step()
            v, w = warned(m.dPhi_dEdOmega, e)
            T.check(len(w) == 1 and f"{e:f}" in w[0], f"bg:{n}:no warning outside", e)
            for pos in range(len(inside) + 1):
                arr = np.array(inside[:pos] + [e] + inside[pos:])
                keep = arr.copy()
                v, w = warned(m.dPhi_dEdOmega, arr)
                T.check(len(w) == 1 and f"{e:f}" in w[0], f"bg:{n}:no warning outside (array)", arr)
                T.close([x for i, x in enumerate(v) if i != pos], [ref(x) for x in inside], f"bg:{n}:array values", 1e-9)
                T.check(np.array_equal(arr, keep), "modified")
    T.state(n)


# parametric backgrounds: values of each parameter, the default first
GAL = dict(galactic_amplitude=[0.013, 1e-6, 40.0, 0.0], galactic_power_law_index=[1.8, 0.0, 3.0, -0.5],
           galactic_exponential_cutoff=[2.0, 0.05, 100.0, 1.0], galactic_exponential_index=[2.0, 0.5, 1.0, 3.0])
EXT = dict(extra_galactic_amplitude=[0.004135, 1e-6, 40.0, 0.0], extra_galactic_power_law_index=[2.8956, 0.0, 1.0, -0.5])
GECCO = dict(amplitude=[8e-3, 1e-6, 40.0, 0.0], power_law_index=[2.0, 0.0, 1.0, -0.5])


def flux_ref(p, e):
    """The published parametrisations, for complex parameters."""
    if "amplitude" in p:
        return p["amplitude"] * cmath.exp(-p["power_law_index"] * math.log(e))
    cut = cmath.exp(p["galactic_exponential_index"] * (math.log(e) - cmath.log(p["galactic_exponential_cutoff"])))
    return (p["galactic_amplitude"] * cmath.exp(-p["galactic_power_law_index"] * math.log(e) - cut)
            + p["extra_galactic_amplitude"] * cmath.exp(-p["extra_galactic_power_law_index"] * math.log(e)))


def r_param(spec, T):
    from hazma import gamma_ray_parameters as g
    n, first = spec
    table = GECCO if n == "gecco" else {"galactic": GAL, "extragalactic": EXT}[n]
    cls = g.GeccoBackgroundModel if n == "gecco" else g.GalacticCenterBackgroundModel
    dflt = {k: v[0] for k, v in (table.items() if n == "gecco" else {**GAL, **EXT}.items())}
    bounds = (0.2, 4e3) if n == "gecco" else (0.15, 5.0)
    energies = [bounds[0], 0.7, 1.0, 2.0, bounds[1]]
    if first == 0:
        T.check(cls().params == dflt, f"param:{n}:defaults", cls().params)
    names = list(table)
    for rest in itertools.product(range(4), repeat=len(names) - 1):
        p = dict(dflt, **{k: table[k][i] for k, i in zip(names, (first,) + rest)})
        T.step()
        T.state(n, sorted(p.items()))
        m = cls(**p)
        T.check(m.params == p and all(getattr(m, k) == v for k, v in p.items()), f"param:{n}:parameters", lambda: (p, m.params))
        T.check(tuple(m.e_bounds) == tuple(m.energy_bounds) == bounds, f"param:{n}:bounds")
        if hasattr(m, "n_params"):
            T.check(m.n_params() == len(p), f"param:{n}:n_params")
        want = [flux_ref(p, e).real for e in energies]
        T.close([m.dPhi_dEdOmega(e) for e in energies], want, f"param:{n}:flux", 1e-12, note=str(p))
        T.close(m.dPhi_dEdOmega(np.array(energies)), want, f"param:{n}:flux:array", 1e-12, note=str(p))
        h = 1e-30
        with np.errstate(all="ignore"):
            dv, ds = m.derivatives(np.array(energies)), [m.derivatives(e) for e in energies]
        T.check(set(dv) == set(p), f"param:{n}:derivatives:names", lambda: (sorted(dv), sorted(p)))
        for k in p:
            d = [flux_ref(dict(p, **{k: p[k] + 1j * h}), e).imag / h for e in energies]
            # exponentials of large arguments lose a little
            T.close(dv[k], d, f"param:{n}:derivative:{k}", 1e-10, note=str(p))
            T.close([x[k] for x in ds], d, f"param:{n}:derivative:{k}:scalar", 1e-10, note=str(p))


def r_targets(spec, T):
    from hazma import gamma_ray_parameters as g
    n = spec[0]
    std, opt = getattr(g, n + "_targets"), getattr(g, n + "_targets_optimistic", None)
    cone = {"1 arcmin cone": 1 / 60, "2 deg cone": 2, "5 deg cone": 5, "10 deg cone": 10}
    for prof in std:
        sets = [d[prof] for d in (std, opt) if d is not None]
        for d in sets:
            items = d.items() if isinstance(d, dict) else [("all", d)]
            known = []
            for name, t in items:
                T.step()
                T.check(t.J > 0 and t.D > 0 and t.dOmega > 0, f"{n}:{prof}:{name}:positive")
                T.check(0 < t.vx < 1, f"{n}:{prof}:{name}:velocity")
                T.check(t.dOmega < 4 * math.pi, f"{n}:{prof}:{name}:solid angle")
                if name in cone:
                    T.close(g.solid_angle_cone(cone[name]), t.dOmega, f"{n}:{prof}:{name}:cone", 5e-3)
                    known.append((t.dOmega, t.J, t.D))
            known.sort()
            for a, b in zip(known, known[1:]):
                T.check(a[1] > b[1] and a[2] > b[2], f"{n}:{prof}:average factors fall with the region", (a, b))
                T.check(a[0] * a[1] < b[0] * b[1] and a[0] * a[2] < b[0] * b[2], f"{n}:{prof}:total factors grow with the region", (a, b))
        if len(sets) == 2:
            pairs = [(sets[0][k], sets[1][k]) for k in sets[0]] if isinstance(sets[0], dict) else [tuple(sets)]
            for a, b in pairs:
                T.check(b.J >= a.J and b.D >= a.D and a.dOmega == b.dOmega, f"{n}:{prof}:optimistic", (a, b))
    T.state(n)


def r_target(spec, T):
    from hazma.target_params import TargetParams
    vals = [None, 0.0, 1.5e30, 7]
    J, D, O = (vals[i] for i in spec[0])
    for kw in ({}, {"vx": 2e-4}):
        T.step()
        t = TargetParams(J, D, O, **kw)
        u = TargetParams(dOmega=O, D=D, J=J, **kw)
        for x in (t, u):
            T.check((x.J, x.D, x.dOmega, x.vx) == (J, D, O, kw.get("vx", 1e-3)), "fields", (J, D, O))
            s = repr(x)
            T.check(s.startswith("TargetParams(") and s.endswith(")"), "repr", s)
            for name, v in (("J", J), ("D", D), ("dOmega", O), ("vx", kw.get("vx", 1e-3))):
                mt = re.search(r"\b%s=([^,)]+)" % name, s)
                T.check(mt is not None and (mt.group(1) == "None") == (v is None), f"repr:{name}", s)
                if mt and v is not None:
                    T.close(float(mt.group(1)), v, f"repr:{name}", 1e-3)
    T.check(TargetParams().J is None and TargetParams().vx == 1e-3, "defaults")
    T.state(J, D, O)


def r_cone(spec, T):
    from hazma.gamma_ray_parameters import solid_angle_cone
    rs = [0.0, 1e-4, 1 / 60, 0.5, 1.0, 5.0, 10.0, 33.3, 89.0, 90.0, 120.0, 180.0]
    want = [2 * math.pi * 2 * math.sin(math.radians(r) / 2) ** 2 for r in rs]
    for r, w in zip(rs, want):
        T.step()
        T.close(solid_angle_cone(r), w, "cone", 1e-12)
    T.close(solid_angle_cone(np.array(rs)), want, "cone:array", 1e-12)
    T.close(solid_angle_cone(180), 4 * math.pi, "cone:sphere", 1e-12)
    T.state("cone")
