"""Laboratory constraints on scalar mediators, recomputed from the published measurements."""
import itertools
import math
import warnings

import numpy as np

ID = "C40"
PROP = dict(
    title="Laboratory constraints on scalar mediators follow the published rates",
    statement=(
        "For every scalar mediator (Higgs portal, heavy quark, general) each laboratory constraint is the allowed width (or number of events) of the experiment minus "
        "the mediator's contribution: its production rate in the meson (or Higgs) decay, times the fraction that decays invisibly or escapes the detector, "
        "or visibly within the vertex resolution, from the model's current widths; nothing is subtracted outside the measured recoil-mass windows or "
        "beyond threshold. Constraints are finite for stable, light and heavy mediators, negative exactly when the model is excluded, change nothing in the model, and a "
        "model lists exactly those that apply to it."),
    quantifier=dict(over=["inputs", "configurations"], text="all models x mediator masses on both sides of every window and threshold x couplings x dark-matter masses; two beam dumps"),
    why_tests_cant="The constraints have no tests.",
    anchors=dict(files=["hazma/scalar_mediator/_scalar_mediator_constraints.py", "hazma/constraint_parameters.py", "hazma/scalar_mediator/__init__.py"],
                 mechanism=[dict(name="constraint_B_k_invis ... constrain_beam_dump, constraints", where="hazma/scalar_mediator/_scalar_mediator_constraints.py"),
                            dict(name="RareDecayObs, BeamDumpParams", where="hazma/constraint_parameters.py")]),
)
TECHNIQUE = "exhaustive enumeration of a lattice of models around every window and threshold, each constraint against an independent computation of the rates"
LEVEL_NOTE = ("3 models x about 70 mediator masses (pairs around 17 thresholds and windows) x 6 couplings x 4 dark-matter masses and couplings x 8 constraints and 2 beam dumps.")
RULE = "one case per model and mediator mass; non-trivial when constraints were compared"
CORE = True
CHUNK = 8

ME, MMU, MPI, MPI0, MK, MKL, MB, MH = 0.5109989461, 105.6583745, 139.57039, 134.9768, 493.677, 497.611, 5279.29, 125.1e3
B_W, K_W, KL_W = 4.35e-10, 5.32e-14, 1.29e-14
HBARC_CM = 1.973269804e-11     # MeV cm
# contribution allowed to the branching fraction, distance in cm, windows of the recoil mass squared, parent, daughter
pk = lambda p: MK ** 2 + MPI ** 2 - 2 * MK * math.sqrt(MPI ** 2 + p * p)
OBS = {
    "B -> k invis": (1.6e-5 - 3.8e-6, 320.0, [(0.0, 0.3 * MB ** 2)], "B"),
    "B -> k mu mu": (5.4e-7 - 2.3e-7, 0.5, [(4 * MMU ** 2, 8.68e6), (10.09e6, 12.86e6), (14.18e6, (MB - MK) ** 2)], "B"),
    "B -> k e e": (5.4e-7 / 1.03 - 2.3e-7, 0.5, [(8.11e6, 10.03e6), (12.15e6, 14.11e6)], "B"),
    "k -> pi invis": (2.88e-10 - 0.78e-10, 145.0, [(max(pk(229.0), 0), pk(211.0)), (pk(195.0), pk(140.0))], "k"),
    "kl -> pi0 mu mu": (3.8e-10 - 1.2e-11, 0.1, [(0.0, 350.0 ** 2)], "kl"),
    "kl -> pi0 e e": (2.8e-10 - 2.4e-11, 0.1, [(140.0 ** 2, 362.7 ** 2)], "kl"),
}
TOTAL = dict(B=B_W, k=K_W, kl=KL_W)
MASS = dict(B=(MB, MK), k=(MK, MPI), kl=(MKL, MPI0))
METHOD = {"B -> k invis": "constraint_B_k_invis", "B -> k mu mu": "constraint_B_k_mu_mu", "B -> k e e": "constraint_B_k_e_e", "k -> pi invis": "constraint_k_pi_invis",
          "kl -> pi0 mu mu": "constraint_kl_pi0_mu_mu", "kl -> pi0 e e": "constraint_kl_pi0_e_e"}
EDGES = [0.3, 2 * ME, 2 * MMU, MPI, 2 * MPI0, 2 * MPI, MK - MPI, MKL - MPI0, MB - MK, 1e4, 4180.0] + [math.sqrt(x) for o in OBS.values() for w in o[2] for x in w if x > 0]


def masses(tier):
    out = {50.0, 150.0, 250.0, 330.0, 800.0, 1500.0, 2500.0, 3300.0, 3650.0, 4000.0, 4700.0, 8e3, 2e4, 3e4}
    for e in EDGES:
        out |= {e * (1 - 1e-6), e * (1 + 1e-6)}
        if tier == "thorough":
            out |= {e * (1 - 1e-2), e * (1 + 1e-2), e * (1 - 1e-9), e * (1 + 1e-9)}
    return sorted(out)


def cases(tier):
    for kind in ("higgs", "scalar", "heavy"):
        for m in masses(tier):
            yield [kind, m, tier]


def current(q1, q2, V):
    """Scalar flavor-changing coupling of an unsuppressed Higgs: half of 3 sqrt(2) G_F m_q m_t^2 V / (16 pi^2 v)."""
    from hazma.parameters import GF, top_quark_mass as mt, vh
    return 3 * math.sqrt(2) * GF * (q1 + q2) / 2 * mt ** 2 * V / (16 * math.pi ** 2 * vh)


def production(par, gsff, ms):
    """Width of the meson into the lighter one and S: |M|^2 p / (8 pi M^2)."""
    from hazma import parameters as P
    M, m = MASS[par]
    if ms >= M - m:
        return 0.0, None
    p = math.sqrt((M - m - ms) * (M + m + ms) * (M - m + ms) * (M + m - ms)) / (2 * M)
    lam = np.conj(P.Vts) * (P.Vtb if par == "B" else P.Vtd)
    heavy, light = (P.bottom_quark_mass, P.strange_quark_mass) if par == "B" else (P.strange_quark_mass, P.down_quark_mass)
    h = current(heavy, light, lam)
    h = h.imag if par == "kl" else abs(h)
    f0 = 0.33 / (1 - ms ** 2 / 38e6) if par == "B" else 1.0
    amp = gsff * h * f0 * (M ** 2 - m ** 2) / (heavy - light)
    return amp ** 2 * p / (8 * math.pi * M ** 2), p


def inclusive(gsff, ms):
    from hazma import parameters as P
    if ms > MB - MK:
        return 0.0
    mb = P.bottom_quark_mass
    h = abs(current(mb, P.strange_quark_mass, np.conj(P.Vts) * P.Vtb)) * gsff
    return h * h * (mb ** 2 - ms ** 2) ** 2 / (8 * math.pi * mb ** 3)


def lab(name, w, gsff, ms):
    br, r, windows, par = OBS[name]
    bound = br * TOTAL[par]
    if not any(a <= ms * ms <= b for a, b in windows):
        return bound, 0.0
    g, p = production(par, gsff, ms)
    if p is None or g == 0:
        return bound, 0.0
    tot = sum(v for k, v in w.items() if k != "total")
    decays = r * tot * ms / p / HBARC_CM     # decay lengths to the wall
    if name.endswith("invis"):
        inv = w["x x"] / tot if tot > 0 else 0.0
        frac = inv + (1 - inv) * math.exp(-decays)
    else:
        frac = w["mu mu" if name.endswith("mu mu") else "e e"] / tot if tot > 0 else 0.0
        frac *= -math.expm1(-decays)
    return bound, g * frac


DUMPS = dict(charm=dict(k=10 / 40, b=3.6e-6 / 40, e=1e4, d=480.0, l=35.0, vis=("g g", "e e", "mu mu"), pot=2.9e17, n=2.3),
             ship=dict(k=10 / 40, b=3.6e-3 / 40, e=2.5e4, d=70.0, l=55.0, vis=("g g", "e e", "mu mu", "pi pi", "pi0 pi0", "k k", "k0 k0"), pot=2e20, n=3.0))


def dump(d, w, gsff, ms):
    if ms >= d["e"]:
        return d["n"], 0.0, 0.0
    prod = d["k"] * (0.5 * production("k", gsff, ms)[0] / K_W + 0.25 * production("kl", gsff, ms)[0] / KL_W) + d["b"] * inclusive(gsff, ms) / B_W
    tot = sum(v for k, v in w.items() if k != "total")
    if tot == 0:
        return d["n"], 0.0, 0.0
    gb = math.sqrt((d["e"] / ms) ** 2 - 1)
    x = 100 * tot / gb / HBARC_CM
    n = d["pot"] * prod * sum(w.get(f, 0.0) for f in d["vis"]) / tot
    return d["n"], n * math.exp(-d["d"] * x) * -math.expm1(-d["l"] * x), n * 1e-15


def models(kind, ms, tier):
    from hazma.scalar_mediator import HeavyQuark, HiggsPortal, ScalarMediator
    g = (0.0, 1e-9, 1e-6, 3e-5, 1e-3, 0.3)
    for mx, gsxx in ((30.0, 1.0), (200.0, 1e-3), (62.4e3, 1.0), (63e3, 0.1)):
        if kind == "higgs":
            for c in g:
                yield HiggsPortal(mx, ms, gsxx, c), c, (mx, gsxx, c)
        elif kind == "heavy":
            for c in (1e-6, 1e-2):
                yield HeavyQuark(mx, ms, gsxx, c, 1e6, 0.4), 0.0, (mx, gsxx, c)
        else:
            for c, gg, gf in itertools.product(g[::2] + (0.01,), (0.0, 0.2), (0.0, 1e-2)):
                yield ScalarMediator(mx, ms, gsxx, c, gg, gf, 1e5), c, (mx, gsxx, c, gg, gf)


def run(spec, T):
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        body(spec, T)


def body(spec, T):
    from hazma import constraint_parameters as C
    kind, ms, tier = spec
    for m, gsff, note in models(kind, ms, tier):
        note = f"{kind} ms={ms!r} {note}"
        T.step()
        before = {k: v for k, v in vars(m).items() if isinstance(v, (int, float, complex))}
        w = {k: float(np.real(v)) for k, v in m.partial_widths().items()}
        cons = m.constraints()
        want = {"B -> k invis", "B -> k mu mu", "k -> pi invis", "kl -> pi0 mu mu", "kl -> pi0 e e", "CHARM"} | ({"higgs -> invis"} if kind == "higgs" else set())
        T.check(set(cons) == want, "listed", f"{note}: {sorted(cons)}")
        vals = {k: f() for k, f in cons.items()}
        if hasattr(m, "constraint_B_k_e_e"):
            vals["B -> k e e"] = m.constraint_B_k_e_e()
        for k, v in vals.items():
            T.check(np.isscalar(v) and np.isfinite(v) and np.isreal(v), f"finite:{k}", f"{note}: {v!r}")
        for k in OBS:
            if k in vals:
                b, c = lab(k, w, gsff, ms)
                T.comparisons += 1
                # threshold momenta are differences of masses
                if not abs(vals[k] - (b - c)) <= 1e-8 * b + 1e-6 * c:
                    T.fail(f"value:{k}", f"{note}: {vals[k]!r}, allowed {b!r}, contributed {c!r}")
                T.outcome(k, vals[k] > 0, c == 0)
        if kind == "higgs":
            c = gsff
            g = m.gsxx * c / math.sqrt(1 - c * c)
            b2 = 1 - (2 * m.mx / MH) ** 2
            wid = g * g * MH * b2 ** 1.5 / (8 * math.pi) if b2 > 0 else 0.0
            T.close(vals["higgs -> invis"], 3.2 * 0.19 - wid, "value:higgs", 1e-9, 1e-9, note=note)
        for name, obj in (("charm", C.bd_charm), ("ship", C.bd_ship)):
            got = m.constrain_beam_dump(obj)
            n, c, eps = dump(DUMPS[name], w, gsff, ms)
            T.comparisons += 1
            if not abs(got - (n - c)) <= 1e-6 * c + 1e-9 + eps:
                T.fail(f"value:{name}", f"{note}: {got!r}, allowed {n}, expected {c!r}")
            if name == "charm":
                T.check(vals["CHARM"] == got, "value:CHARM", note)
            T.outcome(name, got > 0, c == 0)
        after = {k: v for k, v in vars(m).items() if isinstance(v, (int, float, complex))}
        T.check(after == before, "model-changed", note)
    T.state(kind, ms)
