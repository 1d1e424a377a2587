"""GeV-range vector-mediator models: what they answer depends on their current parameters only."""
import itertools

import numpy as np

from checks import _hist as H
from checks import _ps

ID = "C12"
PROP = dict(
    title="GeV vector-mediator models answer from their current parameters only",
    statement=(
        "However a GeV-range vector-mediator model (general, kinetic mixing, B-L) got its parameter values - in its "
        "constructor, by any sequence of assignments, refused assignments, queries and copies, whatever widths were "
        "remembered on the way - everything it answers (couplings, partial and total widths of all 25 channels, cross "
        "sections, branching fractions, photon, positron and neutrino lines and spectra, final states) is what a model built "
        "directly with the current values answers. Every documented parameter can be assigned, couplings fixed by a "
        "specialised model cannot, a refused assignment changes nothing, and no operation on one model changes another."),
    quantifier=dict(over=["histories", "configurations"],
                    text="all histories of assignments, refused assignments, width/cross-section queries and copies up to the depth bound, on all three models"),
    why_tests_cant="The tests never assign to these models; a remembered width that outlives an assignment needs assign/ask histories.",
    anchors=dict(files=["hazma/vector_mediator/_gev/model.py", "hazma/vector_mediator/_gev/cross_sections.py"],
                 mechanism=[dict(name="with_cache / _width_cache and its invalidation in the setters", where="hazma/vector_mediator/_gev/model.py"),
                            dict(name="KineticMixingGeV, BLGeV derived couplings", where="hazma/vector_mediator/_gev/model.py")]),
)
TECHNIQUE = "explicit-state exploration of assignment/query/copy histories on the real models (memoised widths as hidden state), each end state compared with a model built afresh in another process"
LEVEL_NOTE = ("All histories of length <= 2 over every parameter, and of length 3 (thorough 4) over a reduced alphabet, below the three-pion "
              "threshold with every observable compared; all histories of length <= 2 (3) with all 25 channels open, widths compared "
              "(Monte-Carlo widths with the generator seeded per integration).")
RULE = "one case per family and history prefix; non-trivial when the observables of the end state were compared with a fresh model"
CORE = CYTHON = True
CHUNK = 4

E = np.array([290.0, 350.0, 395.0])


def general(**p):
    from hazma.vector_mediator import VectorMediatorGeV
    return VectorMediatorGeV(**p)


def kinetic(**p):
    from hazma.vector_mediator import KineticMixingGeV
    return KineticMixingGeV(**p)


def bl(**p):
    from hazma.vector_mediator import BLGeV
    return BLGeV(**p)


def seeded(f):
    def g(m):
        with _ps.seeded():
            return f(m)
    return g


@seeded
def cheap(m):
    r = repr(m)
    return dict(widths=m.partial_widths(), width=m.width_v(), states=m.list_annihilation_final_states(),
                repr="" if " at 0x" in r else r, xs=m.annihilation_cross_sections(E), bf=m.annihilation_branching_fractions(330.0))


@seeded
def lines(m):
    return dict(ph=m.gamma_ray_lines(390.0), pos=m.positron_lines(390.0), nu=[m.neutrino_lines(390.0, f) for f in ("e", "mu", "tau")])


@seeded
def spec(m):
    e = np.array([5.0, 40.0, 120.0])
    return dict(ph=m.spectra(e, 395.0), pos=m.total_positron_spectrum(e, 395.0), nu=[m.neutrino_spectra(e, 395.0, f) for f in ("e", "mu", "tau")])


@seeded
def widths(m):
    w = m.partial_widths(npts=60)
    return {k: w[k] for k in w}


@seeded
def twice(m):
    """Asking for another number of points must not change what is answered for this one."""
    return [m.width_v_to_pi_pi_pi0(npts=40), m.width_v_to_pi_k_k0(npts=40), m.width_v_to_pi_pi_pi_pi(npts=40), m.partial_widths(npts=30)]


OBS = dict(cheap=cheap, lines=lines, spec=spec, widths=widths, twice=twice)
FAM = {}
LIGHT = dict(mx=[100.0, 130.0, 149.0], mv=[300.0, 250.0, 380.0], gvxx=[1.0, 0.3, 0.0])
HEAVY = dict(mx=[300.0, 500.0, 640.0], mv=[1300.0, 1250.0, 1280.0], gvxx=[1.0, 0.3, 0.0])
Q = dict(gvuu=[0.1, 0.7, 0.0], gvdd=[0.2, -0.9, 0.0], gvss=[0.3, 2.0, 0.0])
LEP = dict(gvee=[0.1, 0.4, 0.0], gvmumu=[0.2, 0.5, 0.0], gvveve=[0.1, 0.3, 0.0], gvvmvm=[0.2, 0.6, 0.0], gvvtvt=[0.3, 0.9, 0.0])
ALLG = ["gvuu", "gvdd", "gvss", "gvee", "gvmumu", "gvveve", "gvvmvm", "gvvtvt"]


def families():
    if FAM:
        return FAM
    from hazma.parameters import qe, Qd, Qe, Qu
    km = lambda p: dict(zip(ALLG, [-Qu * qe * p["eps"], -Qd * qe * p["eps"], -Qd * qe * p["eps"], -Qe * qe * p["eps"], -Qe * qe * p["eps"], 0.0, 0.0, 0.0]))
    b = lambda p: dict(zip(ALLG, [p["g"] / 3] * 3 + [-p["g"]] * 5))
    for tag, base in (("", LIGHT), ("@heavy", HEAVY)):
        FAM["VectorMediatorGeV" + tag] = H.Family("VectorMediatorGeV" + tag, general, {**base, **Q, **LEP}, OBS, bystander=dict(mv=1, gvuu=1, gvee=1))
        FAM["KineticMixingGeV" + tag] = H.Family("KineticMixingGeV" + tag, kinetic, {**base, "eps": [0.1, 0.02, 0.0]}, OBS, fixed=ALLG, derived=km,
                                                 bystander=dict(mv=1, eps=1))
        FAM["BLGeV" + tag] = H.Family("BLGeV" + tag, bl, {**base, "g": [0.1, 0.02, 0.0]}, OBS, fixed=ALLG, derived=b, bystander=dict(mv=1, g=1))
    return FAM


def ref(name, idx, groups):
    f = families()[name]
    with np.errstate(all="ignore"):
        return H.seen(f, f.build(**f.values(dict(idx))), groups)


def alphabet(name, kind, tier="quick"):
    f = families()[name]
    full = name.startswith("Vector")
    ps = list(f.params)
    if kind == "long":
        ps = ["mx", "mv", "gvxx", "gvuu", "gvee", "gvveve"] if full else ps
    elif kind == "heavy" and full:
        ps = ["mx", "mv", "gvuu", "gvss", "gvmumu", "gvvtvt"]
    nv = {"short": 2 if tier == "quick" else 3, "long": 2, "heavy": 2}[kind]
    ops = [["set", p, i] for p in ps for i in range(nv)]
    if kind == "short":
        ops += [["bad", p] for p in f.fixed] + [["ask", "spec"], ["ask", "lines"]]
    elif f.fixed:
        ops += [["bad", "gvuu"]]
    ops += [["ask", "widths" if kind == "heavy" else "cheap"], ["copy"]]
    if kind == "heavy":
        ops += [["ask", "twice"]]
    return ops


def cases(tier):
    q = tier == "quick"
    for n in ("VectorMediatorGeV", "KineticMixingGeV", "BLGeV"):
        yield [n, "short", [], 0, tier]
        for o in alphabet(n, "short", tier):
            yield [n, "short", [o], 1, tier]
        ops = alphabet(n, "long")
        for pre in itertools.product(ops, repeat=2):
            yield [n, "long", list(pre), 1 if q else 2]
        for p in families()[n].params:
            yield [n, "alone", p, 3 if q else 4]
        h = n + "@heavy"
        for o in alphabet(h, "heavy"):
            yield [h, "heavy", [o], 1 if q else 2]


def run(spec, T):
    name, kind, pre, more = spec[:4]
    f = families()[name]
    if kind == "alone":
        for h in H.excursions(f, pre, more, ["cheap"]):
            H.run_history(f, list(h), ["cheap"], ref, T, watch=False)
        return
    groups = {"short": ["cheap", "lines", "spec"], "long": ["cheap"], "heavy": ["widths"]}[kind]
    ops = alphabet(name, kind, *spec[4:])
    for d in range(more + 1):
        for tail in itertools.product(ops, repeat=d):
            H.run_history(f, list(pre) + list(tail), groups, ref, T, watch=kind == "short" or ["copy"] in pre)
