"""Vector-mediator (MeV) models: what they answer depends on their current parameters only."""
import numpy as np

from checks import _hist as H

ID = "C11"
PROP = dict(
    title="MeV vector-mediator models answer from their current parameters only",
    statement=(
        "However a vector-mediator model (general, kinetic mixing, quarks only) got its parameter values - in its "
        "constructor, by any sequence of assignments, refused assignments, queries and copies - everything it answers "
        "(couplings derived from the parameters, mediator width and partial widths, annihilation and thermal cross sections, "
        "branching fractions, lines, photon and positron spectra, final states) is what a model built directly with the "
        "current values answers. Couplings a specialised model derives from its own parameters cannot be assigned, a refused "
        "assignment changes nothing, and no operation on one model changes another."),
    quantifier=dict(over=["histories", "configurations"],
                    text="all histories of assignments, refused assignments, queries and copies up to the depth bound, on all three models"),
    why_tests_cant="The tests build each model once; a width or coupling left behind by an assignment needs a history.",
    anchors=dict(files=["hazma/vector_mediator/__init__.py", "hazma/vector_mediator/_vector_mediator_widths.py",
                        "hazma/vector_mediator/_vector_mediator_cross_sections.py", "hazma/vector_mediator/_vector_mediator_spectra.py"],
                 mechanism=[dict(name="parameter setters / compute_width_v", where="hazma/vector_mediator/__init__.py"),
                            dict(name="KineticMixing, QuarksOnly derived couplings", where="hazma/vector_mediator/__init__.py")]),
)
TECHNIQUE = "explicit-state exploration of assignment/query/copy histories on the real models, each end state compared with a model built afresh in another process"
LEVEL_NOTE = ("All histories of length <= 3 (thorough: 3 values per parameter at length 3, 2 values at length 4) over assignments to every "
              "parameter, refused assignments, queries and deep copies; spectra and thermal averages after all histories of length <= 2 (3).")
RULE = "one case per family and history prefix; non-trivial when the observables of the end state were compared with a fresh model"
CORE = CYTHON = True
CHUNK = 4

E = np.array([510.0, 620.0, 1150.0, 2300.0])


def vector(mx, mv, gvxx, gvuu, gvdd, gvss, gvee, gvmumu):
    from hazma.vector_mediator import VectorMediator
    return VectorMediator(mx, mv, gvxx, gvuu, gvdd, gvss, gvee, gvmumu)


def kinetic(mx, mv, gvxx, eps):
    from hazma.vector_mediator import KineticMixing
    return KineticMixing(mx, mv, gvxx, eps)


def quarks(mx, mv, gvxx, gvuu, gvdd, gvss):
    from hazma.vector_mediator import QuarksOnly
    return QuarksOnly(mx, mv, gvxx, gvuu, gvdd, gvss)


def cheap(m):
    ecs = [2.02 * m.mx, 900.0]
    fs = m.list_annihilation_final_states()
    return dict(width=m.width_v, widths=m.partial_widths(), states=fs, repr=repr(m), xs=m.annihilation_cross_sections(E),
                bf=[m.annihilation_branching_fractions(e) for e in ecs], lines=[m.gamma_ray_lines(e) for e in ecs],
                pos=[m.positron_lines(e) for e in ecs] if "e e" in fs else 0)


def thermal(m):
    return [m.thermal_cross_section(x) for x in (5.0, 25.0)]


def spec(m):
    e = np.array([5.0, 70.0, 200.0])
    return dict(ph=m.spectra(e, 1200.0), pos=m.total_positron_spectrum(e, 1200.0))


OBS = dict(cheap=cheap, thermal=thermal, spec=spec)
FAM = {}


def families():
    if FAM:
        return FAM
    from hazma.parameters import qe, Qd, Qe, Qu
    M, V, X = [250.0, 90.0, 400.0], [550.0, 190.0, 1000.0], [1.0, 0.3, 0.0]
    FAM["VectorMediator"] = H.Family(
        "VectorMediator", vector, dict(mx=M, mv=V, gvxx=X, gvuu=[0.1, 0.7, 0.0], gvdd=[0.2, -0.9, 0.0], gvss=[0.3, 2.0, 0.0],
                                       gvee=[0.1, 0.4, 0.0], gvmumu=[0.2, 0.5, 0.0]), OBS, bystander=dict(mx=1, gvuu=1))
    FAM["KineticMixing"] = H.Family(
        "KineticMixing", kinetic, dict(mx=M, mv=V, gvxx=X, eps=[0.1, 0.02, 0.0]), OBS,
        fixed=["gvuu", "gvdd", "gvss", "gvee", "gvmumu"], bystander=dict(mv=1, eps=1),
        derived=lambda p: dict(gvuu=-Qu * qe * p["eps"], gvdd=-Qd * qe * p["eps"], gvss=-Qd * qe * p["eps"], gvee=-Qe * qe * p["eps"],
                               gvmumu=-Qe * qe * p["eps"]))
    FAM["QuarksOnly"] = H.Family(
        "QuarksOnly", quarks, dict(mx=M, mv=V, gvxx=X, gvuu=[0.1, 0.7, 0.0], gvdd=[0.2, -0.9, 0.0], gvss=[0.3, 2.0, 0.0]), OBS,
        fixed=["gvee", "gvmumu"], bystander=dict(gvuu=1, gvdd=1), derived=lambda p: dict(gvee=0.0, gvmumu=0.0))
    return FAM


def ref(name, idx, groups):
    f = families()[name]
    with np.errstate(all="ignore"):
        return H.seen(f, f.build(**f.values(dict(idx))), groups)


NAMES = ["VectorMediator", "KineticMixing", "QuarksOnly"]


def cases(tier):
    q = tier == "quick"
    for n in NAMES:
        f = families()[n]
        for pre in H.histories(f, 1, ["cheap"], None)[1](1):
            yield [n, "cheap", list(pre), 1, 3]
        for p in f.params:
            yield [n, "alone", p, 3 if q else 4]
        for nv, more in ([(2, 1)] if q else [(3, 1), (2, 2)]):
            ops, seqs = H.histories(f, 3, ["cheap"], nv)
            for pre in seqs(2):
                yield [n, "cheap", list(pre), more, nv]
        ops, seqs = H.histories(f, 2, ["cheap", "spec", "thermal"], 2)
        for pre in seqs(1):
            yield [n, "deep", list(pre), 1 if q else 2]


def run(spec, T):
    name, kind, pre, more = spec[:4]
    f = families()[name]
    if kind == "alone":
        for h in H.excursions(f, pre, more, ["cheap"]):
            H.run_history(f, list(h), ["cheap"], ref, T, watch=False)
        return
    if kind == "cheap":
        ops, seqs = H.histories(f, more, ["cheap"], spec[4])
        groups = ["cheap"]
    else:
        ops, seqs = H.histories(f, more, ["cheap", "spec", "thermal"], 2)
        groups = ["cheap", "thermal", "spec"]
    for d in range(more + 1):
        for tail in seqs(d):
            H.run_history(f, list(pre) + list(tail), groups, ref, T)
