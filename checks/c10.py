"""Scalar-mediator models: what they answer depends on their current parameters only."""
import numpy as np

from checks import _hist as H

ID = "C10"
PROP = dict(
    title="Scalar-mediator models answer from their current parameters only",
    statement=(
        "However a scalar-mediator model (general, Higgs portal, heavy quark) got its parameter values - in its "
        "constructor, by any sequence of assignments, refused assignments, queries and copies - everything it answers "
        "(couplings derived from the parameters, mediator width and partial widths, annihilation, elastic and thermal cross "
        "sections, branching fractions, lines, spectra, laboratory constraints, final states) is what a model built directly "
        "with the current values answers. Couplings a specialised model derives from its own parameters cannot be assigned, "
        "a refused assignment changes nothing, and no operation on one model changes another."),
    quantifier=dict(over=["histories", "configurations"],
                    text="all histories of assignments, refused assignments, queries and copies up to the depth bound, on all three models"),
    why_tests_cant="The tests build each model once; a width or coupling left behind by an assignment needs a history.",
    anchors=dict(files=["hazma/scalar_mediator/__init__.py", "hazma/scalar_mediator/_scalar_mediator_widths.py",
                        "hazma/scalar_mediator/_scalar_mediator_cross_sections.py", "hazma/scalar_mediator/_scalar_mediator_constraints.py"],
                 mechanism=[dict(name="parameter setters / compute_width_s", where="hazma/scalar_mediator/__init__.py"),
                            dict(name="HiggsPortal, HeavyQuark derived couplings", where="hazma/scalar_mediator/__init__.py")]),
)
TECHNIQUE = "explicit-state exploration of assignment/query/copy histories on the real models, each end state compared with a model built afresh in another process"
LEVEL_NOTE = ("All histories of length <= 3 (thorough 4) over assignments of 3 (2) values to every parameter, refused assignments, "
              "queries and deep copies; spectra and thermal averages after all histories of length <= 2 (3).")
RULE = "one case per family and history prefix; non-trivial when the observables of the end state were compared with a fresh model"
CORE = CYTHON = True
CHUNK = 4

E = np.array([510.0, 620.0, 1150.0, 2300.0])


def scalar(mx, ms, gsxx, gsff, gsGG, gsFF, lam):
    from hazma.scalar_mediator import ScalarMediator
    return ScalarMediator(mx, ms, gsxx, gsff, gsGG, gsFF, lam)


def higgs(mx, ms, gsxx, stheta):
    from hazma.scalar_mediator import HiggsPortal
    return HiggsPortal(mx, ms, gsxx, stheta)


def heavy(mx, ms, gsxx, gsQ, mQ, QQ):
    from hazma.scalar_mediator import HeavyQuark
    return HeavyQuark(mx, ms, gsxx, gsQ, mQ, QQ)


def cheap(m):
    ecs = [2.02 * m.mx, 900.0]
    return dict(width=m.width_s, widths=m.partial_widths(), states=m.list_annihilation_final_states(), repr=repr(m),
                xs=m.annihilation_cross_sections(E), bf=[m.annihilation_branching_fractions(e) for e in ecs],
                lines=[m.gamma_ray_lines(e) for e in ecs] if "g g" in m.list_annihilation_final_states() else 0,
                pos=[m.positron_lines(e) for e in ecs] if "e e" in m.list_annihilation_final_states() else 0,
                elastic=m.elastic_scattering_cross_sections(1200.0), ss=m.sigma_ss_to_xx(1500.0), xx=m.sigma_xx_to_s_to_xx(E))


def cons(m):
    out = {}
    for k, f in m.constraints().items():
        if k == "higgs -> invis" and not hasattr(m, "stheta"):
            continue
        out[k] = f()
    return out


def thermal(m):
    return [m.thermal_cross_section(x) for x in (5.0, 25.0)]


def spec(m):
    e = np.array([5.0, 70.0, 200.0])
    return dict(ph=m.spectra(e, 1200.0), pos=m.total_positron_spectrum(e, 1200.0))


OBS = dict(cheap=cheap, cons=cons, thermal=thermal, spec=spec)
FAM = {}


def families():
    if FAM:
        return FAM
    from hazma.parameters import vh
    FAM["ScalarMediator"] = H.Family(
        "ScalarMediator", scalar,
        dict(mx=[250.0, 90.0, 400.0], ms=[550.0, 190.0, 1000.0], gsxx=[1.0, 0.3, 0.0], gsff=[0.1, 0.7, 0.0], gsGG=[0.2, 0.9, 0.0],
             gsFF=[0.3, 2.0, 0.0], lam=[1e5, 3e4, 2e5]), OBS, bystander=dict(mx=1, gsff=1))
    FAM["HiggsPortal"] = H.Family(
        "HiggsPortal", higgs, dict(mx=[250.0, 90.0, 400.0], ms=[550.0, 190.0, 1000.0], gsxx=[1.0, 0.3, 0.0], stheta=[0.1, 0.02, 0.0]), OBS,
        fixed=["gsff", "gsGG", "gsFF", "lam"], bystander=dict(ms=1, stheta=1),
        derived=lambda p: dict(gsff=p["stheta"], gsGG=3 * p["stheta"], gsFF=-5 * p["stheta"] / 6, lam=vh))
    FAM["HeavyQuark"] = H.Family(
        "HeavyQuark", heavy, dict(mx=[250.0, 90.0, 400.0], ms=[550.0, 190.0, 1000.0], gsxx=[1.0, 0.3, 0.0], gsQ=[0.1, 0.7, 0.0],
                                  mQ=[1e5, 3e4, 2e5], QQ=[1.0, 0.5, 0.0]), OBS,
        fixed=["gsff", "gsGG", "gsFF", "lam"], bystander=dict(gsQ=1, QQ=1),
        derived=lambda p: dict(gsff=0.0, gsGG=p["gsQ"], gsFF=2 * p["gsQ"] * p["QQ"] ** 2, lam=p["mQ"]))
    return FAM


def ref(name, idx, groups):
    f = families()[name]
    with np.errstate(all="ignore"):
        return H.seen(f, f.build(**f.values(dict(idx))), groups)


NAMES = ["ScalarMediator", "HiggsPortal", "HeavyQuark"]


def cases(tier):
    q = tier == "quick"
    for n in NAMES:
        f = families()[n]
        ops, seqs = H.histories(f, 3, ["cheap"], None)
        yield [n, "cheap", []]
        for pre in seqs(1):
            yield [n, "cheap", list(pre), 1, 3]
        for p in f.params:
            yield [n, "alone", p, 3 if q else 4]
        for nv, more in ([(2, 1)] if q else [(3, 1), (2, 2)]):
            ops, seqs = H.histories(f, 3, ["cheap"], nv)
            for pre in seqs(2):
                yield [n, "cheap", list(pre), more, nv]
        ops, seqs = H.histories(f, 2, ["cheap", "spec", "thermal"], 2)
        for pre in seqs(1):
            yield [n, "deep", list(pre), 1 if q else 2]


def run(spec, T):
    name, kind, pre = spec[:3]
    more = spec[3] if len(spec) > 3 else 0
    f = families()[name]
    if kind == "alone":
        for h in H.excursions(f, pre, more, ["cheap"]):
            H.run_history(f, list(h), ["cheap", "cons"], ref, T, watch=False)
        return
    if kind == "cheap":
        ops, seqs = H.histories(f, more, ["cheap"], spec[4] if len(spec) > 4 else 3)
        groups = ["cheap", "cons"]
    else:
        ops, seqs = H.histories(f, more, ["cheap", "spec", "thermal"], 2)
        groups = ["cheap", "thermal", "spec"]
    for d in range(more + 1):
        for tail in seqs(d):
            H.run_history(f, list(pre) + list(tail), groups, ref, T)
