"""Decaying and single-channel models: what they answer depends on their current parameters only."""
import csv
import os

import numpy as np

from checks import _hist as H

ID = "C13"
PROP = dict(
    title="Neutrino, single-channel and PBH models answer from current parameters",
    statement=(
        "However a right-handed-neutrino, single-channel (annihilation or decay) or primordial-black-hole model got its "
        "parameter values - in its constructor, by any sequence of assignments, refused assignments, queries and copies - "
        "everything it answers (final states, widths, cross sections, branching fractions, photon/positron/neutrino lines "
        "and spectra) is what a model built directly with the current values answers. Every line is reported as an energy "
        "under one of the model's own final states; lines and widths of closed states are absent or zero. A refused "
        "assignment (unknown flavor or particle, mass without a table) changes nothing; no operation on one model changes "
        "another. The black-hole spectra are those of the packaged tables for every tabulated mass."),
    quantifier=dict(over=["histories", "configurations"],
                    text="all histories of assignments, refused assignments, queries and copies up to the depth bound; all tabulated black-hole masses"),
    why_tests_cant="The tests build each model once with one final state; stale generations, masses or spectra need a history.",
    anchors=dict(files=["hazma/rh_neutrino/_model.py", "hazma/rh_neutrino/_configure.py", "hazma/single_channel.py", "hazma/pbh.py"],
                 mechanism=[dict(name="RHNeutrino.flavor / configure", where="hazma/rh_neutrino/_model.py"),
                            dict(name="SingleChannelAnn.fs, SingleChannelDec.fs", where="hazma/single_channel.py"),
                            dict(name="PBH.mx", where="hazma/pbh.py")]),
)
TECHNIQUE = "explicit-state exploration of assignment/query/copy histories on the real models, each end state compared with a model built afresh in another process"
LEVEL_NOTE = ("All histories of length <= 3 (thorough 4) over assignments of 2-4 values to every parameter, refused assignments, queries and copies; "
              "spectra after all histories of length <= 2 (3); all 3 x ~100 black-hole tables.")
RULE = "one case per family and history prefix, one per black-hole table; non-trivial when the observables of the end state were compared with a fresh model or the table"
CORE = CYTHON = True
CHUNK = 4

STATES = ["mu mu", "pi a", "e e", "a a", "pi0 a", "e pi", "photon pi0", "ve ve"]


def rhn(mx, theta, flavor):
    from hazma.rh_neutrino import RHNeutrino
    return RHNeutrino(mx, theta, flavor)


def ann(mx, fs, sigma):
    from hazma.single_channel import SingleChannelAnn
    return SingleChannelAnn(mx, fs, sigma)


def dec(mx, fs, width):
    from hazma.single_channel import SingleChannelDec
    return SingleChannelDec(mx, fs, width)


def grams(x):
    from hazma.parameters import g_to_MeV
    return x * g_to_MeV


def pbh(kind, bh):
    def build(mx, f_pbh_dummy):
        from hazma.pbh import PBH
        return PBH(mx, f_pbh_dummy, spectrum_kind=kind, bh_secondary=bh)
    return build


def sane(states, lines, floor=0.0):
    """Lines are energies under the model's own final states."""
    for fs, d in lines.items():
        if fs not in states or not np.isscalar(d["energy"]) or not d["energy"] > floor:
            raise AssertionError(f"line {fs}: {d} of a model with final states {states}")
    return lines


def rhn_cheap(m):
    st = m.list_decay_final_states()
    w = m.decay_widths()
    nl = m._neutrino_line_energies() if hasattr(m, "_neutrino_line_energies") else {}
    return dict(states=st, widths=w, bf=m.decay_branching_fractions(), one=m.decay_width(st[:3]), single=m.decay_width(st[-1]), gen=int(m.gen), ml=m.ml,
                g=sane(st, m.gamma_ray_lines()), p=sane(st, m.positron_lines()), n=nl,
                known=all(fs in st for fs in nl))


def rhn_spec(m):
    es = np.array([0.7, 30.0, 62.0, 170.0])
    out = {}
    for name, fns in (("photon", m.spectrum_funcs()), ("positron", m.positron_spectrum_funcs()), ("neutrino", getattr(m, "_neutrino_spectrum_funcs", dict)())):
        out[name] = {fs: f(es) for fs, f in fns.items() if fs.count("pi") < 2 and "rho" not in fs}
    return out


def ann_cheap(m):
    st = m.list_annihilation_final_states()
    ecs = [2.2 * m.mx, 900.0, 100.0]
    return dict(states=st, repr=repr(m), thr=m.fs_mass, xs=[m.annihilation_cross_sections(e) for e in ecs], bf=[m.annihilation_branching_fractions(e) for e in ecs],
                g=[sane(st, m.gamma_ray_lines(e)) for e in ecs], p=[sane(st, m.positron_lines(e)) for e in ecs])


def ann_spec(m):
    es = np.array([0.7, 30.0, 62.0, 170.0])
    return [[m.spectra(es, e), m.positron_spectra(es, e) if hasattr(m, "positron_spectra") else m.total_positron_spectrum(es, e)] for e in (2.2 * m.mx, 900.0)]


def dec_cheap(m):
    st = m.list_decay_final_states()
    return dict(states=st, repr=repr(m), thr=m.fs_mass, w=m.decay_widths(), bf=m.decay_branching_fractions(), g=sane(st, m.gamma_ray_lines()), p=sane(st, m.positron_lines()))


def dec_spec(m):
    es = np.array([0.7, 30.0, 62.0, 170.0])
    return [m.spectra(es), m.total_positron_spectrum(es), m.total_spectrum(es)]


def pbh_cheap(m):
    es = np.geomspace(1e-3, 1e4, 15)
    return dict(w=m.decay_widths(), bf=m.decay_branching_fractions(), g=m.gamma_ray_lines(), s=m.spectra(es), t=m.total_spectrum(es), kind=m.spectrum_kind,
                bh=bool(m.bh_secondary))


FAM = {}


def families():
    if FAM:
        return FAM
    err = (KeyError, ValueError, AttributeError)
    FAM["rhn"] = H.Family("rhn", rhn, dict(mx=[600.0, 120.0, 260.0], theta=[1e-3, 0.3], flavor=["e", "mu", "tau"]), dict(cheap=rhn_cheap, spec=rhn_spec),
                          fixed=dict(flavor=("photon", err), gen=(1, err), ml=(3.0, err)), bystander=dict(flavor=1, mx=2))
    FAM["ann"] = H.Family("ann", ann, dict(mx=[300.0, 60.0], fs=STATES, sigma=[1e-20, 3e-18]), dict(cheap=ann_cheap, spec=ann_spec),
                          fixed=dict(fs=("e unobtainium", err)), bystander=dict(fs=2))
    FAM["dec"] = H.Family("dec", dec, dict(mx=[600.0, 130.0], fs=STATES, width=[1e-20, 3e-18]), dict(cheap=dec_cheap, spec=dec_spec),
                          fixed=dict(fs=("e unobtainium", err)), bystander=dict(fs=2))
    for n, kind, bh in PBHS:
        FAM[n] = H.Family(n, pbh(kind, bh), dict(mx=[grams(m) for m in PBH_MASSES[n]], f_pbh_dummy=[1, 0.25]), dict(cheap=pbh_cheap),
                          fixed=dict(mx=(123.0, (ValueError, IndexError, KeyError)), spectrum_kind=("primary", (AttributeError, RuntimeError)),
                                     bh_secondary=(True, (AttributeError, RuntimeError))), bystander=dict(mx=1))
    return FAM


PBHS = [("pbh-primary", "primary", False), ("pbh-secondary", "secondary", False), ("pbh-bh", "secondary", True)]
FILES = {"pbh-primary": "pbh_primary_spectra_bh.csv", "pbh-secondary": "pbh_secondary_spectra.csv", "pbh-bh": "pbh_secondary_spectra_bh.csv"}
PBH_MASSES = {}


def header(n):
    import hazma
    with open(os.path.join(os.path.dirname(hazma.__file__), "pbh_data", FILES[n])) as f:
        rows = list(csv.reader(f))
    masses = []
    for h in rows[0][2:]:
        try:
            masses.append(float(h))
        except ValueError:  # "1e15.05"
            sig, _, ex = h.partition("e")
            masses.append(float(sig) * 10 ** float(ex))
    data = np.array([[float(x) for x in r[1:]] for r in rows[1:]])
    return masses, data[:, 0] * 1e3, data[:, 1:] * 1e-3


def _prepare():
    for n, _, _ in PBHS:
        if n not in PBH_MASSES:
            m = header(n)[0]
            PBH_MASSES[n] = [m[0], m[len(m) // 2], m[-1]]


def ref(name, idx, groups):
    _prepare()
    f = families()[name]
    with np.errstate(all="ignore"):
        return H.seen(f, f.build(**f.values(dict(idx))), groups)


def cases(tier):
    _prepare()
    q = tier == "quick"
    for n in families():
        yield [n, "cheap", [], 1, None]
        f = families()[n]
        for nv, more in ([(None, 1)] if q else [(None, 1), (2, 2)]):
            ops, seqs = H.histories(f, 3, ["cheap"], nv)
            for pre in seqs(2):
                yield [n, "cheap", list(pre), more, nv]
        if "spec" in f.observe:
            ops, seqs = H.histories(f, 2, ["spec"], None)
            for pre in seqs(1):
                yield [n, "deep", list(pre), 1 if q else 2, None if n != "rhn" or not q else 2]
    for n, _, _ in PBHS:
        for i in range(len(header(n)[0])):
            yield [n, "table", i]


def run(spec, T):
    _prepare()
    name, kind = spec[:2]
    if kind == "table":
        return run_table(name, spec[2], T)
    pre, more, nv = spec[2:]
    f = families()[name]
    ask = "cheap" if kind == "cheap" else "spec"
    ops, seqs = H.histories(f, more, [ask], nv)
    groups = ["cheap"] if kind == "cheap" else ["cheap", "spec"]
    with np.errstate(all="ignore"):
        for d in range(more + 1):
            if d == 0 and kind == "cheap" and pre:
                continue
            for tail in seqs(d):
                H.run_history(f, list(pre) + list(tail), groups, ref, T)


def run_table(name, i, T):
    masses, e, y = header(name)
    f = families()[name]
    m = f.build(grams(masses[i]), 1)
    mid = np.sqrt(e[:-1] * e[1:])
    T.step()
    T.state(name, i)
    T.close(m.total_spectrum(e), y[:, i], f"{name}:table", rtol=1e-12, note=f"mass {masses[i]} g")
    T.close(m.total_spectrum(mid), y[:-1, i] + (y[1:, i] - y[:-1, i]) * (mid - e[:-1]) / (e[1:] - e[:-1]), f"{name}:between", rtol=1e-9, note=f"mass {masses[i]} g")
    out = np.array([e[0] * 0.99, e[-1] * 1.01])
    T.close(m.total_spectrum(out), np.zeros(2), f"{name}:outside", rtol=0, note=f"mass {masses[i]} g")
    T.outcome(float(np.sum(y[:, i])))
