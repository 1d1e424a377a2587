"""Phase-space objects after any history of changes behave like freshly built ones."""
import itertools

import numpy as np

from checks import _ps

ID = "C17"
PROP = dict(
    title="Reconfigured phase-space objects behave like new ones",
    statement=(
        "After any sequence of changes of energy, masses (also their number, where the object allows it) and squared matrix "
        "element, interleaved with any integrations, event generations or distributions, every result of a two-body, "
        "three-body or RAMBO object equals that of a new object built with the current energy, masses and matrix element, "
        "and the object reports exactly those. Inputs handed to the object are never modified, nor does changing them "
        "later change the object."),
    quantifier=dict(over=["histories"], text="all operation sequences up to the depth bound, for each kind of object"),
    why_tests_cant="No test ever changes an object after building it.",
    anchors=dict(files=["hazma/phase_space/_two_body.py", "hazma/phase_space/_three_body.py", "hazma/phase_space/_rambo.py"],
                 mechanism=[dict(name="cme / masses / msqrd setters", where="hazma/phase_space/_rambo.py"),
                            dict(name="ThreeBody setters", where="hazma/phase_space/_three_body.py")]),
)
TECHNIQUE = "explicit-state exploration of all operation histories to a depth against freshly built objects"
LEVEL_NOTE = ("All sequences of up to 3 (quick) or 4 (thorough) operations out of 8-9 per kind of object, six kinds of object; at the end "
              "of each the object is compared with a fresh one.")
RULE = "one case per history; non-trivial when results were compared"

Q = [3.0, 8.0, 900.0]
M = {2: [[0.2, 1.0], [0.0, 2.5]], 3: [[0.1, 0.5, 1.0], [1.2, 0.0, 0.3]]}
Z = [lambda z: 1 + z * z, lambda z: 2.0 - z]
ST = [lambda s, t: 1 + s, lambda s, t: t * t]
MOM = [lambda p: p[0, 0] + 0 * p[0, 1], lambda p: p[0, 1] * p[0, 0]]
KINDS = ["two-z", "two-momenta", "three-st", "three-momenta", "rambo", "rambo-msqrd"]


def ops(kind):
    o = [["cme", i] for i in range(3)] + [["masses", i] for i in range(2)]
    if not kind.startswith("rambo"):
        o += [["msqrd", i] for i in range(2)] + [["integrate"]]
    else:
        o += [["masses", 2], ["generate"], ["batches"]]
    if kind.startswith("three"):
        o += [["energies"]]
    return o


def cases(tier):
    depth = 3 if tier == "quick" else 4
    for k in KINDS:
        d = depth if not k.startswith("three") else depth - (tier == "quick")
        for h in itertools.product(ops(k), repeat=d):
            yield ["hist", k, [list(x) for x in h]]


def build(kind, q, ms, f):
    from hazma.phase_space import Rambo, ThreeBody
    from hazma.phase_space._two_body import TwoBody
    if kind == "two-z":
        return TwoBody(q, ms, msqrd=f)
    if kind == "two-momenta":
        return TwoBody(q, ms, msqrd=f, msqrd_signature="momenta")
    if kind == "three-st":
        return ThreeBody(q, ms, msqrd=f)
    if kind == "three-momenta":
        return ThreeBody(q, ms, msqrd=f, msqrd_signature="momenta")
    return Rambo(q, np.array(ms), msqrd=f)


FN = {"two-z": Z, "two-momenta": MOM, "three-st": ST, "three-momenta": MOM, "rambo": [None], "rambo-msqrd": [lambda p: 1 + p[0, 0] + p[3, -1] ** 2]}
_REF = {}


def observe(kind, o, cost):
    if kind.startswith("rambo"):
        ps, ws = o.generate(6, seed=2)
        return [np.array(ps), np.array(ws), np.array(o.integrate(9, batch_size=3, seed=4)), np.array(o.decay_width(7, seed=4)),
                np.array([np.array(d.probabilities) for d in o.energy_distributions(20, 3, seed=1)]).ravel(),
                np.array(list(o.invariant_mass_distributions(20, 3, seed=1).values())[0].bins)]
    if kind.startswith("two"):
        return [np.array(o.integrate())[:1]]
    res = [np.array(o.integrate(epsrel=1e-3, epsabs=0)[:1])]
    d = o.energy_distributions(4)
    res += [np.array([x.probabilities for x in d]).ravel(), np.array([x.bins for x in d]).ravel()]
    return res


def run(spec, T):
    _, kind, hist = spec
    n = 2 if kind.startswith("two") else 3
    cur = dict(q=1, m=M[n][0], f=0)
    given = list(cur["m"])
    if kind.startswith("rambo"):
        given = np.array(given)
    o = build(kind, Q[cur["q"]], given, FN[kind][0])
    for step, op in enumerate(hist):
        note = f"{kind} {hist[:step + 1]}"
        T.step()
        if op[0] == "cme":
            o.cme = Q[op[1]]
            cur["q"] = op[1]
        elif op[0] == "masses":
            new = list(M[n][op[1]]) if op[1] < 2 else [0.1, 0.4, 0.0, 0.9]
            handed = np.array(new) if kind.startswith("rambo") else list(new)
            o.masses = handed
            cur["m"] = new
            handed[0] = 77.0
        elif op[0] == "msqrd":
            o.msqrd = FN[kind][op[1]]
            cur["f"] = op[1]
        elif op[0] == "integrate":
            o.integrate()
        elif op[0] == "energies":
            o.invariant_mass_distributions(3)
        elif op[0] == "generate":
            o.generate(3)
        elif op[0] == "batches":
            list(o.generator(5, 2, seed=9))
        T.check(o.cme == Q[cur["q"]], "cme", note)
        T.close(np.array(o.masses), np.array(cur["m"]), f"{kind}:masses", 0, note=note)
    if kind in ("two-z", "three-st"):
        T.check(o.msqrd is FN[kind][cur["f"]], f"{kind}:msqrd", note)
    key = (kind, cur["q"], tuple(cur["m"]), cur["f"])
    if key not in _REF:
        _REF[key] = observe(kind, build(kind, Q[cur["q"]], list(cur["m"]), FN[kind][cur["f"]]), 0)
    for i, (g, w) in enumerate(zip(observe(kind, o, 0), _REF[key])):
        T.close(g, w, f"{kind}:result:{i}", 1e-9, 1e-12 * np.nanmax(np.abs(w)), note=note)
    T.state(key)
    T.outcome(_REF[key][0])
    given[0] = -5.0
    T.close(np.array(o.masses), np.array(cur["m"]), f"{kind}:aliased", 0, note=note)
