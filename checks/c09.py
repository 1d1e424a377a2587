"""The limits package: lists of models, composites and relic-density limits, over call histories."""
import itertools

import numpy as np

from checks import _limits

ID = "C09"
PROP = dict(
    title="Limit objects answer per model, in order, without touching the models",
    statement=(
        "A limit object applied to any sequence of models returns one number per model, in order, equal to the limit of that "
        "model alone with the object's own measurement, significance and method. A composite reports exactly the limits "
        "added to it since its creation or last reset, under their names, independently of every other composite. The "
        "relic-density limit is the annihilation rate at the parameter value, within the given range, at which the model "
        "has the observed abundance (not-a-number when there is none), for logarithmic and linear searches, and no limit "
        "changes the models it is given."),
    quantifier=dict(over=["histories", "configurations", "inputs"],
                    text="all sequences of up to 3 models, all add/reset/ask histories on two composites to depth 6, all search settings"),
    why_tests_cant="The limit objects have no tests; shared state between composites and changed models need call histories.",
    anchors=dict(files=["hazma/limits/_abstract.py", "hazma/limits/_existing_telescope.py", "hazma/limits/_relic_density.py"],
                 mechanism=[dict(name="AbstractLimit.constrain / CompositeConstrainer", where="hazma/limits/_abstract.py"),
                            dict(name="RelicDensityLimit", where="hazma/limits/_relic_density.py")]),
)
TECHNIQUE = "explicit-state exploration of add/reset/ask histories on limit objects against a reference state machine"
LEVEL_NOTE = ("All add/reset/ask histories on two composites to depth 5 (thorough 6), all sequences of up to 3 of 4 models for "
              "each telescope limit x 2 methods x 2 significances, and all relic-density searches on a lattice of settings.")
RULE = "one case per history, model sequence or search; non-trivial when a returned limit was compared"
CHUNK = 16

OPS = [("add", 0, "x"), ("add", 0, "y"), ("add", 1, "x"), ("add", 1, "z"), ("reset", 0), ("reset", 1), ("ask", 0), ("ask", 1), ("new", 1)]
TEL = ["ComptelLimit", "EgretLimit", "FermiLimit", "IntegralLimit"]
MODELS = [("ann", 40.0, "power"), ("dec", 40.0, "power"), ("ann", 300.0, "hump"), ("dec", 900.0, "flat")]


def cases(tier):
    depth = 5 if tier == "quick" else 6
    for d in range(1, depth + 1):
        for h in itertools.product(range(len(OPS)), repeat=d):
            if OPS[h[-1]][0] == "ask" and OPS[h[0]][0] not in ("ask", "new"):
                yield ["hist", list(h)]
    for t, method, n in itertools.product(TEL, ("chi2", "1bin"), (2.0, 5.0)):
        for k in range(0, 3 if tier == "quick" else 4):
            yield ["tel", t, method, n, k]
    for mx, c, log, vx, br, meth in itertools.product((10.0, 500.0), (1.0, 7.0), (True, False), (1e-3, 0.02), (0, 1, 2), ("brentq", "bisect")):
        yield ["rd", mx, c, log, vx, br, meth]


def limit_cls():
    from hazma.limits import AbstractLimit

    class L(AbstractLimit):
        def __init__(self, name, k):
            super().__init__()
            self._n, self.k = name, k

        name = property(lambda s: s._n)
        description = property(lambda s: "test " + s._n)

        def _constrain(self, model):
            return self.k * model
    return L


class RD:
    """<sigma v> proportional to the square of a coupling."""

    def __init__(self, mx, c, g):
        self.mx, self.c, self.g = mx, c, g

    def thermal_cross_section(self, x):
        return 1e-15 * self.c * self.g ** 2

    def annihilation_cross_sections(self, e_cm):
        v = np.sqrt(1 - 4 * self.mx ** 2 / e_cm ** 2)
        return {"total": 1e-15 * self.c * self.g ** 2 / v}


def run(spec, T):
    if spec[0] == "hist":
        from hazma.limits._abstract import CompositeConstrainer

        class C(CompositeConstrainer):
            description = "test"
        L = limit_cls()
        pool = {"x": L("x", 2.0), "y": L("y", -1.0), "z": L("z", 0.5)}
        objs, ref = [C(), C()], [[], []]
        models = [1.0, 3.0, 10.0]
        for n, o in enumerate(spec[1]):
            op = OPS[o]
            T.step()
            if op[0] == "add":
                objs[op[1]].add_constrainer(pool[op[2]])
                ref[op[1]].append(op[2])
            elif op[0] == "reset":
                objs[op[1]].reset_constrainers()
                ref[op[1]] = []
            elif op[0] == "new":
                objs[op[1]] = C([pool["y"]])
                ref[op[1]] = ["y"]
            note = f"history {[OPS[x] for x in spec[1][:n + 1]]}"
            for i in (0, 1):
                T.check(len(objs[i]) == len(ref[i]), "composite:length", lambda: f"{note}: composite {i} has {len(objs[i])}, not {ref[i]}")
            if op[0] == "ask":
                got = objs[op[1]]._constrain(models)
                want = {k: [pool[k].k * m for m in models] for k in ref[op[1]]}
                T.check(set(got) == set(want), "composite:names", lambda: f"{note}: {list(got)} not {list(want)}")
                for k in want:
                    if k in got:
                        T.close(got[k], want[k], "composite:values", 1e-12, note=note)
                T.check(models == [1.0, 3.0, 10.0], "composite:models-changed", note)
            T.state(tuple(map(tuple, ref)))
        T.outcome(ref)
    elif spec[0] == "tel":
        import hazma.limits as lim
        from hazma import gamma_ray_parameters as grp
        _, t, method, n, k = spec
        meas = {"ComptelLimit": grp.comptel_diffuse, "EgretLimit": grp.egret_diffuse, "FermiLimit": grp.fermi_diffuse,
                "IntegralLimit": grp.integral_diffuse}[t]
        obj = getattr(lim, t)(sigma=n, method=method)
        T.check(obj.name == t[:-5].lower() and isinstance(obj.description, str), "telescope:name", obj.name)
        models = [_limits.make(*m) for m in MODELS]
        single = [float(m.binned_limit(meas, n_sigma=n, method=method)) for m in models]
        dflt = getattr(lim, t)()
        T.close(dflt.constrain(models[:1]), [float(models[0].binned_limit(meas, n_sigma=2.0, method="chi2"))], "telescope:default", 1e-9, note=str(spec))
        for seq in itertools.product(range(len(models)), repeat=k):
            T.step()
            before = [dict(vars(m)) for m in models]
            got = obj.constrain([models[i] for i in seq])
            T.close(got, [single[i] for i in seq], "telescope:sequence", 1e-9, note=f"{spec} models {seq}")
            T.check(before == [dict(vars(m)) for m in models], "telescope:models-changed", str(spec))
            T.state(t, method, n, seq)
        T.outcome(single)
    else:
        from hazma.limits import RelicDensityLimit
        from hazma.relic_density import relic_density
        from hazma.parameters import sv_inv_MeV_to_cm3_per_s
        from scipy.optimize import brentq
        _, mx, c, log, vx, br, meth = spec
        lo, hi = [(1e-4, 1e3), (0.01, 50.0), (1e3, 1e4)][br]
        if not log and br == 0:
            lo, hi = 0.05, 60.0
        m = RD(mx, c, 0.77)
        T.step()
        got = RelicDensityLimit("g", lo, hi, vx=vx, log=log, method=meth).constrain([m, m])
        T.check(vars(m) == dict(mx=mx, c=c, g=0.77), "relic-density:model-changed", str(vars(m)))
        if br == 2:
            T.check(np.all(np.isnan(got)), "relic-density:no-solution", lambda: f"{spec}: {got}")
            return
        g = np.exp(brentq(lambda l: relic_density(RD(mx, c, np.exp(l)), semi_analytic=True) - 0.1198, np.log(lo), np.log(hi), xtol=1e-9))
        cm = 2 * mx * (1 + 0.5 * vx ** 2)
        want = RD(mx, c, g).annihilation_cross_sections(cm)["total"] * vx * sv_inv_MeV_to_cm3_per_s
        T.close(got, [want, want], "relic-density:rate", 1e-4, note=str(spec))
        T.outcome(want)
