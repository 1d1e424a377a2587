"""The library as one state machine: a call leaves nothing behind for the next one or for the process."""
import contextlib
import io
import os
import random
import shutil
import signal
import sys
import tempfile
import threading
import types
import warnings

import numpy as np

from checks import _hist as H

ID = "C32"
PROP = dict(
    title="A library call leaves nothing behind, whatever is called before or after",
    statement=(
        "Whatever sequence of calls is made across all parts of the library (spectra, phase space, form factors, thermodynamics, telescopes, limits, "
        "models), each answers what it answers in a fresh process; no call changes its arguments, the process (NumPy and Python random generators, "
        "warning filters, floating-point error handling, print options, working directory, environment, signal handlers, standard output) or "
        "published data (measurements, targets, backgrounds, constants); and what a caller does to a returned array, list or dictionary "
        "never reaches a later answer."),
    quantifier=dict(over=["histories"], text="all ordered pairs of calls (thorough: all triples of a subset) from a catalogue covering every part, with every result overwritten by the caller"),
    why_tests_cant="Tests call one function at a time and drop the result; leaked state and results shared with caches need sequences and a caller that modifies what it got.",
    anchors=dict(files=["hazma/utils.py", "hazma/spectra/__init__.py", "hazma/spectra/_nbody.py", "hazma/spectra/_fsr.py", "hazma/theory/__init__.py", "hazma/theory/_theory_gamma_ray_limits.py",
                        "hazma/phase_space/_rambo.py", "hazma/phase_space/_three_body.py", "hazma/relic_density", "hazma/gamma_ray_parameters.py", "hazma/limits",
                        "hazma/form_factors/vector", "hazma/scalar_mediator", "hazma/vector_mediator", "hazma/rh_neutrino", "hazma/single_channel.py", "hazma/pbh.py"],
                 mechanism=[dict(name="all public functions and methods", where="hazma"),
                            dict(name="deprecate_fn, warn_deprecated_module", where="hazma/utils.py")]),
)
TECHNIQUE = "explicit-state exploration of all ordered pairs of calls on the real library, answers compared with a fresh process, process and published state compared after every call"
LEVEL_NOTE = ("A catalogue of about 105 calls; all ordered pairs adjacent in a history (every fourth of those with a call of more than 50 ms), all results overwritten; thorough adds all triples of a third of the catalogue. "
              "Model objects are shared by all calls of a history.")
RULE = "one case per block of first calls; non-trivial when answers were compared with a fresh process"
CORE = CYTHON = True
CHUNK = 1

E5 = lambda: np.array([0.7, 12.0, 61.5, 170.0, 20.0])
_MODELS = {}


def model(name):
    """Models live as long as the process, as a user's would."""
    if name not in _MODELS:
        if name == "higgs":
            from hazma.scalar_mediator import HiggsPortal
            m = HiggsPortal(250.0, 550.0, 1.0, 1e-3)
        elif name == "heavy":
            from hazma.scalar_mediator import HeavyQuark
            m = HeavyQuark(200.0, 350.0, 0.5, 0.1, 1e6, 0.4)
        elif name == "kin":
            from hazma.vector_mediator import KineticMixing
            m = KineticMixing(220.0, 700.0, 1.0, 0.1)
        elif name == "vec":
            from hazma.vector_mediator import VectorMediator
            m = VectorMediator(250.0, 400.0, 1.0, 0.1, 0.2, 0.3, 0.4, 0.5)
        elif name == "gev":
            from hazma.vector_mediator import KineticMixingGeV
            m = KineticMixingGeV(mx=150.0, mv=310.0, gvxx=1.0, eps=0.1)
        elif name == "rhn":
            from hazma.rh_neutrino import RHNeutrino
            from hazma.parameters import neutral_pion_mass
            m = RHNeutrino(1.7 * neutral_pion_mass, 1e-3, "mu")
        elif name == "ann":
            from hazma.single_channel import SingleChannelAnn
            m = SingleChannelAnn(250.0, "mu mu", 1e-26)
        elif name == "dec":
            from hazma.single_channel import SingleChannelDec
            m = SingleChannelDec(300.0, "pi0 a", 1e-20)
        elif name == "pbh":
            from hazma.pbh import PBH
            from hazma.parameters import g_to_MeV
            m = PBH(1.0e15 * g_to_MeV)
        _MODELS[name] = m
    return _MODELS[name]


# ---- catalogue: name -> () -> (callable, args, kwargs)
OPS = {}


def op(name):
    def deco(f):
        OPS[name] = f
        return f
    return deco


def _simple(name, path, *args, **kw):
    def get():
        import importlib
        mod, attr = path.rsplit(".", 1)
        f = getattr(importlib.import_module(mod), attr)
        return f, tuple(a() if callable(a) else a for a in args), {k: v() if callable(v) else v for k, v in kw.items()}
    OPS[name] = get


def _method(name, mod, meth, *args, **kw):
    OPS[name] = lambda: (getattr(model(mod), meth), tuple(a() if callable(a) else a for a in args), {k: v() if callable(v) else v for k, v in kw.items()})


def _call(name, fn):
    OPS[name] = lambda: (fn, (), {})


for _n, _e in (("muon", 200.0), ("neutral_pion", 200.0), ("charged_pion", 180.0), ("charged_kaon", 700.0), ("eta", 600.0), ("eta_prime", 1000.0), ("omega", 900.0), ("phi", 1100.0), ("long_kaon", 600.0)):
    _simple("photon_" + _n, "hazma.spectra.dnde_photon_" + _n, E5, _e)
for _n, _e in (("muon", 200.0), ("charged_pion", 180.0), ("short_kaon", 700.0), ("neutral_rho", 900.0), ("omega", 900.0)):
    _simple("positron_" + _n, "hazma.spectra.dnde_positron_" + _n, E5, _e)
for _n, _e in (("muon", 200.0), ("charged_pion", 180.0), ("charged_kaon", 700.0), ("charged_rho", 900.0), ("phi", 1100.0)):
    _simple("neutrino_" + _n, "hazma.spectra.dnde_neutrino_" + _n, E5, _e)
_simple("neutrino_mu_muon", "hazma.spectra.dnde_neutrino_muon", E5, 200.0, flavor="mu")
_simple("nbody_photon_2", "hazma.spectra.dnde_photon", E5, 700.0, lambda: ["mu", "mu"])
_simple("nbody_photon_3", "hazma.spectra.dnde_photon", lambda: np.array([20.0, 80.0]), 600.0, lambda: ["pi", "pi0", "mu"], three_body_integrator="quad")
_simple("nbody_positron", "hazma.spectra.dnde_positron", E5, 700.0, lambda: ["mu", "mu"])
_simple("nbody_neutrino", "hazma.spectra.dnde_neutrino", E5, 700.0, lambda: ["mu", "pi"])
_simple("ap_fermion", "hazma.spectra.dnde_photon_ap_fermion", E5, 4e5, 105.0)
_simple("ap_scalar", "hazma.spectra.dnde_photon_ap_scalar", E5, 4e5, 139.0)
_simple("old_ap_fermion", "hazma.utils.dnde_altarelli_parisi_fermion", E5, 700.0, 105.0)
_simple("old_ap_scalar", "hazma.utils.dnde_altarelli_parisi_scalar", E5, 700.0, 139.0)
_simple("old_module", "hazma.utils.warn_deprecated_module", "x", "y")
_simple("boost_array", "hazma.spectra.boost.dnde_boost_array", lambda: np.exp(-E5() / 50), lambda: np.sort(E5()), 0.4)
_simple("boost_delta", "hazma.spectra.boost.boost_delta_function", E5, 60.0, 0.0, 0.4)
_simple("kallen", "hazma.utils.kallen_lambda", 3.0, 1.0, 0.5)
_simple("ldot", "hazma.utils.ldot", lambda: np.arange(8.0).reshape(4, 2), lambda: np.ones((4, 2)))
_simple("energy_limits", "hazma.phase_space._utils.energy_limits", 700.0, lambda: [139.0, 135.0, 105.0])
for _n in ("sm_dof_entropy", "sm_sqrt_gstar", "sm_entropy_density"):
    _simple(_n, "hazma.relic_density._thermal_functions." + _n, lambda: np.array([1e-6, 3.0, 900.0]))
_simple("neq", "hazma.relic_density._thermal_functions.neq", lambda: np.array([1.0, 30.0]), 100.0)
_simple("yeq", "hazma.relic_density._thermal_functions.yeq", lambda: np.array([1.0, 30.0]), 100.0)
_simple("vx_cmb", "hazma.cmb.vx_cmb", 100.0, 1e-4)
_simple("eff_area", "hazma.gamma_ray_parameters.effective_area_e_astrogam", lambda: np.array([1.0, 30.0]))
_simple("energy_res", "hazma.gamma_ray_parameters.energy_res_egret", lambda: np.array([100.0, 300.0]))
_simple("solid_angle", "hazma.gamma_ray_parameters.solid_angle_cone", 0.3)


@op("gc_background")
def _():
    from hazma import gamma_ray_parameters as g
    return g.gc_bg_model.dPhi_dEdOmega, (E5(),), {}


@op("gc_derivatives")
def _():
    from hazma import gamma_ray_parameters as g
    return g.GalacticCenterBackgroundModel().derivatives, (E5(),), {}


@op("rambo_generate")
def _():
    from hazma.phase_space import Rambo
    return Rambo(700.0, np.array([139.0, 135.0, 105.0])).generate, (40,), dict(seed=5)


@op("rambo_integrate")
def _():
    from hazma.phase_space import Rambo

    def f(m):
        return Rambo(700.0, m).generate(200, seed=3)
    return f, (np.array([139.0, 135.0, 105.0, 0.5]),), {}


@op("three_body")
def _():
    from hazma.phase_space import ThreeBody

    def f(m):
        t = ThreeBody(700.0, m)
        d = t.energy_distributions(nbins=6)
        return [t.integrate(method="quad"), [x.bins for x in d], [x.probabilities for x in d]]
    return f, ([139.0, 135.0, 105.0],), {}


@op("fsr")
def _():
    from hazma.spectra import dnde_photon_fsr
    ms = (105.0, 105.0)
    return dnde_photon_fsr, (np.array([10.0, 100.0]), 700.0, ms, lambda p: 1.0 + 0 * p[0, 0], lambda p: 1.0 + 0 * p[0, 0]), dict(method="rambo", npts=256, seed=3)


@op("ff_pi_pi")
def _():
    from hazma.form_factors.vector import VectorFormFactorPiPi
    return VectorFormFactorPiPi().form_factor, (), dict(q=np.array([500.0, 900.0]), couplings=(0.6, -0.3, 0.1))


@op("ff_k_k")
def _():
    from hazma.form_factors.vector import VectorFormFactorKK
    return VectorFormFactorKK().width, (), dict(mv=np.array([1020.0, 1400.0]), couplings=(0.6, -0.3, 0.1))


for _m in ("higgs", "heavy", "kin", "vec", "gev"):
    _method(_m + ".states", _m, "list_annihilation_final_states")
    _method(_m + ".xs", _m, "annihilation_cross_sections", 520.0 if _m != "gev" else 320.0)
    _method(_m + ".bf", _m, "annihilation_branching_fractions", 520.0 if _m != "gev" else 320.0)
    _method(_m + ".widths", _m, "partial_widths")
    _method(_m + ".pos", _m, "total_positron_spectrum", E5, 520.0 if _m != "gev" else 320.0)
for _m in ("higgs", "kin", "gev"):
    _method(_m + ".spec", _m, "total_spectrum", E5, 520.0 if _m != "gev" else 320.0)
    _method(_m + ".lines", _m, "gamma_ray_lines", 520.0 if _m != "gev" else 320.0)
for _m in ("rhn", "dec", "pbh"):
    _method(_m + ".states", _m, "list_decay_final_states")
    _method(_m + ".bf", _m, "decay_branching_fractions")
    _method(_m + ".spec", _m, "total_spectrum", E5)
    _method(_m + ".lines", _m, "gamma_ray_lines")
_method("rhn.widths", "rhn", "decay_widths")
_method("rhn.pos", "rhn", "total_positron_spectrum", E5)
_method("rhn.spectra", "rhn", "spectra", E5)
_method("ann.spectra", "ann", "spectra", E5, 520.0)
_method("ann.states", "ann", "list_annihilation_final_states")
_method("higgs.spectra", "higgs", "spectra", E5, 520.0)


@op("higgs.constraints")
def _():
    m = model("higgs")
    return (lambda: {k: f() for k, f in m.constraints().items()}), (), {}


@op("binned_limit")
def _():
    from hazma import gamma_ray_parameters as g
    return model("dec").binned_limit, (g.egret_diffuse,), dict(method="chi2")


@op("binned_limit_1bin")
def _():
    from hazma import gamma_ray_parameters as g
    return model("dec").binned_limit, (g.comptel_diffuse,), dict(method="1bin")


@op("unbinned_limit")
def _():
    from hazma import gamma_ray_parameters as g
    return model("dec").unbinned_limit, (g.effective_area_e_astrogam, g.energy_res_e_astrogam, 1e11, g.gc_targets["nfw"]["10x10 deg box"], g.gc_bg_model), {}


@op("conv")
def _():
    from hazma import gamma_ray_parameters as g

    def f(es):
        h = model("dec").total_conv_spectrum_fn(1.0, 200.0, g.energy_res_e_astrogam, n_pts=80)
        return h(es)
    return f, (np.array([3.0, 40.0, 100.0]),), {}


@op("telescope_limit")
def _():
    from hazma.limits import EgretLimit
    return EgretLimit().constrain, ([model("dec")],), {}


class Constant:
    mx = 100.0

    def thermal_cross_section(self, x):
        return 1.8e-15


@op("relic_density")
def _():
    from hazma.relic_density import relic_density
    return relic_density, (Constant(),), dict(semi_analytic=True)


@op("relic_density_ode")
def _():
    from hazma.relic_density import relic_density
    return relic_density, (Constant(),), dict(semi_analytic=False)


def _gev_average(**kw):
    """The thermal average behind the relic density of a GeV model whose cross sections into its final states are 1, 1/2, 1/4, ..."""
    import hazma.vector_mediator._gev.thermal_cross_section as mod
    from hazma.vector_mediator import KineticMixingGeV
    m = KineticMixingGeV(mx=150.0, mv=310.0, gvxx=1.0, eps=0.1)
    m.annihilation_cross_section_funcs = lambda: {k: (lambda q, i=i: 2.0 ** -i) for i, k in enumerate(sorted(m.list_annihilation_final_states()))}
    if not hasattr(mod, "rd"):
        return 0.0
    rd = mod.rd
    mod.rd = lambda *a, **k: (k["model"] if "model" in k else a[0]).thermal_cross_section(20.0)
    try:
        return m.relic_density(**kw)
    finally:
        mod.rd = rd


for _n, _k in (("gev_average", {}), ("gev_average_3", dict(three_body=True)), ("gev_average_34", dict(three_body=True, four_body=True))):
    OPS[_n] = lambda kw=_k: (_gev_average, (), dict(kw))


# calls of more than 50 ms take part in every fourth pair
SLOW = {"rhn.spec", "rhn.pos", "rhn.spectra", "binned_limit", "binned_limit_1bin", "unbinned_limit", "conv", "telescope_limit"}


# ---- state of the process and of the published data
def process_state():
    st = np.random.get_state()
    return dict(numpy_random=(st[1].tobytes(), st[2]), python_random=random.getstate(), filters=[str(f) for f in warnings.filters], showwarning=repr(warnings.showwarning),
                errors=np.geterr(), errcall=repr(np.geterrcall()), printing=str(np.get_printoptions()), cwd=os.getcwd(), files=sorted(os.listdir(".")), environ=dict(os.environ),
                path=list(sys.path), recursion=sys.getrecursionlimit(), signals=[repr(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGALRM, signal.SIGTERM)],
                stdout=id(sys.stdout), stderr=id(sys.stderr), hook=repr(sys.excepthook), threads=threading.active_count(), trace=repr(sys.gettrace()))


def published():
    """Measurements, targets, backgrounds and constants, as plain data."""
    out = {}
    import hazma.cmb
    import hazma.gamma_ray_parameters as g
    import hazma.parameters as p
    for mod in (g, p, hazma.cmb):
        for k in sorted(vars(mod)):
            v = getattr(mod, k)
            if not k.startswith("_") and not isinstance(v, (types.ModuleType, types.FunctionType, type)) and type(v).__module__ != "typing":
                out[mod.__name__ + "." + k] = data(v, 0)
    return out


def data(v, d):
    if isinstance(v, np.ndarray):
        return v.tobytes(), v.shape
    if isinstance(v, (int, float, complex, str, bool, type(None))):
        return repr(v)
    if d > 5:
        return "..."
    if isinstance(v, dict):
        return {repr(k): data(x, d + 1) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [data(x, d + 1) for x in v]
    if hasattr(v, "__dict__") and type(v).__module__.startswith("hazma"):
        return {k: data(x, d + 1) for k, x in vars(v).items() if not k.startswith("_") and not callable(x)}
    return type(v).__name__


def args_of(x):
    if isinstance(x, np.ndarray):
        return x.tobytes(), x.shape, str(x.dtype), x.flags.writeable
    if isinstance(x, (list, tuple)):
        return [args_of(v) for v in x]
    if isinstance(x, dict):
        return {k: args_of(v) for k, v in x.items()}
    return repr(x) if isinstance(x, (int, float, str)) else type(x).__name__


def overwrite(x, depth=0):
    """What a careless caller might do with an answer."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x[...] = -7
    elif isinstance(x, (list, tuple)) and depth < 5:
        for v in x:
            overwrite(v, depth + 1)
        if isinstance(x, list):
            x[:] = x[:1]
    elif isinstance(x, dict) and depth < 5:
        for v in x.values():
            overwrite(v, depth + 1)
        x["mu mu"] = -7.0
        x.pop(next(iter(x)))


def keep(x):
    """The answer as it was when it was given, with what type of container it came in."""
    if isinstance(x, dict):
        return {str(k): keep(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [keep(v) for v in x]
    if isinstance(x, (np.ndarray, np.generic)):
        return np.array(x)
    return H.plain(x)


def reference(name):
    with warnings.catch_warnings(), np.errstate(all="ignore"), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        f, a, k = OPS[name]()
        return keep(f(*a, **k))


def cases(tier):
    n = len(OPS)
    nb = 16
    for k in range(nb):
        yield ["pairs", k, nb]
    if tier == "thorough":
        for k in range(nb):
            yield ["pairs-reversed", k, nb]
            yield ["triples", k, nb]


class Session:
    def __init__(self, T):
        self.T, self.hist = T, []
        self.before, self.pub = process_state(), published()
        self.refs = {}

    def call(self, name):
        T = self.T
        f, a, k = OPS[name]()
        given = args_of([list(a), k])
        T.step()
        out = sys.stdout.getvalue() if hasattr(sys.stdout, "getvalue") else ""
        res = f(*a, **k)
        ctx = f"{name} after {self.hist[-3:]}"
        self.hist.append(name)
        ref = self.ref(name)
        T.comparisons += 1
        d = H.same(keep(res), ref, {})
        if d:
            T.fail(f"answer:{name}", f"{ctx}: {d}")
        if args_of([list(a), k]) != given:
            T.fail(f"argument:{name}", f"{ctx}: changed its arguments")
        if hasattr(sys.stdout, "getvalue") and sys.stdout.getvalue() != out:
            T.fail(f"output:{name}", f"{ctx} prints")
        now = process_state()
        if now != self.before:
            for q in now:
                if now[q] != self.before[q]:
                    T.fail(f"process:{name}:{q}", f"{ctx}: {q} of the process changed")
            self.before = now
        T.outcome(name, "" if ref is None else repr(ref)[:80])
        overwrite(res)

    def ref(self, name):
        if name not in self.refs:
            self.refs[name] = H.fresh(reference, name)
        return self.refs[name]

    def close(self):
        if published() != self.pub:
            now = published()
            bad = [k for k in now if now[k] != self.pub.get(k)] + [k for k in self.pub if k not in now]
            self.T.fail(f"published:{bad[0]}", f"{bad} changed in a history of {len(self.hist)} calls over {sorted(set(self.hist))[:6]}...")


def run(spec, T):
    kind, k, nb = spec
    names = list(OPS)
    import hazma.cmb, hazma.form_factors.vector, hazma.gamma_ray_parameters, hazma.limits, hazma.pbh, hazma.phase_space, hazma.relic_density  # noqa
    import hazma.rh_neutrino, hazma.scalar_mediator, hazma.single_channel, hazma.spectra, hazma.utils, hazma.vector_mediator  # noqa
    for n in names:            # references first: their process has called nothing
        H.fresh(reference, n)
    cwd, tmp = os.getcwd(), tempfile.mkdtemp(prefix="c32-")
    saved = warnings.filters[:]
    try:
        os.chdir(tmp)
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            for n in names:        # imports everything
                OPS[n]()
            s = Session(T)
            if kind != "triples":
                order = names if kind == "pairs" else names[::-1]
                for a in names[k::nb]:
                    for i, b in enumerate(order):
                        if (a in SLOW or b in SLOW) and (i + len(a)) % 4:
                            continue
                        s.call(a)
                        s.call(b)
                        T.state(a, b)
                    s.close()
            else:
                sub = [n for n in names[::3] if n not in SLOW]
                for a in sub[k::nb]:
                    for b in sub:
                        for c in sub:
                            s.call(a), s.call(b), s.call(c)
                            T.state(a, b, c)
                    s.close()
    finally:
        warnings.filters[:] = saved
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)
