"""Histories of operations on model objects, compared with models built afresh.

A *family* describes a model class: how to build it from its parameters, the parameters a
user may set (with the values explored), the ones that are fixed by it, and what can be
observed.  A history is a sequence of

    ["set", p, i]   assign value i to parameter p           (legal)
    ["bad", p]      assign to a parameter the class fixes   (must raise, must change nothing)
    ["ask", q]      observe (fills whatever caches there are)
    ["copy"]        go on with a copy (the original and a deep copy become bystanders)

After the history everything observable on the model must equal what a model *built afresh
in a process of its own* with the final parameters shows, and bystanders must be unchanged.
"""
import copy
import itertools
import os
import pickle
import struct

import numpy as np


class Zygote:
    """A process that never builds a model: forks a fresh child for each reference."""

    def __init__(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            try:
                self._serve(r1, w2)
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.req, self.rep, self.owner = w1, r2, os.getpid()

    @staticmethod
    def _read(fd, n):
        buf = b""
        while len(buf) < n:
            b = os.read(fd, n - len(buf))
            if not b:
                return None
            buf += b
        return buf

    def _serve(self, rd, wr):
        while True:
            h = self._read(rd, 4)
            if h is None:
                return
            fn, args = pickle.loads(self._read(rd, struct.unpack("<I", h)[0]))
            pid = os.fork()
            if pid == 0:
                try:
                    res = ("ok", fn(*args))
                except BaseException as e:  # noqa
                    res = ("exc", f"{type(e).__name__}: {e}")
                data = pickle.dumps(res)
                os.write(wr, struct.pack("<I", len(data)))
                while data:
                    data = data[os.write(wr, data):]
                os._exit(0)
            os.waitpid(pid, 0)

    def __call__(self, fn, *args):
        data = pickle.dumps((fn, args))
        data = struct.pack("<I", len(data)) + data
        while data:
            data = data[os.write(self.req, data):]
        h = self._read(self.rep, 4)
        kind, val = pickle.loads(self._read(self.rep, struct.unpack("<I", h)[0]))
        if kind == "exc":
            raise RuntimeError(f"a fresh model failed: {val}")
        return val


_Z = None
_REF = {}


def fresh(fn, *args):
    """fn(*args) computed in a process where no model has ever been built."""
    global _Z
    if _Z is None or _Z.owner != os.getpid():
        if _Z is not None:
            _REF.clear()
        _Z = Zygote()
    key = (fn.__module__, fn.__name__, repr(args))
    if key not in _REF:
        z, _Z = _Z, None  # an interrupted conversation must not be continued
        _REF[key] = z(fn, *args)
        _Z = z
    return _REF[key]


class Family:
    """name; build(values...) -> model; params {name: [values]}, first value initial;
    fixed: names that must refuse assignment, or {name: (value to be refused, exceptions)}; derived(params) -> {attribute: expected value};
    observe {group: fn(model) -> nested data}; loose {substring of path: rtol}."""

    def __init__(self, name, build, params, observe, fixed=(), derived=None, loose=None, bystander=None):
        self.name, self.build, self.params, self.observe = name, build, params, observe
        self.fixed = fixed if isinstance(fixed, dict) else {p: (0.123, AttributeError) for p in fixed}
        self.derived, self.loose = derived or (lambda p: {}), loose or {}
        self.bystander = bystander or {}

    def initial(self):
        return {p: 0 for p in self.params}

    def values(self, idx):
        return {p: self.params[p][i] for p, i in idx.items()}


def seen(fam, model, groups):
    out = {}
    for g in groups:
        try:
            out[g] = plain(fam.observe[g](model))
        except Exception as e:
            out[g] = f"raises {type(e).__name__}"
    return out


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, (np.ndarray, np.generic)):
        return np.array(x)
    if isinstance(x, (int, float, complex, str, type(None))):
        return x
    return repr(x)


def same(got, want, loose, path=""):
    """First difference between two observations, or None."""
    if isinstance(want, dict) and isinstance(got, dict):
        if list(got) != list(want):
            return f"{path}: keys {list(got)} instead of {list(want)}"
        for k in want:
            d = same(got[k], want[k], loose, f"{path}/{k}")
            if d:
                return d
        return None
    if isinstance(want, list) and isinstance(got, list):
        if len(got) != len(want):
            return f"{path}: {got!r} instead of {want!r}"
        for i, (a, b) in enumerate(zip(got, want)):
            d = same(a, b, loose, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(want, (str, type(None))) or isinstance(got, (str, type(None), dict, list)):
        return None if type(got) is type(want) and got == want else f"{path}: {str(got)[:200]!r} instead of {str(want)[:200]!r}"
    rtol = next((r for s, r in loose.items() if s in path), 1e-11)
    g, w = np.asarray(got), np.asarray(want)
    if g.shape != w.shape or not np.allclose(g, w, rtol=rtol, atol=0.0, equal_nan=True):
        return f"{path}: {str(got)[:200]} instead of {str(want)[:200]}"
    return None


def histories(fam, depth, asks, nvals=None, copies=True, bad=True):
    ops = [["set", p, i] for p in fam.params for i in range(len(fam.params[p]) if nvals is None else min(nvals, len(fam.params[p])))]
    if bad:
        ops += [["bad", p] for p in fam.fixed]
    ops += [["ask", q] for q in asks]
    if copies:
        ops += [["copy"]]
    return ops, (lambda d=depth: itertools.product(ops, repeat=d))


def excursions(fam, param, length, asks):
    """All histories of assignments to one parameter - every value of it - and queries."""
    ops = [["set", param, i] for i in range(len(fam.params[param]))] + [["ask", q] for q in asks]
    return itertools.product(ops, repeat=length)


def run_history(fam, hist, groups, ref, T, watch=True):
    """Execute one history; compare everything in ``groups``."""
    idx = fam.initial()
    model = fam.build(**fam.values(idx))
    by_idx = dict(idx, **fam.bystander)
    by = [(fam.build(**fam.values(by_idx)), by_idx, "another model")]
    desc = lambda: " ; ".join(f"{o[1]}={fam.params[o[1]][o[2]]}" if o[0] == "set" else " ".join(o) for o in hist)
    for op in hist:
        T.step()
        if op[0] == "set":
            setattr(model, op[1], fam.params[op[1]][op[2]])
            idx[op[1]] = op[2]
        elif op[0] == "bad":
            try:
                setattr(model, op[1], fam.fixed[op[1]][0])
                T.fail(f"{fam.name}:fixed-parameter:{op[1]}", f"{fam.name}: {op[1]} could be set to {fam.fixed[op[1]][0]!r} ({desc()})")
            except fam.fixed[op[1]][1]:
                pass
        elif op[0] == "ask":
            seen(fam, model, [op[1]])
        elif op[0] == "copy":
            old, model = model, copy.copy(model)
            by.append((old, dict(idx), "the original of the copy"))
            by.append((copy.deepcopy(old), dict(idx), "a deep copy"))
    for m, i, who in [(model, idx, None)] + (by if watch else []):
        vals = fam.values(i)
        T.state(fam.name, sorted(i.items()), who)
        for a, v in {**vals, **fam.derived(vals)}.items():
            g = getattr(m, a)
            T.check(g == v or (isinstance(v, float) and np.isclose(g, v, rtol=1e-14, atol=0)), f"{fam.name}:attribute:{a}" + (":bystander" if who else ""),
                    lambda: f"{fam.name} after [{desc()}]: {who or 'the model'} shows {a}={g!r}, expected {v!r}")
        look = groups[:1] if who else groups
        want = fresh(ref, fam.name, tuple(sorted(i.items())), tuple(look))
        got = seen(fam, m, look)
        for g in look:
            T.comparisons += 1
            d = same(got[g], want[g], fam.loose, g)
            if d:
                T.fail(f"{fam.name}:stale:{g}" + (":bystander" if who else ""),
                       f"{fam.name} after [{desc()}]: {who or 'the model'} differs from one built with {vals}: {d}")
            T.outcome(got[g])
