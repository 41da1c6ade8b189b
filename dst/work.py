"""Shared parts of the checks: calls of the entry points and comparisons of the results."""

import copy

import numpy as np

from . import cmp, ref
from .core import SimCrash, SimHang, Violation


class Outcome:
    """Outcome of a call of an entry point."""

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def kind(self):
        return "ok" if self.exc is None else type(self.exc).__name__

    def __repr__(self):
        return "ok" if self.exc is None else "%s(%s)" % (type(self.exc).__name__, str(self.exc)[:200])


def call(env, fct, *args, **kwargs):
    """Call an entry point and catch the exceptions (not the end of the simulation)."""
    env.evals += 1
    try:
        return Outcome(value=fct(*args, **kwargs))
    except (Violation, SimHang):
        raise
    except BaseException as ex:
        return Outcome(exc=ex)


def is_numeric(exc):
    """Numerical breakdown reported by the third-party libraries (loud, not a violation)."""
    return isinstance(exc, (RuntimeWarning, FloatingPointError, np.linalg.LinAlgError)) or "singular" in str(exc).lower()


def solve(env, img, vox, prob, tol):
    """Call the solver in a process image."""
    env.event("input", cmp.digest((vox.get("data_geom") if isinstance(vox, dict) else None, prob, tol))[:12])
    with img.active():
        return call(env, img.main.run_solver_data, vox, prob, tol)


def mesh(env, img, geo):
    with img.active():
        return call(env, img.main.run_mesher_data, geo)


def same_sweep(reference, tag, a, b, r_rel=1e-8):
    """First difference between two results of the same sweep, up to rounding."""
    if cmp.digest(a) == cmp.digest(b):
        return None
    for k in ("freq", "has_converged", "solver_ok", "condition_ok"):
        if a[k] != b[k]:
            return "/%s: %s != %s" % (k, a[k], b[k])
    if set(a) != set(b):
        return "keys %s != %s" % (sorted(a), sorted(b))
    (sa, sb) = (a["solver_status"], b["solver_status"])
    for k in sa:
        if k.startswith("n_"):
            if abs(int(sa[k])-int(sb[k])) > (3 if "eval" in k else 1):
                return "/solver_status/%s: %s != %s" % (k, sa[k], sb[k])
        elif k == "status":
            if sa[k] != sb[k]:
                return "/solver_status/%s: %s != %s" % (k, sa[k], sb[k])
    if set(a["var"]) != set(b["var"]) or set(a["source"]) != set(b["source"]):
        return "different items"
    for k in a["source"]:
        for q in ("source_type", "var_type"):
            if a["source"][k].get(q) != b["source"][k].get(q):
                return "/source/%s/%s" % (k, q)
    tols = reference.tolerances(tag, r_rel)
    d = ref.compare(ref.quantities(a), ref.quantities(b), tols, 1e-6)
    if d:
        return d
    nb = float(np.linalg.norm(reference.get(tag)[0]["b"]))
    if len(a["res"]) != len(b["res"]) or np.max(np.abs(np.asarray(a["res"])-np.asarray(b["res"]))) > 1e-6*nb:
        return "/res"
    d = cmp.diff(sa["res_thr"], sb["res_thr"], rel=1e-6)
    if d:
        return "/solver_status/res_thr"+d
    d = cmp.diff(a["condition_status"], b["condition_status"], rel=1e-3)
    if d:
        return "/condition_status"+d
    ts = tols["integral"]["S_total"]
    for k in ("power_init", "power_final"):
        x, y = a["conv"][k], b["conv"][k]
        if abs(x-y) > ts+1e-6*max(abs(x), abs(y)):
            return "/conv/%s: %s != %s" % (k, x, y)
    va = np.asarray(a["conv"]["power_vec"])
    vb = np.asarray(b["conv"]["power_vec"])
    if abs(len(va)-len(vb)) > 1:
        return "/conv/power_vec: length %d != %d" % (len(va), len(vb))
    n = min(len(va), len(vb))
    if n and np.max(np.abs(va[:n]-vb[:n])) > 1e-3*max(np.max(np.abs(va)), np.max(np.abs(vb)))+ts:
        return "/conv/power_vec"
    return None


def same_solution(env, reference, a, b):
    """First difference between two solutions, up to rounding (None if they are the same)."""
    if cmp.digest(a) == cmp.digest(b):
        env.probe("bit-identical solutions")
        return None
    env.probe("solutions equal up to rounding")
    if set(a) != set(b):
        return "keys %s != %s" % (sorted(a), sorted(b))
    if a["status"] != b["status"]:
        return "/status: %s != %s" % (a["status"], b["status"])
    d = cmp.diff(a["data_init"], b["data_init"], rel=1e-12)
    if d:
        return "/data_init"+d
    if set(a["data_sweep"]) != set(b["data_sweep"]):
        return "/data_sweep: sweeps %s != %s" % (sorted(a["data_sweep"]), sorted(b["data_sweep"]))
    for tag in a["data_sweep"]:
        d = same_sweep(reference(), tag, a["data_sweep"][tag], b["data_sweep"][tag])
        if d:
            return "/data_sweep/%s%s" % (tag, d)
    return None


class LazyRef:
    """Reference built on demand."""

    def __init__(self, vox, prob, tol):
        self.args = (copy.deepcopy(vox["data_geom"]), copy.deepcopy(prob), copy.deepcopy(tol))
        self.ref = None

    def __call__(self):
        if self.ref is None:
            self.ref = ref.Reference(*self.args)
        return self.ref


def complete(sol, prob):
    """A solution contains exactly the declared sweeps, and every item is there."""
    if sorted(sol["data_sweep"]) != sorted(prob["sweep_solver"]):
        return "sweeps %s, declared %s" % (sorted(sol["data_sweep"]), sorted(prob["sweep_solver"]))
    for tag, res in sol["data_sweep"].items():
        for k in ("freq", "has_converged", "solver_ok", "condition_ok", "solver_status", "condition_status",
                  "material", "source", "integral", "conv", "res", "var"):
            if k not in res:
                return "sweep %s: item %s is missing" % (tag, k)
        if res["freq"] != prob["sweep_solver"][tag]["param"]["freq"]:
            return "sweep %s: frequency %s" % (tag, res["freq"])
    return None



class Simulated(Exception):
    """Injected failure of an unknown type."""


# types of the injected exceptions (the most frequent ones first)
# LinAlgError is handled by the iterative solvers of SciPy (breakdown: the iterations end without convergence)
EXCEPTIONS = [MemoryError, RuntimeError, ValueError, Simulated, OSError, KeyError, TypeError, AttributeError, IndexError, AssertionError, ArithmeticError,
              RecursionError, NotImplementedError, BrokenPipeError, FileNotFoundError, PermissionError, ConnectionError, EOFError, ImportError, LookupError,
              ZeroDivisionError, FloatingPointError, OverflowError, BufferError, ReferenceError, SystemError]


def exception(ch):
    """Type of an injected exception."""
    return ch.pick(EXCEPTIONS[:6], "exc") if ch.flag(0.5, "common") else ch.pick(EXCEPTIONS, "exc")


def loose(ch, tol):
    """Sometimes relax the tolerances (sweeps that do not converge, early stops)."""
    mode = ch.weighted([("tight", 5), ("loose", 2), ("stall", 2), ("power", 2)], "tolmode")
    opts = tol["solver_options"]
    its = (opts["direct_options"], opts["segregated_options"]["iter_electric_options"], opts["segregated_options"]["iter_magnetic_options"])
    if mode == "loose":
        for o in its:
            o["rel_tol"] = 1e-3
        opts["segregated_options"]["rel_tol"] = 1e-3
    elif mode == "stall":
        for o in its:
            o["n_inner"] = ch.int(1, 3, "stall-inner")
            o["n_outer"] = ch.int(1, 2, "stall-outer")
        opts["segregated_options"]["n_max"] = ch.int(2, 4, "stall-max")
    elif mode == "power":
        opts["power_options"] = {"stop": True, "n_min": ch.int(1, 4, "pw-min"), "n_cmp": ch.int(1, 3, "pw-cmp"),
                                 "rel_tol": ch.pick([1e-4, 1e-2, 1e-8], "pw-rel"), "abs_tol": 1e-10}
        for o in its:
            o["n_inner"] = ch.int(1, 4, "pw-inner")
    return mode
