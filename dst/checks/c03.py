"""C03: a failing sweep or worker never yields a partial or wrong solution."""

import copy
import os
import pickle
import warnings

import numpy as np

from .. import gen, lin, pool, sim, trace, work
from ..core import SimHang, Violation

ID = "C03"
LEVEL = "fault_enumeration"
RUNS = (560, 20000)
RULE = ("A case is a random problem solved under a random schedule while 1-2 faults are injected: exceptions of many types inside a task (at a random "
        "library call or at a random executed line of pypeec), factorization failures, workers killed before, inside or after a task, tasks and results "
        "that cannot be pickled, and interrupts while waiting for the workers. The call goes through the data or the file entry point, and it is repeated "
        "without faults in the same process. Nontrivial: at least one fault fired.")
REAL = ["pypeec mesher and solver (complete)", "joblib.Parallel (dispatch, batching, retrieval, abort)", "cloudpickle", "SciPy/NumPy", "scisave writers"]
STUB = ["joblib process pool (simulated workers)", "clock", "optional FFT and factorization libraries"]
ASSUMPTIONS = ["A killed worker is seen by joblib as a terminated worker error for all the pending tasks (as with loky)."]
PROBES = ["library-exception", "line-exception", "worker-killed-in-task", "worker-killed-after-task", "worker-killed-before-task", "submit-pickle-error",
          "result-pickle-error", "interrupt", "factorization-failure", "lu-solve-exception", "repeated after the fault", "file call"]



def run(env):
    ch = env.ch
    with sim.simulation(env):
        (geo, prob, meta) = gen.random_case(ch, max_voxel=16, max_elec=7, n_sweep=ch.pick([3, 1, 2, 4, 5], "sweeps"))
        tol = gen.random_tolerance(ch)
        work.loose(ch, tol)
        tol["parallel_sweep"] = {"n_jobs": 0, "n_threads": None}
        img = sim.new_image("base")
        vox = work.mesh(env, img, geo)
        if not vox.ok:
            raise Violation("mesher-failed", vox)
        vox = vox.value
        base = work.solve(env, img, copy.deepcopy(vox), copy.deepcopy(prob), copy.deepcopy(tol))
        if not base.ok:
            if work.is_numeric(base.exc):
                return
            raise Violation("unexpected-exception", base)
        base = base.value
        lazy = work.LazyRef(vox, prob, tol)

        tol["parallel_sweep"]["n_jobs"] = ch.pick([2, 0, 3, 1, 4, -1], "n_jobs")
        parent = sim.new_image("parent")
        use_file = ch.flag(0.25, "file")
        with pool.simulated(env, parent) as pl:
            for k in range(ch.int(1, 2, "rounds")):
                fired = faulty(env, parent, pl, vox, prob, tol, base, lazy, use_file)
                if not fired:
                    continue
                # the faults stop: the repetition gives the complete solution
                out = work.solve(env, parent, copy.deepcopy(vox), copy.deepcopy(prob), copy.deepcopy(tol))
                env.event("repeat", out.kind())
                env.probe("repeated after the fault")
                if not out.ok:
                    raise Violation("fault-persists", "after %s: %r" % (fired, out))
                d = work.complete(out.value, prob) or work.same_solution(env, lazy, base, out.value)
                env.check(d is None, "fault-changes-later-result", lambda: "after %s: %s" % (fired, d))
        env.sample = "%d sweeps (%s), n_jobs=%d: %s" % (len(prob["sweep_solver"]), meta["mode"], tol["parallel_sweep"]["n_jobs"],
                                                          "; ".join(x for x in env.events if "FAULT" in x)[:200])


def faulty(env, img, pl, vox, prob, tol, base, lazy, use_file):
    """One call with faults."""
    ch = env.ch
    n_jobs = tol["parallel_sweep"]["n_jobs"]
    kinds = ["library-exception", "line-exception", "factorization-failure", "lu-solve-exception"]
    if n_jobs not in (0, 1):
        kinds += ["kill", "pickle", "interrupt", "kill"]
    kind = ch.pick(kinds, "fault")
    fired = []
    n_sweep = len(prob["sweep_solver"])
    ls = lin.LinSim(env)
    tracer = None

    def fire(name, *args):
        fired.append(name)
        env.fault(name, *args)

    if kind == "library-exception":
        target = ch.int(1, 40, "call") if ch.flag(0.5, "late") else ch.int(1, 6, "call")
        which = ch.pick(["gmres/gcrotmk", "any", "fft"], "which")
        exc = work.exception(ch)
        state = {"n": 0}

        def wrapped(mod, name, real, args, kwargs):
            hit = which == "any" or name in which or (which == "fft" and "fft" in name)
            if hit:
                state["n"] += 1
                if state["n"] == target:
                    fire("library-exception", name, exc.__name__)
                    raise exc("injected failure in %s" % name)
            return real(*args, **kwargs)
        handler = wrapped
    elif kind == "factorization-failure":
        target = ch.int(1, 2*n_sweep, "splu")
        how = ch.pick(["singular", "memory", "warning"], "how")
        state = {"n": 0}

        def splu(sim_, real, args, kwargs):
            state["n"] += 1
            if state["n"] == target:
                fire("factorization-failure", how)
                if how == "singular":
                    raise RuntimeError("Factor is exactly singular")
                if how == "memory":
                    raise MemoryError("SuperLU")
                import scipy.sparse.linalg as sla
                raise sla.MatrixRankWarning("Matrix is exactly singular")
            return real(*args, **kwargs)
        ls.splu_fct = splu
        handler = ls
    elif kind == "lu-solve-exception":
        target = ch.int(1, 60, "lusolve")
        exc = work.exception(ch)
        state = {"n": 0}

        def solve(lu, rhs, *args, **kwargs):
            state["n"] += 1
            if state["n"] == target:
                fire("lu-solve-exception", exc.__name__)
                raise exc("injected failure in the LU solver")
            return lu.solve(rhs, *args, **kwargs)
        ls.splu_fct = lambda s, real, args, kwargs: lin.FaultyLU(real(*args, **kwargs), solve)
        handler = ls
    elif kind == "line-exception":
        # the number of lines executed by the tasks is not known: geometric scale
        scale = ch.pick([300, 30, 3000, 10000], "scale")
        exc = work.exception(ch)
        tracer = trace.Lines(ch.int(1, scale, "line"), lambda: exc("injected failure"))
        handler = None
    else:
        handler = ls
    if kind == "kill":
        where = ch.pick(["start", "in", "result"], "where")
        target = ch.int(1, n_sweep, "victim")
        state = {"n": 0}
        if where in ("start", "result"):
            def hook(name, p, task):
                if name == where:
                    state["n"] += 1
                    if state["n"] == target:
                        fired.append("kill")
                        return "kill"
                return None
            pl.hook_point = hook
        else:
            target = ch.int(1, 30, "victim-call")

            def wrapped2(mod, name, real, args, kwargs):
                state["n"] += 1
                if state["n"] == target and pl.current is not None:
                    fired.append("kill")
                    raise pool.KillWorker()
                return real(*args, **kwargs)
            handler = wrapped2
    elif kind == "pickle":
        where = ch.pick(["result", "submit"], "where")
        target = ch.int(1, n_sweep, "victim")
        state = {"n": 0}

        def hook(name, p, task):
            if name == where:
                state["n"] += 1
                if state["n"] == target:
                    fired.append("pickle")
                    return "pickle"
            return None
        pl.hook_point = hook
    elif kind == "interrupt":
        target = ch.int(1, 3*n_sweep, "when")
        state = {"n": 0}

        def hook_wait():
            state["n"] += 1
            if state["n"] == target:
                fire("interrupt")
                raise KeyboardInterrupt()
        pl.hook_wait = hook_wait

    path = None
    if use_file:
        env.probe("file call")
        files = {}
        for name, data in (("vox", vox), ("prob", prob), ("tol", tol)):
            files[name] = os.path.join(env.scratch, name+(".pkl" if name == "vox" else ".json"))
            if name == "vox":
                with open(files[name], "wb") as fid:
                    pickle.dump(data, fid)
            else:
                import json
                with open(files[name], "w") as fid:
                    json.dump(data, fid)
        path = os.path.join(env.scratch, "out%d.pkl" % len(os.listdir(env.scratch)))

    def execute():
        with img.active():
            if use_file:
                return work.call(env, img.main.run_solver_file, files["vox"], files["prob"], files["tol"], path)
            return work.call(env, img.main.run_solver_data, copy.deepcopy(vox), copy.deepcopy(prob), copy.deepcopy(tol))

    try:
        with lin.handler(handler):
            if tracer is not None:
                with tracer.active():
                    out = execute()
                if tracer.fired:
                    fire("line-exception", tracer.fired)
            else:
                out = execute()
    finally:
        pl.hook_point = None
        pl.hook_wait = None

    env.event("faulty", kind, n_jobs, "fired" if fired else "not fired", out.kind())
    if out.ok:
        # the complete and correct solution, or nothing
        value = out.value
        if use_file:
            if not os.path.exists(path):
                raise Violation("missing-output", "the call returned without writing the solution (%s)" % fired)
            with open(path, "rb") as fid:
                value = pickle.load(fid)
        if value is None:
            raise Violation("missing-output", "the call returned nothing")
        d = work.complete(value, prob)
        env.check(d is None, "partial-solution", lambda: "fault %s: %s" % (fired, d))
        d = work.same_solution(env, lazy, base, value)
        env.check(d is None, "wrong-solution", lambda: "fault %s: %s" % (fired, d))
        if fired:
            env.probe("fault tolerated")
            strict = {"kill", "pickle", "interrupt", "library-exception", "lu-solve-exception", "factorization-failure"}
            if set(fired) & strict:
                raise Violation("fault-swallowed", "%s: the call returned normally" % fired)
    else:
        if not fired:
            raise Violation("unexpected-exception", out)
        if use_file and os.path.exists(path):
            raise Violation("output-after-failure", "fault %s: the solution file was written although the call raised %r" % (fired, out))
    return fired
