"""C01: the results of the sweeps do not depend on the schedule."""

import copy

from .. import gen, pool, sim, work
from ..core import Violation

ID = "C01"
LEVEL = "exploration"
RUNS = (480, 16000)
RULE = ("A case is a random problem (1-6 sweeps, dependency forest, options) solved serially in a fresh process image and then under 1-3 "
        "random schedules of the simulated process pool (workers, order of starts and ends, batches, fresh/used/contaminated workers, "
        "read-only arrays, permuted declaration of the sweeps). Nontrivial: at least one schedule in which two tasks were pending at the "
        "same time or a worker was reused or the declaration was permuted.")
REAL = ["pypeec mesher and solver (complete)", "joblib.Parallel (dispatch, batching, retrieval)", "cloudpickle", "SciPy/NumPy"]
STUB = ["joblib process pool (simulated workers, process images in one process)", "clock"]
ASSUMPTIONS = ["The interleaving granularity is a task: real workers share no memory, so finer interleavings are not observable.",
               "Only SuperLU and the SciPy/NumPy FFT are installed."]
PROBES = ["worker reused", "two tasks pending", "read-only array", "permuted declaration", "contaminated worker", "stalled sweep"]


def run(env):
    ch = env.ch
    with sim.simulation(env):
        (geo, prob, meta) = gen.random_case(ch, n_sweep=ch.pick([4, 1, 2, 3, 5, 6], "sweeps"))
        tol = gen.random_tolerance(ch)
        mode = work.loose(ch, tol)
        tol["parallel_sweep"] = {"n_jobs": 0, "n_threads": ch.pick([None, 1, 2], "threads")}

        base_img = sim.new_image("base")
        out = work.mesh(env, base_img, geo)
        if not out.ok:
            raise Violation("mesher-failed", out)
        vox = out.value
        base = work.solve(env, base_img, copy.deepcopy(vox), copy.deepcopy(prob), copy.deepcopy(tol))
        env.event("serial", base.kind(), mode)
        if not base.ok and not work.is_numeric(base.exc):
            raise Violation("unexpected-exception", base)
        if base.ok and not base.value["status"]:
            env.probe("stalled sweep")
        lazy = work.LazyRef(vox, prob, tol)
        if base.ok:
            d = work.complete(base.value, prob)
            env.check(d is None, "incomplete-solution", d)

        parent = sim.new_image("parent")
        with pool.simulated(env, parent) as pl:
            for _ in range(ch.int(1, 3, "schedules")):
                # contamination of the workers with another problem
                if ch.flag(0.3, "contaminate"):
                    (g2, p2, _m) = gen.random_case(ch, max_voxel=12, max_elec=5, n_sweep=2)
                    t2 = gen.random_tolerance(ch)
                    t2["parallel_sweep"]["n_jobs"] = 2
                    o2 = work.mesh(env, parent, g2)
                    if o2.ok:
                        work.solve(env, parent, o2.value, p2, t2)
                        env.probe("contaminated worker")
                t = copy.deepcopy(tol)
                t["parallel_sweep"]["n_jobs"] = ch.pick([2, 0, 1, 3, 4, -1, -2, 8], "n_jobs")
                p = copy.deepcopy(prob)
                if ch.flag(0.4, "permute"):
                    tags = ch.perm(list(p["sweep_solver"]), "perm")
                    if tags != list(p["sweep_solver"]):
                        env.probe("permuted declaration")
                        env.nontrivial = True
                    p["sweep_solver"] = {k: p["sweep_solver"][k] for k in tags}
                pl.max_run = 0
                ro = pl.ro
                out = work.solve(env, parent, copy.deepcopy(vox), p, t)
                env.event("solve", t["parallel_sweep"]["n_jobs"], out.kind())
                if pl.max_run > 1:
                    env.probe("two tasks pending")
                    env.nontrivial = True
                if pl.ro > ro:
                    env.probe("read-only array")
                if env.probes.get("worker reused"):
                    env.nontrivial = True
                if base.ok and not out.ok:
                    raise Violation("parallel-fails", "serial call succeeds, scheduled call raises %r" % out)
                if out.ok and not base.ok:
                    raise Violation("parallel-succeeds", "serial call raises %r, scheduled call succeeds" % base)
                if not base.ok:
                    continue
                d = work.complete(out.value, prob)
                env.check(d is None, "incomplete-solution", d)
                d = work.same_solution(env, lazy, base.value, out.value)
                env.check(d is None, "schedule-dependent", lambda: "n_jobs=%d: %s" % (t["parallel_sweep"]["n_jobs"], d))
        env.sample = "%d sweeps (%s), %s, schedule: %s" % (
            len(prob["sweep_solver"]), meta["mode"], mode, "; ".join(x for x in env.events if x.startswith(("start", "end", "solve")))[:200])
