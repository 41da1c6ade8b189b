"""C04: the results do not depend on the previous calls, on their failures, or on the clock."""

import copy
import random

import numpy as np

from .. import ops, pool, sim, trace, work
from ..core import Violation

ID = "C04"
LEVEL = "fault_enumeration"
RUNS = (480, 14000)
RULE = ("A case is a history of calls (mesher of all types, solver with random options and schedules, and utilities) in one simulated process: repeated calls, "
        "damaged calls that fail, calls interrupted at a random executed line (Ctrl-C, out of memory), clock jumps and drifts, and another state of the random generators "
        "before every call. Every completed call is compared with the same call in a new process. Nontrivial: two or more different calls, or a fault.")
REAL = ["pypeec mesher, solver and utilities (complete)", "SciPy, joblib, Pillow, Shapely, Rasterio, PyVista"]
STUB = ["joblib process pool", "clock", "random generators (seeded before every call)", "optional FFT/factorization libraries"]
ASSUMPTIONS = ["the random conflict resolution of the mesher is disabled", "problems with up to 16 voxels", "no interruption inside of the third-party libraries"]
PROBES = ["mesh after another call", "solve after another call", "util after another call", "repeated call", "call after a failure", "call after an interruption",
          "clock jump backward", "clock jump forward", "bit-identical solutions", "failing call compared", "parallel call", "interrupted solve", "interrupted mesh", "duration"]


class Jumps:
    """Jumping and drifting wall clock."""

    def __init__(self, env, seed, p):
        self.env = env
        self.rng = random.Random(seed)
        self.p = p

    def __call__(self, clock):
        if self.rng.random() < self.p:
            dt = self.rng.choice([-1.0, 1.0])*self.rng.choice([1e-3, 0.5, 3600.0, 86400.0*400])
            clock.wall = max(1e6, clock.wall+dt)
            self.env.probe("clock jump backward" if dt < 0 else "clock jump forward")


def run(env):
    ch = env.ch
    with sim.simulation(env):
        # calls
        pool_ops = []
        for _ in range(ch.int(1, 3, "n_ops")):
            kind = ch.weighted([("solve", 5), ("mesh", 3), ("util", 2)], "kind")
            op = {"solve": ops.solve_op, "mesh": ops.mesh_op, "util": ops.util_op}[kind](ch, env)
            pool_ops.append(op)
        if ch.flag(0.85, "variant"):
            pool_ops.append(ops.variant(ch, env, ch.pick(pool_ops, "which")))
        if ch.flag(0.5, "damage"):
            pool_ops.append(ops.corrupt(ch, ch.pick(pool_ops, "which")))
        for i, op in enumerate(pool_ops):
            ops.fresh(env, op, 100+i)
            env.event("op", i, op.kind, op.func, op.note, op.digest(), op.fresh.kind())

        # history
        img = sim.new_image("history")
        last = None
        seen = set()
        with pool.simulated(env, img):
            for step in range(ch.int(2, 6, "n_steps")):
                i = ch.draw(len(pool_ops), "op")
                op = pool_ops[i]
                seed = ch.draw(10**6, "rngseed")
                np.random.seed(seed)
                random.seed(seed)
                sim.CLOCK.hook = Jumps(env, ch.draw(10**6, "clockseed"), ch.pick([0.05, 0.3, 1.0], "clockp")) if ch.flag(0.4, "clock") else None
                stop = None
                wall = sim.CLOCK.wall
                hooked = sim.CLOCK.hook is not None
                with img.active():
                    state = sim.process_state()
                if ch.flag(0.3, "interrupt") and not op.parallel():
                    how = ch.pick(["KeyboardInterrupt", "exception"], "how")
                    exc = work.exception(ch)
                    target = int(10**(ch.int(0, 450, "line")/100.0))

                    def make():
                        if how == "exception":
                            return exc("simulated")
                        ex = KeyboardInterrupt("simulated")
                        ex.simulated = True
                        return ex
                    stop = trace.Lines(target=target, make=make)
                    out = op.call(env, img, copy.deepcopy(op.args), stop.active())
                else:
                    out = op.call(env, img, copy.deepcopy(op.args))
                sim.CLOCK.hook = None
                with img.active():
                    d = sim.same_process_state(state, sim.process_state())
                env.check(d is None, "process-state", lambda: "%s (%s, %s): %s" % (op.func, op.note, out.kind(), d))
                if stop is not None and stop.fired:
                    env.fault(how, stop.fired)
                    env.probe("interrupted %s" % op.kind)
                    env.event("step", i, "interrupted", out.kind())
                    last = "interruption"
                    continue
                env.event("step", i, out.kind())
                d = ops.same(env, op, op.fresh, out)
                env.check(d is None, "history-dependent", lambda: "%s (%s): %s" % (op.func, op.note, d))
                if out.ok and op.kind in ("solve", "mesh") and not hooked:
                    # elapsed time on the simulated clock
                    sec = out.value["seconds"]
                    env.check(0 < sec <= sim.CLOCK.wall-wall+1e-5, "wrong-duration", lambda: "%s: %s seconds, the call took %s" % (op.func, sec, sim.CLOCK.wall-wall))
                    env.probe("duration")
                if op.parallel():
                    env.probe("parallel call")
                if not out.ok:
                    env.probe("failing call compared")
                if i in seen:
                    env.probe("repeated call")
                if last is not None:
                    env.probe("%s after another call" % op.kind)
                if last in ("failure", "interruption"):
                    env.probe("call after a failure" if last == "failure" else "call after an interruption")
                seen.add(i)
                if len(seen) > 1:
                    env.nontrivial = True
                last = "success" if out.ok else "failure"
        env.sample = "; ".join(x for x in env.events if x.startswith(("op", "step", "FAULT")))[:300]
