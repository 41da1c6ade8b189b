"""C07: the effort of the solver is bounded and the convergence records are exact."""

import copy

import numpy as np

from .. import attrib, gen, lin, pool, ref, sim, solverfake, work
from ..core import Violation
from .c06 import close, unique

ID = "C07"
LEVEL = "fault_enumeration"
HANG_IS_VIOLATION = True
RUNS = (1000, 30000)
RULE = ("A case is a random problem with random iteration limits and power criteria, where the iterative solver produces a scripted history "
        "(seeded sequence of iterates whose terminal power moves around the criterion, stalls, oscillates, diverges, jumps back, is NaN or wrongly flagged) or "
        "is the real one. An executable model of the stopping rules is applied to the recorded iterates and operator evaluations. "
        "Nontrivial: a sweep with at least two iterations.")
REAL = ["pypeec mesher and solver (complete)", "SciPy GMRES/GCROT (runs without script)"]
STUB = ["scripted iterative solver (seam on scipy.sparse.linalg)", "joblib process pool", "clock"]
ASSUMPTIONS = ["The iterations are those reported by the callback of the linear solver.", "Iteration limits and n_cmp are at least one."]
PROBES = ["scripted direct", "scripted segregated", "power stop", "power stop exactly at minimum", "criterion never met", "criterion disabled but met", "maximum reached",
          "segregated converged before maximum", "segregated minimum enforced", "returned vector is not the last iterate", "long compare window", "no iteration", "warm start",
          "absolute criterion", "numeric failure"]


class Script:
    """Scripted iterative solver."""

    def __init__(self, env, nm, seg, pw):
        self.env = env
        self.nm = nm
        self.seg = seg
        self.pw = pw
        self.count = 0
        self.p = 1.0
        self.sign = 1
        self.mode = env.ch.pick(["mixed", "slow", "oscillate", "diverge", "flat"], "script")
        self.p_true = env.ch.pick([0.3, 0.0, 0.6], "p_true")

    def step(self):
        """Next relative terminal power."""
        ch = self.env.ch
        rel = self.pw["rel_tol"]
        if self.mode == "flat":
            d = ch.pick([0.0, 0.0, 0.5*rel, 2*rel], "d")
        elif self.mode == "slow":
            d = ch.pick([0.4*rel, 0.9*rel, 0.999*rel, 1.001*rel, 1.1*rel], "d")
        elif self.mode == "oscillate":
            self.sign = -self.sign
            d = self.sign*ch.pick([0.9*rel, 0.45*rel, 1.5*rel, 0.3], "d")
        elif self.mode == "diverge":
            d = ch.pick([0.5, 2.0, 0.1], "d")
        else:
            d = ch.pick([0.0, 0.5*rel, -0.5*rel, 0.99*rel, 1.01*rel, -1.01*rel, 3*rel, 0.2, -0.2, 1.0], "d")
        self.p = max(self.p*(1.0+d), 1e-12)
        self.env.event("power", "%.9g" % self.p)
        return np.sqrt(self.p)

    def __call__(self, sim_, call, real):
        (env, ch) = (self.env, self.env.ch)
        n = len(call.b)
        if n == 0:
            return real()
        self.count += 1
        if self.seg and self.nm and self.count % 2 == 0:
            return real()
        # base vector
        if not hasattr(self, "base") or len(self.base) != n or ch.flag(0.1, "newbase"):
            if ch.flag(self.p_true, "true"):
                (self.base, _) = real(callback=None)
                if not np.all(np.isfinite(self.base)) or not np.any(self.base):
                    self.base = solverfake.noise(ch, n, 1.0)
            else:
                self.base = solverfake.noise(ch, n, ch.pick([1.0, 1e-3, 1e3], "scale"))
        for _ in range(ch.pick([0, 1, 3], "extra-sys")):
            call.A.matvec(self.base)
        if self.seg:
            env.probe("scripted segregated")
            w = self.w
            x0 = np.zeros(n, dtype=complex) if call.x0 is None else call.x0
            if w > 0:
                x = x0+(self.step()*self.base-x0)/w
            else:
                x = self.step()*self.base
            env.fault("scripted-iterate")
            return x, ch.pick([0, 0, 4, -1], "flag")
        env.probe("scripted direct")
        x = self.base
        outer = call.outer if call.outer is not None else 40
        for k in range(ch.int(0, outer, "its") if ch.flag(0.7, "some") else outer):
            for _ in range(ch.pick([1, 0, 2], "n-sys")):
                call.A.matvec(x)
            for _ in range(ch.pick([1, 0, 2], "n-pcd")):
                call.M.matvec(x)
            x = self.step()*self.base
            if ch.flag(0.01, "nan"):
                x = np.full(n, np.nan+0j)
            env.fault("scripted-iterate")
            call.callback(x)
        if ch.flag(0.15, "other"):
            x = self.step()*self.base
            env.probe("returned vector is not the last iterate")
        return x, ch.pick([0, 3, 11], "flag")


def run(env):
    ch = env.ch
    with sim.simulation(env):
        (geo, prob, meta) = gen.random_case(ch, max_voxel=12, max_elec=6, n_sweep=ch.pick([1, 2, 3], "sweeps"), points=False)
        tol = gen.random_tolerance(ch)
        so = tol["solver_options"]
        so["tolerance_options"].update(ignore_status=ch.flag(0.3, "ign"), ignore_res=ch.flag(0.3, "ign"))
        for o in (so["direct_options"], so["segregated_options"]["iter_electric_options"], so["segregated_options"]["iter_magnetic_options"]):
            o["n_inner"] = ch.pick([20, 1, 2, 3, 5], "n_inner")
            o["n_outer"] = ch.int(1, 14, "n_outer")
            o["rel_tol"] = ch.pick([1e-10, 1e-3, 1e-6], "it-rel")
        seg = so["segregated_options"]
        seg["n_max"] = ch.int(1, 14, "n_max")
        seg["n_min"] = ch.int(0, 6, "n_min")
        seg["rel_tol"] = ch.pick([1e-9, 1e-2, 1e3], "seg-rel")
        seg["relax_electric"] = ch.pick([1.0, 0.7, 0.3], "we")
        seg["relax_magnetic"] = ch.pick([1.0, 0.8], "wm")
        pw = so["power_options"]
        pw.update(stop=ch.flag(0.7, "stop"), n_min=ch.int(0, 7, "pmin"), n_cmp=ch.int(1, 5, "pcmp"),
                  rel_tol=ch.pick([1e-3, 1e-1, 1e-6, 0.0], "prel"), abs_tol=ch.pick([1e-20, 1e-3, 1e-20, 1e-20, 1.0], "pabs"))
        tol["condition_options"]["check"] = False
        unique(prob)

        img = sim.new_image("parent")
        out = work.mesh(env, img, geo)
        if not out.ok:
            raise Violation("mesher-failed", out)
        vox = out.value
        geom = ref.Geometry(vox["data_geom"], prob, tol)
        nm = len(geom.fm)+len(geom.vm)
        ls = lin.LinSim(env)
        ls.count_ops = True
        scripted = ch.flag(0.75, "scripted")
        if scripted:
            ls.iter_fct = Script(env, nm, so["coupling"] == "segregated", pw)
            ls.iter_fct.w = seg["relax_electric"]
        tol["parallel_sweep"]["n_jobs"] = 0 if scripted else ch.pick([0, 2], "n_jobs")
        env.step_limit = 400000
        with pool.simulated(env, img), lin.handler(ls):
            out = work.solve(env, img, copy.deepcopy(vox), copy.deepcopy(prob), copy.deepcopy(tol))
        env.event("solve", out.kind(), so["coupling"])
        if not out.ok:
            bad = any(not np.all(np.isfinite(c.b)) or any(not np.all(np.isfinite(x)) for x in c.callbacks) or
                      (c.x is not None and not np.all(np.isfinite(c.x))) for c in ls.calls)
            if bad or work.is_numeric(out.exc):
                env.probe("numeric failure")
                return
            raise Violation("unexpected-exception", out)
        verify(env, ls, vox, prob, tol, out.value)


def verify(env, ls, vox, prob, tol, sol):
    so = tol["solver_options"]
    (seg, pw) = (so["segregated_options"], so["power_options"])
    att = attrib.Attribution(env, ls, vox, prob, tol)
    att.exactly_once()
    tracks = att.tracks()
    for tag, res in sol["data_sweep"].items():
        t = tracks[tag]
        s = att.system(tag)
        st = res["solver_status"]
        conv = res["conv"]
        it = t.iterates

        # bounds given to the linear solvers
        for k, call in enumerate(t.calls):
            if not att.seg:
                o = so["direct_options"]
            else:
                o = seg["iter_magnetic_options" if att.nm and k % 2 else "iter_electric_options"]
            env.check(call.inner is not None and call.inner <= o["n_inner"] and call.outer is not None and call.outer <= o["n_outer"], "unbounded-solver",
                      lambda: "sweep %s: inner %s, outer %s, configured %s/%s" % (tag, call.inner, call.outer, o["n_inner"], o["n_outer"]))
            want = "gmres" if o["solver"] == "gmres" else "gcrotmk"
            env.check(call.name == want, "wrong-solver", lambda: "sweep %s: %s" % (tag, call.name))

        # counts
        env.check(st["n_iter"] == len(it), "wrong-iteration-count", lambda: "sweep %s: n_iter %s, iterations %d" % (tag, st["n_iter"], len(it)))
        n_sys = sum(c.n_sys for c in t.calls)
        n_pcd = sum(c.n_pcd for c in t.calls)
        env.check(st["n_sys_eval"] == n_sys, "wrong-evaluation-count", lambda: "sweep %s: n_sys_eval %s, counted %d" % (tag, st["n_sys_eval"], n_sys))
        env.check(st["n_pcd_eval"] == n_pcd, "wrong-evaluation-count", lambda: "sweep %s: n_pcd_eval %s, counted %d" % (tag, st["n_pcd_eval"], n_pcd))
        env.check((st["n_dof_electric"], st["n_dof_magnetic"], st["n_dof_total"]) == (att.nc, att.nm, att.nc+att.nm), "wrong-size", lambda: tag)

        # powers
        vec = [complex(x) for x in conv["power_vec"]]
        env.check(len(vec) == len(it), "wrong-power-record", lambda: "sweep %s: %d powers for %d iterations" % (tag, len(vec), len(it)))
        init = prob["sweep_solver"][tag]["init"]
        if init is not None:
            env.probe("warm start")
        pairs = [("initial", conv["power_init"], t.x0)]+[("iteration %d" % (i+1), v, x) for i, (v, x) in enumerate(zip(vec, it))]+[("final", conv["power_final"], t.final)]
        for name, got, x in pairs:
            if x is None:
                raise Violation("no-vector", "sweep %s" % tag)
            want = att.geom.power(s, x)
            scale = 1e-9*sum(abs(v)*abs(i) for v, i in zip(x[s["sl"]["V_vc"]][[att.geom.pos_c[v] for (_, _, v) in att.geom.src]], x[s["sl"]["I_src"]]))
            if not np.isfinite(want):
                ok = not np.isfinite(got)
            else:
                ok = abs(got-want) <= scale+1e-300
            env.check(ok, "wrong-power-record", lambda: "sweep %s: %s: power %s, vector %s" % (tag, name, got, want))

        # the returned fields are those of the final vector
        if np.all(np.isfinite(t.final)):
            want = att.geom.extract(s, t.final)["var"]["V_c"]
            got = np.asarray(ref.quantities(res)["var"]["V_c"])
            env.check(np.max(np.abs(got-want)) <= 1e-7*np.max(np.abs(t.final)), "returned-another-vector", lambda: "sweep %s: %s, expected %s" % (tag, got[:3], want[:3]))

        # power criterion on the recorded powers
        n_first = max(2, pw["n_cmp"]+1, pw["n_min"])
        first = None
        for i in range(n_first, len(vec)+1):
            cmp_ = vec[i-1-pw["n_cmp"]:i-1]
            err = max(abs(vec[i-1]-x) for x in cmp_) if np.all(np.isfinite(vec[i-1-pw["n_cmp"]:i])) else np.inf
            thr = max(pw["rel_tol"]*abs(vec[i-1]), pw["abs_tol"])
            if abs(err-thr) <= 1e-12*max(abs(vec[i-1]), thr):
                first = "unsure"
                break
            if err <= thr:
                first = i
                break
        if pw["n_cmp"] > 2 and first not in (None, "unsure"):
            env.probe("long compare window")
        if pw["abs_tol"] > 1e-10 and first not in (None, "unsure") and pw["abs_tol"] > pw["rel_tol"]*abs(vec[first-1]):
            env.probe("absolute criterion")
        exc = (not att.seg) and t.calls[0].exc is not None
        if len(it) > 1:
            env.nontrivial = True
        if not it:
            env.probe("no iteration")
        if first == "unsure":
            continue
        if pw["stop"]:
            if first is not None:
                env.check(len(it) == first, "power-stop-missed", lambda: "sweep %s: criterion met at %s, %d iterations done, powers %s, %s" % (tag, first, len(it), vec, pw))
                env.probe("power stop")
                if first == n_first:
                    env.probe("power stop exactly at minimum")
                if not att.seg:
                    env.check(exc, "power-stop-missed", lambda: "sweep %s: not stopped at %d" % (tag, first))
                    env.check(np.array_equal(t.final, it[-1], equal_nan=True), "returned-another-vector", tag)
            else:
                env.check(not exc, "power-stop-too-early", lambda: "sweep %s: stopped at %d, powers %s, %s" % (tag, len(it), vec, pw))
                env.probe("criterion never met")
        else:
            env.check(not exc, "power-stop-disabled", lambda: "sweep %s: stopped at %d" % (tag, len(it)))
            if first is not None and len(it) > first:
                env.probe("criterion disabled but met")

        # segregated loop
        if att.seg:
            n = len(it)
            env.check(n <= seg["n_max"], "too-many-iterations", lambda: "sweep %s: %d iterations, n_max %d" % (tag, n, seg["n_max"]))
            stopped = pw["stop"] and first is not None
            if not stopped:
                env.check(n >= min(seg["n_min"], seg["n_max"]), "too-few-iterations", lambda: "sweep %s: %d iterations, n_min %d" % (tag, n, seg["n_min"]))
            if n == seg["n_max"]:
                env.probe("maximum reached")
            # status of all iterations
            nb = float(np.linalg.norm(s["b"]))
            thr = max(seg["rel_tol"]*nb, seg["abs_tol"])
            done = None
            for i in range(n):
                flags = all(f == 0 for f in t.flags[i])
                ok = False
                if flags:
                    r = float(np.linalg.norm(s["A"]@it[i]-s["b"]))
                    amb = 1e-7*float(np.linalg.norm(np.abs(s["A"])@np.abs(it[i])+np.abs(s["b"])))
                    if abs(r-thr) <= amb:
                        done = "unsure"
                        break
                    ok = r <= thr
                if (ok and i+1 >= seg["n_min"]) or i+1 >= seg["n_max"]:
                    done = i+1
                    if i+1 < seg["n_max"]:
                        env.probe("segregated converged before maximum")
                    break
                if ok:
                    env.probe("segregated minimum enforced")
            if done != "unsure":
                if stopped:
                    env.check(done is None or done >= n, "iterates-after-convergence", lambda: "sweep %s: converged at %s, %d iterations" % (tag, done, n))
                else:
                    env.check(done == n, "wrong-loop-end", lambda: "sweep %s: loop should end at %s, %d iterations (%s)" % (tag, done, n, seg))
    env.sample = "%s, %s, iterations %s" % (so["coupling"], pw, {k: v["solver_status"]["n_iter"] for k, v in sol["data_sweep"].items()})
