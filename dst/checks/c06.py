"""C06: the convergence flags tell the truth whatever the linear solver does."""

import copy

import numpy as np

from .. import attrib, gen, lin, pool, ref, sim, solverfake, work
from ..core import Violation

ID = "C06"
LEVEL = "fault_enumeration"
RUNS = (1200, 30000)
RULE = ("A case is a random problem with random convergence criteria solved while the iterative solver, the preconditioner and the condition estimator "
        "misbehave (wrong success flags, garbage, perturbed, stalled, NaN or infinite vectors, arbitrary estimates). The residuum is recomputed with the "
        "dense reference system from the vectors seen at the solver seam and tied to the returned fields; all the flags are recomputed. "
        "Nontrivial: at least one fault fired.")
REAL = ["pypeec mesher and solver (complete)", "SciPy GMRES/GCROT (unless misbehaving)"]
STUB = ["misbehaving iterative solver, preconditioner, and estimator (seam on scipy.sparse.linalg)", "joblib process pool", "clock"]
ASSUMPTIONS = ["The dense reference system agrees with the code up to a relative error of 1e-7."]
PROBES = ["status true", "status false", "condition false", "condition true", "not converged sweep", "converged with bad flag ignored",
          "residuum ignored", "status ignored", "power stop", "solver-lie-success", "solver-lie-failure", "solver-nan", "nan rejected", "mixed sweeps", "estimate-nan"]


def run(env):
    ch = env.ch
    with sim.simulation(env):
        (geo, prob, meta) = gen.random_case(ch, max_voxel=16, max_elec=7, n_sweep=ch.pick([1, 2, 3], "sweeps"), points=False)
        tol = gen.random_tolerance(ch)
        sol_opt = tol["solver_options"]
        sol_opt["tolerance_options"] = {
            "ignore_status": ch.flag(0.3, "ign-status"), "ignore_res": ch.flag(0.3, "ign-res"),
            "rel_tol": ch.pick([1e-9, 1e-6, 1e-3, 10.0, 0.0], "rel"), "abs_tol": ch.pick([1e-25, 1e-5, 1e3], "abs")}
        sol_opt["segregated_options"]["rel_tol"] = ch.pick([1e-10, 1e-3], "seg-rel")
        sol_opt["segregated_options"]["n_max"] = ch.int(2, 12, "seg-max")
        sol_opt["power_options"]["stop"] = ch.flag(0.25, "power")
        sol_opt["power_options"].update(n_min=ch.int(1, 4, "pmin"), n_cmp=ch.int(1, 3, "pcmp"), rel_tol=ch.pick([1e-4, 1e-1, 1e-8], "prel"))
        cond = tol["condition_options"]
        cond["check"] = ch.flag(0.6, "cond")
        cond["tolerance_electric"] = ch.pick([1e15, 100.0, 1e4], "ctol")
        cond["tolerance_magnetic"] = ch.pick([1e15, 100.0, 1e4], "ctol")
        unique(prob)

        img = sim.new_image("parent")
        out = work.mesh(env, img, geo)
        if not out.ok:
            raise Violation("mesher-failed", out)
        vox = out.value
        ls = lin.LinSim(env)
        modes = ["lie-success", "lie-failure", "garbage", "perturbed", "initial", "nan", "nan-one", "inf"]
        if ch.flag(0.7, "no-nan"):
            modes = modes[:5]
        if ch.flag(0.8, "bad-solver"):
            ls.iter_fct = solverfake.misbehave(env, modes, ch.pick([0.5, 1.0, 0.2], "p"))
        if ch.flag(0.3, "bad-lu"):
            ls.splu_fct = solverfake.faulty_lu(env)
        if ch.flag(0.5, "bad-estimate"):
            def onenorm(s, real, args, kwargs):
                val = real(*args, **kwargs)
                if not ch.flag(0.5, "estimate"):
                    return val
                bad = ch.pick([1.0, 1e3, 1e20, float("nan"), float("inf"), 0.0], "value")
                env.fault("estimate-"+("nan" if bad != bad else "value"))
                return bad
            ls.onenorm_fct = onenorm
        n_jobs = ch.pick([0, 2], "n_jobs")
        tol["parallel_sweep"]["n_jobs"] = n_jobs
        with pool.simulated(env, img), lin.handler(ls):
            out = work.solve(env, img, copy.deepcopy(vox), copy.deepcopy(prob), copy.deepcopy(tol))
        env.event("solve", out.kind())
        if not out.ok:
            bad = any(c.x is not None and not np.all(np.isfinite(c.x)) or not np.all(np.isfinite(c.b)) or
                      any(not np.all(np.isfinite(x)) for x in c.callbacks) for c in ls.calls)
            if bad or work.is_numeric(out.exc):
                env.probe("nan rejected")
                return
            raise Violation("unexpected-exception", out)
        sol = out.value
        verify(env, ls, vox, prob, tol, sol)
        env.sample = "%s, %s, flags: %s" % (sol_opt["coupling"], sol_opt["tolerance_options"],
                                           {k: (v["solver_ok"], v["condition_ok"]) for k, v in sol["data_sweep"].items()})


def unique(prob):
    """Every sweep gets a unique excitation."""
    for i, val in enumerate(prob["sweep_solver"].values()):
        fact = 1.0+0.013*(i+1)
        for src in val["param"]["source_val"].values():
            for k in ("V_re", "I_re", "V_im", "I_im"):
                if k in src:
                    src[k] = [fact*x for x in src[k]] if isinstance(src[k], list) else fact*src[k]


def verify(env, ls, vox, prob, tol, sol):
    att = attrib.Attribution(env, ls, vox, prob, tol)
    tracks = att.tracks()
    opt = tol["solver_options"]["tolerance_options"]
    cond = tol["condition_options"]
    seg_opt = tol["solver_options"]["segregated_options"]
    states = set()
    for tag, res in sol["data_sweep"].items():
        st = res["solver_status"]
        t = tracks[tag]
        s = att.system(tag)
        nb = float(np.linalg.norm(s["b"]))
        r = np.asarray(res["res"])

        # the reported residuum is the one of the returned vector
        if t.final is None:
            raise Violation("no-vector", "sweep %s" % tag)
        x = t.final
        if np.all(np.isfinite(x)):
            rdense = s["A"]@x-s["b"]
            scale = np.abs(s["A"])@np.abs(x)+np.abs(s["b"])+1e-9*nb
            env.check(r.shape == rdense.shape, "residuum-shape", lambda: "%s != %s" % (r.shape, rdense.shape))
            err = np.abs(r-rdense)
            k = int(np.argmax(err-1e-6*scale))
            env.check(np.all(np.isfinite(r)) and err[k] <= 1e-6*scale[k]+1e-12*np.max(scale), "wrong-residuum",
                      lambda: "sweep %s: entry %d: reported %s, recomputed %s" % (tag, k, r[k], rdense[k]))
            # the returned fields are the ones of this vector
            want = att.geom.extract(s, x)
            got = ref.quantities(res)
            for q in ("V_c", "J_c", "S_c", "V_m", "B_m", "Q_m"):
                a = np.asarray(got["var"][q])
                b = np.asarray(want["var"][q])
                if b.size == 0:
                    continue
                tolr = 1e-6*np.max(np.abs(b))+1e-12*np.max(np.abs(x))*(1/min(att.geom.area(i) for i in range(3)) if q in ("J_c", "B_m") else 6/np.prod(att.geom.d) if q in ("S_c", "Q_m") else 1.0)
                env.check(a.shape == b.shape and np.max(np.abs(a-b)) <= tolr, "fields-of-another-vector",
                          lambda: "sweep %s: %s: %s, expected %s" % (tag, q, a.ravel()[:3], b.ravel()[:3]))

        # the norms
        rn = float(np.linalg.norm(r))
        thr = max(opt["rel_tol"]*nb, opt["abs_tol"])
        env.check(close(st["res_val"], rn, 1e-9), "residuum-norm", lambda: "sweep %s: %s, norm %s" % (tag, st["res_val"], rn))
        env.check(close(st["res_thr"], thr, 1e-9), "residuum-threshold", lambda: "sweep %s: %s, expected %s" % (tag, st["res_thr"], thr))

        # success of the iterative solver
        power = [att.geom.power(s, y) for y in t.iterates]
        if att.seg:
            (first, unsure) = attrib.power_stop(power, tol["solver_options"]["power_options"])
            stopped = tol["solver_options"]["power_options"]["stop"] and first == len(t.iterates) and not unsure
            sure = not unsure
            if stopped:
                raw = True
            else:
                flags = all(f == 0 for f in t.flags[-1])
                sthr = max(seg_opt["rel_tol"]*nb, seg_opt["abs_tol"])
                if np.all(np.isfinite(x)):
                    rn2 = float(np.linalg.norm(s["A"]@x-s["b"]))
                    amb = 1e-6*float(np.linalg.norm(np.abs(s["A"])@np.abs(x)))+1e-9*nb
                    raw = flags and rn2 <= sthr
                    sure = sure and not (flags and abs(rn2-sthr) <= min(amb, 1e-6*sthr+1e-13*amb*1e6))
                else:
                    raw = False
        else:
            stopped = t.calls[0].exc is not None
            raw = True if stopped else t.raw
            sure = True
        if stopped:
            env.probe("power stop")

        want = (opt["ignore_res"] or rn < thr) and (opt["ignore_status"] or raw)
        if abs(rn-thr) <= 1e-9*thr and not opt["ignore_res"]:
            sure = False
        if sure:
            env.check(st["status"] is want or st["status"] == want, "wrong-status",
                      lambda: "sweep %s: status %s, expected %s (residuum %.3e, threshold %.3e, solver %s, stopped %s, %s)" % (
                          tag, st["status"], want, rn, thr, raw, stopped, opt))
        env.probe("status true" if st["status"] else "status false")
        states.add(bool(st["status"]))
        if opt["ignore_res"]:
            env.probe("residuum ignored")
        if opt["ignore_status"]:
            env.probe("status ignored")
            if st["status"] and not raw:
                env.probe("converged with bad flag ignored")

        # the condition
        cs = res["condition_status"]
        if cond["check"]:
            want = bool(cs["cond_electric"] < cond["tolerance_electric"] and cs["cond_magnetic"] < cond["tolerance_magnetic"])
        else:
            want = True
        env.check(bool(cs["status"]) == want and bool(cs["check"]) == cond["check"], "wrong-condition-status",
                  lambda: "sweep %s: %s, limits %s" % (tag, cs, cond))
        env.probe("condition true" if want else "condition false")

        # aggregation
        env.check(bool(res["solver_ok"]) == bool(st["status"]) and bool(res["condition_ok"]) == bool(cs["status"]), "inconsistent-flags", lambda: tag)
        env.check(bool(res["has_converged"]) == (bool(st["status"]) and bool(cs["status"])), "wrong-convergence",
                  lambda: "sweep %s: converged %s, solver %s, condition %s" % (tag, res["has_converged"], st["status"], cs["status"]))
        if not res["has_converged"]:
            env.probe("not converged sweep")
    want = all(v["has_converged"] for v in sol["data_sweep"].values())
    if len(set(bool(v["has_converged"]) for v in sol["data_sweep"].values())) > 1:
        env.probe("mixed sweeps")
    env.check(bool(sol["status"]) == want, "wrong-global-status", lambda: "status %s, sweeps %s" % (sol["status"], {k: v["has_converged"] for k, v in sol["data_sweep"].items()}))

    # the estimates
    if cond["check"] and tol["parallel_sweep"]["n_jobs"] == 0:
        n_m = 2 if att.nm else 0
        per = 2+n_m
        if len(ls.onenorm) == per*len(att.groups):
            for i, (tag, _) in enumerate(att.groups):
                v = [float(x) for x in ls.onenorm[i*per:(i+1)*per]]
                cs = sol["data_sweep"][tag]["condition_status"]
                env.check(close(cs["cond_electric"], v[0]*v[1], 1e-9), "wrong-condition", lambda: "sweep %s: %s, estimates %s" % (tag, cs, v))
                if n_m:
                    env.check(close(cs["cond_magnetic"], v[2]*v[3], 1e-9), "wrong-condition", lambda: "sweep %s: %s, estimates %s" % (tag, cs, v))


def close(a, b, rel):
    (a, b) = (float(a), float(b))
    if a == b or (a != a and b != b):
        return True
    return abs(a-b) <= rel*max(abs(a), abs(b))
