"""C08: the converged sweeps solve the PEEC equations of the given problem."""

import copy

import numpy as np

from .. import gen, lin, pool, ref, sim, solverfake, work
from ..core import Violation

ID = "C08"
LEVEL = "exploration"
RUNS = (640, 24000)
RULE = ("A case is a random problem (geometry, materials, sources, frequencies, warm-start forest) solved with random numerical options under a random schedule "
        "of the simulated process pool, in a third of the runs with a misbehaving iterative solver, preconditioner, or factorization. Every converged sweep is compared "
        "with a dense PEEC solution computed by an independent reference model (plain loops, closed-form integrals, dense solve), within the error "
        "bound following from the residuum threshold. Nontrivial: at least one converged sweep was compared.")
REAL = ["pypeec mesher and solver (complete)", "SciPy GMRES/GCROT/SuperLU/FFT", "NumPy FFT", "joblib.Parallel"]
STUB = ["joblib process pool", "FFTW/MKL/CuPy/PARDISO/PyAMG stand-ins computing with SciPy", "misbehaving solver (seam on scipy.sparse.linalg)", "clock"]
ASSUMPTIONS = ["The reference model is a correct implementation of the documented PEEC equations (validated against the analytic balances and the shipped examples).",
               "Voxel structures of up to 36 voxels."]
PROBES = ["compared", "not converged", "magnetic", "electromagnetic", "anisotropic", "distributed", "DC", "complex material", "current source", "voltage source", "warm start",
          "direct multiplication", "split", "point cloud", "voxel biot-savart", "fault, still converged", "raised", "no magnetic dof", "unused domain", "shared domain"]


def run(env):
    ch = env.ch
    with sim.simulation(env):
        (geo, prob, meta) = gen.random_case(ch, max_voxel=ch.pick([18, 12, 24, 36], "vox"), max_elec=ch.pick([8, 12, 5], "elec"), n_sweep=ch.pick([1, 2, 3], "sweeps"))
        tol = gen.random_tolerance(ch)
        tol["parallel_sweep"]["n_jobs"] = ch.pick([0, 2, 3], "n_jobs")
        opt = tol["solver_options"]["tolerance_options"]
        opt["rel_tol"] = ch.pick([1e-8, 1e-7, 1e-9], "rel")

        img = sim.new_image("parent")
        ls = lin.LinSim(env)
        faulty = ch.flag(0.33, "faulty")
        if faulty:
            modes = ["lie-success", "garbage", "perturbed", "initial", "lie-failure", "nan-one"]
            if ch.flag(0.8, "bad-solver"):
                ls.iter_fct = solverfake.misbehave(env, modes, ch.pick([0.3, 0.8, 0.1], "p"))
            if ch.flag(0.4, "bad-lu"):
                ls.splu_fct = solverfake.faulty_lu(env, 0.4)
        with pool.simulated(env, img), lin.handler(ls):
            out = work.mesh(env, img, geo)
            if not out.ok:
                raise Violation("mesher-failed", out)
            vox = out.value
            out = work.solve(env, img, copy.deepcopy(vox), copy.deepcopy(prob), copy.deepcopy(tol))
        env.event("solve", out.kind(), faulty)
        if not out.ok:
            bad = any((c.x is not None and not np.all(np.isfinite(c.x))) or not np.all(np.isfinite(c.b)) for c in ls.calls)
            if work.is_numeric(out.exc) or (faulty and bad):
                env.probe("raised")
                return
            raise Violation("unexpected-exception", out)
        sol = out.value
        d = work.complete(sol, prob)
        env.check(d is None, "incomplete-solution", d)

        # reference
        reference = ref.Reference(vox["data_geom"], prob, tol)
        g = reference.g
        d = init_data(g, vox["data_geom"], sol["data_init"])
        env.check(d is None, "wrong-initial-data", d)
        for tag, res in sol["data_sweep"].items():
            if not (res["has_converged"] and res["solver_ok"]):
                env.probe("not converged")
                continue
            d = reference.check(tag, res)
            env.check(d is None, "wrong-solution", lambda: "sweep %s (%s, cond %.1e): %s" % (tag, describe(prob, tol, tag), reference.get(tag)[3], d))
            for name, cat in CAT.items():
                if name in res["var"]:
                    env.check(res["var"][name]["cat"] == cat, "wrong-category", lambda: "%s: %s" % (name, res["var"][name]["cat"]))
            probes(env, prob, tol, tag, g, vox, meta, faulty and env.faults)
        env.sample = "%s: %s" % (describe(prob, tol, list(prob["sweep_solver"])[0]), {k: v["has_converged"] for k, v in sol["data_sweep"].items()})


CAT = {**{k: "scalar_electric" for k in ("V_c", "P_c", "S_c")}, **{k: "scalar_magnetic" for k in ("V_m", "P_m", "Q_m")},
       "J_c": "vector_electric", "B_m": "vector_magnetic", "H_p": "cloud"}


def describe(prob, tol, tag):
    return "n=%d materials, %d sources, f=%g, %s, %s, %s, init %s" % (
        len(prob["material_def"]), len(prob["source_def"]), prob["sweep_solver"][tag]["param"]["freq"],
        tol["solver_options"]["coupling"], tol["mult_type"], tol["fft_options"]["library"], prob["sweep_solver"][tag]["init"])


def init_data(g, data_geom, init):
    """First error in the initial data (voxel indices and coordinates)."""
    if tuple(int(x) for x in init["n"]) != g.n or not np.allclose(init["d"], g.d, rtol=1e-12) or not np.allclose(init["c"], g.c, rtol=1e-12, atol=1e-300):
        return "n, d, c: %s, %s, %s" % (init["n"], init["d"], init["c"])
    for key, want in (("idx_vc", g.vc), ("idx_vm", g.vm),
                      ("idx_src_c", [v for (t, _, v) in g.src[:g.n_src_c]]), ("idx_src_v", [v for (t, _, v) in g.src[g.n_src_c:]])):
        got = [int(x) for x in init[key]]
        if sorted(got) != sorted(want):
            return "%s: %s, expected %s" % (key, got, want)
    size = max(g.n[i]*g.d[i] for i in range(3))
    for key, idx in (("pts_net_c", "idx_vc"), ("pts_net_m", "idx_vm")):
        got = np.asarray(init[key]).reshape(-1, 3)
        want = np.array([g.center(int(v)) for v in init[idx]]).reshape(-1, 3)
        if got.shape != want.shape or (got.size and np.max(np.abs(got-want)) > 1e-9*size):
            return "%s: %s, expected %s" % (key, got[:2], want[:2])
    if not np.array_equal(np.asarray(init["pts_cloud"], dtype=float).reshape(-1, 3), g.pts):
        return "pts_cloud"
    (n_c, n_m) = (len(g.vc), len(g.vm))
    nv = int(np.prod(g.n))
    want = {"n_voxel_total": nv, "n_face_total": 3*nv, "n_voxel_used": n_c+n_m, "n_face_used": len(g.fc)+len(g.fm), "n_voxel_electric": n_c, "n_voxel_magnetic": n_m,
            "n_face_electric": len(g.fc), "n_face_magnetic": len(g.fm), "n_src_current": g.n_src_c, "n_src_voltage": g.n_src_v,
            "ratio_voxel": (n_c+n_m)/nv, "ratio_face": (len(g.fc)+len(g.fm))/(3*nv)}
    for k, v in want.items():
        if abs(init["problem_status"][k]-v) > 1e-12*max(1, v):
            return "problem_status/%s: %s, expected %s" % (k, init["problem_status"][k], v)
    return None


def probes(env, prob, tol, tag, g, vox, meta, faulty):
    env.nontrivial = True
    env.probe("compared")
    sweep = prob["sweep_solver"][tag]
    kinds = {m["material_type"] for m in prob["material_def"].values()}
    for name, cond in (
            ("magnetic", "magnetic" in kinds), ("electromagnetic", "electromagnetic" in kinds),
            ("anisotropic", any(m["orientation_type"] == "anisotropic" for m in prob["material_def"].values())),
            ("distributed", any(m["var_type"] == "distributed" for m in prob["material_def"].values())),
            ("DC", sweep["param"]["freq"] == 0), ("complex material", any(np.any(np.asarray(v.get("rho_im", 0)) != 0) for v in sweep["param"]["material_val"].values())),
            ("current source", g.n_src_c > 0), ("voltage source", g.n_src_v > 0), ("warm start", sweep["init"] is not None),
            ("direct multiplication", tol["mult_type"] == "direct"), ("split", tol["fft_options"]["matrix_split"]), ("point cloud", len(g.pts) > 0),
            ("voxel biot-savart", tol["biot_savart"] == "voxel" and len(g.pts) > 0), ("fault, still converged", bool(faulty)), ("no magnetic dof", not g.vm),
            ("unused domain", sum(len(v) for v in g.domain.values()) > len(set(g.vc)|set(g.vm))),
            ("shared domain", "electromagnetic" not in kinds and bool(set(g.vc) & set(g.vm)))):
        if cond:
            env.probe(name)
