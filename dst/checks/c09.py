"""C09: power, current and loss balances hold in every returned solution."""

import copy

import numpy as np

from .. import gen, lin, pool, sim, solverfake, work
from ..core import Violation

ID = "C09"
LEVEL = "exploration"
RUNS = (640, 24000)
RULE = ("A case is a random problem (larger structures than for the reference comparison) solved with random options under a random schedule, in a third of the runs with a misbehaving "
        "linear solver. The balances are evaluated with the returned data only: sums of losses, energies and powers in every solution; current conservation in every "
        "voxel, terminal relations, active and reactive power balance in every sweep converged to a tight tolerance. Nontrivial: at least one converged sweep was balanced.")
REAL = ["pypeec mesher and solver (complete)", "SciPy GMRES/GCROT/SuperLU/FFT", "NumPy FFT", "joblib.Parallel"]
STUB = ["joblib process pool", "FFTW/MKL/CuPy/PARDISO/PyAMG stand-ins computing with SciPy", "misbehaving solver (seam on scipy.sparse.linalg)", "clock"]
ASSUMPTIONS = ["The reactive balance is evaluated if the ratio of the imaginary and real resistivities is the same everywhere (otherwise, it cannot be computed from the returned data)."]
PROBES = ["balanced", "reactive balance", "reactive balance with magnetic", "reactive balance with complex resistivity", "not converged sums", "source with several voxels", "source over several materials", "lumped terminal", "DC", "shared domain"]


def run(env):
    ch = env.ch
    with sim.simulation(env):
        (geo, prob, meta) = gen.random_case(ch, max_voxel=ch.pick([24, 16, 48, 64], "vox"), max_elec=ch.pick([10, 16, 25], "elec"), magnetic=0.4, n_sweep=ch.pick([1, 2, 3], "sweeps"), points=False)
        kappa = None
        if ch.flag(0.6, "kappa"):
            kappa = ch.pick([0.0, 0.0, 0.35, -0.2], "kval")
            for val in prob["sweep_solver"].values():
                for m in val["param"]["material_val"].values():
                    if "rho_re" in m:
                        m["rho_im"] = (kappa*np.asarray(m["rho_re"])).tolist()
        tol = gen.random_tolerance(ch)
        so = tol["solver_options"]
        for o in (so["direct_options"], so["segregated_options"]["iter_electric_options"], so["segregated_options"]["iter_magnetic_options"]):
            o["rel_tol"] = 1e-12
            o["n_inner"] = 80
        so["segregated_options"]["rel_tol"] = 1e-11
        so["tolerance_options"]["rel_tol"] = 1e-10
        tol["parallel_sweep"]["n_jobs"] = ch.pick([0, 2, 3], "n_jobs")
        img = sim.new_image("parent")
        ls = lin.LinSim(env)
        faulty = ch.flag(0.33, "faulty")
        if faulty:
            ls.iter_fct = solverfake.misbehave(env, ["lie-success", "garbage", "perturbed", "initial", "lie-failure"], ch.pick([0.3, 0.8, 0.1], "p"))
        with pool.simulated(env, img), lin.handler(ls):
            out = work.mesh(env, img, geo)
            if not out.ok:
                raise Violation("mesher-failed", out)
            vox = out.value
            out = work.solve(env, img, copy.deepcopy(vox), copy.deepcopy(prob), copy.deepcopy(tol))
        env.event("solve", out.kind(), faulty)
        if not out.ok:
            bad = any((c.x is not None and not np.all(np.isfinite(c.x))) or not np.all(np.isfinite(c.b)) for c in ls.calls)
            if work.is_numeric(out.exc) or (faulty and bad):
                return
            raise Violation("unexpected-exception", out)
        sol = out.value
        d = work.complete(sol, prob)
        env.check(d is None, "incomplete-solution", d)
        for tag, res in sol["data_sweep"].items():
            balances(env, vox["data_geom"], prob, sol["data_init"], tag, res, kappa)
        env.sample = "%s voxels, %d materials, %d sources, %s, converged %s" % (
            meta["n"], len(prob["material_def"]), len(prob["source_def"]), so["coupling"], [v["has_converged"] for v in sol["data_sweep"].values()])


def close(a, b, t):
    return bool(abs(a-b) <= t)


def balances(env, geom, prob, init, tag, res, kappa):
    d = [float(x) for x in geom["d"]]
    vol = d[0]*d[1]*d[2]
    dom = {k: [int(i) for i in v] for k, v in geom["domain_def"].items()}
    integ = res["integral"]
    var = {k: np.asarray(v["var"]) for k, v in res["var"].items()}
    idx_vc = [int(i) for i in init["idx_vc"]]
    idx_vm = [int(i) for i in init["idx_vm"]]
    pos_c = {v: k for k, v in enumerate(idx_vc)}
    pos_m = {v: k for k, v in enumerate(idx_vm)}
    param = prob["sweep_solver"][tag]["param"]
    freq = param["freq"]
    fact = 1.0 if freq == 0 else 0.5

    def fail(name, a, b, t):
        raise Violation("broken-balance", "sweep %s (f=%g): %s: %s != %s (tolerance %.1e)" % (tag, freq, name, a, b, t))

    def same(name, a, b, t):
        if not close(a, b, t):
            fail(name, a, b, t)

    # an iteration which was diverted can overflow (and does not converge)
    if not res["has_converged"] and not all(np.all(np.abs(x) < 1e140) for x in var.values()):
        env.probe("overflow")
        return

    # sums in every solution
    sp = float(np.sum(np.abs(var["P_c"]))+np.sum(np.abs(var["P_m"])))*vol
    tp = 1e-11*sp+1e-300
    same("P_total = P_electric+P_magnetic", integ["P_total"], integ["P_electric"]+integ["P_magnetic"], tp)
    same("W_total = W_electric+W_magnetic", integ["W_total"], integ["W_electric"]+integ["W_magnetic"], 1e-11*(abs(integ["W_electric"])+abs(integ["W_magnetic"]))+1e-300)
    same("P_electric = sum of the loss densities", integ["P_electric"], np.sum(var["P_c"])*vol, tp)
    same("P_magnetic = sum of the loss densities", integ["P_magnetic"], np.sum(var["P_m"])*vol, tp)
    for key in ("P_electric", "P_magnetic", "P_total"):
        same("%s = sum over the materials" % key, integ[key], sum(m[key] for m in res["material"].values()), tp)
    for name, m in prob["material_def"].items():
        vox = [v for x in m["domain_list"] for v in dom[x]]
        kind = m["material_type"]
        pe = sum(var["P_c"][pos_c[v]] for v in vox)*vol if kind != "magnetic" else 0.0
        pm = sum(var["P_m"][pos_m[v]] for v in vox)*vol if kind != "electric" else 0.0
        r = res["material"][name]
        same("losses of the material %s (electric)" % name, r["P_electric"], pe, tp)
        same("losses of the material %s (magnetic)" % name, r["P_magnetic"], pm, tp)
        same("losses of the material %s (total)" % name, r["P_total"], pe+pm, tp)
    st = sum(abs(s["S"]) for s in res["source"].values())
    same("S_total = sum over the sources", integ["S_total"], sum(s["S"] for s in res["source"].values()), 1e-11*st+1e-300)
    conv_s = res["conv"]["power_final"]
    vmax = float(np.max(np.abs(var["V_c"])))
    for name, src in prob["source_def"].items():
        vox = [v for x in src["domain_list"] for v in dom[x]]
        if vox:
            v = np.mean([var["V_c"][pos_c[i]] for i in vox])
            same("voltage of the source %s = mean of the potentials" % name, res["source"][name]["V"], v, 1e-11*vmax)
        if len(vox) == 1:
            r = res["source"][name]
            same("power of the source %s = V*conj(I)" % name, r["S"], fact*r["V"]*np.conj(r["I"]), 1e-11*abs(r["V"]*r["I"])+1e-300)
    if not (res["has_converged"] and res["solver_status"]["res_val"] <= res["solver_status"]["res_thr"]):
        env.probe("not converged sums")
        return

    # balances of the converged sweeps
    env.nontrivial = True
    env.probe("balanced")
    r = float(res["solver_status"]["res_val"])
    I_vox = var["S_c"]*vol
    J = np.abs(var["J_c"])
    flow = float(np.max(np.sum(J*[d[1]*d[2], d[0]*d[2], d[0]*d[1]], axis=1)))
    src_i = sum(abs(s["I"]) for s in res["source"].values())
    ti = 2*r+1e-10*(flow+src_i)+1e-300

    src_vox = {}
    for name, src in prob["source_def"].items():
        for x in src["domain_list"]:
            for v in dom[x]:
                src_vox[v] = name
    for k, v in enumerate(idx_vc):
        if v not in src_vox and abs(I_vox[k]) > ti:
            fail("current conservation in the voxel %d" % v, I_vox[k], 0.0, ti)
    s_all = 0.0
    for name, src in prob["source_def"].items():
        vox = [v for x in src["domain_list"] for v in dom[x]]
        out = res["source"][name]
        cur = [I_vox[pos_c[v]] for v in vox]
        same("terminal current of the source %s" % name, out["I"], sum(cur), len(vox)*ti)
        power = fact*sum(var["V_c"][pos_c[v]]*np.conj(c) for v, c in zip(vox, cur))
        scale = sum(abs(var["V_c"][pos_c[v]]) for v in vox)*ti+1e-10*sum(abs(var["V_c"][pos_c[v]]*c) for v, c in zip(vox, cur))
        same("terminal power of the source %s (voxel by voxel)" % name, out["S"], power, scale+1e-300)
        s_all += power
        if len(vox) > 1:
            env.probe("source with several voxels")
            mats = [m for m, x in prob["material_def"].items() if x["material_type"] != "magnetic" and any(v in dom[q] for q in x["domain_list"] for v in vox)]
            if len(mats) > 1:
                env.probe("source over several materials")
        if vox and src["var_type"] == "lumped":
            env.probe("lumped terminal")
            val = param["source_val"][name]
            if src["source_type"] == "voltage":
                z = val["Z_re"]+1j*val["Z_im"]
                a = out["V"]+z*out["I"]
                b = val["V_re"]+1j*val["V_im"]
                t = r+abs(z)*len(vox)*ti+1e-10*(abs(out["V"])+abs(b)+vmax)
            else:
                y = val["Y_re"]+1j*val["Y_im"]
                a = out["I"]+y*out["V"]
                b = val["I_re"]+1j*val["I_im"]
                t = len(vox)*(r+ti)+1e-10*(abs(out["I"])+abs(y)*vmax)
            same("terminal relation of the source %s" % name, a, b, t)

    # power balance
    rho = [abs(x) for m in param["material_val"].values() if "rho_re" in m for x in np.ravel(m["rho_re"])]
    length = [d[0]/(d[1]*d[2]), d[1]/(d[0]*d[2]), d[2]/(d[0]*d[1])]
    n_f = 3*len(idx_vc)
    i_max = np.sqrt(2*abs(integ["P_electric"])/(min(rho)*min(length)))
    v_sum = float(np.sqrt(np.sum(np.abs(var["V_c"])**2)))
    scale = sum(abs(var["V_c"][pos_c[v]]*I_vox[pos_c[v]]) for v in src_vox)
    t = r*(v_sum+i_max)+1e-9*scale
    if idx_vm:
        # residuum of the magnetic equations (flux weighted with the potentials)
        vm = float(np.sqrt(np.sum(np.abs(var["V_m"])**2)))
        fl = np.sum(np.abs(var["B_m"])*[d[1]*d[2], d[0]*d[2], d[0]*d[1]])
        t += 2*np.pi*max(freq, 1)*r*(2*fl+1e3*vm*fl/(1e-30+float(np.max(np.abs(var["V_m"])))))+1e-8*scale
    same("active power = losses", float(np.real(integ["S_total"])), float(integ["P_total"]), t+1e-9*abs(integ["P_total"])+1e-300)
    env.probe("DC" if freq == 0 else "AC")
    if kappa is not None and (not idx_vm or True):
        want = 2*(2*np.pi*freq)*integ["W_total"]+kappa*integ["P_electric"]
        same("reactive power = 2*omega*energy", float(np.imag(integ["S_total"])), float(want), t+1e-9*(abs(want)+abs(integ["S_total"]))+1e-300)
        env.probe("reactive balance")
        if idx_vm:
            env.probe("reactive balance with magnetic")
        if kappa:
            env.probe("reactive balance with complex resistivity")
    if set(idx_vc) & set(idx_vm) and not any(m["material_type"] == "electromagnetic" for m in prob["material_def"].values()):
        env.probe("shared domain")
    same("final power of the convergence record", conv_s, integ["S_total"], 1e-9*abs(integ["S_total"])+1e-9*scale+1e-300)
