"""C18: the extracted impedance matrix is the one of the component."""

import copy
import os

import numpy as np

from .. import cmp, gen, pool, ref, sim, work
from ..core import HarnessError, Violation

ID = "C18"
LEVEL = "exploration"
RUNS = (480, 16000)
RULE = ("A case is a random component with 1-4 galvanically separated windings (random order, terminals, materials, optional magnetic core, sometimes mirror symmetric), excited by several "
        "random current patterns at 1-2 frequencies, solved under a random schedule of the simulated process pool (order of the sweeps, workers, warm starts, sometimes a killed worker "
        "and a repeated call), passed on in memory or through a file to another process image, and extracted with random subsets and orders of sweeps, terminals and symmetries. The "
        "terminal data are compared with the solution, and the matrix with the one of an independent dense PEEC model excited winding by winding. Incomplete or inconsistent "
        "sets of sweeps have to be rejected. Nontrivial: at least one matrix was compared.")
REAL = ["pypeec mesher, solver and utils.matrix (complete)", "scisave (file transfer)", "joblib.Parallel", "SciPy/NumPy"]
STUB = ["joblib process pool", "clock", "FFTW/MKL/CuPy/PARDISO/PyAMG stand-ins computing with SciPy"]
ASSUMPTIONS = ["The reference model is a correct implementation of the documented PEEC equations.",
               "The current patterns used for the comparison are well conditioned (condition number of the extraction below 1e4)."]
PROBES = ["compared", "compared with symmetry", "overdetermined", "flipped terminal", "permuted sweeps", "DC", "magnetic", "voltage source", "through a file", "worker killed",
          "rejected: not enough sweeps", "rejected: mixed frequencies", "rejected: unknown name", "rejected: wrong shape", "not converged", "3+ windings"]


def component(ch):
    """Random component with separated windings along the x axis."""
    layout = ch.pick(["row", "square", "row3"], "layout")
    length = ch.int(2, 4, "length")
    if layout == "row":
        (ny, nz) = (3, ch.pick([1, 2], "nz"))
        spots = [(0, 0), (2, 0)]
    elif layout == "square":
        (ny, nz) = (3, 3)
        length = min(length, 3)
        spots = [(0, 0), (2, 0), (0, 2), (2, 2)]
    else:
        (ny, nz) = (5, 1)
        spots = [(0, 0), (2, 0), (4, 0)]
    n = (length, ny, nz)
    sym = ch.flag(0.35, "symmetric") and (layout != "row" or nz == 1)
    if sym and layout == "row3":
        # mirror of the row: the middle winding stays
        pass
    rotate = sym and layout == "square" and ch.flag(0.5, "rotate")
    dim = [1e-2*ch.pick([1.0, 0.7, 1.5], "d") for _ in range(3)]
    if rotate:
        dim[2] = dim[1]
    use = spots if sym else ch.perm(spots, "spots")[:ch.int(1, len(spots), "n_w")]
    use = ch.perm(use, "winding-order")

    def vox(i, j, k):
        return i+j*n[0]+k*n[0]*n[1]

    domain = {}
    material = {}
    source = {}
    kind = ch.pick(["current", "voltage"], "kind") if sym else None
    n_src = ch.int(1, max(1, length-1), "src-size")
    elec = []
    for w, (j, k) in enumerate(use):
        cells = [vox(i, j, k) for i in range(length)]
        if not sym and ch.flag(0.3, "reverse"):
            cells = cells[::-1]
        size = n_src if sym else ch.int(1, max(1, length-1), "src-size")
        domain["d_src%d" % w] = cells[:size]
        body = cells[size:-1]
        domain["d_sink%d" % w] = cells[-1:]
        doms = ["d_src%d" % w, "d_sink%d" % w]
        if body:
            domain["d_body%d" % w] = body
            doms.append("d_body%d" % w)
        elec.append(doms)
        source["src%d" % w] = {"domain_list": ["d_src%d" % w], "source_type": kind or ch.pick(["current", "voltage"], "kind"), "var_type": "lumped"}
        source["sink%d" % w] = {"domain_list": ["d_sink%d" % w], "source_type": "voltage", "var_type": "lumped"}
    groups = [[x for doms in elec for x in doms]] if sym or ch.flag(0.5, "one-material") else elec
    for i, doms in enumerate(groups):
        material["mat_c%d" % i] = {"domain_list": ch.perm(doms, "doms"), "material_type": "electric", "orientation_type": ch.pick(["isotropic", "anisotropic"], "orient"),
                                   "var_type": "lumped" if sym else ch.pick(["lumped", "distributed"], "var")}
    used = {v for x in domain.values() for v in x}
    if ch.flag(0.5, "core"):
        if sym:
            core = [vox(i, j, k) for i in range(length) for j in range(ny) for k in range(nz) if vox(i, j, k) not in used]
            if layout == "square":
                core = [vox(i, 1, 1) for i in range(length)]
        else:
            core = [v for v in range(n[0]*n[1]*n[2]) if v not in used]
            core = sorted(ch.perm(core, "core")[:ch.int(1, 6, "core-size")])
        if core:
            domain["d_core"] = core
            material["mat_m"] = {"domain_list": ["d_core"], "material_type": "magnetic", "orientation_type": "isotropic" if rotate else ch.pick(["isotropic", "anisotropic"], "orient"), "var_type": "lumped"}
    domain = {k: domain[k] for k in ch.perm(list(domain), "domorder")}
    source = {k: source[k] for k in ch.perm(list(source), "srcorder")}
    geo = {
        "mesh_type": "voxel",
        "data_voxelize": {"param": {"n": list(n), "d": dim, "c": [0.0, 0.0, 0.0]}, "domain_index": domain},
        "data_point": {"check_cloud": True, "full_cloud": True, "pts_cloud": []},
        "data_resampling": {"use_reduce": False, "use_resample": False, "resampling_factor": [1, 1, 1]},
        "data_conflict": {"resolve_rules": False, "resolve_random": False, "conflict_rules": []},
        "data_integrity": {"domain_connected": {}, "domain_adjacent": {}},
    }
    mirrors = []
    if sym:
        pos = {s: w for w, s in enumerate(use)}
        mirrors.append([pos[(ny-1-j, k)] for (j, k) in use])
        if layout == "square":
            mirrors.append([pos[(j, nz-1-k)] for (j, k) in use])
        if rotate:
            mirrors.append([pos[(k, ny-1-j)] for (j, k) in use])
    return geo, material, source, len(use), mirrors


def excitation(ch, n_w, first):
    """Random current or voltage pattern."""
    if first is not None:
        return [1.0 if w == first else ch.pick([0.0, 0.0, 0.3], "cross") for w in range(n_w)]
    return [ch.pick([1.0, 0.0, -0.7, 0.4, 2.0], "amp") for _ in range(n_w)]


def set_source(source, elem, pattern, phase):
    """Source values of a sweep."""
    out = {}
    for tag, src in source.items():
        w = int(tag[-1])
        amp = pattern[w]*phase if tag.startswith("src") else 0.0
        if src["source_type"] == "current":
            out[tag] = {"I_re": float(np.real(amp)), "I_im": float(np.imag(amp)), "Y_re": elem[tag][0], "Y_im": elem[tag][1]}
        else:
            out[tag] = {"V_re": float(np.real(amp)), "V_im": float(np.imag(amp)), "Z_re": elem[tag][0], "Z_im": elem[tag][1]}
    return out


def terminal(source, n_w):
    """Voltages and currents of the windings."""
    V = np.array([source["src%d" % w]["V"]-source["sink%d" % w]["V"] for w in range(n_w)])
    I = np.array([0.5*(source["src%d" % w]["I"]-source["sink%d" % w]["I"]) for w in range(n_w)])
    return V, I


def equations(I_mat):
    """Equation matrix for the independent coefficients of a symmetric matrix."""
    (n, m) = I_mat.shape
    pairs = [(i, j) for i in range(n) for j in range(i, n)]
    A = np.zeros((n*m, len(pairs)), dtype=complex)
    for s in range(m):
        for i in range(n):
            for c, (p, q) in enumerate(pairs):
                if i == p:
                    A[s*n+i, c] += I_mat[q, s]
                if i == q and p != q:
                    A[s*n+i, c] += I_mat[p, s]
    return A


def run(env):
    ch = env.ch
    with sim.simulation(env):
        (geo, material, source, n_w, mirrors) = component(ch)
        counts = {t: sum(len(geo["data_voxelize"]["domain_index"][x]) for x in m["domain_list"]) for t, m in material.items()}
        tol = gen.random_tolerance(ch)
        tol["parallel_sweep"]["n_jobs"] = ch.pick([0, 2, 3], "n_jobs")
        tol["condition_options"]["check"] = False
        exact = not ch.flag(0.1, "loose")
        if not exact:
            work.loose(ch, tol)
        else:
            tol["solver_options"]["tolerance_options"]["rel_tol"] = 1e-9

        # sweeps
        freqs = ch.pick([[1e5], [0.0], [1e5, 0.0], [1e3, 1e6]], "freqs")
        elem = {}
        for tag, src in source.items():
            ideal = src["source_type"] == "voltage" and ch.flag(0.2, "ideal") and tag.startswith("sink")
            elem[tag] = (0.0, 0.0) if ideal else (ch.pick([0.05, 0.1], "elem"), 0.0)
        if mirrors:
            for tag in elem:
                elem[tag] = (0.05, 0.0)
        sweep = {}
        groups = {}
        num = ch.perm(list(range(20)), "names")
        for freq in freqs:
            n_sw = ch.pick([n_w, n_w+1, n_w-1, n_w+2, 1], "n_sw")
            val = gen.random_param(ch, material, {}, counts, {}, {}, freq)["material_val"]
            groups[freq] = []
            for k in range(max(1, n_sw)):
                tag = "sim_%d" % num.pop()
                phase = ch.pick([1.0, 1j, 0.6+0.8j], "phase")
                pattern = excitation(ch, n_w, k if k < n_w else None)
                sweep[tag] = {"init": ch.pick([None]+list(sweep), "init"), "param": {"freq": freq, "material_val": val, "source_val": set_source(source, elem, pattern, phase)}}
                groups[freq].append(tag)
        sweep = {t: sweep[t] for t in ch.perm(list(sweep), "sweeporder")}
        prob = {"material_def": material, "source_def": source, "sweep_solver": sweep}

        img = sim.new_image("parent")
        with pool.simulated(env, img) as pl:
            out = work.mesh(env, img, geo)
            if not out.ok:
                raise Violation("mesher-failed", out)
            vox = out.value
            if tol["parallel_sweep"]["n_jobs"] > 1 and ch.flag(0.25, "kill"):
                killed(env, pl, img, vox, prob, tol)
            out = work.solve(env, img, copy.deepcopy(vox), copy.deepcopy(prob), copy.deepcopy(tol))
        env.event("solve", out.kind())
        if not out.ok:
            if work.is_numeric(out.exc):
                return
            raise Violation("unexpected-exception", out)
        sol = out.value
        d = work.complete(sol, prob)
        env.check(d is None, "incomplete-solution", d)

        # transfer of the solution to another process
        if ch.flag(0.4, "file"):
            import scisave
            name = os.path.join(env.scratch, "sol"+ch.pick([".json", ".json.gz", ".pkl", ".pck"][:3], "format"))
            scisave.write_data(name, sol)
            data = scisave.load_data(name)
            env.probe("through a file")
        else:
            data = sol
        user = sim.new_image("user") if ch.flag(0.5, "other") else img

        # reference matrices (the windings are excited one after the other)
        p_ref = copy.deepcopy(prob)
        p_ref["sweep_solver"] = {}
        for freq, tags in groups.items():
            for w in range(n_w):
                par = copy.deepcopy(sweep[tags[0]]["param"])
                par["source_val"] = set_source(source, elem, [1.0 if x == w else 0.0 for x in range(n_w)], 1.0)
                p_ref["sweep_solver"]["%g/%d" % (freq, w)] = {"init": None, "param": par}
        p_ref["sweep_solver"].update(sweep)
        reference = ref.Reference(vox["data_geom"], p_ref, tol)

        ok = {t: exact and r["has_converged"] for t, r in sol["data_sweep"].items()}
        if not all(r["has_converged"] for r in sol["data_sweep"].values()):
            env.probe("not converged")
        if not exact and ch.flag(0.5, "measured"):
            # terminal data which are not balanced (as from an iterative solver which has not converged)
            data = copy.deepcopy(data)
            for res in data["data_sweep"].values():
                for x in res["source"].values():
                    x["V"] += ch.pick([0.0, 0.1, -0.2j], "V-noise")
                    x["I"] += ch.pick([0.0, 0.1, -0.2j], "I-noise")
        for _ in range(ch.int(1, 3, "extractions")):
            extraction(env, user, data, prob, reference, groups, n_w, mirrors, ok)
        if "mat_m" in material:
            env.probe("magnetic")
        if n_w > 2:
            env.probe("3+ windings")
        if any(s["source_type"] == "voltage" for t, s in source.items() if t.startswith("src")):
            env.probe("voltage source")
        env.sample = "%d windings, %s, freq %s, mirrors %s" % (n_w, list(material), freqs, mirrors)


def killed(env, pl, img, vox, prob, tol):
    """A worker dies: the solution is not returned."""
    ch = env.ch
    where = ch.pick(["start", "result"], "where")
    target = ch.int(1, len(prob["sweep_solver"]), "victim")
    state = {"n": 0, "fired": False}

    def hook(name, p, task):
        if name == where:
            state["n"] += 1
            if state["n"] == target:
                state["fired"] = True
                return "kill"
        return None
    pl.hook_point = hook
    try:
        out = work.solve(env, img, copy.deepcopy(vox), copy.deepcopy(prob), copy.deepcopy(tol))
    finally:
        pl.hook_point = None
    if state["fired"]:
        env.check(not out.ok, "fault-swallowed", "killed worker")
        env.probe("worker killed")


def extraction(env, img, data, prob, reference, groups, n_w, mirrors, ok):
    ch = env.ch
    before = cmp.digest(data)
    with img.active():
        import importlib
        mod = importlib.import_module("pypeec.utils.matrix")
    freq = ch.pick(list(groups), "freq")
    tags = ch.perm(groups[freq], "tags")
    bad = ch.weighted([("none", 12), ("sweeps", 3), ("freq", 1), ("name", 1), ("terminal", 1), ("shape", 1)], "bad")
    if bad == "sweeps":
        tags = tags[:max(1, ch.int(1, max(1, len(tags)-1), "sub"))]
    if tags != [t for t in prob["sweep_solver"] if t in tags]:
        env.probe("permuted sweeps")
    order = ch.perm(list(range(n_w)), "terminals")
    flip = [bool(not mirrors and ch.flag(0.2, "flip")) for _ in range(n_w)]
    t_list = [{"src": ("sink%d" if flip[w] else "src%d") % w, "sink": ("src%d" if flip[w] else "sink%d") % w} for w in order]
    sign = np.array([-1.0 if flip[w] else 1.0 for w in order])

    def call(fct, *args):
        with img.active():
            out = work.call(env, fct, *args)
        env.check(cmp.digest(data) == before, "solution-modified", "extraction")
        return out

    def rejected(out, what):
        env.event("invalid", what, out.kind())
        env.check(not out.ok, "accepted", lambda: "%s: %s" % (what, out.value))
        env.probe("rejected: "+what)

    if bad == "freq":
        if len(groups) > 1:
            # the frequencies of the chosen sweeps have to be identical
            other = [t for f, x in groups.items() if f != freq for t in x]
            rejected(call(mod.get_extract, data, ch.perm(tags+other[:1], "mixed"), t_list), "mixed frequencies")
        return
    if bad == "name":
        rejected(call(mod.get_extract, data, ch.perm(tags+["undeclared"], "unknown"), t_list), "unknown name")
        return
    if bad == "terminal":
        k = ch.draw(n_w, "which")
        t_bad = copy.deepcopy(t_list)
        t_bad[k][ch.pick(["src", "sink"], "side")] = "undeclared"
        rejected(call(mod.get_extract, data, tags, t_bad), "unknown name")
        return

    # terminal data
    out = call(mod.get_extract, data, list(tags), copy.deepcopy(t_list))
    if not out.ok:
        raise Violation("extract-failed", out)
    term = out.value
    V = np.zeros((n_w, len(tags)), dtype=complex)
    I = np.zeros((n_w, len(tags)), dtype=complex)
    for s, tag in enumerate(tags):
        (v, i) = terminal(data["data_sweep"][tag]["source"], n_w)
        V[:, s] = sign*v[order]
        I[:, s] = sign*i[order]
    for key, want in (("V_mat", V), ("I_mat", I)):
        got = np.asarray(term[key])
        scale = max(float(np.max(np.abs(want))), 1e-300)
        env.check(got.shape == want.shape and np.max(np.abs(got-want)) <= 1e-12*scale, "wrong-terminal-data", lambda: "%s: %s, expected %s" % (key, got, want))
    env.check(term["n_winding"] == n_w and term["n_solution"] == len(tags) and np.isclose(term["freq"], freq, rtol=1e-12, atol=0), "wrong-terminal-data", lambda: str(term)[:200])

    # symmetries
    where = {w: p for p, w in enumerate(order)}
    m_list = []
    for mirror in mirrors:
        perm = [where[mirror[w]] for w in order]
        m_list.append([list(range(n_w)), perm])
    if m_list and ch.flag(0.7, "use-symmetry"):
        m_list = ch.perm(m_list, "sym-order")[:ch.int(1, len(m_list), "n_sym")]
    else:
        m_list = []
    if bad == "shape":
        wrong = dict(term)
        wrong[ch.pick(["n_winding", "n_solution"], "which")] += 1
        rejected(call(mod.get_matrix, wrong), "wrong shape")
        rejected(call(mod.get_symmetry, wrong, [[list(range(n_w))]]), "wrong shape")
        return
    if m_list:
        saved = cmp.digest(term)
        out = call(mod.get_symmetry, term, copy.deepcopy(m_list))
        if not out.ok:
            raise Violation("symmetry-failed", out)
        env.check(cmp.digest(term) == saved, "terminal-modified", "symmetry")
        term = out.value
        for group in m_list:
            V = np.hstack([V[p, :] for p in group])
            I = np.hstack([I[p, :] for p in group])
        got = np.vstack((np.asarray(term["V_mat"]), np.asarray(term["I_mat"])))
        want = np.vstack((V, I))
        same = got.shape == want.shape and all(
            min(float(np.max(np.abs(got[:, a]-want[:, b]))) for b in range(want.shape[1])) <= 1e-12*float(np.max(np.abs(want))) for a in range(got.shape[1]))
        env.check(same and term["n_solution"] == V.shape[1] and term["n_winding"] == n_w, "wrong-symmetry", lambda: "%s, expected %s" % (got, want))

    # number and independence of the equations
    A = equations(I)
    s_val = np.linalg.svd(A, compute_uv=False)
    eps = s_val[0]*max(A.shape)*np.finfo(float).eps
    enough = A.shape[0] >= A.shape[1]
    rank_lo = int(np.sum(s_val > 10*eps))
    rank_hi = int(np.sum(s_val > 0.1*eps))
    saved = cmp.digest(term)
    out = call(mod.get_matrix, term)
    env.check(cmp.digest(term) == saved, "terminal-modified", "matrix")
    if not enough or (rank_lo == rank_hi and rank_lo < A.shape[1]):
        rejected(out, "not enough sweeps")
        return
    if rank_lo != rank_hi or s_val[0] > 1e4*s_val[-1]:
        env.event("ill-conditioned")
        return
    if not out.ok:
        raise Violation("matrix-failed", out)
    mat = out.value
    Z = np.asarray(mat["Z_mat"])
    env.check(Z.shape == (n_w, n_w) and np.all(np.isfinite(Z)), "wrong-matrix", lambda: str(Z))
    post(env, mat, freq, n_w, V.shape[1], Z)
    if not all(ok[t] for t in tags):
        return

    # comparison with the reference
    Vr = np.zeros((n_w, n_w), dtype=complex)
    Ir = np.zeros((n_w, n_w), dtype=complex)
    for w in range(n_w):
        (Vr[:, w], Ir[:, w]) = terminal(reference.get("%g/%d" % (freq, w))[4]["source"], n_w)
    if s_val[-1] <= 1e-6*float(np.max(np.abs(Ir))):
        # sweeps without any excitation (the currents are rounding errors)
        env.event("no excitation")
        return
    D = np.diag(sign)
    Zr = np.linalg.solve(Ir.T, Vr.T).T
    if np.max(np.abs(Zr-Zr.T)) > 1e-6*np.max(np.abs(Zr)):
        raise HarnessError("the reference is not reciprocal")
    Zr = D@Zr[np.ix_(order, order)]@D
    (eV, eI) = (0.0, 0.0)
    for tag in tags:
        t = reference.tolerances(tag, 3e-9)
        out_ref = reference.get(tag)[4]["source"]
        for x in t["source"]:
            eV = max(eV, 2*t["source"][x]["V"]+4e-6*abs(out_ref[x]["V"]))
            eI = max(eI, 2*t["source"][x]["I"]+4e-6*abs(out_ref[x]["I"]))
    m = np.sqrt(V.size)
    bound = m*(eV+n_w*float(np.max(np.abs(Zr)))*eI)/s_val[-1]
    err = float(np.max(np.abs(Z-Zr)))
    scale = float(np.max(np.abs(Zr)))
    env.event("compared", n_w, len(tags), len(m_list))
    env.check(err <= bound+1e-6*scale, "wrong-matrix", lambda: "freq %g, %d windings, %d sweeps, symmetries %s, flips %s: error %.2e (tolerance %.2e): %s, expected %s" % (
        freq, n_w, len(tags), m_list, flip, err, bound, Z.tolist(), Zr.tolist()))
    if bound < 1e-2*scale:
        env.nontrivial = True
        env.probe("compared")
        for name, cond in (("compared with symmetry", m_list), ("flipped terminal", any(flip)), ("DC", freq == 0), ("overdetermined", V.shape[1] > n_w)):
            if cond:
                env.probe(name)


def post(env, mat, freq, n_w, n_s, Z):
    """Quantities computed from the impedance matrix."""
    env.check(mat["n_winding"] == n_w and mat["n_solution"] == n_s and np.isclose(mat["freq"], freq, rtol=1e-12, atol=0), "wrong-circuit", "sizes")
    env.check(np.array_equal(Z, Z.T), "wrong-circuit", "the matrix is not symmetric")
    w = 2*np.pi*freq
    R = Z.real
    L = Z.imag/w if freq != 0 else np.full(Z.shape, np.nan)

    def coupling(X):
        out = np.zeros((n_w, n_w))
        for i in range(n_w):
            for j in range(n_w):
                p = X[i, i]*X[j, j]
                out[i, j] = X[i, j]/np.sqrt(p) if p > 0 else np.nan
        return out
    with np.errstate(all="ignore"):
        want = {"R_mat": R, "L_mat": L, "Q_mat": w*L/R, "k_R_mat": coupling(R), "k_L_mat": coupling(L)}
    for key, x in want.items():
        got = np.asarray(mat[key])
        with np.errstate(all="ignore"):
            same = got.shape == x.shape and all(
                (not np.isfinite(b) and not np.isfinite(a)) or abs(a-b) <= 1e-9*abs(b) for a, b in zip(got.ravel(), x.ravel()))
        env.check(same, "wrong-circuit", lambda: "%s: %s, expected %s" % (key, got.tolist(), x.tolist()))
