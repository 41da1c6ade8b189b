"""Workload generators: small random geometries, problems, and numerical options."""

import copy

NAMES = ["wire", "core", "src", "sink", "body_a", "body_b", "zz", "aa", "m1", "m2", "x", "Y", "p0", "p1", "q9", "dom_x", "alpha", "w_2", "k", "n7"]


def tolerance(**kwargs):
    """Default numerical options (tight tolerances)."""
    it = {"solver": "gmres", "rel_tol": 1e-12, "abs_tol": 1e-30, "n_inner": 60, "n_outer": 20}
    tol = {
        "parallel_sweep": {"n_jobs": 0, "n_threads": None},
        "integral_simplify": 20.0,
        "biot_savart": "face",
        "mult_type": "fft",
        "fft_options": {"matrix_split": True, "library": "SciPy", "scipy_worker": 0, "fftw_thread": 0, "fftw_timeout": 100.0, "fftw_byte_align": 16},
        "factorization_options": {
            "library": "SuperLU",
            "pyamg_options": {"tol": 1e-6, "solver": "root", "krylov": None},
            "pardiso_options": {"thread_pardiso": -1, "thread_mkl": -1},
        },
        "solver_options": {
            "coupling": "direct",
            "tolerance_options": {"ignore_status": False, "ignore_res": False, "rel_tol": 1e-9, "abs_tol": 1e-25},
            "power_options": {"stop": False, "n_min": 4, "n_cmp": 3, "rel_tol": 1e-4, "abs_tol": 1e-10},
            "direct_options": dict(it),
            "segregated_options": {
                "rel_tol": 1e-10, "abs_tol": 1e-30, "relax_electric": 1.0, "relax_magnetic": 1.0,
                "n_min": 2, "n_max": 40,
                "iter_electric_options": dict(it), "iter_magnetic_options": dict(it),
            },
        },
        "condition_options": {
            "check": False, "tolerance_electric": 1e15, "tolerance_magnetic": 1e15,
            "norm_options": {"t_accuracy": 2, "n_iter_max": 25},
        },
    }
    tol.update(kwargs)
    return tol


def random_tolerance(ch, parallel=None, coupling=None, swarm=True):
    """Random numerical options that do not change the solution."""
    tol = tolerance()
    if not swarm:
        return tol
    tol["integral_simplify"] = ch.pick([20.0, 1.6, 2.7], "simplify")
    tol["biot_savart"] = ch.pick(["face", "voxel"], "biot")
    tol["mult_type"] = ch.pick(["fft", "direct"], "mult")
    tol["fft_options"]["matrix_split"] = ch.pick([True, False], "split")
    tol["fft_options"]["library"] = ch.pick(["SciPy", "NumPy", "FFTW", "MKL", "CuPy"], "fftlib")
    tol["fft_options"]["fftw_thread"] = ch.pick([0, 1, -1], "fftw-thread")
    tol["fft_options"]["fftw_timeout"] = ch.pick([100.0, None], "fftw-timeout")
    fact = tol["factorization_options"]
    fact["library"] = ch.pick(["SuperLU", "PARDISO", "PyAMG"], "factlib")
    fact["pyamg_options"]["solver"] = ch.pick(["root", "adapt"], "amg")
    fact["pardiso_options"]["thread_pardiso"] = ch.pick([-1, 0, 2, None], "pardiso")
    fact["pardiso_options"]["thread_mkl"] = ch.pick([-1, 0, 2, None], "mkl")
    tol["fft_options"]["scipy_worker"] = ch.pick([0, 1, -1], "fftw")
    sol = tol["solver_options"]
    sol["coupling"] = ch.pick(["direct", "segregated"], "coupling") if coupling is None else coupling
    for opt in (sol["direct_options"], sol["segregated_options"]["iter_electric_options"], sol["segregated_options"]["iter_magnetic_options"]):
        opt["solver"] = ch.pick(["gmres", "gcrot"], "iter")
        opt["n_inner"] = ch.pick([60, 15, 30], "inner")
    sol["segregated_options"]["relax_electric"] = ch.pick([1.0, 0.9], "relax")
    sol["segregated_options"]["relax_magnetic"] = ch.pick([1.0, 0.9], "relax")
    tol["condition_options"]["check"] = ch.flag(0.4, "cond")
    if parallel is not None:
        tol["parallel_sweep"]["n_jobs"] = parallel
    return tol


def _neigh(n, v):
    (nx, ny, nz) = n
    (i, j, k) = (v % nx, (v//nx) % ny, v//(nx*ny))
    out = []
    for (a, b, c) in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1)):
        (p, q, r) = (i+a, j+b, k+c)
        if 0 <= p < nx and 0 <= q < ny and 0 <= r < nz:
            out.append(p+q*nx+r*nx*ny)
    return out


def components(n, vox):
    """Connected components of voxels."""
    left = set(vox)
    out = []
    while left:
        seed = min(left)
        comp = [seed]
        left.discard(seed)
        stack = [seed]
        while stack:
            for w in _neigh(n, stack.pop()):
                if w in left:
                    left.discard(w)
                    comp.append(w)
                    stack.append(w)
        out.append(comp)
    return out


def _grow(ch, n, free, size):
    """Grow a connected blob in the free voxels."""
    if not free:
        return []
    cur = [ch.pick(sorted(free), "seed")]
    while len(cur) < size:
        cand = sorted({w for v in cur for w in _neigh(n, v) if w in free and w not in cur})
        if not cand:
            break
        cur.append(ch.pick(cand, "grow"))
    return cur


def _split(ch, items, k):
    """Split a list into k non-empty parts."""
    items = ch.perm(items, "split")
    k = min(k, len(items))
    out = [[x] for x in items[:k]]
    for x in items[k:]:
        out[ch.draw(k, "part")].append(x)
    return out


def random_case(ch, max_voxel=24, max_elec=10, magnetic=0.5, n_sweep=None, deps=True, freqs=(1e5, 0.0, 1e3, 1e6), points=True):
    """
    Random problem: (geometry, problem, meta).
    Every electric component has a source fixing the potential.
    """
    n = [ch.pick([2, 3, 1, 4], "n") for _ in range(3)]
    large = ch.flag(0.03, "large")
    if large:
        (max_voxel, max_elec) = (4*max_voxel, 3*max_elec)
        n = ch.perm(ch.pick([[ch.int(8, 24, "long"), ch.int(1, 2, "wide"), 1], [5, 4, 3]], "large-n"), "large-dim")
    while n[0]*n[1]*n[2] > max_voxel:
        n[n.index(max(n))] -= 1
    if n[0]*n[1]*n[2] < 4:
        n[ch.draw(3, "dim")] = 4
    unit = ch.pick([1e-2, 1e-2, 1e-2, 35e-6, 0.3], "unit")
    d = [unit*ch.pick([1.0, 0.7, 1.5, 2.0], "d") for _ in range(3)]
    c = [unit*ch.pick([0.0, 1.0, -2.5], "c") for _ in range(3)]
    nv = n[0]*n[1]*n[2]
    free = set(range(nv))

    # electric blobs (isolated voxels: a problem without internal faces)
    elec = []
    dust = ch.flag(0.05, "dust")
    for _ in range(ch.pick([1, 1, 2], "blobs")):
        if len(free) == 0 or len(elec) >= max_elec:
            break
        blob = _grow(ch, n, free, 1 if dust else ch.int(2, max(2, min(max_elec-len(elec), 24 if large else 7)), "size"))
        elec += blob
        free -= set(blob)

    # magnetic blob
    mag = []
    if ch.flag(magnetic, "magnetic"):
        mag = _grow(ch, n, free, 1 if ch.flag(0.08, "mdust") else ch.int(2, 12 if large else 5, "msize"))
        free -= set(mag)

    # domains
    names = ch.perm(NAMES, "names")
    domain = {}
    sources = []        # list of (list of domains)
    body = []
    for comp in components(n, elec):
        comp = ch.perm(comp, "comp")
        k = ch.int(1, min(3, len(comp)), "n_src")
        pos = 0
        for _ in range(k):
            left = len(comp)-pos-(k-1-_)
            if left <= 0:
                break
            size = min(left, ch.pick([1, 2, 3], "srcsize"))
            vox = comp[pos:pos+size]
            pos += size
            doms = []
            for part in _split(ch, vox, ch.pick([1, 2], "srcdom")):
                tag = names.pop()
                domain[tag] = part
                doms.append(tag)
            sources.append((doms, _ == 0))
        rest = comp[pos:]
        if rest:
            for part in _split(ch, rest, ch.pick([1, 2], "bodydom")):
                tag = names.pop()
                domain[tag] = part
                body.append(tag)
    mdom = []
    if mag:
        for part in _split(ch, mag, ch.pick([1, 2], "magdom")):
            tag = names.pop()
            domain[tag] = part
            mdom.append(tag)
    if ch.flag(0.2, "unused"):
        # domain without material
        left = sorted(free-{v for x in domain.values() for v in x})
        if left:
            domain[names.pop()] = left[:ch.int(1, 3, "unused")]
    hollow = None
    if ch.flag(0.1, "hollow"):
        # domain without voxels (as left by the resolution of the conflicts)
        hollow = names.pop()
        domain[hollow] = []
    domain = {k: domain[k] for k in ch.perm(list(domain), "domorder")}

    # materials
    edom = [x for (doms, _) in sources for x in doms]+body
    if hollow:
        mode = ch.pick(["body", "source", "alone", "none"], "hollow-use")
        if mode == "source":
            edom.append(hollow)
            sources[0][0].append(hollow)
        elif mode == "alone":
            edom.append(hollow)
            sources.append(([hollow], False))
        elif mode == "body":
            edom.append(hollow)
    material = {}
    mats = []
    emag = []
    if body and magnetic and ch.flag(0.25, "em"):
        emag = [body[ch.draw(len(body), "emdom")]]
    for part in _split(ch, [x for x in edom if x not in emag], ch.pick([1, 2, 3], "nmat")):
        mats.append(("electric", part))
    if emag and ch.flag(0.3, "emsplit"):
        # an electric and a magnetic material share the domain
        mats.append(("electric", emag))
        mats.append(("magnetic", emag))
    elif emag:
        mats.append(("electromagnetic", emag))
    if mdom:
        for part in _split(ch, mdom, ch.pick([1, 2], "nmmat")):
            mats.append(("magnetic", part))
    mats = ch.perm(mats, "matorder")
    for i, (kind, part) in enumerate(mats):
        material["mat_%s%d" % (kind[0:3], i)] = {
            "domain_list": ch.perm(part, "matdom"),
            "material_type": kind,
            "orientation_type": ch.pick(["isotropic", "anisotropic"] if any(domain[x] for x in part) else ["isotropic"], "orient"),
            "var_type": ch.pick(["lumped", "distributed"], "var"),
        }

    # sources
    source = {}
    grounded = {}
    for i, (doms, first) in enumerate(ch.perm(sources, "srcorder")):
        tag = "src_%d" % i
        kind = ch.pick(["voltage", "current"], "srctype")
        source[tag] = {
            "domain_list": ch.perm(doms, "srcdoms"),
            "source_type": kind,
            "var_type": ch.pick(["lumped", "distributed"], "srcvar"),
        }
        grounded[tag] = first

    # points outside of the structure
    pts = []
    if points:
        for _ in range(ch.pick([1, 2, 0], "n_pts")):
            size = max(a*b for a, b in zip(n, d))
            pts.append([c[k]+(1.5+ch.real(0, 1, "pt"))*size*ch.pick([1, -1], "sg") for k in range(3)])

    # sweeps
    k = n_sweep if n_sweep is not None else ch.pick([1, 2, 3, 4, 5], "n_sweep")
    sweep = {}
    tags = ["sim_%s" % x for x in ch.perm(["b", "a", "d", "c", "f", "e", "h", "g", "j", "i", "l", "k"], "tags")][:k]
    if ch.flag(0.25, "names"):
        # unusual names
        tags = ch.perm(["Sim B", "sim.a", "SIM_B", "10", "9", "\u00e9t\u00e9", "x-1", "None", "sim_b", "0", "true", "sim_B_b"], "tags")[:k]
    mode = ch.pick(["chain", "star", "tree", "none"], "deps") if deps else "none"
    counts = {tag: sum(len(domain[x]) for x in val["domain_list"]) for tag, val in material.items()}
    scount = {tag: sum(len(domain[x]) for x in val["domain_list"]) for tag, val in source.items()}
    for i, tag in enumerate(tags):
        if mode == "none" or i == 0:
            init = None
        elif mode == "chain":
            init = tags[i-1]
        elif mode == "star":
            init = tags[0]
        else:
            init = ch.pick([None]+tags[:i], "init")
        sweep[tag] = {"init": init, "param": random_param(ch, material, source, counts, scount, grounded, ch.pick(freqs, "freq"))}
    for val in sweep.values():
        # same resistances for all the voxel sizes
        for mat in val["param"]["material_val"].values():
            for key in ("rho_re", "rho_im"):
                if key in mat:
                    mat[key] = _scale(mat[key], unit/1e-2)
    order = ch.perm(tags, "sweeporder")
    sweep = {tag: sweep[tag] for tag in order}

    geometry = {
        "mesh_type": "voxel",
        "data_voxelize": {
            "param": {"n": list(n), "d": list(d), "c": list(c)},
            "domain_index": domain,
        },
        "data_point": {"check_cloud": True, "full_cloud": False, "pts_cloud": pts},
        "data_resampling": {"use_reduce": False, "use_resample": False, "resampling_factor": [1, 1, 1]},
        "data_conflict": {"resolve_rules": False, "resolve_random": False, "conflict_rules": []},
        "data_integrity": {"domain_connected": {}, "domain_adjacent": {}},
    }
    problem = {"material_def": material, "source_def": source, "sweep_solver": sweep}
    meta = {"magnetic": bool(mag or emag), "grounded": grounded, "counts": counts, "scount": scount, "mode": mode,
            "n": n, "elec": elec, "n_elec": len(elec)}
    return geometry, problem, meta


def random_param(ch, material, source, counts, scount, grounded, freq):
    """Random material and source values."""
    mval = {}
    for tag, mat in material.items():
        def value(fct):
            if mat["var_type"] == "lumped":
                return fct() if mat["orientation_type"] == "isotropic" else [fct() for _ in range(3)]
            if mat["orientation_type"] == "isotropic":
                return [fct() for _ in range(counts[tag])]
            return [[fct() for _ in range(3)] for _ in range(counts[tag])]
        val = {}
        if mat["material_type"] in ("electric", "electromagnetic"):
            cplx = ch.flag(0.3, "rho_im")
            val["rho_re"] = value(lambda: 1e-3*ch.pick([1.0, 2.0, 0.5, 3.3], "rho"))
            val["rho_im"] = value(lambda: 1e-3*ch.pick([0.0, 0.4, 1.1], "rho_im") if cplx else 0.0)
        if mat["material_type"] in ("magnetic", "electromagnetic"):
            cplx = ch.flag(0.5, "chi_im")
            val["chi_re"] = value(lambda: ch.pick([5.0, 1.0, 20.0, 50.0], "chi"))
            val["chi_im"] = value(lambda: ch.pick([0.0, 1.0, 7.0], "chi_im") if cplx else 0.0)
        mval[tag] = val
    sval = {}
    for tag, src in source.items():
        def value(fct):
            return fct() if src["var_type"] == "lumped" else [fct() for _ in range(scount[tag])]
        amp = ch.pick([1.0, 2.5, 0.3], "amp")
        re = value(lambda: amp*(0.5+ch.real(0, 1, "re")))
        im = value(lambda: amp*ch.pick([0.0, 0.7, -0.4], "im"))
        if src["source_type"] == "voltage":
            zer = ch.flag(0.3, "ideal")
            sval[tag] = {"V_re": re, "V_im": im,
                         "Z_re": value(lambda: 0.0 if zer else ch.pick([0.05, 0.1, 1.0], "Z")),
                         "Z_im": value(lambda: 0.0 if zer else ch.pick([0.0, 0.02], "Z"))}
        else:
            zer = ch.flag(0.3, "ideal") and not grounded[tag]
            sval[tag] = {"I_re": re, "I_im": im,
                         "Y_re": value(lambda: 0.0 if zer else ch.pick([0.5, 2.0, 0.1], "Y")),
                         "Y_im": value(lambda: 0.0 if zer else ch.pick([0.0, 0.3], "Y"))}
    return {"freq": freq, "material_val": mval, "source_val": sval}


def _scale(x, f):
    return [_scale(y, f) for y in x] if isinstance(x, list) else f*x


def copy_of(x):
    return copy.deepcopy(x)
