"""Random calls of the public entry points (used for the histories of calls)."""

import contextlib
import copy
import os
import random as pyrandom

import numpy as np

from . import cmp, gen, genmesh, pool, sim, work


class Op:
    """Call of a public function."""

    def __init__(self, kind, module, func, args, note=""):
        self.kind = kind
        self.module = module
        self.func = func
        self.args = args
        self.note = note
        self.fresh = None
        self.lazy = None
        self.files = {}

    def call(self, env, img, args=None, around=None):
        """Call the function in a process image."""
        args = self.args if args is None else args
        for name, data in self.files.items():
            with open(name, "wb") as fid:
                fid.write(data)
        with img.active():
            fct = getattr(img.load(self.module), self.func)
            with around or contextlib.nullcontext():
                return work.call(env, fct, *args)

    def parallel(self):
        return self.kind == "solve" and self.args[2]["parallel_sweep"]["n_jobs"] not in (0, 1)

    def digest(self):
        return cmp.digest(_short(self.args))[:10]


def _short(x):
    """Remove the scratch directory from the arguments."""
    if isinstance(x, dict):
        return {k: _short(v) for k, v in x.items()}
    if isinstance(x, list):
        return [_short(v) for v in x]
    return os.path.basename(x) if isinstance(x, str) else x


@contextlib.contextmanager
def pristine(seed):
    """Process-wide state of a process that has just started."""
    saved = (dict(os.environ), os.getcwd(), np.random.get_state(), pyrandom.getstate())
    np.random.seed(seed)
    pyrandom.seed(seed)
    try:
        yield
    finally:
        for k in list(os.environ):
            if k not in saved[0]:
                del os.environ[k]
        os.environ.update(saved[0])
        os.chdir(saved[1])
        np.random.set_state(saved[2])
        pyrandom.setstate(saved[3])


def mesh_op(ch, env, kinds=("voxel", "png", "shape", "stl"), random_ok=False):
    (geo, spec) = genmesh.random_geometry(ch, env, kinds)
    # the files are overwritten by the next geometry
    geo = freeze_files(env, geo)
    if not random_ok:
        geo["data_conflict"]["resolve_random"] = False
        if ch.flag(0.8, "disjoint"):
            # remove the conflicts with the rules
            tags = list(spec.dom)
            geo["data_conflict"]["resolve_rules"] = True
            geo["data_conflict"]["conflict_rules"] = [
                {"domain_resolve": tags[i+1:], "domain_keep": [tags[i]]} for i in range(len(tags)-1)]
    op = Op("mesh", "pypeec.main", "run_mesher_data", [geo], geo["mesh_type"])
    for name in sorted(os.listdir(env.scratch)) if env._scratch else []:
        name = os.path.join(env.scratch, name)
        if os.path.basename(name).startswith("geo_") and name in repr(geo):
            with open(name, "rb") as fid:
                op.files[name] = fid.read()
    return op


def freeze_files(env, geo):
    """Give unique names to the files of a geometry."""
    geo = copy.deepcopy(geo)
    num = len(os.listdir(env.scratch)) if env._scratch else 0

    def move(name):
        nonlocal num
        if not os.path.exists(name):
            return name
        num += 1
        (base, ext) = os.path.splitext(os.path.basename(name))
        new = os.path.join(env.scratch, "geo_%d%s" % (num, ext))
        with open(name, "rb") as fid, open(new, "wb") as out:
            out.write(fid.read())
        return new

    data = geo["data_voxelize"]
    for lay in data.get("layer_stack", []):
        if "filename_list" in lay:
            lay["filename_list"] = [move(x) for x in lay["filename_list"]]
    for items in data.get("domain_stl", {}).values():
        for item in items:
            item["filename"] = move(item["filename"])
    return geo


def solve_op(ch, env, n_jobs=(0, 0, 0, 1, 2), **kwargs):
    kwargs.setdefault("max_voxel", 16)
    kwargs.setdefault("max_elec", 7)
    (geo, prob, meta) = gen.random_case(ch, n_sweep=kwargs.pop("n_sweep", ch.pick([1, 2, 3], "n_sweep")), **kwargs)
    tol = gen.random_tolerance(ch)
    mode = work.loose(ch, tol)
    tol["parallel_sweep"]["n_jobs"] = ch.pick(n_jobs, "n_jobs")
    img = sim.new_image("mesh")
    out = work.mesh(env, img, geo)
    if not out.ok:
        return Op("mesh", "pypeec.main", "run_mesher_data", [geo], "voxel")
    return Op("solve", "pypeec.main", "run_solver_data", [out.value, prob, tol],
              "%s/%s" % (tol["solver_options"]["coupling"], mode))


def util_op(ch, env):
    func = ch.pick(["get_fft", "get_ifft", "get_time", "get_freq", "get_idx_linear", "get_idx_tensor", "get_matrix", "get_symmetry", "get_extract"], "util")

    def num():
        return ch.int(-9, 9, "num")*0.25+0.1

    def aslist(x):
        return x.tolist() if ch.flag(0.4, "list") else x
    if func == "get_fft":
        return Op("util", "pypeec.utils.fourier", func, [aslist(np.array([num() for _ in range(ch.int(2, 7, "n"))])), ch.pick([None, 2, 9], "nf")])
    if func == "get_ifft":
        v = np.array([num()+1j*num() for _ in range(ch.int(2, 6, "n"))])
        v = v if ch.flag(0.7, "cplx") else np.real(v)
        return Op("util", "pypeec.utils.fourier", func, [aslist(v), ch.pick([None, 4, 9, 12], "nt")])
    if func in ("get_time", "get_freq"):
        return Op("util", "pypeec.utils.fourier", func, [ch.pick([1.0, 50.0, 1e5], "f"), ch.int(1, 8, "n")])
    if func in ("get_idx_linear", "get_idx_tensor"):
        n = [ch.int(1, 5, "n") for _ in range(3)]
        hi = 1 if ch.flag(0.15, "out") else 0
        if func == "get_idx_linear":
            idx = np.array([[ch.draw(x+hi, "i") for x in n] for _ in range(ch.int(1, 5, "k"))])
        else:
            idx = np.array([ch.draw(n[0]*n[1]*n[2]+hi, "i") for _ in range(ch.int(1, 5, "k"))])
        return Op("util", "pypeec.utils.voxel", func, [n, aslist(idx)])
    nw = ch.int(1, 3, "nw")
    ns = ch.int(1, 4, "ns")
    mat = [np.array([[num()+1j*num() for _ in range(ns)] for _ in range(nw)]) for _ in range(2)]
    term = {"n_solution": ns, "n_winding": nw, "freq": ch.pick([1e3, 0.0], "f"), "V_mat": mat[0], "I_mat": mat[1]}
    if func == "get_matrix":
        return Op("util", "pypeec.utils.matrix", func, [term])
    if func == "get_symmetry":
        sym = [[ch.perm(range(nw), "perm") for _ in range(ch.int(1, 3, "np"))] for _ in range(ch.int(1, 2, "nsym"))]
        return Op("util", "pypeec.utils.matrix", func, [term, sym])
    src = {k: {"V": num()+1j*num(), "I": num()+1j*num()} for k in ("a", "b", "c", "d")}
    src2 = {k: {"V": num()+1j*num(), "I": num()+1j*num()} for k in ("a", "b", "c", "d")}
    sol = {"data_init": {}, "data_sweep": {"s1": {"freq": 1e3, "source": src}, "s2": {"freq": 1e3, "source": src2}}}
    return Op("util", "pypeec.utils.matrix", func, [sol, ch.pick([["s1"], ["s2", "s1"], ["s1", "zz"]], "sweeps"),
                                                     [{"src": "a", "sink": "b"}, {"src": "d", "sink": "c"}][:ch.int(1, 2, "nt")]])


def clone(op, note):
    out = Op(op.kind, op.module, op.func, copy.deepcopy(op.args), op.note+"/"+note)
    out.files = dict(op.files)
    return out


def variant(ch, env, op):
    """Similar call with another result (same sizes and names, other values)."""
    op = clone(op, "variant")
    if op.kind == "mesh":
        data = op.args[0]["data_voxelize"]
        param = data["param"]
        how = ch.pick(["size", "content", "tail"], "vary")
        if how == "content" and op.args[0]["mesh_type"] == "png":
            for name in [x for lay in data["layer_stack"] for x in lay["filename_list"]]:
                op.files[name] = _flip(name)
        elif how == "content" and op.args[0]["mesh_type"] == "stl":
            for items in data["domain_stl"].values():
                for item in items:
                    item["offset"] = [x+0.5*y for x, y in zip(item["offset"], param["d"])]
        elif how == "content" and op.args[0]["mesh_type"] == "shape":
            for shapes in data["geometry_shape"].values():
                for s in shapes:
                    for k in ("diameter", "width"):
                        if k in s["shape_data"]:
                            s["shape_data"][k] *= 1.9
                    if "buffer" in s["shape_data"]:
                        s["shape_data"]["coord_holes"] = []
                        s["shape_data"]["buffer"] = 0.9*data["param"]["dx"]
        elif how == "content":
            nv = param["n"][0]*param["n"][1]*param["n"][2]
            data["domain_index"] = {k: [nv-1-x for x in v] for k, v in data["domain_index"].items()}
        elif how == "tail":
            tail = op.args[0]["data_resampling"]
            tail["use_reduce"] = not tail["use_reduce"]
            op.args[0]["data_conflict"]["conflict_rules"].reverse()
        elif "d" in param:
            f = ch.pick([2.0, 1+1e-3, 1+3e-5], "factor")
            param["d"] = [f*param["d"][0], param["d"][1], param["d"][2]/f]
        else:
            param["dz"] *= ch.pick([2.0, 1+1e-3], "factor")
    elif op.kind == "solve":
        (vox, prob, tol) = op.args
        how = ch.pick(["size", "freq", "options", "values", "shift"], "vary")
        if how == "size":
            d = vox["data_geom"]["d"]
            f = ch.pick([2.0, 1+1e-3, 1+3e-5], "factor")
            vox["data_geom"]["d"] = [f*d[0], d[1], d[2]/f**0.5]
            vox["data_geom"]["s"] = [a*b for a, b in zip(vox["data_geom"]["n"], vox["data_geom"]["d"])]
        elif how == "shift":
            vox["data_geom"]["c"] = [x+1e-2 for x in vox["data_geom"]["c"]]
        elif how == "freq":
            for val in prob["sweep_solver"].values():
                val["param"]["freq"] = ch.pick([2e4, 0.0, 5e5, val["param"]["freq"]*(1+1e-4)], "freq")
        elif how == "options":
            jobs = tol["parallel_sweep"]
            tol = gen.random_tolerance(ch)
            tol["parallel_sweep"] = jobs
            work.loose(ch, tol)
            op.args[2] = tol
        else:
            f = ch.pick([1.7, 1+1e-4], "factor")
            for val in prob["sweep_solver"].values():
                for mat in val["param"]["material_val"].values():
                    for k in mat:
                        mat[k] = _scale(mat[k], f)
    elif op.func in ("get_fft", "get_ifft", "get_matrix", "get_symmetry", "get_extract"):
        return util_op(ch, env)
    return op


def _scale(x, f):
    return [_scale(y, f) for y in x] if isinstance(x, list) else f*x


def _flip(name):
    """Flipped image."""
    import io
    import PIL.Image as pmg
    if not os.path.exists(name):
        return b""
    img = pmg.open(name).convert("RGBA").transpose(pmg.Transpose.FLIP_TOP_BOTTOM)
    out = io.BytesIO()
    img.save(out, format="png")
    return out.getvalue()


def corrupt(ch, op):
    """Damaged version of a call (it usually fails)."""
    op = clone(op, "damaged")
    if op.kind == "mesh":
        geo = op.args[0]
        how = ch.pick(["key", "domain", "type", "conflict"], "how")
        if how == "key":
            del geo[ch.pick([k for k in geo if k != "mesh_type"], "key")]
        elif how == "domain":
            geo["data_conflict"].update(resolve_rules=True, conflict_rules=[{"domain_resolve": ["dom_unknown"], "domain_keep": ["dom_unknown"]}])
        elif how == "type":
            geo["data_point"]["pts_cloud"] = [[0, 0, 0]]
        else:
            geo["data_integrity"]["domain_connected"]["x"] = {"connected": True, "domain_group": [["dom_unknown"]]}
    elif op.kind == "solve":
        (vox, prob, tol) = op.args
        how = ch.pick(["library", "domain", "param", "zero", "geom", "freq", "init", "inner"], "how")
        tag = list(prob["sweep_solver"])[-1]
        if how == "library":
            tol["fft_options"]["library"] = "xxx"
        elif how == "domain":
            next(iter(prob["source_def"].values()))["domain_list"] = ["dom_unknown"]
        elif how == "param":
            prob["sweep_solver"][tag]["param"]["source_val"].popitem()
        elif how == "zero":
            for val in prob["sweep_solver"][tag]["param"]["material_val"].values():
                for k in ("rho_re", "rho_im"):
                    if k in val and isinstance(val[k], float):
                        val[k] = 0.0
        elif how == "geom":
            del vox["data_geom"]["domain_def"][next(iter(vox["data_geom"]["domain_def"]))]
        elif how == "freq":
            prob["sweep_solver"][tag]["param"]["freq"] = float("nan")
        elif how == "init":
            prob["sweep_solver"][tag]["init"] = "unknown"
        else:
            tol["solver_options"]["direct_options"]["n_inner"] = 0
            tol["solver_options"]["segregated_options"]["iter_electric_options"]["n_inner"] = 0
    else:
        if op.func in ("get_time", "get_freq"):
            op.args[1] = "x"
        elif op.func.startswith("get_idx"):
            op.args[1] = np.array([[10**6]*3])
        elif op.func == "get_extract":
            op.args[1] = ["unknown"]
        elif op.func in ("get_matrix", "get_symmetry"):
            op.args[0]["n_winding"] += 1
        else:
            op.args[0] = None
    return op


def same(env, op, a, b):
    """Difference between two outcomes of the same call (None if they are the same)."""
    if a.ok != b.ok:
        return "%r instead of %r" % (b, a)
    if not a.ok:
        if type(a.exc) is not type(b.exc) and type(a.exc).__name__ != type(b.exc).__name__:
            return "%r instead of %r" % (b, a)
        return None
    if op.kind == "solve":
        if op.lazy is None:
            op.lazy = work.LazyRef(*op.args)
        return work.same_solution(env, op.lazy, a.value, b.value)
    return cmp.diff(a.value, b.value, rel=1e-12)


def fresh(env, op, seed):
    """Outcome of the call in a new process."""
    img = sim.new_image("fresh")
    with pristine(seed):
        if op.parallel():
            with pool.simulated(env, img):
                op.fresh = op.call(env, img, copy.deepcopy(op.args))
        else:
            op.fresh = op.call(env, img, copy.deepcopy(op.args))
    return op.fresh
