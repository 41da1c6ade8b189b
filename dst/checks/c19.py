"""C19: invalid definitions are rejected, before any work and without any trace."""

import contextlib
import copy
import os

import numpy as np

from .. import filecall, formats, gen, genplot, lin, ops, plotcall, pool, sim, simfs, simplot, work

ID = "C19"
LEVEL = "fault_enumeration"
RUNS = (1200, 24000)
RULE = ("A case is a history of valid and damaged calls of one stage (mesher, solver, viewer, plotter) in up to 2 simulated processes, with data, files, or the command line, serial or parallel sweeps, "
        "and a previous output file. A damage is one defect at a random place of a random valid input: a missing or misspelled field, a wrong type, a null, an unknown option, an empty or wrong-sized list, "
        "a value below the minimum, or an inconsistency (unknown names, invalid voxels, images and layers, sources outside of the conductors, conductors without source, missing or wrong-sized values of one "
        "sweep, unsolvable sweep order). The damaged calls must fail without any effect, and the valid calls must give the results of a new process. Nontrivial: a damaged call.")
REAL = ["pypeec mesher, solver, viewer, plotter with files and with data (complete)", "jsonschema, scisave, json, gzip, pickle, YAML", "SciPy, joblib, Pillow, Shapely, Rasterio, PyVista"]
STUB = ["joblib process pool", "PyVista rendering, Qt, Matplotlib windows", "clock", "optional FFT/factorization libraries"]
ASSUMPTIONS = ["the formats are the ones of docs/format", "additional fields are allowed", "one defect at a time"]
PROBES = ["mesher", "solver", "viewer", "plotter", "data", "file", "cli", "missing", "misspelled", "type", "null", "unknown", "short", "long", "below", "empty", "inconsistent", "parallel",
          "previous output", "valid call after a damaged call", "NumPy definition"]


class Case:
    """Valid call: named inputs, with their formats and inconsistencies."""

    def __init__(self, kind, inputs, nodes, options=None):
        self.kind = kind
        self.inputs = inputs
        self.nodes = nodes
        self.options = options or {}


# ---------------------------------------------------------------- inconsistencies

def _geometry(ch, geo, geom):
    """Inconsistent geometry: (label, geometry) or None."""
    geo = copy.deepcopy(geo)
    data = geo["data_voxelize"]
    kind = geo["mesh_type"]
    names = list(data.get("domain_index") or data.get("domain_color") or data.get("domain_stl") or data.get("geometry_shape"))
    how = ch.pick(["domain", "integrity", "point", "kind", "kind", "kind"], "how")
    if how == "point":
        # point inside of the structure
        used = [int(x) for v in geom["domain_def"].values() for x in v]
        if not used:
            return None
        pts = geo["data_point"]["pts_cloud"]
        pts.insert(ch.draw(len(pts)+1, "pos"), [float(x) for x in genplot.centers(geom["n"], geom["d"], geom["c"], [ch.pick(used, "vox")])[0]])
        geo["data_point"].update(check_cloud=True, full_cloud=True)
        return "point inside of the structure", geo
    unknown = ch.pick(["dom_unknown", names[0]+"_", names[0].swapcase()+"x"], "unknown")
    if how == "domain":
        rules = geo["data_conflict"]["conflict_rules"]
        geo["data_conflict"]["resolve_rules"] = True
        rule = {"domain_resolve": [ch.pick(names, "dom")], "domain_keep": [ch.pick(names, "dom")]}
        rule[ch.pick(["domain_resolve", "domain_keep"], "key")].insert(ch.draw(2, "pos"), unknown)
        rules.insert(ch.draw(len(rules)+1, "pos"), rule)
        return "unknown domain in a conflict rule", geo
    if how == "integrity":
        key = ch.pick(["domain_connected", "domain_adjacent"], "key")
        group = [[ch.pick(names, "dom")], [ch.pick(names, "dom")]]
        group[ch.draw(2, "grp")].insert(ch.draw(2, "pos"), unknown)
        geo["data_integrity"][key]["new_rule"] = {"domain_group": group, "connected": ch.flag(0.5, "connected")}
        return "unknown domain in an integrity rule", geo
    if kind == "voxel":
        nv = int(np.prod(data["param"]["n"]))
        tag = ch.pick(names, "dom")
        idx = list(data["domain_index"][tag])
        mode = ch.pick(["range", "duplicate", "overlap"], "mode")
        if mode == "range":
            idx.insert(ch.draw(len(idx)+1, "pos"), nv+ch.pick([0, 1, 100], "off"))
        elif mode == "duplicate":
            if not idx:
                return None
            idx.insert(ch.draw(len(idx)+1, "pos"), ch.pick(idx, "dup"))
        else:
            others = [x for k, v in data["domain_index"].items() if k != tag for x in v]
            if not others or (geo["data_conflict"]["resolve_rules"] and geo["data_conflict"]["conflict_rules"]):
                return None
            geo["data_conflict"]["resolve_random"] = False
            idx.append(ch.pick(others, "other"))
        data["domain_index"][tag] = idx
        return "voxel index: "+mode, geo
    if kind == "png":
        mode = ch.pick(["file", "size", "content"], "mode")
        lay = ch.pick(data["layer_stack"], "layer")
        if mode == "size":
            i = ch.draw(2, "axis")
            data["param"]["size"][i] += ch.pick([1, 3], "more")
            return "size of the images", geo
        i = ch.draw(len(lay["filename_list"]), "img")
        lay["filename_list"][i] = _file(ch, lay["filename_list"][i], mode)
        return "image file: "+mode, geo
    if kind == "stl":
        mode = ch.pick(["file", "content"], "mode")
        item = ch.pick([x for v in data["domain_stl"].values() for x in v], "item")
        item["filename"] = _file(ch, item["filename"], mode)
        return "mesh file: "+mode, geo
    lay = ch.pick(data["layer_stack"], "layer")
    data["layer_stack"].insert(ch.draw(len(data["layer_stack"])+1, "pos"), dict(lay))
    return "layer name used twice", geo


def _file(ch, name, mode):
    """Missing or damaged file."""
    if mode == "file":
        return name+"_missing"
    out = os.path.join(os.path.dirname(name), "broken"+os.path.splitext(name)[1])
    with simfs.REAL_OPEN(out, "wb") as fid:
        fid.write(ch.pick([b"", b"garbage", b"\x00"*200], "content"))
    return out


def _problem(ch, geom, prob):
    """Inconsistent problem: (label, problem) or None."""
    prob = copy.deepcopy(prob)
    (mat, src, sweep) = (prob["material_def"], prob["source_def"], prob["sweep_solver"])
    domain = {k: [int(x) for x in v] for k, v in geom["domain_def"].items()}
    how = ch.pick(["domain", "outside", "alone", "alone", "value", "value", "field", "length", "length", "init", "cycle", "nosource", "magnetic", "shared", "shared"], "how")
    tag = ch.pick(list(sweep), "sweep")
    param = sweep[tag]["param"]
    elec = {x for v in mat.values() if v["material_type"] != "magnetic" for d in v["domain_list"] for x in domain[d]}

    if how == "domain":
        item = ch.pick(list(mat.values())+list(src.values()), "item")["domain_list"]
        name = ch.pick(["dom_unknown", item[0]+"_", item[0].swapcase()+"x"], "unknown")
        item.insert(ch.draw(len(item)+1, "pos"), name)
        return "unknown domain", prob
    if how == "outside":
        other = [k for k, v in domain.items() if v and not set(v) & elec]
        if not other:
            return None
        ch.pick(list(src.values()), "src")["domain_list"].append(ch.pick(other, "dom"))
        for val in sweep.values():
            # the values have the right sizes
            for k, v in src.items():
                if v["var_type"] == "distributed":
                    num = sum(len(domain[x]) for x in v["domain_list"])
                    for a, b in val["param"]["source_val"][k].items():
                        val["param"]["source_val"][k][a] = (list(b)+[0.5]*num)[:num]
        return "source outside of the conductors", prob
    if how == "shared":
        # voxels with several materials or sources
        group = ch.pick(["material_val", "source_val"], "group")
        items = mat if group == "material_val" else src
        kinds = {"electric": {"c"}, "magnetic": {"m"}, "electromagnetic": {"c", "m"}}
        pairs = []
        for a, x in items.items():
            for b, y in items.items():
                if group == "source_val" or kinds[x["material_type"]] & kinds[y["material_type"]]:
                    pairs += [(a, d, b) for d in x["domain_list"] if domain[d]]
        pairs = [x for x in pairs if x[0] != x[2] or ch.flag(0.5, "same")]
        if not pairs:
            return None
        (a, d, b) = ch.pick(pairs, "pair")
        items[b]["domain_list"].insert(ch.draw(len(items[b]["domain_list"])+1, "pos"), d)
        num = sum(len(domain[x]) for x in items[b]["domain_list"])
        for val in sweep.values():
            # the values have the right sizes
            for k, x in val["param"][group][b].items():
                if isinstance(x, list):
                    val["param"][group][b][k] = (list(x)+list(x)+[copy.deepcopy(x[-1]) if x else 0.5]*num)[:num]
        return "several %s for a voxel" % ("materials" if group == "material_val" else "sources"), prob
    if how == "nosource":
        # without any voxel in the sources
        geom["domain_def"]["dom_none"] = []
        for k, v in src.items():
            v["domain_list"] = ["dom_none"]
            for val in sweep.values():
                val["param"]["source_val"][k] = {a: ([] if isinstance(b, list) else b) for a, b in val["param"]["source_val"][k].items()}
        return "no source", prob
    if how == "alone":
        # additional conductor, which is separated from the other ones
        (nx, ny, nz) = geom["n"]
        num = ch.int(1, min(3, nx), "n_alone")
        joined = ch.flag(0.4, "joined")
        geom["n"] = [nx, ny, nz+(3 if joined else 2)]
        geom["s"] = [a*b for a, b in zip(geom["n"], geom["d"])]
        new = [nx*ny*(nz+1)+i for i in range(num)]
        geom["domain_def"]["dom_alone"] = new
        graph = list(new)
        if joined:
            # with a magnetic body (which does not replace a source)
            yoke = [nx*ny*(nz+2)+i for i in range(ch.int(1, num, "n_yoke"))]
            graph = sorted(graph+yoke)
            geom["domain_def"]["dom_yoke"] = yoke
            mat["mat_yoke"] = {"domain_list": ["dom_yoke"], "material_type": "magnetic", "orientation_type": "isotropic", "var_type": "lumped"}
            for val in sweep.values():
                val["param"]["material_val"]["mat_yoke"] = {"chi_re": 10.0, "chi_im": 0.0}
        geom["graph_def"].insert(ch.draw(len(geom["graph_def"])+1, "pos"), graph)
        mat["mat_alone"] = {"domain_list": ["dom_alone"], "material_type": "electric", "orientation_type": "isotropic", "var_type": "lumped"}
        for val in sweep.values():
            val["param"]["material_val"]["mat_alone"] = {"rho_re": 1e-3, "rho_im": 0.0}
        return "conductor without source", prob
    if how == "magnetic":
        if not any(v["material_type"] == "magnetic" and any(domain[d] for d in v["domain_list"]) for v in mat.values()):
            return None
        for k in [k for k, v in mat.items() if v["material_type"] != "magnetic"]:
            del mat[k]
        return "no conductor", prob
    group = ch.pick(["material_val", "source_val"], "group")
    name = ch.pick(list(param[group]), "name")
    val = param[group][name]
    size = len([x for d in (mat if group == "material_val" else src)[name]["domain_list"] for x in domain[d]])
    var = (mat if group == "material_val" else src)[name]["var_type"]
    if how == "value":
        del param[group][name]
        return "missing values (%s)" % group, prob
    if how == "field":
        del val[ch.pick(list(val), "field")]
        return "missing value (%s)" % group, prob
    if how == "length":
        key = ch.pick(list(val), "field")
        x = val[key]
        if isinstance(x, list):
            mode = ch.pick(["short", "long", "inner"], "mode")
            x = list(x)
            if mode == "inner":
                if not (x and isinstance(x[0], list)):
                    return None
                i = ch.draw(len(x), "row")
                x[i] = x[i][:2]
                if len(x) > 1 and ch.flag(0.5, "all"):
                    x = [y[:2] for y in x]
            elif mode == "short":
                if not x:
                    return None
                x = x[:-1]
            else:
                x = x+[copy.deepcopy(x[-1])] if x else [0.5]
            val[key] = x
            return "size of the values (%s, %s)" % (group, mode), prob
        if size < 2 or var != "lumped":
            return None
        val[key] = [x]*(size+2)
        return "vector instead of a lumped value (%s)" % group, prob
    names = list(sweep)
    if how == "init":
        sweep[tag]["init"] = ch.pick(["unknown", tag+"_", tag], "init")
        return "unknown initial sweep", prob
    if len(names) < 2:
        return None
    ring = ch.perm(names, "ring")[:ch.int(2, len(names), "n_ring")]
    for a, b in zip(ring, ring[1:]+ring[:1]):
        sweep[a]["init"] = b
    return "cyclic sweeps", prob


def _plots(ch, spec):
    """Inconsistent plot definition."""
    if not spec:
        return None
    spec = copy.deepcopy(spec)
    item = spec[ch.pick(list(spec), "plot")]
    other = {"pyvista": "matplotlib", "matplotlib": "pyvista"}[item["framework"]]
    if ch.flag(0.5, "options"):
        # the options match the framework
        item["data_options"] = {"style": "default", "legend": "best", "font": 10} if other == "matplotlib" else genplot._view(ch)
    item["framework"] = other
    return "framework of the layout", spec


OPTIONS = [("plot_mode", "xxx"), ("plot_mode", ""), ("plot_mode", 1), ("folder", ""), ("folder", 2), ("name", ""), ("name", ["a"]),
           ("tag_plot", "abc"), ("tag_plot", [1]), ("tag_sweep", "abc"), ("tag_sweep", [None])]


# ---------------------------------------------------------------- inputs of other types

def as_numpy(ch, val):
    """Same definition with NumPy arrays and numbers."""
    if isinstance(val, dict):
        return {k: as_numpy(ch, v) for k, v in val.items()}
    if isinstance(val, list):
        if val and all(type(x) is float for x in val) and ch.flag(0.6, "array"):
            return np.array(val, dtype=np.float64)
        if val and all(type(x) is int for x in val) and ch.flag(0.6, "array"):
            return np.array(val, dtype=np.int64)
        if val and all(isinstance(x, list) and x and len(x) == len(val[0]) and all(type(y) is float for y in x) for x in val) and ch.flag(0.6, "array"):
            return np.array(val, dtype=np.float64)
        return [as_numpy(ch, x) for x in val]
    if type(val) is float and ch.flag(0.3, "scalar"):
        return np.float64(val)
    if type(val) is int and ch.flag(0.3, "scalar"):
        return np.int64(val)
    return val


# ---------------------------------------------------------------- run

def run(env):
    ch = env.ch
    gui = simplot.Gui(env)
    gui.script = lambda g: simplot.user_closes(ch, g)
    fs = simfs.FileSystem(env, env.scratch)
    with sim.simulation(env), simplot.desktop(env, gui):
        os.chdir(env.scratch)
        stage = ch.weighted([("mesher", 4), ("solver", 6), ("plot", 3)], "stage")
        procs = [sim.new_image("p%d" % i) for i in range(1 if stage == "plot" else ch.int(1, 2, "n_procs"))]
        {"mesher": _compute, "solver": _compute, "plot": _plot}[stage](env, ch, gui, fs, procs, stage)
        env.sample = "; ".join(x for x in env.events if x.startswith(("damaged", "valid", "out")))[:300]


class Watch:
    """Work done during a call."""

    def __init__(self, env, gui, fs, pl):
        self.env = env
        self.gui = gui
        self.fs = fs
        self.pool = pl
        self.calls = {}

    def handler(self, mod, name, real, args, kwargs):
        self.calls[name] = self.calls.get(name, 0)+1
        self.env.step()
        return real(*args, **kwargs)

    @contextlib.contextmanager
    def active(self):
        self.calls = {}
        self.fs.reset()
        self.first = len(self.gui.order)
        self.n_exec = self.gui.n_exec
        self.tasks = self.pool.n_tasks if self.pool is not None else 0
        with lin.handler(self.handler), self.fs.active():
            yield

    def work(self, allowed):
        """Work done by the last call."""
        if self.calls:
            return "numerical libraries: %s" % self.calls
        if self.pool is not None and self.pool.n_tasks != self.tasks:
            return "%d tasks" % (self.pool.n_tasks-self.tasks)
        if len(self.gui.order) != self.first or self.gui.n_exec != self.n_exec:
            return "windows"
        other = [x for x in self.fs.log if x[1] not in allowed]
        if other:
            return "files: %s" % other[:3]
        return None


def failed(env, out, how):
    """The call failed."""
    if how == "cli" and out.ok:
        return out.value != 0
    if not out.ok:
        env.check(isinstance(out.exc, Exception), "exception", lambda: "not an exception: %r" % out)
    return not out.ok


def _compute(env, ch, gui, fs, procs, kind):
    """Mesher and solver."""
    env.probe(kind)
    if kind == "mesher":
        op = ops.mesh_op(ch, env)
        for name, data in op.files.items():
            with open(name, "wb") as fid:
                fid.write(data)
        names = ["geometry"]
        nodes = {"geometry": formats.GEOMETRY}
    else:
        op = ops.solve_op(ch, env)
        names = ["voxel", "problem", "tolerance"]
        nodes = {"voxel": formats.VOXEL, "problem": formats.PROBLEM, "tolerance": formats.TOLERANCE}
    if (op.kind == "mesh") != (kind == "mesher"):
        env.event("not applicable")
        return
    ops.fresh(env, op, 100)
    if not op.fresh.ok:
        env.event("not applicable", op.fresh.kind())
        return
    inputs = dict(zip(names, op.args))
    output = os.path.join(env.scratch, "output"+ch.pick(filecall.DATA, "ext"))
    after = False
    for num in range(ch.int(2, 5, "n_steps")):
        img = ch.pick(procs, "proc")
        how = ch.pick(["data", "data", "file", "cli"], "how")
        env.probe(how)
        args = copy.deepcopy(inputs)
        bad = ch.flag(0.7, "bad")
        label = None
        early = False
        if bad:
            incons = ch.flag(0.5, "inconsistent")
            if incons:
                got = _geometry(ch, args["geometry"], op.fresh.value["data_geom"]) if kind == "mesher" else _problem(ch, args["voxel"]["data_geom"], args["problem"])
                if got is None:
                    continue
                label = got[0]
                args["geometry" if kind == "mesher" else "problem"] = got[1]
                env.fault("inconsistent", label)
                env.probe("inconsistent")
            else:
                key = names[0] if kind == "mesher" else ch.weighted([("problem", 4), ("tolerance", 5), ("voxel", 1)], "key")
                (label, args[key], what) = formats.damage(ch, nodes[key], args[key])
                label = key+": "+label
                env.fault(what, label)
                env.probe(what)
                early = True
            env.nontrivial = True
        elif how == "data" and ch.flag(0.5, "numpy"):
            env.probe("NumPy definition")
            for key in args:
                if key != "voxel":
                    args[key] = as_numpy(ch, args[key])
        env.event("damaged" if bad else "valid", num, how, label)

        # files
        allowed = set()
        if how != "data":
            for key in list(args):
                ext = ch.pick(filecall.DATA if key == "voxel" else filecall.CONFIG, "ext")
                name = os.path.join(env.scratch, key+ext)
                (filecall.write_data if key == "voxel" else filecall.write_config)(name, args[key])
                args[key] = name
                allowed.add(os.path.basename(name))
            prior = ch.pick(["none", "keep", "garbage"], "prior")
            if prior == "none" and os.path.exists(output):
                os.remove(output)
            elif prior == "garbage":
                with open(output, "wb") as fid:
                    fid.write(b"previous content")
            if os.path.exists(output):
                env.probe("previous output")
        before = simfs.snapshot(env.scratch)
        with pool.simulated(env, img) as pl:
            watch = Watch(env, gui, fs, pl)
            if how == "data":
                with img.active(), watch.active():
                    out = work.call(env, getattr(img.load("pypeec.main"), "run_%s_data" % kind), *args.values())
            else:
                stage = filecall.Stage(kind, list(args.values())+[output])
                out = stage.run(env, img, how, around=watch.active(), argv=stage.argv(ch) if how == "cli" else None)
            if pl.n_tasks:
                env.probe("parallel")
        env.event("out", out.kind(), out.value if how == "cli" else "")
        now = simfs.snapshot(env.scratch)
        diff = {k for k in set(before) | set(now) if before.get(k) != now.get(k)}
        if bad:
            env.check(failed(env, out, how), "accepted", lambda: "%s: the %s call succeeds" % (label, how))
            env.check(not diff, "trace", lambda: "%s: files changed: %s" % (label, sorted(diff)))
            if early:
                w = watch.work(allowed)
                env.check(w is None, "work", lambda: "%s: work before the rejection: %s" % (label, w))
            after = True
            continue
        env.check(not failed(env, out, how), "rejected", lambda: "valid %s call: %r" % (how, out))
        env.check(diff <= {os.path.basename(output)}, "trace", lambda: "valid call: files changed: %s" % sorted(diff))
        if how != "data":
            out = work.Outcome(value=filecall.read_data(output))
        d = ops.same(env, op, op.fresh, out)
        env.check(d is None, "result", lambda: "valid %s call: %s" % (how, d))
        if after:
            env.probe("valid call after a damaged call")


def _plot(env, ch, gui, fs, procs, kind):
    """Viewer and plotter."""
    src = plotcall.Source(ch, env, sim.new_image("source"))
    base = os.path.join(env.scratch, "plots")
    folder = os.path.join(base, "out")
    os.makedirs(folder)
    os.chdir(base)
    after = False
    for num in range(ch.int(2, 4, "n_steps")):
        img = ch.pick(procs, "proc")
        how = ch.pick(["data", "data", "file", "cli"], "how")
        call = plotcall.random_call(ch, src, folder, ["save", "qt", "nb", "debug", "save"], broken=False)
        if how == "cli":
            call.name = None
            call.tag_plot = call.tag_plot or None
            call.tag_sweep = call.tag_sweep or None
        env.probe(call.kind)
        env.probe(how)
        bad = ch.flag(0.7, "bad")
        label = None
        if bad:
            mode = ch.pick(["spec", "spec", "spec", "data", "option", "tag", "framework"], "mode")
            if mode == "spec":
                if not call.spec:
                    continue
                (label, call.spec, what) = formats.damage(ch, formats.VIEWER if call.kind == "viewer" else formats.PLOTTER, call.spec)
                env.fault(what, label)
                env.probe(what)
            elif mode == "data":
                (label, call.data, what) = formats.damage(ch, formats.VOXEL if call.kind == "viewer" else formats.SOLUTION, call.data)
                env.fault(what, label)
                env.probe(what)
            elif mode == "framework":
                got = _plots(ch, call.spec)
                if got is None:
                    continue
                (label, call.spec) = got
                env.fault("inconsistent", label)
                env.probe("inconsistent")
            else:
                if mode == "option":
                    (key, val) = ch.pick([x for x in OPTIONS if x[0] != "tag_sweep" or call.kind == "plotter"], "option")
                    how = "data" if how == "cli" else how
                else:
                    key = ch.pick(["tag_plot", "tag_sweep"], "tag") if call.kind == "plotter" else "tag_plot"
                    good = list(call.spec) if key == "tag_plot" else list(call.data["data_sweep"])
                    val = ch.perm(good, "good")[:2]
                    val.insert(ch.draw(len(val)+1, "pos"), ch.pick(["zz_unknown", "x"+(good or ["a"])[0]], "unknown"))
                label = "%s: %r" % (key, val)
                setattr(call, {"plot_mode": "mode"}.get(key, key), val)
                env.fault("unknown", key)
                env.probe("inconsistent")
            env.nontrivial = True
        env.event("damaged" if bad else "valid", num, call.kind, how, call.mode, label)
        allowed = set()
        if how != "data":
            call.files = (os.path.join(base, "data"+ch.pick([".pck", ".json", ".gz"], "ext")), os.path.join(base, "spec"+ch.pick(filecall.CONFIG, "ext")))
            filecall.write_data(call.files[0], call.data)
            filecall.write_config(call.files[1], call.spec)
            allowed = {os.path.basename(x) for x in call.files}
        before = simfs.snapshot(env.scratch)
        first = len(gui.order)
        watch = Watch(env, gui, fs, None)
        out = call.run(env, img, around=watch.active(), how=how)
        env.event("out", out.kind(), out.value if how == "cli" else "")
        now = simfs.snapshot(env.scratch)
        diff = {k for k in set(before) | set(now) if before.get(k) != now.get(k)}
        env.check(not gui.problems, "desktop", lambda: "; ".join(gui.problems))
        if bad:
            env.check(failed(env, out, how), "accepted", lambda: "%s: the %s call succeeds" % (label, how))
            env.check(not diff, "trace", lambda: "%s: files changed: %s" % (label, sorted(diff)))
            w = watch.work(allowed)
            env.check(w is None, "work", lambda: "%s: work before the rejection: %s" % (label, w))
            after = True
            continue
        env.check(not failed(env, out, how), "rejected", lambda: "valid %s call: %r" % (how, out))
        call.check_windows(env, gui, first)
        if after:
            env.probe("valid call after a damaged call")
