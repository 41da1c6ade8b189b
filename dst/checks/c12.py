"""C12: the file workflow is equivalent to the data workflow."""

import copy
import os
import re

import numpy as np
import yaml

from .. import cmp, filecall, gen, genmesh, genplot, lin, plotcall, sim, simfs, simplot, trace, work
from ..core import SimCrash

ID = "C12"
LEVEL = "exploration"
RUNS = (640, 16000)
RULE = ("A case is a history of stages (mesher, solver, viewer, plotter) of 1 to 3 workflows executed by up to 3 simulated processes through files (API or command line): random formats for every "
        "file, absolute or relative names, random working directories, repeated stages, changed inputs under the same file names, processes that are replaced or killed during a computation, clock jumps, "
        "legal short transfers, and stages of other workflows that run completely between two file operations of a stage. Every stored object and every displayed or saved plot is compared with the one "
        "of the data calls in a new process. Nontrivial: two stages, or a stage with changed inputs.")
REAL = ["pypeec mesher, solver, viewer, plotter with files and with data (complete)", "scisave, json, gzip, pickle, YAML", "real files behind the simulated operations"]
STUB = ["PyVista rendering, Qt, Matplotlib windows", "raw file operations (short transfers, interleaving of processes)", "clock"]
ASSUMPTIONS = ["a file is not modified while another process reads it", "JSON stores numbers with the precision of Python"]
PROBES = ["mesher", "solver", "viewer", "plotter", "repeated stage", "changed input", "other process", "relative names", "interleaved stage", "killed process", "several workflows", "shared folder", "cli", "file",
          "json data", "gzip data", "pickle data", "yaml configuration", "json configuration", "gzip configuration", "yaml path", "rejected in both cases", "other stage from the same file", "saved plots", "windows", "coarse file times"]

KINDS = {".json": "json", ".js": "json", ".gz": "gzip", ".gzip": "gzip", ".pck": "pickle", ".pkl": "pickle", ".pickle": "pickle", ".yaml": "yaml", ".yml": "yaml"}


class Flow:
    """Workflow with its files, and the expected objects (from the data calls)."""

    def __init__(self, env, ch, num, shared):
        self.env = env
        self.num = num
        self.folder = os.path.join(env.scratch, "flow%d" % (0 if shared else num))
        self.prefix = "w%d_" % num if shared else ""
        os.makedirs(self.folder, exist_ok=True)
        self.version = 0
        self.files = {}
        self.done = {}
        self.cache = {}
        self.small(ch)

    def small(self, ch):
        """Random geometry and problem."""
        self.prob = None
        if ch.flag(0.3, "allkinds"):
            (self.geo, spec) = genmesh.random_geometry(ch, self.env)
            self.geo["data_conflict"]["resolve_random"] = True
            self.move()
        else:
            (self.geo, self.prob, meta) = gen.random_case(ch, max_voxel=12, max_elec=7, n_sweep=ch.pick([1, 2, 3], "n_sweep"))
        self.tol = gen.tolerance()
        self.tol["solver_options"]["coupling"] = ch.pick(["direct", "segregated"], "coupling")

    def move(self):
        """The images and meshes belong to the workflow."""
        def fct(x):
            name = os.path.join(self.folder, self.prefix+os.path.basename(x))
            if os.path.exists(x):
                os.replace(x, name)
            return name
        data = self.geo["data_voxelize"]
        if self.geo["mesh_type"] == "png":
            names = {}
            for lay in data["layer_stack"]:
                for x in lay["filename_list"]:
                    names[x] = fct(x) if x not in names else names[x]
                lay["filename_list"] = [names[x] for x in lay["filename_list"]]
        elif self.geo["mesh_type"] == "stl":
            for v in data["domain_stl"].values():
                for x in v:
                    x["filename"] = fct(x["filename"])

    def change(self, ch):
        """Other input under the same file names."""
        what = ch.pick(["geometry", "problem", "tolerance"], "what")
        if what == "geometry" or self.prob is None:
            self.geo = copy.deepcopy(self.geo)
            d = self.geo["data_resampling"]
            if self.geo["mesh_type"] in ("voxel", "png") and ch.flag(0.6, "scale"):
                # result of the same size
                size = self.geo["data_voxelize"]["param"]["d"]
                size[ch.draw(3, "axis")] *= 1.37
                self.cache = {}
                return "scale"
            d["use_resample"] = not d["use_resample"]
            d["resampling_factor"] = [1, 2, 1] if d["use_resample"] else [1, 1, 1]
            what = "geometry"
        elif what == "problem":
            self.prob = copy.deepcopy(self.prob)
            sweep = self.prob["sweep_solver"]
            tag = ch.pick(sorted(sweep), "tag")
            sweep[tag]["param"]["freq"] = ch.pick([2.0e3, 0.0, 5.0e5], "freq")
        else:
            self.tol = copy.deepcopy(self.tol)
            self.tol["solver_options"]["tolerance_options"]["rel_tol"] *= 0.5
        self.cache = {}
        return what

    # data calls in a new process
    def voxel(self):
        if "voxel" not in self.cache:
            state = np.random.get_state()
            np.random.seed(7)
            self.cache["voxel"] = work.mesh(self.env, sim.new_image("reference"), copy.deepcopy(self.geo))
            np.random.set_state(state)
        return self.cache["voxel"]

    def solution(self, vox):
        """Solution for the voxel structure of a file (which can be older than the geometry)."""
        key = (cmp.digest(vox), cmp.digest(self.prob), cmp.digest(self.tol))
        if key not in self.cache:
            state = np.random.get_state()
            np.random.seed(7)
            self.cache[key] = work.solve(self.env, sim.new_image("reference"), copy.deepcopy(vox), copy.deepcopy(self.prob), copy.deepcopy(self.tol))
            np.random.set_state(state)
        return self.cache[key]


def write_yaml_path(name, obj, folder):
    """YAML file with names relative to the location of the file."""
    def walk(x):
        if isinstance(x, dict):
            return {k: walk(v) for k, v in x.items()}
        if isinstance(x, list):
            return [walk(v) for v in x]
        if isinstance(x, str) and x.startswith(folder+os.sep):
            return "@@PATH@@"+os.path.relpath(x, os.path.dirname(name))
        return x
    txt = yaml.safe_dump(walk(obj), sort_keys=False, width=10**6)
    (txt, num) = re.subn(r"['\"]?@@PATH@@([^'\"\n]*)['\"]?", r"!path '\1'", txt)
    with simfs.REAL_OPEN(name, "wb") as fid:
        fid.write(txt.encode())
    return num


def run(env):
    ch = env.ch
    gui = simplot.Gui(env)
    gui.script = lambda g: simplot.user_closes(ch, g)
    fs = simfs.FileSystem(env, env.scratch)
    with sim.simulation(env), simplot.desktop(env, gui):
        os.chdir(env.scratch)
        shared = ch.flag(0.4, "shared")
        flows = [Flow(env, ch, i, shared) for i in range(ch.pick([1, 2, 3], "n_flows"))]
        if len(flows) > 1:
            env.probe("several workflows")
            if shared:
                env.probe("shared folder")
        procs = [sim.new_image("p%d" % i) for i in range(ch.int(1, 3, "n_procs"))]
        os.mkdir(os.path.join(env.scratch, "work"))
        for flow in flows:
            _inputs(env, ch, flow)
        if flows[0].prob is not None and ch.flag(0.35, "again"):
            # complete workflow, executed again with other inputs
            part = [x for x in ("mesher", "viewer", "solver", "plotter") if x in ("mesher", "solver") or ch.flag(0.5, "plots")]
            forced = [(x, i > 0 and x == "mesher") for i in range(2) for x in part]
        else:
            forced = [(None, None)]*ch.int(2, 7, "n_steps")
        coarse = ch.flag(0.5, "coarse-times")
        if coarse:
            env.probe("coarse file times")
        for num, item in enumerate(forced):
            _step(env, ch, gui, fs, flows, procs, num, *item, stamp=coarse)
        env.sample = "; ".join(x for x in env.events if x.startswith("stage"))[:300]


def _inputs(env, ch, flow):
    """Names and formats of the files of a workflow."""
    for key in ("geometry", "problem", "tolerance"):
        flow.files[key] = os.path.join(flow.folder, flow.prefix+key+ch.pick(filecall.CONFIG, "cfg"))
    for key in ("voxel", "solution"):
        flow.files[key] = os.path.join(flow.folder, flow.prefix+key+ch.pick(filecall.DATA, "ext"))
    _write(env, ch, flow)


def _write(env, ch, flow):
    for key, obj in (("geometry", flow.geo), ("problem", flow.prob), ("tolerance", flow.tol)):
        name = flow.files[key]
        kind = KINDS[os.path.splitext(name)[1]]
        env.probe(kind+" configuration")
        if key == "geometry" and kind == "yaml" and flow.geo["mesh_type"] in ("png", "stl"):
            if write_yaml_path(name, obj, flow.folder):
                env.probe("yaml path")
        else:
            filecall.write_config(name, obj)


def _stamp(env):
    """All the files have the same time (file system with a coarse resolution, adjusted clock)."""
    for (folder, _, names) in os.walk(env.scratch):
        for name in names:
            os.utime(os.path.join(folder, name), (1.6e9, 1.6e9))


def _step(env, ch, gui, fs, flows, procs, num, forced=None, change=None, stamp=False):
    flow = ch.pick(flows, "flow") if forced is None else flows[0]
    stages = [("mesher", 3)]
    if "voxel" in flow.done:
        stages += [("viewer", 2)]+([("solver", 4)] if flow.prob is not None else [])
    if "solution" in flow.done:
        stages += [("plotter", 4)]
    kind = ch.weighted(stages, "stage") if forced is None or forced not in dict(stages) else forced

    # changed inputs, moved results, new processes
    if (num and ch.flag(0.2, "change")) if change is None else change:
        what = flow.change(ch)
        _write(env, ch, flow)
        env.probe("changed input")
        env.event("change", flow.num, what)
        env.nontrivial = True
    if stamp:
        _stamp(env)
    if flow.done and ch.flag(0.15, "format"):
        # the next results are stored with another format
        key = ch.pick(["voxel", "solution"], "key")
        if key not in flow.done:
            flow.files[key] = os.path.join(flow.folder, flow.prefix+key+ch.pick(filecall.DATA, "ext"))
    if ch.flag(0.15 if forced is None else 0.05, "restart"):
        procs[ch.draw(len(procs), "which")] = sim.new_image("new%d" % num)
    if ch.flag(0.2, "jump"):
        env.clock.wall += ch.pick([-1e6, 3600.0, 1e8], "dt")
    idx = ch.draw(len(procs), "proc") if forced is None or ch.flag(0.1, "move") else 0
    if idx:
        env.probe("other process")
    kill = kind in ("mesher", "solver") and ch.flag(0.12, "kill")
    nested = None
    if len(flows) > 1 and not kill and ch.flag(0.35, "nested"):
        other = ch.pick([x for x in flows if x is not flow], "other")
        at = int(10**(ch.int(0, 150, "at")/100.0))-1
        nested = (other, at)
    fs.reset()
    fs.buffer = ch.pick([8192, 512, 64], "buffer")
    short = ch.draw(10**6, "shorts") if ch.flag(0.3, "short") else None
    state = {"n": 0, "rng": short, "busy": False}

    def plan(op, path, size, n):
        if state["busy"]:
            return None
        state["n"] += 1
        if nested is not None and state["n"] == nested[1]+1:
            # another process executes a complete stage here
            state["busy"] = True
            rnd = np.random.get_state()
            cwd = os.getcwd()
            env.probe("interleaved stage")
            env.event("interleaved", op, os.path.basename(path))
            try:
                _compute(env, ch, fs, nested[0], "solver" if "voxel" in nested[0].done and nested[0].prob is not None and ch.flag(0.6, "so") else "mesher", sim.new_image("nested"), "")
            finally:
                state["busy"] = False
                np.random.set_state(rnd)
                os.chdir(cwd)
        if state["rng"] is not None and op in ("read", "write") and size > 1:
            state["rng"] = (state["rng"]*1103515245+12345) % (1 << 31)
            if (state["rng"] >> 8) % 4 == 0:
                return ("short", (state["rng"] >> 8) % size)
        return None
    fs.plan = plan
    key = (kind, flow.num)
    if key in flow.cache.get("seen", ()):
        env.probe("repeated stage")
    flow.cache.setdefault("seen", set()).add(key)
    if num:
        env.nontrivial = True
    if kind in ("mesher", "solver"):
        if not _compute(env, ch, fs, flow, kind, procs[idx], num, kill, [] if nested is None else outputs(nested[0])):
            procs[idx] = sim.new_image("restarted%d" % num)
    else:
        _plot(env, ch, gui, fs, flow, kind, procs[idx], num, [] if nested is None else outputs(nested[0]))
    fs.plan = None
    if stamp:
        _stamp(env)


def _place(env, ch, files):
    """Working directory, and names of the files."""
    cwd = ch.pick([env.scratch, os.path.join(env.scratch, "work"), os.path.join(env.scratch, "flow0")], "cwd")
    os.chdir(cwd)
    if ch.flag(0.4, "relative"):
        env.probe("relative names")
        return [os.path.relpath(x, cwd) for x in files]
    return list(files)


def outputs(flow):
    """Files that are written by the stages of a workflow."""
    return [os.path.basename(flow.files[k]) for k in ("voxel", "solution")]


def _compute(env, ch, fs, flow, kind, img, num, kill=False, ignored=()):
    """Mesher or solver with files, compared with the data call (False if the process died)."""
    keys = ["geometry", "voxel"] if kind == "mesher" else ["voxel", "problem", "tolerance", "solution"]
    files = [flow.files[k] for k in keys]
    expected = flow.voxel() if kind == "mesher" else flow.solution(flow.done["voxel"])
    stage = filecall.Stage(kind, _place(env, ch, files))
    how = ch.pick(["file", "cli"], "how")
    argv = stage.argv(ch) if how == "cli" else None
    env.probe(kind)
    env.probe(how)
    before = simfs.snapshot(flow.folder)
    env.event("stage", num, flow.num, kind, how, [os.path.splitext(x)[1] for x in files], expected.kind())
    around = None
    if kill:
        def make():
            env.fault("killed process", kind)
            env.probe("killed process")
            fs.dead = True
            return SimCrash("the process is killed")
        around = trace.Lines(target=int(10**(ch.int(0, 350, "line")/100.0)), make=make, only=("lib_mesher", "lib_solver", "lib_matrix", "lib_check"))
    np.random.seed(7)
    with fs.active():
        state = sim.process_state()
        out = stage.run(env, img, how=how, around=None if around is None else around.active(), argv=argv)
        diff = sim.same_process_state(state, sim.process_state())
    os.chdir(env.scratch)
    env.check(diff is None or fs.dead, "process-state", lambda: "%s (%s): %s" % (kind, out.kind(), diff))
    now = simfs.snapshot(flow.folder)
    name = os.path.basename(files[-1])
    for x in set(before) | set(now):
        if x != name and x not in ignored:
            env.check(before.get(x) == now.get(x), "modified", lambda: "%s: the file %s is created, modified, or removed" % (kind, x))
    if around is not None and around.fired:
        env.check(not out.ok, "killed", "the process survived")
        env.check(before.get(name) == now.get(name), "modified", lambda: "%s: the output is changed by a killed process" % kind)
        fs.dead = False
        return False
    success = out.ok and (how == "file" or out.value == 0)
    if not expected.ok:
        env.probe("rejected in both cases")
        env.check(not success, "accepted", lambda: "%s: the data call is rejected (%r), but the file call is accepted" % (kind, expected))
        env.check(how == "cli" or type(out.exc).__name__ == type(expected.exc).__name__, "accepted", lambda: "%s: %r instead of %r" % (kind, out, expected))
        return True
    env.check(success, "rejected", lambda: "%s: the data call is accepted, but the file call is rejected: %r" % (kind, out))
    d = filecall.stored(files[-1], expected.value)
    env.check(d is None, "stored", lambda: "%s: %s" % (kind, d))
    fmt = KINDS[os.path.splitext(files[-1])[1]]
    env.probe(fmt+" data")
    got = filecall.read_data(files[-1])
    if fmt == "pickle":
        d = cmp.diff(expected.value, got, rel=0.0, exact_type=True)
        env.check(d is None, "stored", lambda: "%s: %s" % (kind, d))
    env.check(list(got) == list(expected.value), "stored", lambda: "%s: keys %s" % (kind, list(got)))
    flow.done[keys[-1]] = expected.value
    if kind == "mesher":
        # the solution belongs to the previous structure, it remains valid
        env.probe("other stage from the same file")
    return True


def _plot(env, ch, gui, fs, flow, kind, img, num, ignored=()):
    """Viewer or plotter with files, compared with the data call."""
    src = type("Source", (), {"vox": flow.done["voxel"], "sol": flow.done.get("solution")})()
    folder = os.path.join(flow.folder, "plots")
    os.makedirs(folder, exist_ok=True)
    call = plotcall.random_call(ch, src, ch.pick([folder, "."], "where"), ["debug", "save", "qt", "nb"], kind=kind, broken=False)
    data = flow.files["voxel" if kind == "viewer" else "solution"]
    spec = os.path.join(flow.folder, "spec"+ch.pick(filecall.CONFIG, "cfg"))
    filecall.write_config(spec, call.spec)
    os.utime(spec, (1.6e9, 1.6e9))
    how = ch.pick(["file", "cli"], "how")
    if how == "cli":
        call.name = None
        call.tag_plot = call.tag_plot or None
        call.tag_sweep = call.tag_sweep or None
    stage = filecall.Stage(kind, _place(env, ch, [data, spec]), **call.kwargs())
    argv = stage.argv(ch) if how == "cli" else None
    env.probe(kind)
    env.probe(how)
    env.event("stage", num, flow.num, kind, how, call.mode, os.path.splitext(data)[1], os.path.splitext(spec)[1], call.tag_sweep, call.tag_plot)
    before = simfs.snapshot(flow.folder)

    def close():
        for view in gui.views:
            view.closed = True
        import matplotlib.pyplot
        matplotlib.pyplot.close("all")
    first = len(gui.order)
    target = os.path.realpath(call.folder or os.getcwd())
    for tag, _, _ in call.plots():
        name = os.path.realpath(call.filename(tag))
        if os.path.exists(name):
            os.remove(name)
            before.pop(os.path.relpath(name, os.path.realpath(flow.folder)), None)
    # the data call in a new process, on the same desktop
    out_data = call.run(env, sim.new_image("reference"))
    ref = gui.order[first:]
    close()
    saved = {}
    names = [os.path.realpath(call.filename(tag)) for tag, _, _ in call.plots()]
    for name in names:
        saved[name] = os.path.exists(name)
        if saved[name]:
            os.remove(name)
    second = len(gui.order)
    with fs.active():
        out = stage.run(env, img, how=how, argv=argv)
    close()
    success = out.ok and (how == "file" or out.value == 0)
    env.check(out_data.ok == success, "outcome", lambda: "%s: data %r, files %r" % (kind, out_data, out))
    if not success:
        env.probe("rejected in both cases")
        os.chdir(env.scratch)
        return
    got = gui.order[second:]
    env.check(len(got) == len(ref), "windows", lambda: "%s: %d windows instead of %d" % (kind, len(got), len(ref)))
    call.check_windows(env, gui, second)
    for a, b in zip(ref, got):
        env.check(type(a) is type(b), "windows", "other framework")
        d = cmp.diff(a.displayed, b.displayed, rel=0.0)
        env.check(d is None, "windows", lambda: "%s: %s" % (kind, d))
        env.probe("windows")
    for name in names:
        env.check(os.path.exists(name) == saved[name], "saved", lambda: "the image %s is saved by one of the calls only" % os.path.basename(name))
        if saved[name]:
            env.probe("saved plots")
            os.remove(name)
    os.chdir(env.scratch)
    now = simfs.snapshot(flow.folder)
    env.check(not (set(now) ^ set(before))-set(ignored), "files", lambda: "other files: %s" % sorted(set(now) ^ set(before)))
    for x in before:
        env.check(x in ignored or now[x] == before[x], "modified", lambda: "%s: the file %s is modified" % (kind, x))
