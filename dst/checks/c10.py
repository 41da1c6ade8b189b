"""C10: a crash never leaves a file that passes for a finished result."""

import copy
import os

import numpy as np

from .. import filecall, gen, genmesh, genplot, lin, ops, sim, simfs, simplot, trace, work
from ..core import SimCrash

ID = "C10"
LEVEL = "fault_enumeration"
RUNS = (420, 14000)
RULE = ("A case is one mesher or solver file call in a simulated process with a random format, buffer size, and previous content of the output file, and one fault. Before the "
        "output: damaged inputs, failing reads, exceptions, interrupts, and process death in the numerical libraries or at a random executed line of the computation; the "
        "directory must remain unchanged. During the output: process death or an I/O error at a random file operation and byte (torn and short writes); the next stage runs in a new "
        "process and has to fail unless the output is the complete new (or the untouched previous) file. The call is repeated afterwards. Nontrivial: a fault fired.")
REAL = ["pypeec mesher, solver, viewer, plotter with files (complete)", "scisave, json, gzip, pickle, YAML", "real files in a scratch directory behind the simulated operations"]
STUB = ["raw file operations (errors, short and torn writes, process death)", "PyVista rendering", "clock"]
ASSUMPTIONS = ["data given to the operating system survives the death of the process (no power loss)", "single writer for an output file"]
PROBES = ["crash before the output", "crash while writing", "error while writing", "failure before the output", "torn write", "crash after the last byte", "crash at open",
          "previous complete result", "previous garbage", "no previous file", "next stage failed", "next stage used the complete result", "mesher", "solver",
          "json", "gzip", "pickle", "short transfers", "interrupted computation", "image or mesh file input", "previous file untouched"]

FORMAT = {".json": "json", ".js": "json", ".gz": "gzip", ".gzip": "gzip", ".pck": "pickle", ".pkl": "pickle", ".pickle": "pickle"}
COMPUTE = ("lib_mesher", "lib_solver", "lib_matrix", "lib_check")


def run(env):
    ch = env.ch
    gui = simplot.Gui(env)
    fs = simfs.FileSystem(env, env.scratch)
    with sim.simulation(env), simplot.desktop(env, gui):
        os.chdir(env.scratch)
        _case(env, ch, fs)


def _case(env, ch, fs):
    kind = ch.weighted([("mesher", 5), ("solver", 4)], "kind")
    env.probe(kind)
    ext = ch.pick(filecall.DATA, "ext")
    env.probe(FORMAT[ext])
    fs.buffer = ch.pick([8192, 512, 64, 65536, 1], "buffer")
    path = lambda name: os.path.join(env.scratch, name)

    # problem
    other = None
    prob = None
    if kind == "mesher" and ch.flag(0.5, "allkinds"):
        (geo, spec) = genmesh.random_geometry(ch, env)
        geo["data_conflict"]["resolve_random"] = True
        if geo["mesh_type"] in ("png", "stl"):
            env.probe("image or mesh file input")
    else:
        (geo, prob, meta) = gen.random_case(ch, max_voxel=14, max_elec=7, n_sweep=ch.pick([1, 2], "n_sweep"))
    tol = gen.tolerance()
    ref_img = sim.new_image("reference")

    def compute(geo, prob, seed=7):
        np.random.seed(seed)
        out = work.mesh(env, ref_img, copy.deepcopy(geo))
        if not out.ok or kind == "mesher":
            return out, out
        return out, work.solve(env, ref_img, copy.deepcopy(out.value), copy.deepcopy(prob), copy.deepcopy(tol))
    (vox, expected) = compute(geo, prob)
    if not expected.ok:
        env.event("not applicable", expected.kind())
        return
    cfg = lambda: ch.pick(filecall.CONFIG, "cfg")
    out_name = path("output"+ext)
    if kind == "mesher":
        stage = filecall.Stage("mesher", [path("geometry"+cfg()), out_name])
        filecall.write_config(stage.files[0], geo)
        config = [stage.files[0]]
    else:
        stage = filecall.Stage("solver", [path("voxel"+ch.pick(filecall.DATA, "ext")), path("problem"+cfg()), path("tol"+cfg()), out_name])
        filecall.write_data(stage.files[0], vox.value)
        filecall.write_config(stage.files[1], prob)
        filecall.write_config(stage.files[2], tol)
        config = stage.files[:3]

    # previous content of the output
    prior = ch.pick([None, "complete", "garbage", "long"], "prior")
    old = None
    if prior == "complete":
        env.probe("previous complete result")
        old = copy.deepcopy(expected.value)
        part = old["data_geom"] if "data_geom" in old else old["data_init"]
        part["c"] = [x+1.0 for x in part["c"]]
        old["seconds"] = 1.25
        old = filecall.data_bytes(ext, old)
    elif prior is not None:
        env.probe("previous garbage")
        old = b"garbage "*(3 if prior == "garbage" else 20000)
    else:
        env.probe("no previous file")

    def restore():
        if old is None:
            if os.path.exists(out_name):
                os.remove(out_name)
        else:
            with simfs.REAL_OPEN(out_name, "wb") as fid:
                fid.write(old)
    restore()
    base = simfs.snapshot(env.scratch)
    how = ch.pick(["file", "cli"], "how")
    phase = ch.pick(["writing", "before", "writing"], "phase")
    env.event("case", kind, ext, how, phase, prior, fs.buffer)

    def call(name, around=None):
        img = sim.new_image(name)
        np.random.seed(7)
        with fs.active():
            return stage.run(env, img, how=how, around=around)

    def failed(out):
        return (not out.ok) or (how == "cli" and out.value != 0)

    def unchanged(what, allow=()):
        now = simfs.snapshot(env.scratch)
        for name in sorted(set(base) | set(now)):
            if name in allow:
                continue
            env.check(name in now, "removed", lambda: "%s: the file %s was removed" % (what, name))
            env.check(name in base, "new-file", lambda: "%s: the file %s appeared" % (what, name))
            env.check(base[name] == now[name], "modified", lambda: "%s: the file %s was modified" % (what, name))

    def rerun(what):
        """Without any fault, the call gives the complete result."""
        fs.reset()
        out = call("rerun")
        env.check(not failed(out), "rerun", lambda: "%s: the repeated call failed (%r)" % (what, out))
        d = filecall.stored(out_name, expected.value)
        env.check(d is None, "rerun", lambda: "%s: output of the repeated call: %s" % (what, d))
        now = simfs.snapshot(env.scratch)
        for name in base:
            if name != os.path.basename(out_name):
                env.check(now.get(name) == base[name], "modified", lambda: "%s: the file %s was modified" % (what, name))

    if phase == "before":
        fault = ch.weighted([("line", 6), ("library", 4), ("input", 4), ("read", 3)], "fault")
        around = None
        undo = None
        handler = None
        if fault == "line":
            target = int(10**(ch.int(0, 400, "line")/100.0))
            what = ch.pick(["MemoryError", "KeyboardInterrupt", "crash", "exception"], "what")
            exc = work.exception(ch)

            def make():
                env.fault("%s at a line" % what)
                env.probe("interrupted computation")
                return _exception(env, fs, what, exc)
            around = trace.Lines(target=target, make=make, only=COMPUTE)
        elif fault == "library":
            what = ch.pick(["exception", "KeyboardInterrupt", "crash", "MemoryError"], "what")
            exc = work.exception(ch)
            handler = Library(env, fs, ch.draw(ch.pick([4, 30], "span"), "at"), what, exc)
        elif fault == "input":
            what = damage(env, ch, stage, config, geo, prob)
            undo = True
        else:
            what = "EIO"
            at = ch.draw(6, "at")
            point = ch.pick(["read", "open"], "point")
            fs.plan = lambda op, p, size, num: ("EIO", 0) if op == point and num == at and p in [os.path.realpath(x) for x in config] else None
        if undo:
            base = simfs.snapshot(env.scratch)
        if handler is not None:
            with lin.handler(handler):
                out = call("victim")
        else:
            out = call("victim", around.active() if around is not None else None)
        fired = {"line": around is not None and around.fired, "library": handler is not None and handler.fired, "input": True, "read": bool(fs.fired)}[fault]
        env.event("out", out.kind(), fault, what, fired)
        if fired or failed(out):
            env.check(failed(out) or fault != "input", "accepted", lambda: "%s: the call did not fail" % what)
        if failed(out):
            env.probe("crash before the output" if isinstance(out.exc, SimCrash) else "failure before the output")
            unchanged("%s (%s)" % (what, out.kind()))
            env.probe("previous file untouched")
        else:
            d = filecall.stored(out_name, expected.value)
            env.check(d is None, "incomplete", lambda: "the call succeeded (%s), output: %s" % (what, d))
        if not undo:
            restore()
            rerun("after %s" % what)
        return

    # complete call, in order to know the file operations
    out = call("first")
    env.check(not failed(out), "fault-free", lambda: "the call failed without any fault: %r" % out)
    d = filecall.stored(out_name, expected.value)
    env.check(d is None, "incomplete", lambda: "output of the call: %s" % d)
    unchanged("fault-free call", allow=[os.path.basename(out_name)])
    steps = [(op, size) for (op, name, size) in fs.log if op in ("open_write", "write", "close", "rename", "remove", "fsync")]
    if not steps:
        env.event("no file operation")
        return
    restore()

    # fault at an operation of the output
    mode = ch.pick(["crash", "crash", "ENOSPC", "EIO"], "mode")
    at = ch.draw(len(steps), "at")
    frac = ch.draw(1001, "frac")
    (op_at, size_at) = steps[at]
    size = {0: 0, 1000: size_at}.get(frac, frac*size_at//1000) if op_at == "write" else (1 if frac > 300 else 0)
    if op_at == "write" and ch.flag(0.2, "tail"):
        # close to the end of the data
        size = max(0, size_at-ch.draw(4, "last"))
    if mode != "crash" and op_at == "write":
        size = min(size, max(0, size_at-1))
    short = ch.flag(0.3, "short")
    fs.reset()
    state = {"n": 0, "rng": ch.draw(1000, "shorts")}

    def plan(op, p, nbytes, num):
        if op in ("open_write", "write", "close", "rename", "remove", "fsync"):
            k = state["n"]
            if k == at:
                state["n"] += 1
                return (mode, size)
            if short and op == "write" and nbytes > 1:
                # the rest is written with the next operation (not counted)
                state["rng"] = (state["rng"]*1103515245+12345) % (1 << 31)
                if state["rng"] % 3 == 0:
                    env.probe("short transfers")
                    return ("short", state["rng"] % nbytes)
            state["n"] += 1
        elif short and op == "read" and nbytes > 1:
            state["rng"] = (state["rng"]*1103515245+12345) % (1 << 31)
            if state["rng"] % 3 == 0:
                return ("short", state["rng"] % nbytes)
        return None
    fs.plan = plan
    out = call("victim")
    fired = [x for x in fs.fired if x[1] != "short"]
    env.event("out", out.kind(), mode, op_at, at, len(steps), size, fired)
    if not fired:
        env.check(not failed(out), "fault-free", lambda: "the call failed: %r" % out)
        return
    env.check(failed(out), "swallowed", lambda: "%s at %s was ignored" % (mode, op_at))
    if mode == "crash":
        env.probe("crash while writing")
        if op_at == "write" and 0 < size < size_at:
            env.probe("torn write")
        if op_at == "close" or (op_at == "write" and size == size_at):
            env.probe("crash after the last byte")
        if op_at == "open_write":
            env.probe("crash at open")
    else:
        env.probe("error while writing")
    now = simfs.snapshot(env.scratch)
    for name in base:
        if name != os.path.basename(out_name):
            env.check(now.get(name) == base[name], "modified", lambda: "the file %s was modified" % name)

    # next stage in a new process
    fs.reset()
    content = now.get(os.path.basename(out_name))
    d = filecall.stored(out_name, expected.value)
    if content is not None and content == old and d is not None:
        env.probe("previous file untouched")
        env.event("previous file untouched")
    else:
        _next(env, ch, fs, stage, out_name, vox.value, prob, tol, d)
    rerun("after %s at %s" % (mode, op_at))


def _next(env, ch, fs, stage, out_name, vox, prob, tol, d):
    """The next stage works with the complete result, or fails."""
    path = lambda name: os.path.join(env.scratch, name)
    result = None
    if stage.kind == "mesher" and prob is not None and ch.flag(0.6, "next"):
        files = [out_name, path("next_problem.json"), path("next_tol.json"), path("next_solution.pck")]
        filecall.write_config(files[1], prob)
        filecall.write_config(files[2], tol)
        nxt = filecall.Stage("solver", files)
        result = files[3]
    elif stage.kind == "mesher":
        files = [out_name, path("next_viewer.json")]
        filecall.write_config(files[1], genplot.random_viewer(ch, n=1))
        nxt = filecall.Stage("viewer", files, plot_mode="debug")
    else:
        files = [out_name, path("next_plotter.json")]
        spec = {"conv": {
            "framework": "matplotlib", "layout": "convergence", "title": "x",
            "data_window": {"show_menu": False, "image_size": None, "window_size": None, "notebook_size": None},
            "data_options": {"style": "default", "legend": "best", "font": 10},
            "data_plot": {"color_active": "red", "color_reactive": "blue", "marker": 2.0, "width": 1.0}}}
        filecall.write_config(files[1], spec)
        nxt = filecall.Stage("plotter", files, plot_mode="debug")
    img = sim.new_image("next")
    with fs.active():
        out = nxt.run(env, img)
    env.event("next", nxt.kind, out.kind(), d is None)
    if d is None:
        env.probe("next stage used the complete result")
        env.check(out.ok, "next-stage", lambda: "the %s fails with the complete file: %r" % (nxt.kind, out))
    else:
        env.probe("next stage failed")
        env.check(not out.ok, "partial-data", lambda: "the %s accepts an incomplete file (%s)" % (nxt.kind, d))
        env.check(result is None or not os.path.exists(result), "partial-data", lambda: "the %s wrote a result" % nxt.kind)
    for name in files[1:]:
        if os.path.exists(name):
            os.remove(name)


def _exception(env, fs, what, exc):
    if what == "crash":
        fs.dead = True
        return SimCrash("the process is killed")
    if what == "KeyboardInterrupt":
        ex = KeyboardInterrupt("simulated")
        ex.simulated = True
        return ex
    return (MemoryError if what == "MemoryError" else exc)("simulated")


class Library:
    """Failure of a call of the numerical libraries."""

    def __init__(self, env, fs, at, what, exc):
        (self.env, self.fs, self.at, self.what, self.exc) = (env, fs, at, what, exc)
        self.num = 0
        self.fired = False

    def __call__(self, mod, name, real, args, kwargs):
        num = self.num
        self.num += 1
        if num == self.at:
            self.fired = True
            self.env.fault("%s in a library" % self.what, name)
            raise _exception(self.env, self.fs, self.what, self.exc)
        return real(*args, **kwargs)


def damage(env, ch, stage, config, geo, prob):
    """Damage an input of the call (it has to fail)."""
    name = ch.pick(config, "which")
    how = ch.pick(["missing", "truncated", "empty", "binary", "invalid", "extra"], "how")
    if how in ("invalid", "extra"):
        env.fault("invalid input", how)
        if stage.kind == "mesher":
            geo = copy.deepcopy(geo)
            geo["data_voxelize" if how == "invalid" else "data_point"] = {"unknown": 1}
            filecall.write_config(stage.files[0], geo)
        else:
            prob = copy.deepcopy(prob)
            tag = list(prob["sweep_solver"])[-1]
            if how == "invalid":
                prob["sweep_solver"][tag]["param"]["material_val"] = {}
            else:
                prob["sweep_solver"][tag]["init"] = "unknown"
            filecall.write_config(stage.files[1], prob)
        return how
    env.fault("damaged input", how)
    with simfs.REAL_OPEN(name, "rb") as fid:
        txt = fid.read()
    os.remove(name)
    if how == "missing":
        return how
    if how == "truncated":
        yaml = name.endswith(("yaml", "yml"))
        txt = txt[:len(txt)//3]+b"\n  ]: {" if yaml else txt[:ch.int(1, 999, "cut")*len(txt)//1000]
    elif how == "empty":
        txt = b""
    elif how == "binary":
        txt = b"\x00\xff\x01"*50
    with simfs.REAL_OPEN(name, "wb") as fid:
        fid.write(txt)
    return how
