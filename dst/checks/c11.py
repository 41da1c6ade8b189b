"""C11: failures are always reported (exceptions of the API, exit code of the command line)."""

import contextlib
import copy
import os
import sys

import numpy as np

from .. import filecall, gen, genmesh, genplot, lin, plotcall, resources, sim, simfs, simplot, trace, work
from . import c10

ID = "C11"
LEVEL = "fault_enumeration"
RUNS = (2400, 40000)
RULE = ("A case is a sequence of calls of one command (mesher, solver, viewer, plotter, extraction, or an invalid command line) through the command line (with random "
        "aliases, flags, and order), the installed script, or the API (files or data), with at most one fault each: invalid or damaged inputs, a file operation failing at a random "
        "position (open, read, write, close), legal short transfers, an exception at a random executed line or in a numerical library, a failing desktop operation, or an unusable "
        "output path. The outcome is compared with the effect on the files and windows. Nontrivial: a fault fired, or work was done.")
REAL = ["pypeec command line, script, and API (complete)", "scisave, json, gzip, pickle, YAML, zipfile, argparse", "real files behind the simulated operations"]
STUB = ["raw file operations", "PyVista rendering, Qt, Matplotlib windows", "archives of the released package", "clock"]
ASSUMPTIONS = ["the standard error stream is usable", "no fault inside of the interpreter or of the command line parser itself", "tags do not start with a dash"]
PROBES = ["mesher", "solver", "viewer", "plotter", "examples", "documentation", "invalid command line", "version", "cli", "script", "file", "data", "exit code zero", "exit code non-zero",
          "fault: line", "fault: library", "fault: input", "fault: files", "fault: desktop", "fault: output path", "fault: archive", "fault: tags", "short transfers", "call after a fault", "plots saved"]


def run(env):
    ch = env.ch
    gui = simplot.Gui(env)
    gui.script = lambda g: simplot.user_closes(ch, g)
    fs = simfs.FileSystem(env, env.scratch)
    with sim.simulation(env), simplot.desktop(env, gui):
        os.chdir(env.scratch)
        command = ch.weighted([("mesher", 4), ("solver", 4), ("plot", 6), ("extract", 3), ("parse", 2)], "command")
        img = sim.new_image("shell")
        fs.buffer = ch.pick([8192, 512, 64, 1], "buffer")
        {"mesher": _compute, "solver": _compute, "plot": _plot, "extract": _extract, "parse": _parse}[command](env, ch, gui, fs, img, command)
        env.sample = "; ".join(x for x in env.events if x.startswith(("call", "out", "FAULT")))[:300]


def invoke(env, img, argv, how, around):
    """Call of the command line or of the installed script."""
    with img.active():
        mod = img.load("pypeec.script")
        with around or contextlib.nullcontext():
            if how == "cli":
                return work.call(env, mod.run_arguments, argv)
            old = sys.argv
            sys.argv = ["pypeec"]+list(argv)
            try:
                return work.call(env, mod.run_script)
            finally:
                sys.argv = old


def status(env, out, how):
    """Success of a call, with the checks of the form of the outcome."""
    if how == "script":
        env.check(isinstance(out.exc, SystemExit), "script", lambda: "the script does not exit with a code: %r" % out)
        code = out.exc.code
        env.check(code is None or isinstance(code, int), "script", lambda: "the exit code is %r" % code)
        code = code or 0
    elif how == "cli":
        env.check(out.ok, "raised", lambda: "the command line raises: %r" % out)
        code = out.value
        env.check(isinstance(code, int) and not isinstance(code, bool), "exit-code", lambda: "the exit code is %r" % code)
    else:
        return out.ok
    env.check(0 <= code < 256, "exit-code", lambda: "the exit code is %r" % code)
    env.probe("exit code zero" if code == 0 else "exit code non-zero")
    return code == 0


def injected(ex, exc):
    """The injected exception is reported (input and output errors may be translated with the original as the reason)."""
    if not isinstance(exc, OSError):
        return ex is exc
    seen = set()
    while ex is not None and id(ex) not in seen:
        if ex is exc:
            return True
        seen.add(id(ex))
        ex = ex.__cause__ or (None if ex.__suppress_context__ else ex.__context__)
    return False


class Fault:
    """A fault of a call."""

    def __init__(self, env, ch, fs, gui, kinds, lines=("run", "lib_mesher", "lib_solver", "lib_matrix", "lib_check", "lib_plot", "main.py")):
        (self.env, self.fs, self.gui) = (env, fs, gui)
        self.kind = ch.weighted([("none", 4)]+[(k, 3) for k in kinds], "fault")
        self.exc = None
        self.around = None
        self.handler = None
        self.fatal = False
        self.short = ch.flag(0.3, "short")
        self.rng = ch.draw(10**6, "rng") if self.short else 0
        self.op = None
        if self.kind == "line":
            what = work.exception(ch)

            def make():
                self.exc = what("simulated")
                self.fatal = True
                env.fault("exception at a line", what.__name__)
                return self.exc
            self.around = trace.Lines(target=int(10**(ch.int(0, 400, "line")/100.0)), make=make, only=lines)
        elif self.kind == "library":
            self.at = ch.draw(ch.pick([4, 30], "span"), "at")
            self.num = 0
            what = work.exception(ch)

            def handler(mod, name, real, args, kwargs):
                self.num += 1
                if self.num == self.at+1:
                    self.exc = what("simulated")
                    self.fatal = True
                    env.fault("exception in a library", name)
                    raise self.exc
                return real(*args, **kwargs)
            self.handler = handler
        elif self.kind == "files":
            self.op = ch.pick(["read", "write", "open", "open_write", "close"], "op")
            self.at = int(10**(ch.int(0, 200, "at")/100.0))-1 if self.op in ("read", "write") else ch.draw(3, "at")
            self.error = ch.pick({"read": ["EIO"], "write": ["ENOSPC", "EIO", "EDQUOT"], "open": ["EACCES", "ENOENT", "EIO", "EMFILE"],
                                  "open_write": ["EACCES", "ENOSPC", "EROFS"], "close": ["EIO", "ENOSPC"]}[self.op], "error")
            self.part = ch.draw(1000, "part")
        elif self.kind == "desktop":
            points = ["add_mesh", "figure", "screenshot", "close", "window", "fig_show", "win_show", "icon", "exec", "show", "app", "add_text"]
            point = ch.pick(points, "point")
            at = ch.pick([0, 0, 1, 2, 3], "at")

            def fail():
                self.fatal = True
                self.exc = ch_exc("desktop: "+point)
                env.fault("desktop failure", point)
                raise self.exc
            ch_exc = simplot.Fault if ch.flag(0.3, "graphics") else work.exception(ch)
            gui.plan = {(point, gui.counts.get(point, 0)+at): fail}

    def plan(self, op, path, size, num):
        if self.kind == "files" and op == self.op and num == self.at and not self.fatal:
            self.fatal = True
            return (self.error, size*self.part//1000 if size else 0)
        if self.short and op in ("read", "write") and size > 1:
            self.rng = (self.rng*1103515245+12345) % (1 << 31)
            if (self.rng >> 8) % 3 == 0:
                self.env.probe("short transfers")
                return ("short", (self.rng >> 8) % size)
        return None

    @contextlib.contextmanager
    def active(self):
        self.fs.reset()
        self.fs.plan = self.plan
        with self.fs.active(), (lin.handler(self.handler) if self.handler is not None else contextlib.nullcontext()):
            yield
        self.fs.plan = None
        self.gui.plan = {}
        if self.fatal:
            self.env.probe("fault: "+self.kind)


def judge(env, fault, out, how, good, invalid, effect, what):
    """Compare the outcome with the effect."""
    success = status(env, out, how)
    env.event("out", out.kind(), success, fault.kind, fault.fatal, invalid)
    if fault.fatal or invalid:
        env.check(not success, "unreported", lambda: "%s (%s): success is reported although something failed (%s)" % (what, how, invalid or fault.kind))
        if how in ("file", "data") and fault.kind in ("line", "library", "desktop") and fault.exc is not None:
            env.check(isinstance(out.exc, Exception) and injected(out.exc, fault.exc), "exception", lambda: "%s: %r instead of the original exception %r" % (what, out.exc, fault.exc))
        env.nontrivial = True
    else:
        env.check(success == good, "wrong-status", lambda: "%s (%s): %r without any fault" % (what, how, out))
    if success:
        d = effect()
        env.check(d is None, "incomplete", lambda: "%s (%s): success is reported, but %s" % (what, how, d))
        env.nontrivial = True
    return success


# ---------------------------------------------------------------- mesher and solver
def _compute(env, ch, gui, fs, img, kind):
    path = lambda name: os.path.join(env.scratch, name)
    env.probe(kind)
    prob = None
    if kind == "mesher" and ch.flag(0.6, "allkinds"):
        (geo, spec) = genmesh.random_geometry(ch, env)
        geo["data_conflict"]["resolve_random"] = ch.flag(0.8, "random")
    else:
        (geo, prob, meta) = gen.random_case(ch, max_voxel=12, max_elec=7, n_sweep=ch.pick([1, 2], "n_sweep"))
    tol = gen.tolerance()
    tol["solver_options"]["coupling"] = ch.pick(["direct", "segregated"], "coupling")
    ref_img = sim.new_image("reference")
    np.random.seed(7)
    expected = vox = work.mesh(env, ref_img, copy.deepcopy(geo))
    if kind == "solver":
        if not vox.ok:
            return
        expected = work.solve(env, ref_img, copy.deepcopy(vox.value), copy.deepcopy(prob), copy.deepcopy(tol))
    env.event("expected", expected.kind())

    for num in range(ch.int(1, 3, "n_calls")):
        ext = ch.pick(filecall.DATA, "ext")
        cfg = lambda: ch.pick(filecall.CONFIG, "cfg")
        for name in os.listdir(env.scratch):
            if name.startswith("in_") or name.startswith("output"):
                os.remove(path(name)) if os.path.isfile(path(name)) else os.rmdir(path(name))
        out_name = path("output"+ext)
        if kind == "mesher":
            stage = filecall.Stage("mesher", [path("in_geometry"+cfg()), out_name])
            filecall.write_config(stage.files[0], geo)
            config = stage.files[:1]
        else:
            stage = filecall.Stage("solver", [path("in_voxel"+ch.pick(filecall.DATA, "ext")), path("in_problem"+cfg()), path("in_tol"+cfg()), out_name])
            filecall.write_data(stage.files[0], vox.value)
            filecall.write_config(stage.files[1], prob)
            filecall.write_config(stage.files[2], tol)
            config = stage.files[:3]
        if ch.flag(0.3, "previous"):
            with simfs.REAL_OPEN(out_name, "wb") as fid:
                fid.write(b"previous "*ch.pick([3, 5000], "size"))
        how = ch.pick(["cli", "file", "script", "data"], "how")
        invalid = None
        fault = Fault(env, ch, fs, gui, ["line", "library", "files", "input", "output path"] if kind == "solver" else ["line", "files", "input", "output path"])
        (g, p) = (geo, prob)
        if fault.kind == "input" and how != "data":
            invalid = c10.damage(env, ch, stage, config, geo, prob)
            env.probe("fault: input")
        elif fault.kind == "output path" and how != "data":
            invalid = ch.pick(["folder", "extension", "directory"], "path")
            env.fault("unusable output path", invalid)
            env.probe("fault: output path")
            if invalid == "folder":
                stage.files[-1] = out_name = path("missing/output"+ext)
            elif invalid == "extension":
                stage.files[-1] = out_name = path("output"+ch.pick([".txt", "", ".npz"], "ext"))
            else:
                if os.path.exists(out_name):
                    os.remove(out_name)
                os.mkdir(out_name)
        argv = stage.argv(ch)
        env.event("call", num, kind, how, ext, fault.kind, " ".join(os.path.basename(x) for x in argv))
        env.probe(how)
        np.random.seed(7)
        with fault.active():
            if how == "data":
                args = (g,) if kind == "mesher" else (vox.value, p, tol)
                with img.active():
                    fct = getattr(img.load("pypeec.main"), "run_%s_data" % kind)
                    with fault.around.active() if fault.around is not None else contextlib.nullcontext():
                        out = work.call(env, fct, *copy.deepcopy(args))
            elif how == "file":
                out = stage.run(env, img, around=None if fault.around is None else fault.around.active())
            else:
                out = invoke(env, img, argv, how, None if fault.around is None else fault.around.active())

        def effect():
            if how == "data":
                return filecall.cmp.diff(expected.value, out.value, rel=0.0)
            return filecall.stored(out_name, expected.value)
        judge(env, fault, out, how, expected.ok, invalid, effect, kind)
        if how == "file":
            if not out.ok and not fault.fatal and not invalid:
                env.check(type(out.exc).__name__ == type(expected.exc).__name__, "exception", lambda: "%r instead of %r" % (out, expected))
        if num:
            env.probe("call after a fault")


# ---------------------------------------------------------------- viewer and plotter
def _plot(env, ch, gui, fs, img, command):
    src = plotcall.Source(ch, env, img)
    folder = os.path.join(env.scratch, "plots")
    os.mkdir(folder)
    for num in range(ch.int(1, 3, "n_calls")):
        how = ch.pick(["cli", "file", "script", "data"], "how")
        call = plotcall.random_call(ch, src, folder, ["save", "debug", "qt", "nb", None], broken=False)
        if how in ("cli", "script"):
            call.name = None
            if call.tag_plot == []:
                call.tag_plot = None
            if call.tag_sweep == []:
                call.tag_sweep = None
        env.probe(call.kind)
        files = [os.path.join(env.scratch, "in_data%d%s" % (num, ch.pick(filecall.DATA, "ext"))), os.path.join(env.scratch, "in_spec%d%s" % (num, ch.pick(filecall.CONFIG, "cfg")))]
        filecall.write_data(files[0], call.data)
        filecall.write_config(files[1], call.spec)
        invalid = None
        fault = Fault(env, ch, fs, gui, ["line", "files", "desktop", "desktop", "input", "output path", "tags"])
        if fault.kind == "input" and how != "data":
            invalid = _damage(env, ch, files)
            env.probe("fault: input")
        elif fault.kind == "tags":
            env.fault("unknown tag")
            env.probe("fault: tags")
            invalid = "unknown tag"
            if call.kind == "plotter" and ch.flag(0.5, "which"):
                call.tag_sweep = (call.tag_sweep or [])+["zz_unknown"]
            else:
                call.tag_plot = (call.tag_plot or [])+["zz_unknown"]
        elif fault.kind == "output path" and (call.mode == "save"):
            if call.plots():
                invalid = "folder"
                env.fault("missing folder")
                env.probe("fault: output path")
            call.folder = os.path.join(env.scratch, "missing")
        stage = filecall.Stage(call.kind, files, **call.kwargs())
        argv = stage.argv(ch)
        (first, n_exec) = (len(gui.order), gui.n_exec)
        gui.images.clear()
        env.event("call", num, call.kind, how, call.mode, fault.kind, invalid)
        env.probe(how)
        around = None if fault.around is None else fault.around.active()
        with fault.active():
            if how == "data":
                out = call.run(env, img, around=around)
            elif how == "file":
                out = stage.run(env, img, around=around)
            else:
                out = invoke(env, img, argv, how, around)

        def effect():
            try:
                call.check_windows(env, gui, first)
            except work.Violation as ex:
                return str(ex)
            items = gui.order[first:]
            mode = call.mode or "qt"
            if mode == "save":
                for item, (tag, _, _) in zip(items, call.plots()):
                    name = call.filename(tag)
                    if not os.path.isfile(name):
                        return "the image %s is missing" % os.path.basename(name)
                    with simfs.REAL_OPEN(name, "rb") as fid:
                        if not fid.read().endswith(b"image %d\n" % gui.order.index(item)):
                            return "the image %s is wrong" % os.path.basename(name)
                    env.probe("plots saved")
            if mode == "qt" and items and gui.n_exec != n_exec+1:
                return "the event loop was not entered"
            return None
        judge(env, fault, out, how, True, invalid, effect, call.kind)
        if num:
            env.probe("call after a fault")
        for view in gui.views:
            view.closed = True
        import matplotlib.pyplot
        matplotlib.pyplot.close("all")


def _damage(env, ch, files):
    name = ch.pick(files, "which")
    how = ch.pick(["missing", "truncated", "empty", "binary", "key"], "how")
    env.fault("damaged input", how)
    if how == "key":
        if name == files[0]:
            obj = filecall.read_data(name)
            part = obj[ch.pick([k for k in ("data_geom", "data_init", "data_sweep") if k in obj], "part")]
            part = part if "n" in part else None
            if part is None:
                del obj["data_sweep"]
            else:
                del part["n"]
            filecall.write_data(name, obj)
        else:
            filecall.write_config(name, {"x": {"framework": "pyvista"}})
        return how
    with simfs.REAL_OPEN(name, "rb") as fid:
        txt = fid.read()
    os.remove(name)
    if how == "missing":
        return how
    if how == "truncated":
        txt = txt[:len(txt)//3]+b"\n  ]: {" if name.endswith(("yaml", "yml")) else txt[:ch.int(1, 999, "cut")*len(txt)//1000]
    else:
        txt = b"" if how == "empty" else b"\x00\xff\x01"*50
    with simfs.REAL_OPEN(name, "wb") as fid:
        fid.write(txt)
    return how


# ---------------------------------------------------------------- extraction
def _extract(env, ch, gui, fs, img, command):
    trees = {}
    extra = {}
    raws = {}
    for name in ("examples", "documentation"):
        (raw, tree, span) = resources.archive(ch, name)
        extra[name+".zip"] = os.path.join(env.scratch, "pkg_%s.zip" % name)
        trees[name] = tree
        raws[name] = (raw, span)
    with resources.overlay("pypeec.data", extra):
        for num in range(ch.int(1, 3, "n_calls")):
            name = ch.pick(["examples", "documentation"], "which")
            env.probe(name)
            for k, (raw, _) in raws.items():
                with simfs.REAL_OPEN(extra[k+".zip"], "wb") as fid:
                    fid.write(raw)
            target = ch.pick(["out", "new", "a/b/c", ".", "out"], "target")
            target = target if ch.flag(0.4, "relative") else os.path.join(env.scratch, target)
            invalid = None
            fault = Fault(env, ch, fs, gui, ["files", "archive", "output path"])
            if fault.kind == "archive":
                invalid = ch.pick(["missing", "truncated", "flip", "empty"], "archive")
                (raw, span) = raws[name]
                file = extra[name+".zip"]
                if invalid == "flip" and not span:
                    invalid = "truncated"
                if invalid == "flip":
                    (a, b) = ch.pick(span, "where")
                    pos = a+ch.draw(b-a, "pos")
                    raw = raw[:pos]+bytes([raw[pos] ^ (1 << ch.draw(8, "bit"))])+raw[pos+1:]
                    if resources.readable(raw, trees[name]):
                        # unused bits of the compressed data
                        invalid = None
                elif invalid == "empty":
                    raw = b""
                elif invalid == "missing":
                    os.remove(file)
                else:
                    raw = raw[:ch.draw(len(raw), "cut")]
                if invalid != "missing":
                    with simfs.REAL_OPEN(file, "wb") as fid:
                        fid.write(raw)
                if invalid is not None:
                    env.fault("damaged archive", invalid)
                env.probe("fault: archive")
            elif fault.kind == "output path":
                target = os.path.join(env.scratch, "blocked%d" % num)
                with simfs.REAL_OPEN(target, "wb") as fid:
                    fid.write(b"file")
                invalid = "output path"
                env.fault("unusable output path")
                env.probe("fault: output path")
            how = ch.pick(["cli", "script"], "how")
            env.probe(how)
            argv = (["-q"] if ch.flag(0.5, "quiet") else [])+[name, target]
            env.event("call", num, name, how, fault.kind, invalid)
            with fault.active():
                out = invoke(env, img, argv, how, None)
            judge(env, fault, out, how, True, invalid, lambda: resources.extracted(target, trees[name]), name)
            if num:
                env.probe("call after a fault")


# ---------------------------------------------------------------- command line
def _parse(env, ch, gui, fs, img, command):
    before = simfs.snapshot(env.scratch)
    how = ch.pick(["cli", "script"], "how")
    what = ch.pick(["version", "missing", "command", "empty", "unknown flag", "mode", "noargs", "novalue"], "what")
    cmd = ch.pick([x for a in filecall.ALIAS.values() for x in a], "cmd")
    kind = [k for k, a in filecall.ALIAS.items() if cmd in a][0]
    args = [[ch.pick(f, "flag"), "in_%d.json" % i] for i, f in enumerate(filecall.FLAGS[kind])]
    if what == "version":
        argv = [ch.pick(["-v", "--version", "-h", "--help"], "flag")]
    elif what == "missing":
        args.pop(ch.draw(len(args), "pop"))
        argv = [cmd]+[x for a in args for x in a]
    elif what == "command":
        argv = [ch.pick(["mesh", "solve", "xx", "mesherr"], "bad")]+[x for a in args for x in a]
    elif what == "empty":
        argv = []
    elif what == "unknown flag":
        argv = [cmd]+[x for a in args for x in a]+[ch.pick(["-zz", "--unknown"], "bad"), "1"]
    elif what == "mode" and kind in ("viewer", "plotter"):
        argv = [cmd]+[x for a in args for x in a]+["-pm", "xx"]
    elif what == "novalue":
        argv = [cmd]+[x for a in args for x in a][:-1]
    else:
        argv = [cmd]
    env.event("call", how, argv)
    env.probe("version" if what == "version" else "invalid command line")
    out = invoke(env, img, argv, how, None)
    success = status(env, out, how)
    env.check(success == (what == "version"), "parse", lambda: "%s: %r" % (argv, out))
    env.check(simfs.snapshot(env.scratch) == before and not gui.order, "parse", "an invalid command line has an effect")
    env.nontrivial = True
