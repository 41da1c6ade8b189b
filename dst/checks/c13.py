"""C13: a plot call makes exactly the selected plots, and saves each one."""

import os

from .. import plotcall, sim, simplot, work

ID = "C13"
LEVEL = "exploration"
RUNS = (1200, 24000)
RULE = ("A case is a sequence of viewer and plotter calls (random voxel structures and solutions, random layouts, windows and options, random selections, "
        "all the display modes) in one simulated process with a simulated desktop, where at most one graphics or disk operation of a call fails. "
        "Nontrivial: a window is compared, or a fault.")
REAL = ["pypeec viewer and plotter (complete)", "pypeec mesher and solver", "PyVista data objects", "Matplotlib figures"]
STUB = ["Qt application and event loop", "PyVista renderer and screenshots", "Matplotlib windows and image files", "joblib (serial)", "clock"]
ASSUMPTIONS = ["distinct plot names, and distinct names of the combinations of sweeps and plots", "the rendered pixels are not checked", "problems with up to 20 voxels"]
PROBES = ["scene checked", "figure checked", "save", "debug", "qt", "nb", "unknown name", "unknown variable", "fault raised", "call after a fault",
          "empty selection", "plot without any element", "image overwritten", "real rendering"]

FAULTS = ["window", "figure", "add_mesh", "add_text", "screenshot", "win_show", "fig_show", "show", "exec", "icon", "close", "app", "folder", "full"]


def tree(path):
    out = {}
    for root, _, names in os.walk(path):
        for name in names:
            with open(os.path.join(root, name), "rb") as fid:
                out[os.path.realpath(os.path.join(root, name))] = fid.read()
    return out


def run(env):
    ch = env.ch
    gui = simplot.Gui(env)
    with sim.simulation(env), simplot.desktop(env, gui):
        img = sim.new_image("plot")
        src = plotcall.Source(ch, env, img)
        base = os.path.join(env.scratch, "plots")
        os.makedirs(os.path.join(base, "out"))
        os.makedirs(os.path.join(base, "cwd"))
        os.chdir(os.path.join(base, "cwd"))
        gui.script = lambda g: simplot.user_closes(ch, g)
        gui.real_render = ch.flag(0.1, "render")
        faulted = False
        for num in range(ch.int(1, 3, "n_calls")):
            call = plotcall.random_call(ch, src, os.path.join(base, "out"), ["save", "debug", "qt", None, "nb", "save"])
            mode = call.mode or "qt"
            env.event("call", num, call.kind, mode, len(call.spec), call.tag_plot, call.tag_sweep, call.folder is None, call.name)
            (first, n_exec, before) = (len(gui.order), gui.n_exec, tree(base))
            n_event = len(gui.events)
            gui.images.clear()
            # fault
            fired = []
            gui.plan = {}
            undo = None
            if ch.flag(0.35, "fault"):
                point = ch.pick(FAULTS, "point")
                at = ch.pick([0, 0, 1, 2, 3, 5], "at")
                exc = simplot.Fault if ch.flag(0.3, "graphics") else work.exception(ch)

                def fail(point=point):
                    fired.append(point)
                    env.fault("graphics failure: "+point)
                    raise exc(point)

                def full():
                    fired.append("full")
                    env.fault("disk full")
                    raise OSError(28, "No space left on device")
                if point == "folder":
                    if mode == "save" and call.folder:
                        os.rename(call.folder, call.folder+"x")
                        undo = lambda: os.rename(call.folder+"x", call.folder)
                elif point == "full":
                    gui.plan = {("screenshot", gui.counts.get("screenshot", 0)+at): full}
                else:
                    gui.plan = {(point, gui.counts.get(point, 0)+at): fail}
            out = call.run(env, img)
            gui.plan = {}
            if undo is not None:
                undo()
                if call.known() and call.valid() and call.plots():
                    fired.append("folder")
                    env.fault("missing folder")
            after = tree(base)
            env.event("out", out.kind(), len(gui.order)-first)

            env.check(not gui.problems, "desktop", lambda: "; ".join(gui.problems))
            # display and notebook are only needed in the corresponding modes
            used = {"notebook" if x[0] == "notebook" else "display" for x in gui.events[n_event:]
                    if x[0] in ("notebook", "application") or (x[0] == "backend" and "qt" in x[1])}
            env.check(used <= {"qt": {"display"}, "nb": {"notebook"}}.get(mode, set()), "environment", lambda: "the %s is used in the %s mode" % (sorted(used), mode))
            if not call.known():
                env.probe("unknown name")
                env.check(not out.ok, "unknown", "an unknown name is accepted")
                env.check(len(gui.order) == first and gui.n_exec == n_exec and after == before, "unknown", "something was created for an unknown name")
                continue
            if fired:
                env.check(not out.ok, "silent-failure", lambda: "the call returns although an operation failed: %s" % fired)
                env.probe("fault raised")
                faulted = True
                continue
            if not call.valid():
                env.probe("unknown variable")
                env.check(not out.ok, "unknown", "an unknown variable is accepted")
                faulted = True
                continue
            env.check(out.ok, "failure", lambda: "valid call: %r" % out)
            call.check_windows(env, gui, first)
            if len(gui.order) > first:
                env.nontrivial = True
                env.probe(mode)
                if faulted:
                    env.probe("call after a fault")
            else:
                env.probe("empty selection")
            items = gui.order[first:]
            # files
            exp = {os.path.realpath(call.filename(tag)) for tag, _, _ in call.plots()} if mode == "save" else set()
            new = {k for k in after if k not in before or after[k] != before[k]}
            env.check(new == exp, "files", lambda: "files %s instead of %s" % (sorted(map(os.path.basename, new)), sorted(map(os.path.basename, exp))))
            env.check(not set(before)-set(after), "files", "files were removed")
            if mode == "save":
                if exp & set(before):
                    env.probe("image overwritten")
                for item, (tag, _, _) in zip(items, call.plots()):
                    data = after[os.path.realpath(call.filename(tag))]
                    env.check(data.startswith(simplot.PNG) and data.endswith(b"image %d\n" % gui.order.index(item)), "files", lambda: "wrong image for %s" % tag)
                if gui.real_render and items:
                    env.probe("real rendering")
            # life cycle
            if mode in ("save", "debug"):
                env.check(all(x.closed for x in items), "closed", "a window is not closed")
                env.check(gui.n_exec == n_exec, "loop", "the event loop is entered")
            elif mode == "nb":
                for x in items:
                    if isinstance(x, simplot.View):
                        env.check(("show", x.num) in gui.events and not x.closed, "shown", "a scene is not shown in the notebook")
                        env.check(x.notebook == "trame", "shown", "wrong notebook backend")
                    else:
                        env.check(x.visible and not x.closed, "shown", "a figure is not shown in the notebook")
                env.check(gui.n_exec == n_exec, "loop", "the event loop is entered")
            elif items:
                env.check(gui.n_exec == n_exec+1, "loop", lambda: "the event loop is entered %d times" % (gui.n_exec-n_exec))
                (shown, existing) = gui.at_exec
                env.check(all(x in shown for x in items), "shown", "a window is not shown when the event loop is entered")
                env.check(gui.backend == "qt", "backend", "the figures are not managed by Qt")
        env.sample = "; ".join(x for x in env.events if x.startswith(("call", "out", "FAULT")))[:300]
