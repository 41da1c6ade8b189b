"""C14: the Qt session ends cleanly on exit, error, or interrupt."""

import os

from .. import plotcall, sim, simplot

ID = "C14"
LEVEL = "fault_enumeration"
RUNS = (1000, 24000)
RULE = ("A case is a sequence of viewer and plotter calls in Qt mode (API, files, command line) in one simulated process, where the simulated user closes the windows "
        "in a random order, the event loop ends with a random exit code, a graphics operation fails, or an interrupt signal is delivered at a random executed line or "
        "desktop operation while windows are open. Nontrivial: the event loop is entered, or a fault.")
REAL = ["pypeec viewer, plotter, and command line (complete)", "signal handlers (real signals)", "Matplotlib figure management"]
STUB = ["Qt application and event loop", "PyVista windows", "Matplotlib windows", "clock"]
ASSUMPTIONS = ["the Python signal handlers are executed while the event loop is running", "POSIX signals", "one thread"]
PROBES = ["interrupt in the event loop", "interrupt at a line", "interrupt while showing", "interrupt while the user closes", "second interrupt", "non-zero exit code", "zero exit code",
          "second session in a process", "session after a failure", "empty selection", "only figures", "only scenes", "data", "file", "cli", "exit with open windows"]


def run(env):
    ch = env.ch
    gui = simplot.Gui(env)
    with sim.simulation(env), simplot.desktop(env, gui):
        img = sim.new_image("qt")
        src = plotcall.Source(ch, env, img)
        os.chdir(env.scratch)
        last = None
        for num in range(ch.int(1, 4, "n_calls")):
            call = plotcall.random_call(ch, src, env.scratch, ["qt", None], broken=False)
            how = ch.pick(["data", "file", "cli"], "how")
            if how == "cli" and (call.tag_plot == [] or call.tag_sweep == []):
                how = "file"
            if how != "data":
                call.write(env.scratch)
            env.event("call", num, call.kind, how, len(call.plots()))
            env.probe(how)
            (first, n_exec, n_ev) = (len(gui.order), gui.n_exec, len(gui.events))
            gui.plan = {}
            code = 0
            around = None
            action = ch.weighted([("close", 8), ("code", 4), ("int_loop", 4), ("int_line", 6), ("int_show", 4), ("int_user", 3), ("fail", 3), ("quit", 2)], "action")
            keep = ch.flag(0.3, "keep")
            fired = []
            if action == "code":
                code = ch.pick([1, 2, -1, 255, 3], "code")

            def script(g, code=code, action=action, keep=keep):
                if not g.visible():
                    return simplot.user_closes(ch, g)
                if action == "int_loop":
                    g.sigint("event loop")
                    return 0
                if action == "quit" or (code != 0 and keep):
                    env.probe("exit with open windows")
                    return code
                simplot.user_closes(ch, g)
                return code
            gui.script = script

            def interrupt():
                gui.sigint(action)

            def fail():
                fired.append(1)
                env.fault("graphics failure", point)
                raise simplot.Fault(point)
            if action == "int_line":
                around = simplot.Signals(gui, 1+ch.draw(ch.pick([6, 12, 40], "span"), "line"))
            elif action == "int_show":
                gui.plan[("shown", gui.counts.get("shown", 0)+ch.draw(4, "at"))] = interrupt
            elif action == "int_user":
                gui.plan[("user", gui.counts.get("user", 0)+ch.draw(4, "at"))] = interrupt
            elif action == "fail":
                point = ch.pick(["window", "figure", "add_mesh", "win_show", "fig_show", "exec", "icon"], "point")
                gui.plan[(point, gui.counts.get(point, 0)+ch.draw(3, "at"))] = fail
            if action.startswith("int") and ch.flag(0.3, "second"):
                def second():
                    env.probe("second interrupt")
                    if gui.n_sigint:
                        gui.sigint("second")
                gui.plan[("closing", gui.counts.get("closing", 0)+ch.draw(2, "at"))] = second
            n_int = gui.n_sigint
            out = call.run(env, img, around=None if around is None else around.active(), how=how)
            gui.plan = {}
            items = gui.order[first:]
            env.event("out", out.kind(), action, len(items), gui.n_exec-n_exec, None if around is None else around.fired)
            env.check(not gui.problems, "desktop", lambda: "; ".join(gui.problems))

            if gui.n_sigint > n_int:
                env.probe({"int_loop": "interrupt in the event loop", "int_line": "interrupt at a line", "int_show": "interrupt while showing",
                           "int_user": "interrupt while the user closes"}[action])
                env.check(isinstance(out.exc, SystemExit) and out.exc.code == 130, "interrupt", lambda: "%r instead of the exit code 130" % out)
                env.check(all(x.closed for x in items), "interrupt", "a window remains open after the interrupt")
                env.check(not any(not x.closed for x in gui.managers), "interrupt", "a figure remains open after the interrupt")
                # the process has ended
                break
            if how == "cli" and out.ok:
                status = out.value
                ok = status == 0
            else:
                status = None
                ok = out.ok
            env.check(how != "cli" or out.ok, "raise", lambda: "command line: %r" % out)
            if fired:
                env.check(not ok, "silent-failure", "the call returns although an operation failed")
                last = "failure"
                continue
            n_plot = len(call.plots())
            if n_plot == 0:
                env.probe("empty selection")
                env.check(ok, "failure", lambda: "empty selection: %r" % out)
                env.check(not items and gui.n_exec == n_exec, "empty", "a window is opened or the loop is entered for an empty selection")
                continue
            env.check(ok == (code == 0), "exit-code", lambda: "exit code %d of the event loop: %r, status %r" % (code, out, status))
            env.check(gui.n_exec == n_exec+1, "loop", lambda: "the event loop is entered %d times" % (gui.n_exec-n_exec))
            (shown, _) = gui.at_exec
            env.check(len(items) == n_plot and all(x in shown for x in items), "shown", "a window is not shown when the event loop is entered")
            ev = gui.events[n_ev:]
            i_end = [i for i, x in enumerate(ev) if x[0] == "exec_end"][-1]
            env.check(not any(x[0] in ("win_show", "fig_show") for x in ev[i_end:]), "order", "a window is shown after the event loop")
            env.probe("zero exit code" if code == 0 else "non-zero exit code")
            kinds = {type(x).__name__ for x in items}
            if len(kinds) == 1:
                env.probe("only scenes" if "QtView" in kinds else "only figures")
            if last is not None:
                env.probe("second session in a process" if last == "ok" else "session after a failure")
            if code == 0:
                call.check_windows(env, gui, first)
            env.nontrivial = True
            last = "ok" if ok else "failure"
        env.sample = "; ".join(x for x in env.events if x.startswith(("call", "out", "FAULT")))[:300]
