"""Calls of the viewer and plotter on the simulated desktop, with the expected outcome."""

import contextlib
import copy
import os

from . import gen, genmesh, genplot, plotcheck, simplot, work


class Source:
    """Data to be plotted."""

    def __init__(self, ch, env, img):
        kind = ch.weighted([("voxel", 5), ("mesher", 2)], "source")
        self.vox = None
        if kind == "mesher":
            (geo, spec) = genmesh.random_geometry(ch, env)
            geo["data_conflict"]["resolve_random"] = True
            out = work.mesh(env, img, geo)
            if out.ok:
                self.vox = out.value
        (geo, prob, meta) = gen.random_case(ch, max_voxel=20, max_elec=8, n_sweep=ch.pick([1, 2, 3], "n_sweep"))
        out = work.mesh(env, img, geo)
        env.check(out.ok, "valid-call", lambda: "valid geometry: %r" % out)
        if self.vox is None:
            self.vox = out.value
        tol = gen.tolerance()
        if ch.flag(0.25, "converged"):
            # a sweep which starts from its own solution (no iteration)
            sweep = prob["sweep_solver"]
            tag = ch.pick(list(sweep), "from")
            sweep["again"] = {"init": tag, "param": copy.deepcopy(sweep[tag]["param"])}
        out = work.solve(env, img, out.value, prob, tol)
        self.sol = out.value if out.ok else None
        self.why = out


class Call:
    """Viewer or plotter call."""

    def __init__(self, kind, data, spec, tag_sweep=None, tag_plot=None, mode=None, folder=None, name=None):
        self.kind = kind
        self.data = data
        self.spec = spec
        self.tag_sweep = tag_sweep
        self.tag_plot = tag_plot
        self.mode = mode
        self.folder = folder
        self.name = name

    def kwargs(self):
        out = {"tag_plot": self.tag_plot, "plot_mode": self.mode, "folder": self.folder, "name": self.name}
        if self.kind == "plotter":
            out["tag_sweep"] = self.tag_sweep
        return {k: v for k, v in out.items() if v is not None}

    def args(self):
        return (self.data, self.spec)

    def known(self):
        """All the selected names exist."""
        ok = all(x in self.spec for x in self.tag_plot or [])
        if self.kind == "plotter":
            ok = ok and all(x in self.data["data_sweep"] for x in self.tag_sweep or [])
        return ok

    def plots(self):
        """Selected plots: tag, sweep, definition."""
        tags = list(self.spec) if self.tag_plot is None else self.tag_plot
        if self.kind == "viewer":
            return [(x, None, self.spec[x]) for x in tags]
        sweeps = list(self.data["data_sweep"]) if self.tag_sweep is None else self.tag_sweep
        return [(s+"_"+x, s, self.spec[x]) for s in sweeps for x in tags]

    def valid(self):
        """The variables of the selected plots exist."""
        for _, _, spec in self.plots():
            if spec["data_plot"].get("var") == "unknown":
                return False
        return True

    def filename(self, tag):
        return os.path.join(self.folder or os.getcwd(), "%s_%s.png" % (self.name or "pypeec", tag))

    def write(self, folder):
        """Write the data and the definition into files."""
        import scisave
        self.files = (os.path.join(folder, "data.pck"), os.path.join(folder, "spec.json"))
        scisave.write_data(self.files[0], self.data)
        scisave.write_data(self.files[1], self.spec)

    def argv(self):
        """Command line of the call."""
        out = ["-q", self.kind, {"viewer": "-vo", "plotter": "-so"}[self.kind], self.files[0], {"viewer": "-vi", "plotter": "-pl"}[self.kind], self.files[1]]
        for flag, val in (("-ts", self.tag_sweep), ("-tp", self.tag_plot)):
            if val:
                out += [flag]+list(val)
        for flag, val in (("-pm", self.mode), ("-f", self.folder)):
            if val:
                out += [flag, val]
        return out

    def run(self, env, img, copied=True, around=None, how="data"):
        with img.active():
            if how == "cli":
                fct = img.load("pypeec.script").run_arguments
                with around or contextlib.nullcontext():
                    return work.call(env, fct, self.argv())
            if how == "file":
                fct = getattr(img.load("pypeec.main"), "run_%s_file" % self.kind)
                with around or contextlib.nullcontext():
                    return work.call(env, fct, *self.files, **self.kwargs())
            fct = getattr(img.load("pypeec.main"), "run_%s_data" % self.kind)
            args = copy.deepcopy(self.args()) if copied else self.args()
            with around or contextlib.nullcontext():
                return work.call(env, fct, *args, **self.kwargs())

    def check_windows(self, env, gui, first):
        """The created windows are the selected ones (content, title, size), from the given position on."""
        items = gui.order[first:]
        plots = self.plots()
        env.check(len(items) == len(plots), "number", lambda: "%d windows for %d selected plots" % (len(items), len(plots)))
        mode = self.mode or "qt"
        size_key = {"qt": "window_size", "nb": "notebook_size"}.get(mode, "image_size")
        if self.kind == "viewer":
            geo = plotcheck.geo_viewer(self.data["data_geom"])
        else:
            geo = plotcheck.geo_plotter(self.data["data_init"])
        for item, (tag, sweep, spec) in zip(items, plots):
            what = "%s (%s, %s)" % (tag, spec["layout"], mode)
            size = spec["data_window"][size_key]
            title = tag+" / "+spec["title"]
            menu = spec["data_window"]["show_menu"]
            is_view = isinstance(item, simplot.View)
            env.check(is_view == (spec["framework"] == "pyvista"), "framework", what)
            if is_view:
                env.check(item.displayed is not None, "display", lambda: "%s is never displayed" % what)
                env.check((None if item.size is None else list(item.size)) == size, "window-size", lambda: "%s: %r instead of %r" % (what, item.size, size))
                env.check(item.mode == {"qt": "qt", "nb": "nb"}.get(mode, "nop"), "window-mode", lambda: "%s: %r" % (what, item.mode))
                if mode == "qt":
                    env.check(item.title == title, "window-title", lambda: "%s: %r instead of %r" % (what, item.title, title))
                    env.check(item.menu == (menu, menu), "window-menu", lambda: "%s: %r instead of %r" % (what, item.menu, menu))
                if self.kind == "viewer":
                    payloads = plotcheck.viewer_payloads(self.data["data_geom"], geo, spec)
                else:
                    payloads = plotcheck.plotter_payloads(self.data, sweep, geo, spec)
                if payloads is None or not geo.idx:
                    env.probe("undecided content")
                    continue
                bad = plotcheck.check_view(item.displayed, geo, spec, payloads)
                env.probe("scene checked")
                if self.kind == "plotter" and not payloads:
                    env.probe("plot without any element")
                env.check(bad is None, "content", lambda: "%s: %s" % (what, bad))
            else:
                env.check(item.displayed is not None, "display", lambda: "%s is never displayed" % what)
                if mode == "qt":
                    env.check(item.window.state.get("title") == title, "window-title", lambda: "%s: %r instead of %r" % (what, item.window.state.get("title"), title))
                    env.check(bool(item.toolbar.state.get("visible")) == menu, "window-menu", what)
                    got = item.window.state.get("size")
                    env.check((None if got is None else list(got)) == size, "window-size", lambda: "%s: %r instead of %r" % (what, got, size))
                elif size is not None:
                    got = item.displayed["size"]
                    env.check(abs(got[0]-size[0]) < 1e-3 and abs(got[1]-size[1]) < 1e-3, "window-size", lambda: "%s: %r instead of %r" % (what, got, size))
                bad = plotcheck.check_figure(item.displayed, self.data["data_sweep"][sweep], spec)
                env.probe("figure checked")
                env.check(bad is None, "content", lambda: "%s: %s" % (what, bad))


def random_call(ch, src, folder, modes, kind=None, broken=True):
    """Random viewer or plotter call."""
    kind = kind or ("viewer" if src.sol is None else ch.pick(["plotter", "viewer"], "call"))
    if kind == "viewer":
        data = src.vox
        spec = genplot.random_viewer(ch)
    else:
        data = src.sol
        spec = genplot.random_plotter(ch, src.sol, broken=broken and ch.flag(0.1, "broken"))

    def select(names, label):
        if ch.flag(0.5, label):
            return None
        out = ch.subset(ch.perm(names, label), 0.7, label)
        if broken and ch.flag(0.08, "unknown"):
            out.insert(ch.draw(len(out)+1, "pos"), "zz_unknown")
        return out
    tag_plot = select(list(spec), "tag_plot")
    tag_sweep = select(list(data["data_sweep"]), "tag_sweep") if kind == "plotter" else None
    return Call(kind, data, spec, tag_sweep, tag_plot, ch.pick(modes, "mode"),
                ch.pick([None, folder], "folder"), ch.pick([None, "abc", "my.plot"], "name"))
