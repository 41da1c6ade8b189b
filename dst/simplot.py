"""
Simulated desktop: Qt application and event loop, PyVista windows, Matplotlib windows, screenshots, and interrupt signals.

The data objects (PyVista grids, Matplotlib figures) are real, only what needs a display is replaced. What a window shows is
evaluated when it is displayed or saved (not when it is added), as a renderer would do.
"""

import builtins
import contextlib
import os
import signal
import sys
import types

import numpy as np

from . import simbackend
from .core import SimHang, Violation

PNG = b"\x89PNG\r\n\x1a\n"


class Fault(RuntimeError):
    """Injected failure of the graphics stack."""


class Camera:
    def __init__(self):
        self.roll = None
        self.azimuth = None
        self.elevation = None


class View:
    """Simulated PyVista scene."""

    kind = "view"
    visible = False

    def __init__(self, gui, title=None, size=None, menu=None, mode=None):
        self.gui = gui
        self.title = title
        self.size = size
        self.menu = menu
        self.mode = mode
        self.items = []
        self.camera = Camera()
        self.closed = False
        self.displayed = None
        self.images = []
        self.notebook = None
        gui.hook("window")
        self.num = len(gui.views)
        gui.views.append(self)
        gui.order.append(self)

    # scene
    def _add(self, what, obj, args):
        if self.closed:
            raise RuntimeError("the plotter is closed")
        self.gui.hook(what)
        self.items.append((what, obj, dict(args)))

    def add_mesh(self, mesh, color=None, style=None, scalars=None, **kwargs):
        kwargs.update(color=color, style=style, scalars=scalars)
        if mesh.n_points == 0:
            raise ValueError("Empty meshes cannot be plotted.")
        self._add("add_mesh", mesh, {k: v for k, v in kwargs.items() if v is not None})

    def add_mesh_clip_plane(self, mesh, normal="x", invert=False, widget_color=None, value=0.0, **kwargs):
        kwargs = {k: v for k, v in kwargs.items() if v is not None}
        kwargs.update(normal=normal, invert=invert, value=value, clip=True)
        self._add("add_mesh", mesh, kwargs)

    def add_text(self, text, position="upper_left", **kwargs):
        self._add("add_text", text, kwargs)

    def add_axes(self, **kwargs):
        self._add("add_axes", None, kwargs)

    def set_background(self, color, **kwargs):
        self._add("background", color, {})

    @property
    def background_color(self):
        return None

    @background_color.setter
    def background_color(self, color):
        self.set_background(color)

    # life cycle
    def screenshot(self, filename=None, *args, **kwargs):
        if self.closed:
            raise RuntimeError("the plotter is closed")
        self.display()
        self.gui.hook("screenshot")
        if filename is not None:
            self.gui.write_image(self, filename)
        self.images.append(filename)
        return np.zeros((4, 4, 3), dtype=np.uint8)

    def show(self, *args, screenshot=None, jupyter_backend=None, auto_close=None, **kwargs):
        if self.closed:
            raise RuntimeError("the plotter is closed")
        self.gui.hook("show")
        self.display()
        self.notebook = jupyter_backend or self.gui.jupyter
        if screenshot:
            self.screenshot(screenshot)
        self.gui.log("show", self.num)

    def close(self, *args, **kwargs):
        self.gui.hook("close")
        self.display()
        self.closed = True
        self.gui.log("close", self.num)

    def display(self):
        """What is rendered now."""
        if self.displayed is None:
            self.displayed = snapshot_view(self)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *args, **kwargs: None


class AppWindow(simbackend.Widget):
    """Simulated Qt window of a PyVista scene."""

    def show(self):
        gui = self.owner.gui
        gui.hook("win_show")
        if self.owner.closed:
            raise RuntimeError("wrapped C/C++ object has been deleted")
        self.state["visible"] = True
        gui.log("win_show", self.owner.num)
        gui.hook("shown")

    def close(self):
        self.state["visible"] = False
        self.owner.gui.hook("closing")
        if not self.owner.closed:
            self.owner.display()
            self.owner.closed = True
            self.owner.gui.log("win_close", self.owner.num)
        return True


class QtView(View):
    """Simulated PyVistaQt window."""

    def __init__(self, gui, show=True, toolbar=True, menu_bar=True, title=None, window_size=None, off_screen=None, app=None, **kwargs):
        super().__init__(gui, title=title, size=window_size, menu=(bool(toolbar), bool(menu_bar)), mode="qt")
        if gui.app is None:
            # the real library creates the application, a second one would be created later
            gui.problem("a window was created before the Qt application")
        self.icon = None
        self.app_window = AppWindow(self)
        if show:
            self.app_window.show()

    def set_icon(self, icon):
        self.gui.hook("icon")
        if not os.path.exists(icon):
            raise ValueError("invalid icon")
        self.icon = icon

    def close(self, *args, **kwargs):
        self.gui.hook("close")
        self.app_window.close()

    @property
    def visible(self):
        return self.app_window.isVisible()


class Gui:
    """Desktop of a simulated process."""

    def __init__(self, env):
        self.env = env
        self.views = []
        self.managers = []
        self.order = []
        self.app = None
        self.n_app = 0
        self.n_exec = 0
        self.n_quit = 0
        self.jupyter = None
        self.backend = None
        self.problems = []
        self.events = []
        self.images = []
        self.files = []
        self.at_exec = None
        # faults: {point: (count, action)}
        self.plan = {}
        self.counts = {}
        self.script = None
        self.n_sigint = 0
        self.real_render = False

    # events
    def log(self, *args):
        self.events.append(args)

    def problem(self, txt):
        self.problems.append(txt)

    def hook(self, point):
        num = self.counts.get(point, 0)
        self.counts[point] = num+1
        if (point, num) in self.plan:
            self.plan[(point, num)]()

    def sigint(self, where):
        """The user sends an interrupt signal."""
        self.n_sigint += 1
        self.env.fault("interrupt signal", where)
        if signal.getsignal(signal.SIGINT) == signal.SIG_DFL:
            raise Violation("interrupt", "the interrupt signal kills the process (default action)")
        signal.raise_signal(signal.SIGINT)

    # matplotlib
    def new_figure(self, man):
        self.hook("figure")
        if self.backend == "qt" and self.app is None:
            self.problem("a figure was created before the Qt application")
        man.gui_num = len(self.managers)
        man.displayed = None
        man.images = []
        self.managers.append(man)
        self.order.append(man)

    def show_figure(self, man):
        self.hook("fig_show")
        man.displayed = snapshot_figure(man)
        self.log("fig_show", man.gui_num)

    def pyplot_show(self, block):
        self.log("pyplot_show", block)
        self.hook("shown")
        if block:
            self.problem("a blocking Matplotlib event loop was entered")

    def destroyed(self, man):
        if man.displayed is None:
            man.displayed = snapshot_figure(man)
        self.log("fig_close", man.gui_num)

    # state
    def visible(self):
        return [x for x in self.order if x.visible]

    def open_views(self):
        return [x for x in self.views if not x.closed]

    def open_figures(self):
        return [x for x in self.managers if not x.closed]

    def write_image(self, owner, filename):
        """Write a screenshot."""
        with builtins.open(filename, "wb") as fid:
            fid.write(PNG)
            fid.write(b"image %d\n" % self.order.index(owner))
        self.images.append((owner, os.path.realpath(filename)))

    # Qt
    def run_loop(self):
        """Event loop: the user interacts until the windows are closed."""
        self.n_exec += 1
        self.log("exec")
        self.hook("exec")
        shown = self.visible()
        self.at_exec = (list(shown), [x for x in self.order if not x.closed])
        for item in shown:
            if isinstance(item, View):
                item.display()
        if self.script is None:
            raise SimHang("event loop without script")
        code = self.script(self)
        self.log("exec_end", code)
        self.hook("exec_end")
        return code


class QApplication:
    def __init__(self, args=None):
        gui = _CURRENT[0]
        gui.hook("app")
        gui.n_app += 1
        gui.log("application")
        if gui.n_app > 1:
            gui.problem("a second Qt application was created")
        gui.app = self
        self.gui = gui

    @staticmethod
    def instance():
        return _CURRENT[0].app

    def exec(self, *args):
        return _CURRENT[0].run_loop()

    exec_ = exec

    def quit(self):
        gui = _CURRENT[0]
        gui.n_quit += 1
        gui.log("quit")

    def exit(self, code=0):
        self.quit()

    def processEvents(self, *args):
        pass

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *args, **kwargs: None


class QIcon:
    def __init__(self, name=None):
        _CURRENT[0].hook("icon")
        if name is not None and not os.path.exists(str(name)):
            raise ValueError("invalid icon")
        self.name = name


_CURRENT = [None]


def user_closes(ch, gui):
    """The user closes the windows one after the other (or quits the application)."""
    visible = gui.visible()
    if not visible:
        raise Violation("blocked", "the event loop is entered without any visible window (it never ends)")
    while True:
        visible = gui.visible()
        if not visible:
            return 0
        item = visible[ch.draw(len(visible), "user")]
        gui.env.clock.advance(1.0)
        gui.hook("user")
        (item.app_window if isinstance(item, View) else item.window).close()


@contextlib.contextmanager
def desktop(env, gui):
    """Install the simulated desktop."""
    import matplotlib
    import matplotlib.pyplot as plt
    import matplotlib.figure
    import pyvista

    def mod(name, **kwargs):
        m = types.ModuleType(name)
        m.__path__ = []
        for k, v in kwargs.items():
            setattr(m, k, v)
        return m

    widgets = mod("PyQt5.QtWidgets", QApplication=QApplication)
    qgui = mod("PyQt5.QtGui", QIcon=QIcon)
    core = mod("PyQt5.QtCore")
    qt = mod("PyQt5", QtWidgets=widgets, QtGui=qgui, QtCore=core)
    qtpv = mod("pyvistaqt", BackgroundPlotter=lambda *a, **k: QtView(_CURRENT[0], *a, **k))
    fakes = {"PyQt5": qt, "PyQt5.QtWidgets": widgets, "PyQt5.QtGui": qgui, "PyQt5.QtCore": core, "pyvistaqt": qtpv}
    saved = {k: sys.modules.get(k) for k in fakes}
    real_use = matplotlib.use
    real_plotter = pyvista.Plotter
    real_theme = pyvista.set_plot_theme
    real_jupyter = pyvista.set_jupyter_backend
    real_save = matplotlib.figure.Figure.savefig
    old_int = signal.getsignal(signal.SIGINT)
    signal.signal(signal.SIGINT, signal.default_int_handler)
    rc = dict(matplotlib.rcParams)

    def use(backend, *args, **kwargs):
        name = str(backend).lower()
        gui.log("backend", name)
        _CURRENT[0].backend = "qt" if name in ("qtagg", "qt5agg") else name

    def plotter(*args, off_screen=None, notebook=None, window_size=None, **kwargs):
        mode = "nb" if notebook else ("nop" if off_screen else "window")
        return View(_CURRENT[0], size=window_size, mode=mode)

    def savefig(fig, fname, *args, **kwargs):
        g = _CURRENT[0]
        man = [x for x in g.managers if x.canvas.figure is fig]
        if not man:
            raise RuntimeError("unknown figure")
        man[0].displayed = snapshot_figure(man[0])
        if g.real_render:
            import io
            real_save(fig, io.BytesIO(), format="png", dpi=20)
        g.hook("screenshot")
        g.write_image(man[0], os.fspath(fname))
        man[0].images.append(fname)

    sys.modules.update(fakes)
    real_use("module://dst.simbackend", force=True)
    matplotlib.use = use
    pyvista.Plotter = plotter
    pyvista.set_plot_theme = lambda *a, **k: None

    def set_jupyter(name, *args, **kwargs):
        gui.log("notebook", str(name))
        _CURRENT[0].jupyter = name

    pyvista.set_jupyter_backend = set_jupyter
    matplotlib.figure.Figure.savefig = savefig
    plt.close("all")
    _CURRENT[0] = gui
    simbackend.GUI = gui
    try:
        yield gui
    finally:
        simbackend.GUI = None
        _CURRENT[0] = None
        matplotlib.use = real_use
        pyvista.Plotter = real_plotter
        pyvista.set_plot_theme = real_theme
        pyvista.set_jupyter_backend = real_jupyter
        matplotlib.figure.Figure.savefig = real_save
        plt.close("all")
        dict.update(matplotlib.rcParams, rc)
        signal.signal(signal.SIGINT, old_int)
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v


@contextlib.contextmanager
def switched(gui):
    """Another process has the desktop."""
    old = _CURRENT[0]
    _CURRENT[0] = gui
    simbackend.GUI = gui
    try:
        yield
    finally:
        _CURRENT[0] = old
        simbackend.GUI = old


# ---------------------------------------------------------------- what is displayed

def _color(x):
    import matplotlib.colors as mcol
    try:
        return tuple(np.round(mcol.to_rgba(x), 6))
    except (ValueError, TypeError):
        return str(x)


def _array(obj, name):
    if isinstance(name, str):
        arr = np.array(obj[name], dtype=float)
    else:
        arr = np.array(name, dtype=float)
    if len(arr) == obj.n_cells:
        return ("cell", arr)
    if len(arr) == obj.n_points:
        return ("point", arr)
    raise Violation("data", "array with a wrong size: %d" % len(arr))


def snapshot_view(view):
    """Visible content of a scene (independent of the order of the calls)."""
    out = {"mesh": [], "text": [], "axes": [], "background": None,
           "camera": (view.camera.roll, view.camera.azimuth, view.camera.elevation)}
    for what, obj, args in view.items:
        if what == "add_text":
            if obj is not None and obj != "":
                out["text"].append((obj, args.get("font_size"), _color(args.get("color"))))
        elif what == "add_axes":
            out["axes"].append((args.get("line_width"), _color(args.get("color"))))
        elif what == "background":
            out["background"] = _color(obj)
        else:
            item = {
                "type": type(obj).__name__,
                "n_cells": int(obj.n_cells),
                "n_points": int(obj.n_points),
                "bounds": np.array(obj.bounds),
                "points": np.array(obj.points, dtype=float),
                "centers": np.array(obj.cell_centers().points, dtype=float),
                "clip": (bool(args["invert"]), args["normal"], float(args["value"])) if args.get("clip") else None,
                "style": args.get("style", "surface"),
                "opacity": args.get("opacity", 1.0),
                "line_width": args.get("line_width"),
                "point_size": args.get("point_size"),
                "color": _color(args["color"]) if "color" in args else None,
            }
            if "scalars" in args:
                (item["assoc"], item["values"]) = _array(obj, args["scalars"])
                item["clim"] = None if args.get("clim") is None else [float(x) for x in args["clim"]]
                item["log"] = bool(args.get("log_scale", False))
                item["bar"] = bool(args.get("show_scalar_bar", True))
                item["bar_args"] = dict(args.get("scalar_bar_args") or {})
                item["cmap"] = args.get("cmap")
            out["mesh"].append(item)
    return out


def snapshot_figure(man):
    """Visible content of a figure."""
    fig = man.canvas.figure
    out = {"size": tuple(np.round(fig.get_size_inches()*fig.dpi, 6)), "axes": []}
    for ax in fig.axes:
        leg = ax.get_legend()
        out["axes"].append({
            "lines": [{
                "x": np.array(x.get_xdata(), dtype=float), "y": np.array(x.get_ydata(), dtype=float), "color": _color(x.get_color()),
                "width": x.get_linewidth(), "marker": x.get_markersize(), "label": x.get_label(),
            } for x in ax.lines],
            "bars": [{
                "x0": x.get_x(), "x1": x.get_x()+x.get_width(), "h": x.get_height(), "face": _color(x.get_facecolor()), "edge": _color(x.get_edgecolor()),
            } for x in ax.patches],
            "scale": (ax.get_xscale(), ax.get_yscale()),
            "label": (ax.get_xlabel(), ax.get_ylabel()),
            "title": ax.get_title(),
            "font": ax.xaxis.label.get_fontsize(),
            "legend": None if leg is None else (leg._loc_real if hasattr(leg, "_loc_real") else None),
        })
    return out


class Signals:
    """Deliver an interrupt signal at an executed line while a window is open."""

    def __init__(self, gui, target):
        from . import trace
        self.gui = gui
        self.target = target
        self.lines = trace.Lines()
        self.count = 0
        self.fired = None
        self.busy = False

    def local_trace(self, frame, event, arg):
        if event == "line" and self.fired is None and self.gui.visible():
            self.count += 1
            if self.count == self.target:
                self.fired = "%s:%s" % (os.path.basename(frame.f_code.co_filename), frame.f_code.co_name)
                self.gui.sigint(self.fired)
        return self.local_trace

    def global_trace(self, frame, event, arg):
        return self.local_trace if self.lines._in(frame.f_code) else None

    @contextlib.contextmanager
    def active(self):
        old = sys.gettrace()
        sys.settrace(self.global_trace)
        try:
            yield self
        finally:
            sys.settrace(old)
