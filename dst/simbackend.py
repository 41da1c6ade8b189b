"""Matplotlib backend with simulated windows (no display needed)."""

from matplotlib.backend_bases import FigureManagerBase
from matplotlib.backends.backend_agg import FigureCanvasAgg

# receiver of the events (see simplot)
GUI = None


class Widget:
    """Simulated Qt widget: known state, any other method is accepted."""

    def __init__(self, owner):
        self.owner = owner
        self.state = {}

    def setWindowTitle(self, title):
        self.state["title"] = title

    def windowTitle(self):
        return self.state.get("title")

    def setWindowIcon(self, icon):
        self.state["icon"] = icon

    def resize(self, *size):
        size = size[0] if len(size) == 1 else size
        self.state["size"] = tuple(size)

    def setVisible(self, flag):
        (self.show if flag else self.hide)()

    def hide(self):
        self.state["visible"] = False

    def show(self):
        self.state["visible"] = True

    def close(self):
        self.state["visible"] = False

    def isVisible(self):
        return bool(self.state.get("visible"))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return lambda *args, **kwargs: None


class Window(Widget):
    """Simulated window of a figure."""

    def show(self):
        self.owner.show()

    def close(self):
        import matplotlib._pylab_helpers as helpers
        if self.owner.num in helpers.Gcf.figs:
            helpers.Gcf.destroy(self.owner)

    def isVisible(self):
        return self.owner.visible


class FigureManager(FigureManagerBase):
    def __init__(self, canvas, num):
        self.window = Window(self)
        self.visible = False
        self.closed = False
        super().__init__(canvas, num)
        self.toolbar = Widget(self)
        if GUI is not None:
            GUI.new_figure(self)

    def show(self):
        if GUI is not None:
            GUI.show_figure(self)
        self.visible = True

    def destroy(self, *args):
        self.visible = False
        self.closed = True
        if GUI is not None:
            GUI.destroyed(self)

    def set_window_title(self, title):
        self.window.setWindowTitle(title)

    def get_window_title(self):
        return self.window.windowTitle() or "image"

    def resize(self, w, h):
        self.window.resize(w, h)

    @classmethod
    def pyplot_show(cls, *, block=None):
        import matplotlib._pylab_helpers as helpers
        for man in helpers.Gcf.get_all_fig_managers():
            man.show()
        if GUI is not None:
            GUI.pyplot_show(block)


class FigureCanvas(FigureCanvasAgg):
    manager_class = FigureManager
