"""
Process images and the simulated clock.

A simulated process is a fresh import of pypeec and scilogger (own module globals, own warning
filters and floating-point error state). Several images can live in the same real process, only
one of them is active at a time. The wall clock and the monotonic clock are simulated for everything
that runs inside a simulation.
"""

import contextlib
import datetime as real_datetime
import importlib
import importlib.machinery
import io
import os
import random as pyrandom
import signal
import sys
import time as real_time
import types
import warnings

import numpy as np

PREFIX = ("pypeec", "scilogger")
REPO = os.environ.get("DST_REPO", "/repo")

# real clock functions (never simulated)
REAL = {k: getattr(real_time, k) for k in ("time", "monotonic", "perf_counter", "sleep", "time_ns", "monotonic_ns", "perf_counter_ns")}

_CODE = {}


class _Loader(importlib.machinery.SourceFileLoader):
    """Source loader with a process-wide cache of the code objects."""

    def get_code(self, fullname):
        key = self.path
        if key not in _CODE:
            with open(self.path, "rb") as fid:
                src = fid.read()
            _CODE[key] = compile(src, self.path, "exec", dont_inherit=True)
        return _CODE[key]


class _Finder:
    """Finder for the simulated packages (always from the sources in the repository)."""

    @staticmethod
    def find_spec(name, path=None, target=None):
        root = name.split(".")[0]
        if root not in PREFIX:
            return None
        if root == "pypeec" and path is None:
            path = [REPO]
        spec = importlib.machinery.PathFinder.find_spec(name, path)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = _Loader(spec.loader.name, spec.loader.path)
        return spec


def _is_sim(name):
    return name.split(".")[0] in PREFIX


class Sink(io.TextIOBase):
    """Text stream keeping the last part of what is written."""

    encoding = "utf-8"

    def __init__(self):
        self.data = []
        self.size = 0

    def write(self, txt):
        if self.size < 200000:
            self.data.append(txt)
            self.size += len(txt)
        return len(txt)

    def flush(self):
        pass

    def isatty(self):
        return False

    def getvalue(self):
        return "".join(self.data)


class Clock:
    """Simulated clock: the monotonic clock never goes back, the wall clock can jump."""

    def __init__(self):
        self.mono = 1000.0
        self.wall = 1.7e9
        self.tick = 1e-3
        self.jumps = []     # callables (or None): hook called at every read of the wall clock
        self.hook = None
        self.sleep_hook = None
        self.reads = 0

    def advance(self, dt):
        self.mono += dt
        self.wall += dt

    def now_mono(self):
        self.mono += 1e-6
        return self.mono

    def now_wall(self):
        self.reads += 1
        self.advance(self.tick)
        if self.hook is not None:
            self.hook(self)
        return self.wall

    def sleep(self, dt):
        self.advance(max(0.0, float(dt)))
        if self.sleep_hook is not None:
            self.sleep_hook(dt)


CLOCK = Clock()


def _make_datetime():
    """Build a datetime module reading the simulated clock."""

    class _Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, real_datetime.datetime)

    class datetime(real_datetime.datetime, metaclass=_Meta):
        @classmethod
        def now(cls, tz=None):
            return real_datetime.datetime.fromtimestamp(CLOCK.now_wall(), tz)

        @classmethod
        def utcnow(cls):
            return real_datetime.datetime.fromtimestamp(CLOCK.now_wall(), real_datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    mod = types.ModuleType("datetime")
    for name in dir(real_datetime):
        if not name.startswith("__"):
            setattr(mod, name, getattr(real_datetime, name))
    mod.datetime = datetime
    return mod


SIM_DATETIME = _make_datetime()

_BASE_FILTERS = None


STACK = []          # active images (innermost last)


class Image:
    """A simulated process image."""

    def __init__(self, name):
        self.name = name
        self.mods = {}
        self.filters = [*_BASE_FILTERS]
        self.err = dict(np.geterr())
        self.extra = {}
        self.depth = 0

    @contextlib.contextmanager
    def active(self):
        """Run in this image."""
        if self.depth:
            # already active
            yield self
            return
        self.depth += 1
        saved = {k: v for k, v in sys.modules.items() if _is_sim(k)}
        saved_filters = warnings.filters[:]
        saved_err = np.geterr()
        saved_dt = sys.modules["datetime"]
        for k in saved:
            del sys.modules[k]
        sys.modules.update(self.mods)
        warnings.filters[:] = self.filters
        warnings._filters_mutated()
        np.seterr(**self.err)
        sys.modules["datetime"] = SIM_DATETIME
        STACK.append(self)
        try:
            yield self
        finally:
            STACK.pop()
            self.mods = {k: v for k, v in sys.modules.items() if _is_sim(k)}
            self.filters = warnings.filters[:]
            self.err = dict(np.geterr())
            for k in self.mods:
                del sys.modules[k]
            sys.modules.update(saved)
            sys.modules["datetime"] = saved_dt
            warnings.filters[:] = saved_filters
            warnings._filters_mutated()
            np.seterr(**saved_err)
            self.depth -= 1

    def load(self, name):
        """Import a module in the image."""
        with self.active():
            return importlib.import_module(name)


_INSTALLED = False


def install():
    """Install the import seam (once per real process)."""
    global _INSTALLED, _BASE_FILTERS
    if _INSTALLED:
        return
    _INSTALLED = True

    # load all the third-party libraries first (they can change the warning filters at import)
    for name in (
            "scipy.sparse.linalg", "scipy.linalg", "scipy.fft", "scipy.constants", "scipy.sparse.csgraph",
            "joblib", "joblib.externals.cloudpickle", "jsonschema", "scisave", "yaml", "pyvista",
            "PIL.Image", "shapely", "rasterio", "rasterio.features", "rasterio.transform", "vtk",
            "matplotlib", "matplotlib.pyplot", "matplotlib.backends.backend_agg", "argparse", "logging",
            "importlib.resources", "configparser", "gzip", "pickle", "json", "subprocess", "signal", "shutil", "zipfile"):
        importlib.import_module(name)
    _BASE_FILTERS = warnings.filters[:]
    sys.meta_path.insert(0, _Finder)
    for k in [k for k in sys.modules if _is_sim(k)]:
        del sys.modules[k]

    # the schemas and the default configurations of the package are read many times
    import scisave
    real_load = scisave.load_config
    cache = {}
    root = os.path.join(os.path.realpath(REPO), "pypeec", "data")+os.sep

    def load_config(filename, *args, **kwargs):
        path = os.path.realpath(str(filename))
        if path.startswith(root) and not args and not kwargs:
            import copy
            if path not in cache:
                cache[path] = real_load(filename)
            return copy.deepcopy(cache[path])
        return real_load(filename, *args, **kwargs)

    scisave.load_config = load_config


@contextlib.contextmanager
def simulation(env, capture=True):
    """
    Everything inside runs with simulated clocks, seeded NumPy/Python randomness, captured streams,
    and with the process-wide state restored at the end.
    """
    install()
    CLOCK.__init__()
    env.clock = CLOCK
    saved_streams = (sys.stdout, sys.stderr)
    saved_env = dict(os.environ)
    cwd = os.getcwd()
    saved_filters = warnings.filters[:]
    saved_err = np.geterr()
    saved_np = np.random.get_state()
    saved_py = pyrandom.getstate()
    np.random.seed(12345)
    pyrandom.seed(12345)
    for name, fct in (
            ("time", CLOCK.now_wall), ("monotonic", CLOCK.now_mono), ("perf_counter", CLOCK.now_mono),
            ("sleep", CLOCK.sleep),
            ("time_ns", lambda: int(1e9*CLOCK.now_wall())), ("monotonic_ns", lambda: int(1e9*CLOCK.now_mono())),
            ("perf_counter_ns", lambda: int(1e9*CLOCK.now_mono()))):
        setattr(real_time, name, fct)
    mono0 = CLOCK.mono
    if capture:
        env.out = Sink()
        sys.stdout = env.out
        sys.stderr = env.out
    from . import stubs
    try:
        with stubs.installed():
            yield
    finally:
        env.sim_time += CLOCK.mono-mono0
        for name, fct in REAL.items():
            setattr(real_time, name, fct)
        (sys.stdout, sys.stderr) = saved_streams
        os.chdir(cwd)
        for k in list(os.environ):
            if k not in saved_env:
                del os.environ[k]
        os.environ.update(saved_env)
        warnings.filters[:] = saved_filters
        warnings._filters_mutated()
        np.seterr(**saved_err)
        np.random.set_state(saved_np)
        pyrandom.setstate(saved_py)


def new_image(name="parent"):
    """Fresh process image with pypeec loaded."""
    img = Image(name)
    img.main = img.load("pypeec.main")
    return img


def process_state():
    """State of the process shared with the other code of the user."""
    return {
        "working directory": os.getcwd(),
        "environment": dict(os.environ),
        "standard streams": (id(sys.stdin), id(sys.stdout), id(sys.stderr)),
        "floating-point errors": np.geterr(),
        "print options": {k: str(v) for k, v in np.get_printoptions().items()},
        "recursion limit": sys.getrecursionlimit(),
        "search path": list(sys.path),
        "signal handlers": [signal.getsignal(x) for x in (signal.SIGINT, signal.SIGTERM)],
    }


def same_process_state(before, after):
    """Description of the difference or None."""
    for key, val in before.items():
        if after[key] != val:
            return "%s: %s" % (key, str(after[key])[:200])
    return None
