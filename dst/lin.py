"""
Numerical-library seam: the iterative solvers, the sparse factorization, the one-norm estimator, and the FFTs.

Dispatching wrappers are installed once on the SciPy/NumPy modules. Without an active handler, the
wrappers directly call the real functions.
"""

import contextlib
import functools

import numpy as np

HANDLER = None
_DONE = False

TARGETS = [
    ("scipy.sparse.linalg", "gmres"),
    ("scipy.sparse.linalg", "gcrotmk"),
    ("scipy.sparse.linalg", "splu"),
    ("scipy.sparse.linalg", "onenormest"),
    ("scipy.fft", "fftn"),
    ("scipy.fft", "ifftn"),
    ("numpy.fft", "fftn"),
    ("numpy.fft", "ifftn"),
]
REAL = {}


def install():
    """Install the wrappers (once per real process)."""
    global _DONE
    if _DONE:
        return
    _DONE = True
    import importlib

    def make(mod_name, name, real):
        @functools.wraps(real)
        def wrapper(*args, **kwargs):
            if HANDLER is None:
                return real(*args, **kwargs)
            return HANDLER(mod_name, name, real, args, kwargs)
        return wrapper

    for (mod_name, name) in TARGETS:
        mod = importlib.import_module(mod_name)
        real = getattr(mod, name)
        REAL[(mod_name, name)] = real
        setattr(mod, name, make(mod_name, name, real))


@contextlib.contextmanager
def handler(fct):
    """Run with a handler."""
    global HANDLER
    old = HANDLER
    HANDLER = fct
    try:
        yield
    finally:
        HANDLER = old


@contextlib.contextmanager
def no_handler():
    """Run with the real functions."""
    with handler(None):
        yield


class Call:
    """Normalised iterative-solver call."""

    def __init__(self, name, args, kwargs):
        import inspect
        self.name = name
        names = {
            "gmres": ["A", "b", "x0", "rtol", "atol", "restart", "maxiter", "M", "callback"],
            "gcrotmk": ["A", "b", "x0", "rtol", "atol", "maxiter", "M", "callback", "m", "k"],
        }[name]
        p = dict(kwargs)
        for (k, v) in zip(names if name == "gcrotmk" else ["A", "b"], args):
            p[k] = v
        self.p = p
        self.A = p["A"]
        self.b = np.array(p["b"], dtype=np.complex128)
        self.x0 = None if p.get("x0") is None else np.array(p["x0"], dtype=np.complex128)
        self.callback = p.get("callback")
        self.M = p.get("M")
        self.inner = p.get("restart") if name == "gmres" else p.get("m")
        self.outer = p.get("maxiter")
        self.rtol = p.get("rtol")
        self.atol = p.get("atol")
        self.x = None
        self.flag = None
        self.exc = None
        self.callbacks = []


def _Counted(op, call, name):
    """Linear operator counting its evaluations."""
    import scipy.sparse.linalg as sla
    if op is None:
        return None

    def matvec(x):
        setattr(call, name, getattr(call, name)+1)
        return op.matvec(x)
    return sla.LinearOperator(op.shape, matvec=matvec, dtype=op.dtype)


class LinSim:
    """
    Handler recording all the calls, with optional misbehaviour.
        - rules: dict name -> function (sim, call or args) returning None (real behaviour) or a result.
    """

    def __init__(self, env):
        self.env = env
        self.calls = []          # iterative-solver calls
        self.count = {}          # number of calls for every function
        self.iter_fct = None     # (sim, call, real) -> (x, flag)
        self.splu_fct = None
        self.onenorm_fct = None
        self.fft_fct = None
        self.onenorm = []
        self.active = True
        self.splu_n = 0
        self.count_ops = False

    def __call__(self, mod, name, real, args, kwargs):
        self.count[name] = self.count.get(name, 0)+1
        self.env.step()
        if name in ("gmres", "gcrotmk"):
            call = Call(name, args, kwargs)
            self.calls.append(call)
            user = call.callback
            kw = dict(kwargs)
            call.n_sys = 0
            call.n_pcd = 0
            if self.count_ops:
                # count the evaluations of the operators
                (call.A, call.M) = (_Counted(call.A, call, "n_sys"), _Counted(call.M, call, "n_pcd"))
                args = list(args)
                if args:
                    args[0] = call.A
                else:
                    kw["A"] = call.A
                kw["M"] = call.M

            def run_real(**over):
                k2 = dict(kw)
                k2.update(over)
                return real(*args, **k2)

            # record the callbacks
            if user is not None:
                def callback(x):
                    call.callbacks.append(np.array(x, dtype=np.complex128))
                    return user(x)
                kw["callback"] = callback
                call.callback = callback
            try:
                if self.iter_fct is not None:
                    out = self.iter_fct(self, call, run_real)
                else:
                    out = run_real()
            except BaseException as ex:
                call.exc = ex
                raise
            (x, flag) = out
            call.x = np.array(x, dtype=np.complex128)
            call.flag = flag
            return x, flag
        if name == "splu":
            if self.splu_fct is not None:
                return self.splu_fct(self, real, args, kwargs)
            return real(*args, **kwargs)
        if name == "onenormest":
            if self.onenorm_fct is not None:
                val = self.onenorm_fct(self, real, args, kwargs)
            else:
                val = real(*args, **kwargs)
            self.onenorm.append(val)
            return val
        if self.fft_fct is not None:
            return self.fft_fct(self, name, real, args, kwargs)
        return real(*args, **kwargs)


class FaultyLU:
    """Wrapper around a SuperLU object with a faulty solve."""

    def __init__(self, lu, fct):
        self._lu = lu
        self._fct = fct

    def solve(self, rhs, *args, **kwargs):
        return self._fct(self._lu, rhs, *args, **kwargs)

    def __getattr__(self, name):
        return getattr(self._lu, name)
