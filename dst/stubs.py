"""
Stand-ins for the optional numerical libraries that are not installed (CuPy, FFTW, MKL-FFT, PARDISO, PyAMG).

They follow the contracts of the libraries and are backed by NumPy/SciPy. They are adversarial where the contract
allows it: an input that may be overwritten is overwritten with garbage. The calls are recorded.
"""

import contextlib
import sys
import types

import numpy as np
import scipy.fft as sfft
import scipy.sparse as sps

RECORD = None       # list of the calls, or None
SCRIBBLE = True
INSIDE = False      # a stand-in is calling SciPy

# unwrapped functions (the module functions can be replaced by the seam)
_FFTN = sfft.fftn
_IFFTN = sfft.ifftn


def _rec(name, *args):
    if RECORD is not None:
        RECORD.append((name,)+args)


_NONE = {}


def state():
    """State of the libraries in the current simulated process."""
    from . import sim
    return sim.STACK[-1].extra if sim.STACK else _NONE


def scribble(x, ok):
    if ok and SCRIBBLE and isinstance(x, np.ndarray) and x.flags.writeable and x.dtype.kind in "fc":
        x[...] = np.nan


def _fft(fct):
    def inner(x, s=None, axes=None, overwrite=False):
        y = fct(np.array(x, copy=True), s, axes=axes)
        scribble(x, overwrite)
        return y
    return inner


fftn = _fft(lambda *a, **k: _FFTN(*a, **k))
ifftn = _fft(lambda *a, **k: _IFFTN(*a, **k))


def _lu(mat):
    import scipy.sparse.linalg as sla
    global INSIDE
    INSIDE = True
    try:
        return sla.splu(sps.csc_matrix(mat))
    finally:
        INSIDE = False


def build():
    """Build the modules."""
    mods = {}

    def mod(name):
        m = types.ModuleType(name)
        m.__path__ = []
        mods[name] = m
        return m

    # CuPy
    cupy = mod("cupy")

    class ndarray:
        """Never instantiated (the device arrays are NumPy arrays)."""

    for k in ("ones", "empty", "zeros", "array", "asarray", "unravel_index", "in1d", "isin", "arange", "dtype", "float64", "complex128",
              "concatenate", "int64", "int32", "sum", "reshape", "ravel", "conj", "multiply"):
        if hasattr(np, k):
            setattr(cupy, k, getattr(np, k))
    if not hasattr(cupy, "in1d"):
        cupy.in1d = np.isin
    cupy.ndarray = ndarray
    cupy.asnumpy = lambda x: np.array(x)
    cf = mod("cupy.fft")

    def c1(x, s=None, axes=None, norm=None):
        _rec("fft", "CuPy", None)
        return fftn(x, s, axes)

    def c2(x, s=None, axes=None, norm=None):
        _rec("fft", "CuPy", None)
        return ifftn(x, s, axes)
    cf.fftn = c1
    cf.ifftn = c2
    cupy.fft = cf

    # MKL-FFT
    mkl = mod("mkl_fft")

    def m1(x, s=None, axes=None, overwrite_x=False):
        _rec("fft", "MKL", None)
        return fftn(x, s, axes, overwrite_x)

    def m2(x, s=None, axes=None, overwrite_x=False):
        _rec("fft", "MKL", None)
        return ifftn(x, s, axes, overwrite_x)
    mkl.fftn = m1
    mkl.ifftn = m2

    # FFTW
    fftw = mod("pyfftw")
    inter = mod("pyfftw.interfaces")
    cache = mod("pyfftw.interfaces.cache")
    numpy_fft = mod("pyfftw.interfaces.numpy_fft")
    fftw.interfaces = inter
    inter.cache = cache
    inter.numpy_fft = numpy_fft

    def byte_align(x, n=None, dtype=None):
        if not isinstance(x, np.ndarray):
            raise TypeError("Invalid array: needs to be an instance of numpy.ndarray")
        _rec("align", n)
        return np.array(x, copy=True)
    fftw.byte_align = byte_align

    def threads_ok(threads):
        if int(threads) < 1:
            raise ValueError("invalid number of threads")
        _rec("fft", "FFTW", int(threads))
        _rec("cache", state().get("time") if state().get("on") else None)

    def f1(x, s=None, axes=None, norm=None, overwrite_input=False, planner_effort=None, threads=1, auto_align_input=True, auto_contiguous=True):
        threads_ok(threads)
        return fftn(x, s, axes, overwrite_input)

    def f2(x, s=None, axes=None, norm=None, overwrite_input=False, planner_effort=None, threads=1, auto_align_input=True, auto_contiguous=True):
        threads_ok(threads)
        return ifftn(x, s, axes, overwrite_input)
    numpy_fft.fftn = f1
    numpy_fft.ifftn = f2
    cache.enable = lambda: state().update(on=True)
    cache.disable = lambda: state().update(on=False)

    def keep(t):
        if not state().get("on"):
            raise RuntimeError("the cache is not enabled")
        state()["time"] = t
    cache.set_keepalive_time = keep

    # PARDISO
    pyd = mod("pydiso")
    ms = mod("pydiso.mkl_solver")
    pyd.mkl_solver = ms
    ms.set_mkl_threads = lambda n=None: state().update(mkl=n)
    ms.set_mkl_pardiso_threads = lambda n=None: state().update(pardiso=n)

    class MKLPardisoSolver:
        def __init__(self, A, matrix_type=None, factor=True, verbose=False):
            if not isinstance(A, (sps.csr_matrix, sps.csr_array)):
                raise TypeError("type(A) must be csr_matrix")
            _rec("fact", "PARDISO", state().get("pardiso"), state().get("mkl"))
            self.lu = _lu(A)

        def solve(self, b, x=None, transpose=False):
            return self.lu.solve(np.asarray(b, dtype=np.complex128))
    ms.MKLPardisoSolver = MKLPardisoSolver

    # PyAMG
    amg = mod("pyamg")
    agg = mod("pyamg.aggregation")
    amg.aggregation = agg

    class Multilevel:
        def __init__(self, A):
            if not isinstance(A, (sps.csr_matrix, sps.csr_array)):
                raise TypeError("A must be in CSR format")
            self.lu = _lu(A)

        def solve(self, b, x0=None, tol=1e-5, maxiter=100, cycle="V", accel=None, **kwargs):
            _rec("amg-solve", tol, accel)
            return self.lu.solve(np.asarray(b, dtype=np.complex128))

    def rootnode_solver(A, **k):
        _rec("fact", "PyAMG", "root")
        return Multilevel(A)

    def adaptive_sa_solver(A, **k):
        _rec("fact", "PyAMG", "adapt")
        return Multilevel(A), 1.0
    agg.rootnode_solver = rootnode_solver
    agg.adaptive_sa_solver = adaptive_sa_solver
    return mods


MODS = None


@contextlib.contextmanager
def installed():
    """Make the stand-ins importable (also forces the SciPy FFT to overwrite what it may overwrite)."""
    global MODS
    if MODS is None:
        MODS = build()
    _NONE.clear()
    saved = {k: sys.modules.get(k) for k in MODS}
    sys.modules.update(MODS)
    old = (sfft.fftn, sfft.ifftn)

    def wrap(real):
        def inner(x, s=None, axes=None, norm=None, overwrite_x=False, workers=None, **kwargs):
            y = real(x, s, axes, norm, False, workers, **kwargs)
            if overwrite_x and not np.may_share_memory(x, y):
                scribble(x, True)
            return y
        return inner
    sfft.fftn = wrap(old[0])
    sfft.ifftn = wrap(old[1])
    try:
        yield
    finally:
        (sfft.fftn, sfft.ifftn) = old
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
