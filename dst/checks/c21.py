"""C21: the configured libraries and numerical options are the ones that compute."""

import contextlib
import copy
import os
import sys

from .. import gen, lin, pool, ref, sim, stubs, trace, work
from ..core import Violation

ID = "C21"
LEVEL = "exploration"
RUNS = (700, 24000)
RULE = ("A case is a sequence of 1-4 solver calls with different random options in one simulated process (with reused or new workers), some of them "
        "interrupted, failing in the factorization, or without some of the optional libraries. All the calls of the FFT, factorization, and iterative libraries "
        "are recorded with their options and compared with the configuration of the call. Nontrivial: at least two calls with different options.")
REAL = ["pypeec mesher and solver (complete)", "joblib.Parallel (dispatch, batching, retrieval)", "SciPy and NumPy FFT", "SciPy SuperLU, GMRES, GCROT, one-norm estimator"]
STUB = ["CuPy, FFTW, MKL-FFT, PARDISO, PyAMG (stand-ins following their contracts, with per-process state)", "joblib process pool (simulated workers)", "clock"]
ASSUMPTIONS = ["The multi-dimensional transforms of a solver call are made with fftn/ifftn of the libraries.", "A thread count of -k is the number of cores plus one minus k."]
PROBES = ["other options before", "call after an interruption", "call after a failure", "library missing", "unused library missing", "parallel call",
          "FFT NumPy", "FFT SciPy", "FFT FFTW", "FFT MKL", "FFT CuPy", "factorization SuperLU", "factorization PARDISO", "factorization PyAMG", "no FFT",
          "magnetic subsystem", "condition estimated"]

LIBS = {"FFTW": ["pyfftw", "pyfftw.interfaces", "pyfftw.interfaces.cache", "pyfftw.interfaces.numpy_fft"], "MKL": ["mkl_fft"], "CuPy": ["cupy", "cupy.fft"],
        "PARDISO": ["pydiso", "pydiso.mkl_solver"], "PyAMG": ["pyamg", "pyamg.aggregation"]}


class Record(lin.LinSim):
    """Record the options of all the calls of the libraries."""

    def __init__(self, env):
        super().__init__(env)
        self.seen = []
        self.norm = []

    def __call__(self, mod, name, real, args, kwargs):
        if name in ("fftn", "ifftn"):
            if mod == "numpy.fft":
                self.seen.append(("fft", "NumPy", None))
            else:
                workers = args[5] if len(args) > 5 else kwargs.get("workers")
                if workers is None:
                    import scipy.fft
                    workers = scipy.fft.get_workers()
                self.seen.append(("fft", "SciPy", threads(workers)))
        elif name == "splu" and not stubs.INSIDE:
            self.seen.append(("fact", "SuperLU"))
        elif name == "onenormest":
            self.norm.append((args[1] if len(args) > 1 else kwargs.get("t", 2), args[2] if len(args) > 2 else kwargs.get("itmax", 5)))
        return super().__call__(mod, name, real, args, kwargs)


def cores():
    """Accepted values for the number of cores."""
    out = {os.cpu_count()}
    with contextlib.suppress(AttributeError):
        out.add(len(os.sched_getaffinity(0)))
    return out


def threads(n):
    """Set of the numbers of threads that a setting stands for."""
    if n is None:
        return {None}
    if n < 0:
        return {c+1+n for c in cores()}
    return {max(n, 1)}


@contextlib.contextmanager
def missing(names):
    """Make libraries unavailable."""
    old = {k: sys.modules.get(k) for k in names}
    for k in names:
        sys.modules[k] = None
    try:
        yield
    finally:
        for k, v in old.items():
            sys.modules[k] = v


def options(ch, tol):
    """Random numerical options."""
    fft = tol["fft_options"]
    count = [-1, 0, 1, 2, 3, -2]
    fft["scipy_worker"] = ch.pick(count, "scipy-worker")
    fft["fftw_thread"] = ch.pick(count, "fftw-threads")
    fft["fftw_timeout"] = ch.pick([100.0, None, 5.0], "fftw-time")
    fft["fftw_byte_align"] = ch.pick([16, None, 32], "fftw-align")
    tol["mult_type"] = ch.pick(["fft", "fft", "direct"], "mult")
    fact = tol["factorization_options"]
    fact["pyamg_options"].update(tol=ch.pick([1e-6, 1e-8, 1e-3], "amg-tol"), krylov=ch.pick([None, "gmres", "fgmres"], "amg-krylov"))
    fact["pardiso_options"].update(thread_pardiso=ch.pick([-1, 0, 1, 2, None, -2], "pardiso"), thread_mkl=ch.pick([-1, 0, 1, 3, None, -2], "mkl"))
    so = tol["solver_options"]
    for o in (so["direct_options"], so["segregated_options"]["iter_electric_options"], so["segregated_options"]["iter_magnetic_options"]):
        o["rel_tol"] = ch.pick([1e-10, 1e-6, 1e-3], "it-rel")
        o["abs_tol"] = ch.pick([1e-30, 1e-20, 1e-25], "it-abs")
        o["n_inner"] = ch.int(5, 40, "n-inner")
        o["n_outer"] = ch.int(2, 20, "n-outer")
        o["solver"] = ch.pick(["gmres", "gcrot"], "it-solver")
    so["segregated_options"]["n_max"] = ch.int(2, 8, "n-max")
    cond = tol["condition_options"]
    cond["check"] = ch.flag(0.4, "cond")
    cond["norm_options"] = {"t_accuracy": ch.int(1, 4, "t"), "n_iter_max": ch.int(5, 30, "itmax")}
    return tol


def run(env):
    ch = env.ch
    with sim.simulation(env):
        # problems and voxel structures
        img = sim.new_image("parent")
        cases = []
        for _ in range(ch.pick([1, 1, 2], "problems")):
            (geo, prob, meta) = gen.random_case(ch, max_voxel=12, max_elec=6, n_sweep=ch.pick([1, 2, 3, 4], "sweeps"), points=False)
            out = work.mesh(env, img, geo)
            if not out.ok:
                raise Violation("mesher-failed", out)
            cases.append((out.value, prob))
        last = None
        with pool.simulated(env, img) as pl:
            for step in range(ch.int(1, 4, "steps")):
                (vox, prob) = ch.pick(cases, "case")
                tol = options(ch, gen.random_tolerance(ch))
                n_jobs = ch.pick([0, 2, 3, 1], "n_jobs")
                tol["parallel_sweep"]["n_jobs"] = n_jobs
                fft_lib = tol["fft_options"]["library"]
                fact_lib = tol["factorization_options"]["library"]
                used = {fact_lib}
                if tol["mult_type"] == "fft":
                    used.add(fft_lib)

                # faults
                fault = ch.weighted([(None, 6), ("interrupt", 1), ("factorization", 1), ("missing", 1), ("unused", 1)], "fault")
                gone = []
                if fault == "missing":
                    gone = [k for k in sorted(used) if k in LIBS]
                elif fault == "unused":
                    gone = [k for k in sorted(LIBS) if k not in used|{fft_lib}]
                rec = Record(env)
                with contextlib.ExitStack() as st:
                    stubs.RECORD = rec.seen
                    st.callback(setattr, stubs, "RECORD", None)
                    if fault == "factorization":
                        rec.splu_fct = broken(ch.int(0, 2, "when"))
                    if gone:
                        st.enter_context(missing([m for k in gone for m in LIBS[k]]))
                        env.fault("library-missing", "+".join(gone))
                    st.enter_context(lin.handler(rec))
                    if fault == "interrupt" and n_jobs == 0:
                        stop = trace.Lines(target=int(10**(ch.int(100, 420, "line")/100.0)), make=interrupt)
                        st.enter_context(stop.active())
                    out = work.solve(env, img, copy.deepcopy(vox), copy.deepcopy(prob), copy.deepcopy(tol))
                env.event("solve", fft_lib, fact_lib, tol["mult_type"], n_jobs, fault, out.kind(), len(rec.seen), len(rec.calls))
                if fault == "interrupt" and not out.ok:
                    env.fault("interrupted")
                if fault == "factorization" and not out.ok:
                    env.fault("factorization-failure")

                # the libraries and their options
                geom = ref.Geometry(vox["data_geom"], prob, tol)
                verify(env, rec, tol, out.ok, geom)
                if out.ok:
                    solvers(env, rec, tol, geom)
                    if pl.max_run > 1:
                        env.probe("parallel call")

                # availability
                if fault in (None, "unused") and not out.ok and not work.is_numeric(out.exc):
                    raise Violation("unexpected-exception" if fault is None else "unused-library-needed", "%s: %s" % (gone, out))
                if fault == "missing" and gone:
                    env.probe("library missing")
                    env.check(not out.ok or all(any(x[0] in ("fft", "fact") and x[1] == k for x in rec.seen) for k in gone), "missing-library-ignored", lambda: "%s: %s" % (gone, out))
                if fault == "unused" and out.ok:
                    env.probe("unused library missing")
                if last is not None:
                    env.nontrivial = True
                    env.probe("other options before")
                    if last != "ok":
                        env.probe("call after an interruption" if last == "interrupt" else "call after a failure")
                last = "ok" if out.ok else ("interrupt" if fault == "interrupt" else "failure")
        env.sample = "; ".join(x for x in env.events if x.startswith(("solve", "FAULT")))[:300]


def interrupt():
    ex = KeyboardInterrupt("simulated")
    ex.simulated = True
    return ex


def broken(n):
    """Factorization failing at some point."""
    count = [0]

    def splu(_ls, real, args, kwargs):
        count[0] += 1
        if count[0] > n:
            raise RuntimeError("Factor is exactly singular")
        return real(*args, **kwargs)
    return splu


def verify(env, rec, tol, ok, geom):
    """Libraries and options of the transforms, factorizations, and estimators."""
    fft = tol["fft_options"]
    fact = tol["factorization_options"]
    n_fft = 0
    n_fact = 0
    for x in rec.seen:
        if x[0] == "fft":
            n_fft += 1
            env.check(tol["mult_type"] == "fft", "transform-not-requested", lambda: "mult_type=direct: FFT with %s" % x[1])
            env.check(x[1] == fft["library"], "wrong-fft-library", lambda: "configured %s, used %s" % (fft["library"], x[1]))
            if x[1] == "SciPy":
                env.check(x[2] & threads(fft["scipy_worker"]), "wrong-fft-threads", lambda: "scipy_worker=%s: %s" % (fft["scipy_worker"], sorted(x[2])))
            elif x[1] == "FFTW":
                env.check(x[2] in threads(fft["fftw_thread"]), "wrong-fft-threads", lambda: "fftw_thread=%s: %s" % (fft["fftw_thread"], x[2]))
            env.probe("FFT %s" % x[1])
        elif x[0] == "cache":
            env.check(x[1] == fft["fftw_timeout"], "wrong-fft-cache", lambda: "fftw_timeout=%s: %s" % (fft["fftw_timeout"], x[1]))
        elif x[0] == "align":
            env.check(x[1] == fft["fftw_byte_align"], "wrong-fft-alignment", lambda: "fftw_byte_align=%s: %s" % (fft["fftw_byte_align"], x[1]))
        elif x[0] == "fact":
            if x[1] == "SuperLU" and fact["library"] != "SuperLU" and tol["condition_options"]["check"]:
                # decomposition of the condition estimate
                continue
            n_fact += 1
            env.check(x[1] == fact["library"], "wrong-factorization-library", lambda: "configured %s, used %s" % (fact["library"], x[1]))
            if x[1] == "PARDISO":
                for name, got in (("thread_pardiso", x[2]), ("thread_mkl", x[3])):
                    want = fact["pardiso_options"][name]
                    if want is not None:
                        env.check(got in threads(want), "wrong-factorization-threads", lambda: "%s=%s: %s" % (name, want, got))
            elif x[1] == "PyAMG":
                env.check(x[2] == fact["pyamg_options"]["solver"], "wrong-factorization-solver", lambda: "solver=%s: %s" % (fact["pyamg_options"]["solver"], x[2]))
            env.probe("factorization %s" % x[1])
        elif x[0] == "amg-solve":
            want = (fact["pyamg_options"]["tol"], fact["pyamg_options"]["krylov"])
            env.check(x[1:] == want, "wrong-factorization-options", lambda: "tol/krylov=%s: %s" % (want, x[1:]))
    cond = tol["condition_options"]
    for (t, itmax) in rec.norm:
        env.check(cond["check"], "condition-not-requested", "condition_options/check is false")
        o = cond["norm_options"]
        env.check((t, itmax) == (o["t_accuracy"], o["n_iter_max"]), "wrong-condition-options", lambda: "configured %s, used t=%s, itmax=%s" % (o, t, itmax))
    if ok:
        if tol["mult_type"] == "fft":
            env.check(n_fft > 0 or len(geom.fc) == 0, "no-transform", "mult_type=fft without any FFT")
        else:
            env.probe("no FFT")
        env.check(n_fact > 0, "no-factorization", fact["library"])
        if cond["check"]:
            env.check(rec.norm, "condition-not-estimated", "condition_options/check is true")
            env.probe("condition estimated")


def solvers(env, rec, tol, geom):
    """Options of the iterative solvers."""
    so = tol["solver_options"]
    seg = so["coupling"] == "segregated"
    nc = len(geom.fc)+len(geom.vc)+len(geom.src)
    nm = len(geom.fm)+len(geom.vm)
    for (k, call) in enumerate(rec.calls):
        n = len(call.b)
        if not seg:
            name = "direct_options"
            o = so[name]
        elif nm == 0 or (n == nc and nc != nm):
            name = "iter_electric_options"
            o = so["segregated_options"][name]
        elif n == nm and nc != nm:
            name = "iter_magnetic_options"
            o = so["segregated_options"][name]
            env.probe("magnetic subsystem")
        else:
            continue
        want = {"gmres": "gmres", "gcrot": "gcrotmk"}[o["solver"]]
        env.check(call.name == want, "wrong-solver", lambda: "%s: %s" % (name, call.name))
        got = (call.rtol, call.atol, call.inner, call.outer)
        ref_val = (o["rel_tol"], o["abs_tol"], o["n_inner"], o["n_outer"])
        env.check(got == ref_val, "wrong-solver-options", lambda: "%s: configured %s, used %s" % (name, ref_val, got))
