"""
Simulated pool of worker processes (the joblib backends used by the sweeps).

The tasks are pickled with cloudpickle when they are submitted, executed in the process image of a
simulated worker, and their results are pickled back, as with the real process pools. The seeded
scheduler decides which worker takes which task, when the tasks start and finish, when the workers are
replaced, how many tasks are put in a batch, and which faults are injected. The completion callbacks run
when joblib waits for results (the sleep in its retrieval loop is the scheduling point).
"""

import contextlib
import io
import pickle
import types

import joblib
import joblib.parallel
import numpy as np
from joblib._parallel_backends import FallbackToBackend, ParallelBackendBase, SequentialBackend
from joblib.externals import cloudpickle
from joblib.externals.loky.process_executor import BrokenProcessPool, TerminatedWorkerError

from . import sim
from .core import SimHang

CUR = None


def _make_readonly(arr):
    arr = np.asarray(arr)
    arr.flags.writeable = False
    return arr


class _Pickler(cloudpickle.Pickler):
    """Pickler with read-only arrays above a threshold (as done with the memory mapping)."""

    def __init__(self, fid, threshold, count):
        super().__init__(fid, protocol=pickle.HIGHEST_PROTOCOL)
        self.threshold = threshold
        self.count = count
        self.inside = False

    def reducer_override(self, obj):
        if type(obj) is np.ndarray and self.threshold is not None and not obj.dtype.hasobject and obj.nbytes > self.threshold:
            self.count[0] += 1
            data = pickle.dumps(np.array(obj, order="K", copy=True), protocol=pickle.HIGHEST_PROTOCOL)
            return _load_readonly, (data,)
        if obj is sim.real_datetime.datetime:
            return _real_datetime, ()
        return super().reducer_override(obj)


def _real_datetime():
    return sim.real_datetime.datetime


def _load_readonly(data):
    return _make_readonly(pickle.loads(data))


class _Future:
    """Result of a task."""

    def __init__(self):
        self.value = None
        self.error = None
        self.done = False

    def result(self, timeout=None):
        if self.error is not None:
            raise self.error
        return self.value

    get = result


class _Task:
    def __init__(self, num, blob, callback, future):
        self.num = num
        self.blob = blob
        self.callback = callback
        self.future = future
        self.state = "queued"
        self.worker = None
        self.out = None


class Pool:
    """
    Simulated pool of processes.
        - fault_fct: called at the named points, can inject a fault (see checks).
    """

    def __init__(self, env, parent):
        self.env = env
        self.parent = parent
        self.workers = []
        self.tasks = []
        self.queue = []
        self.broken = None
        self.n_jobs = 0
        self.max_run = 0
        self.configs = []          # (number of workers, thread limit) of the calls
        ch = env.ch
        # swarm configuration of the run
        self.threshold = ch.pick([None, 0, 256, 4096], "ro-threshold")
        self.p_reuse = ch.pick([1.0, 0.5, 0.0], "worker-reuse")
        self.style = ch.pick(["fifo", "random", "lifo", "late"], "sched-style")
        self.batch_max = ch.pick([1, 2, 4], "batch-max")
        self.cores = ch.pick([4, 2, 8, 3], "cores")
        self.hook_task = None      # (pool, task, worker) before the execution, can raise
        self.hook_point = None     # (name, pool, task) -> None or a fault name
        self.hook_wait = None      # called when joblib waits for the results, can raise
        self.current = None        # task being executed
        self.running = []
        self.ro = 0
        self.n_tasks = 0
        self.n_workers = 0
        self.completion_order = []

    # ------------------------------------------------------------- submit
    def submit(self, func, callback):
        ch = self.env.ch
        self.env.step()
        fut = _Future()
        task = _Task(self.n_tasks, None, callback, fut)
        self.n_tasks += 1
        self.env.event("submit", task.num)
        self.tasks.append(task)
        if self.broken is not None:
            fut.error = self.broken
            task.state = "finished"
            self.queue_done(task)
            return fut
        try:
            fault = self.hook_point("submit", self, task) if self.hook_point else None
            if fault == "pickle":
                self.env.fault("submit-pickle-error", task.num)
                raise pickle.PicklingError("Could not pickle the task to send it to the workers.")
            count = [0]
            fid = io.BytesIO()
            _Pickler(fid, self.threshold, count).dump(func)
            task.blob = fid.getvalue()
            self.ro += count[0]
        except BaseException as ex:
            fut.error = ex if not isinstance(ex, Exception) else _as_pickling_error(ex)
            task.state = "finished"
            self.queue_done(task)
            return fut
        self.queue.append(task)
        return fut

    def queue_done(self, task):
        self.running.append(task)

    # ------------------------------------------------------------- schedule
    def _get_worker(self):
        """Find an idle worker (or start one)."""
        ch = self.env.ch
        busy = {t.worker for t in self.running if t.worker is not None}
        idle = [w for w in self.workers if w not in busy]
        if idle and (len(self.workers) >= self.n_jobs or not ch.flag(0.3, "worker-new")):
            i = ch.draw(len(idle), "worker")
            w = idle[i]
            if not self.p_reuse == 1.0 and not ch.flag(self.p_reuse, "worker-keep"):
                self.workers.remove(w)
                w = self._new_worker()
            else:
                self.env.event("worker-reuse", w.name)
                self.env.probe("worker reused")
            return w
        return self._new_worker()

    def _new_worker(self):
        self.n_workers += 1
        w = sim.Image("w%d" % self.n_workers)
        self.workers.append(w)
        self.env.event("worker-new", w.name)
        self.env.probe("worker started")
        return w

    def _pick(self, items, label):
        ch = self.env.ch
        if self.style == "fifo":
            return items[0]
        if self.style == "lifo":
            return items[-1]
        return ch.pick(items, label)

    def _execute(self, task):
        """Execute a task in a worker image (the result is delivered later)."""
        env = self.env
        fault = self.hook_point("start", self, task) if self.hook_point else None
        if fault == "kill":
            env.fault("worker-killed-before-task", task.num)
            return self._kill(task)
        worker = task.worker
        with worker.active():
            try:
                func = pickle.loads(task.blob)
            except BaseException as ex:
                task.out = ("error", BrokenProcessPool("A task has failed to un-serialize. %r" % ex))
                self.broken = task.out[1]
                return
            try:
                if self.hook_task is not None:
                    self.hook_task(self, task, worker)
                self.current = task
                value = func()
                res = ("value", value)
            except KillWorker:
                env.fault("worker-killed-in-task", task.num)
                return self._kill(task)
            except Exception as ex:
                res = ("error", ex)
            finally:
                self.current = None
            fault = self.hook_point("result", self, task) if self.hook_point else None
            if fault == "kill":
                env.fault("worker-killed-after-task", task.num)
                return self._kill(task)
            if fault == "pickle":
                env.fault("result-pickle-error", task.num)
                res = ("error", pickle.PicklingError("The task result could not be pickled"))
            try:
                ro = [0]
                fid = io.BytesIO()
                _Pickler(fid, self.threshold, ro).dump(res)
                self.ro += ro[0]
                blob = fid.getvalue()
            except Exception as ex:
                blob = pickle.dumps(("error", _as_pickling_error(ex)))
        with self.parent.active():
            try:
                task.out = pickle.loads(blob)
            except Exception as ex:
                task.out = ("error", BrokenProcessPool("A result has failed to un-serialize. %r" % ex))

    def _kill(self, task):
        """A worker dies: the executor is broken, all the pending tasks fail."""
        err = TerminatedWorkerError("A worker process managed by the executor was unexpectedly terminated.")
        self.broken = err
        task.out = ("error", err)
        for t in self.queue:
            t.out = ("error", err)
            t.state = "finished"
            self.running.append(t)
        self.queue = []
        for t in self.running:
            if t.state == "running":
                t.out = ("error", err)
        self.workers = []

    def advance(self):
        """Let the simulated pool make one step: start or finish a task."""
        env = self.env
        env.step()
        can_start = self.queue and len([t for t in self.running if t.worker is not None]) < max(1, self.n_jobs)
        can_end = bool(self.running)
        if not can_start and not can_end:
            raise SimHang("deadlock: waiting for results but no task is pending")
        if can_start and can_end:
            # "late": fill all the workers before finishing something
            start = True if self.style in ("late", "fifo") else env.ch.draw(2, "start-or-end") == 0
        else:
            start = can_start
        if start:
            task = self._pick(self.queue, "start")
            self.queue.remove(task)
            task.worker = self._get_worker()
            task.state = "running"
            self.running.append(task)
            self.max_run = max(self.max_run, len(self.running))
            env.event("start", task.num, task.worker.name)
            self._execute(task)
        else:
            task = self._pick(self.running, "end")
            self.running.remove(task)
            task.state = "done"
            self.completion_order.append(task.num)
            (kind, value) = task.out if task.out is not None else ("error", task.future.error)
            if kind == "error":
                task.future.error = value
            else:
                task.future.value = value
            task.future.done = True
            task.worker = None
            env.event("end", task.num, kind)
            sim.CLOCK.advance(env.ch.draw(20, "task-time")*0.1)
            if task.callback is not None:
                task.callback(task.future)

    def reset(self):
        """The executor is restarted (abort)."""
        for task in self.queue+self.running:
            task.callback = None
        self.queue = []
        self.running = []
        self.workers = []
        self.broken = None

    def idle(self):
        return not self.queue and not self.running


class KillWorker(BaseException):
    """Raised inside a task: the worker process dies at this point."""


def _as_pickling_error(ex):
    err = pickle.PicklingError("Could not pickle the task or its result.")
    err.__cause__ = ex
    return err


class SimBackend(ParallelBackendBase):
    """Joblib backend running on the simulated pool."""

    supports_retrieve_callback = True
    supports_inner_max_num_threads = True
    supports_return_generator = True
    supports_timeout = True

    def effective_n_jobs(self, n_jobs):
        if n_jobs == 0:
            raise ValueError('n_jobs == 0 in Parallel has no meaning')
        if n_jobs is None:
            return 1
        if n_jobs < 0:
            return max(CUR.cores+1+n_jobs, 1)
        return n_jobs

    def configure(self, n_jobs=1, parallel=None, prefer=None, require=None, **kwargs):
        n_jobs = self.effective_n_jobs(n_jobs)
        CUR.configs.append((n_jobs, self.inner_max_num_threads))
        if n_jobs == 1:
            raise FallbackToBackend(SequentialBackend(nesting_level=self.nesting_level))
        self.parallel = parallel
        self._workers = types.SimpleNamespace(
            _temp_folder_manager=types.SimpleNamespace(set_current_context=lambda *_: None))
        if CUR.n_jobs != n_jobs:
            # the executor is resized: the workers are restarted or kept
            CUR.workers = CUR.workers[:n_jobs]
            CUR.n_jobs = n_jobs
        if CUR.broken is not None:
            CUR.reset()
        return n_jobs

    def apply_async(self, func, callback=None):
        return CUR.submit(func, callback)

    submit = apply_async

    def retrieve_result_callback(self, out):
        return out.result()

    def compute_batch_size(self):
        return 1+CUR.env.ch.draw(CUR.batch_max, "batch")

    def terminate(self):
        self._workers = None

    def abort_everything(self, ensure_ready=True):
        CUR.reset()
        if ensure_ready:
            self.configure(n_jobs=self.parallel.n_jobs, parallel=self.parallel)


class _TimeShim:
    """Module "time" as seen by joblib.parallel."""

    @staticmethod
    def time():
        return sim.CLOCK.now_wall()

    @staticmethod
    def sleep(dt):
        sim.CLOCK.advance(dt)
        if CUR is not None:
            if CUR.hook_wait is not None:
                CUR.hook_wait()
            CUR.advance()

    @staticmethod
    def perf_counter():
        return sim.CLOCK.now_mono()

    monotonic = perf_counter


@contextlib.contextmanager
def simulated(env, parent):
    """Replace the process pools of joblib by the simulated one."""
    global CUR
    pool = Pool(env, parent)
    saved = dict(joblib.parallel.BACKENDS)
    saved_time = joblib.parallel.time
    old = CUR
    CUR = pool
    joblib.parallel.BACKENDS["loky"] = SimBackend
    joblib.parallel.BACKENDS["multiprocessing"] = SimBackend
    joblib.parallel.BACKENDS["threading"] = SimThreading
    joblib.parallel.time = _TimeShim
    try:
        yield pool
    finally:
        joblib.parallel.BACKENDS.clear()
        joblib.parallel.BACKENDS.update(saved)
        joblib.parallel.time = saved_time
        CUR = old


class SimThreading(SimBackend):
    """Threads in place of processes: shared process image, nothing is pickled."""

    uses_threads = True
    supports_sharedmem = True

    def apply_async(self, func, callback=None):
        pool = CUR
        fut = _Future()
        task = _Task(pool.n_tasks, None, callback, fut)
        pool.n_tasks += 1
        try:
            task.out = ("value", func())
        except Exception as ex:
            task.out = ("error", ex)
        pool.tasks.append(task)
        pool.running.append(task)
        return fut

    submit = apply_async
