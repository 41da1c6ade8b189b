"""
Core of the simulator: one integer decides everything.

    - Chooser: every random choice (workload, schedule, delay, fault) is drawn here and recorded.
    - Env: per-run state (event log, fault counters, probes, simulated clock, scratch directory).
    - run_one / minimise / replay: a run is a pure function of (choices, hash seed, code).

The value 0 is always the simplest choice (no fault, serial order, smallest workload).
Therefore, a recorded list of choices is minimised by deleting, zeroing and lowering its items.
"""

import collections
import hashlib
import os
import random
import shutil
import signal
import tempfile
import traceback


class Violation(Exception):
    """The property is broken (message: what was observed)."""

    def __init__(self, kind, msg=""):
        super().__init__("%s: %s" % (kind, msg))
        self.kind = kind
        self.msg = str(msg)


class HarnessError(Exception):
    """The harness itself is broken (never reported as a violation)."""


class SimCrash(BaseException):
    """The simulated process dies here (kill -9, power loss)."""


class SimHang(BaseException):
    """The run exceeded its step budget or its wall-clock budget."""


class Chooser:
    """Single source of randomness for a run."""

    def __init__(self, seed=None, choices=None):
        self.rng = random.Random(seed) if choices is None else None
        self.given = choices
        self.pos = 0
        self.log = []
        self.labels = []
        self.limit = 200000

    def draw(self, n, label=""):
        """Integer in [0, n)."""
        if n <= 1:
            return 0
        if self.given is not None:
            v = self.given[self.pos] if self.pos < len(self.given) else 0
            v = int(v) % n
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        self.log.append(v)
        self.labels.append(label)
        if self.pos > self.limit:
            raise SimHang("too many choices")
        return v

    def flag(self, p, label=""):
        """True with probability p (the choice 0 is False)."""
        return self.draw(1000, label) >= 1000-int(round(1000*p))

    def pick(self, seq, label=""):
        """One item (the first one is the simplest)."""
        seq = list(seq)
        return seq[self.draw(len(seq), label)]

    def weighted(self, pairs, label=""):
        """One item of [(item, weight), ...] (the first one is the simplest)."""
        tot = sum(w for _, w in pairs)
        v = self.draw(tot, label)
        for item, w in pairs:
            if v < w:
                return item
            v -= w
        raise HarnessError("weighted")

    def int(self, lo, hi, label=""):
        """Integer in [lo, hi]."""
        return lo+self.draw(hi-lo+1, label)

    def real(self, lo, hi, label="", steps=200):
        """Real number in [lo, hi] on a grid (never exactly round numbers only)."""
        return lo+(hi-lo)*self.draw(steps+1, label)/steps

    def perm(self, seq, label=""):
        """Permutation (all zero is the identity)."""
        seq = list(seq)
        out = []
        while seq:
            out.append(seq.pop(self.draw(len(seq), label)))
        return out

    def subset(self, seq, p, label=""):
        """Subset, every item is kept with probability p."""
        return [x for x in seq if self.flag(p, label)]


class Env:
    """State and recording of a single run."""

    def __init__(self, ch, verbose=False):
        self.ch = ch
        self.events = []
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.evals = 0
        self.sim_time = 0.0
        self.steps = 0
        self.step_limit = 2_000_000
        self.nontrivial = False
        self.sample = None
        self.verbose = verbose
        self.restricted = False
        self._scratch = None
        self.cleanups = []

    def event(self, *args):
        """Log an event (part of the signature of the run)."""
        txt = " ".join(str(x) for x in args)
        self.events.append(txt)
        if self.verbose:
            print("    |", txt, flush=True)

    def fault(self, kind, *args):
        """Log a fault that actually fired."""
        self.faults[kind] += 1
        self.nontrivial = True
        self.event("FAULT", kind, *args)

    def probe(self, name):
        """Count a rare condition."""
        self.probes[name] += 1

    def step(self, n=1):
        """Count a step (bounded runs)."""
        self.steps += n
        if self.steps > self.step_limit:
            raise SimHang("step limit")

    def check(self, cond, kind, msg=""):
        """Check an invariant."""
        if not cond:
            raise Violation(kind, msg() if callable(msg) else msg)

    @property
    def scratch(self):
        """Scratch directory of the run (removed at the end)."""
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix="dst_")
        return self._scratch

    def close(self):
        for fct in reversed(self.cleanups):
            fct()
        if self._scratch is not None:
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None

    def signature(self):
        txt = "\n".join(self.events)
        if self._scratch is not None:
            txt = txt.replace(self._scratch, "$SCRATCH")
        return hashlib.sha1(txt.encode()).hexdigest()[:16]


class Result:
    """Result of a single run."""

    def __init__(self):
        self.kind = None        # violation class (or None)
        self.msg = None
        self.error = None       # harness error (traceback)
        self.choices = None
        self.labels = None
        self.events = None
        self.sig = None
        self.env = None


def run_one(check, seed=None, choices=None, wall=60.0, verbose=False):
    """Execute a single simulated run."""

    ch = Chooser(seed=seed, choices=choices)
    env = Env(ch, verbose)
    res = Result()

    def on_alarm(*_):
        raise SimHang("no end")

    # the limit is a computation time (a slow or loaded computer is not a hang), a blocked run is stopped later
    timers = [(signal.SIGPROF, signal.ITIMER_PROF, wall), (signal.SIGALRM, signal.ITIMER_REAL, 2.5*wall)]
    old = [signal.signal(sig, on_alarm) for (sig, _, _) in timers]
    for (_, timer, limit) in timers:
        signal.setitimer(timer, limit)

    def stop():
        for (_, timer, _) in timers:
            signal.setitimer(timer, 0)

    try:
        check.run(env)
    except Violation as ex:
        res.kind = ex.kind
        res.msg = ex.msg
    except SimHang as ex:
        stop()
        if getattr(check, "HANG_IS_VIOLATION", False):
            res.kind = "no-progress"
            res.msg = "the run did not end: %s / %s" % (ex, "".join(traceback.format_tb(ex.__traceback__)[-3:]))
        else:
            res.error = "hang: " + traceback.format_exc()
    except BaseException as ex:
        if isinstance(ex, KeyboardInterrupt) and not getattr(ex, "simulated", False):
            raise
        res.error = traceback.format_exc()
    finally:
        stop()
        for ((sig, _, _), val) in zip(timers, old):
            signal.signal(sig, val)
        res.sig = env.signature()
        if env._scratch is not None:
            env.events = [x.replace(env._scratch, "$SCRATCH") for x in env.events]
            if res.msg:
                res.msg = res.msg.replace(env._scratch, "$SCRATCH")
        try:
            env.close()
        except Exception:
            res.error = res.error or traceback.format_exc()

    res.choices = list(ch.log)
    res.labels = list(ch.labels)
    res.events = env.events
    res.env = env
    return res


def minimise(check, choices, kind, budget, wall=60.0):
    """
    Minimise the recorded choices while the same violation class persists.
    Chunks are deleted, zeroed, and single items are lowered.
    """

    import time
    t_end = time.monotonic()+budget
    best = list(choices)
    n_try = 0

    def ok(cand):
        nonlocal n_try
        n_try += 1
        res = run_one(check, choices=cand, wall=wall)
        if res.kind == kind and res.error is None:
            return res
        return None

    def strip(x):
        x = list(x)
        while x and x[-1] == 0:
            x.pop()
        return x

    best = strip(best)
    improved = True
    while improved and time.monotonic() < t_end:
        improved = False

        # delete and zero chunks
        size = max(1, len(best)//2)
        while size >= 1 and time.monotonic() < t_end:
            i = 0
            while i < len(best) and time.monotonic() < t_end:
                for mode in ("del", "zero"):
                    if mode == "del":
                        cand = best[:i]+best[i+size:]
                    else:
                        if not any(best[i:i+size]):
                            continue
                        cand = best[:i]+[0]*len(best[i:i+size])+best[i+size:]
                    cand = strip(cand)
                    if (len(cand), sum(cand)) >= (len(best), sum(best)):
                        continue
                    res = ok(cand)
                    if res is not None:
                        best = strip(res.choices) if len(strip(res.choices)) <= len(cand) else cand
                        improved = True
                        break
                else:
                    i += size
            if size == 1:
                break
            size = max(1, size//2)

        # lower single items
        for i in range(len(best)):
            if time.monotonic() > t_end or i >= len(best):
                break
            if best[i] == 0:
                continue
            for val in (best[i]//2, best[i]-1):
                cand = strip(best[:i]+[val]+best[i+1:])
                if ok(cand) is not None:
                    best = cand
                    improved = True
                    break

    return best, n_try
