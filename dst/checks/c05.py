"""C05: the arguments are never modified, and the results share no state with the arguments or with other results."""

import contextlib
import copy
import os
import random

import numpy as np

from .. import cmp, genplot, ops, plotcall, pool, sim, simplot, trace, work

ID = "C05"
LEVEL = "fault_enumeration"
RUNS = (700, 16000)
RULE = ("A case is a history of calls of one simulated process that share their objects: geometries, problems, options, and plot definitions are used by several calls, the "
        "voxel structures and solutions returned by a call are handed over to the following ones, and the utilities are called with lists or arrays. The calls succeed, fail "
        "(damaged arguments, worker faults), or are interrupted at a random executed line. A monitor compares every live object (arguments and earlier results) exactly, "
        "including types, key order, array flags and layout, with its image before the call. Returned objects are overwritten in place, and the calls are repeated and compared "
        "with a new process. Nontrivial: objects shared by two calls, or a fault.")
REAL = ["pypeec mesher, solver, viewer, plotter, and utilities (complete)", "SciPy, joblib, Pillow, Shapely, Rasterio, PyVista datasets, Matplotlib figures"]
STUB = ["joblib process pool", "PyVista rendering and Qt", "clock"]
ASSUMPTIONS = ["no concurrent modification of the arguments by other threads during a call", "problems with up to 16 voxels"]
PROBES = ["argument shared by two calls", "result used by a following call", "result overwritten", "call repeated after an overwrite", "failing call", "interrupted call", "parallel call",
          "mesh", "solve", "util", "viewer", "plotter", "arguments as arrays", "overlapping arguments"]


def image(obj, seen=None):
    """Exact image of an object (values, types, key order, array flags, and layout)."""
    if isinstance(obj, dict):
        return ("dict", type(obj).__name__, [(k, image(v)) for k, v in obj.items()])
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, [image(x) for x in obj])
    if isinstance(obj, np.ndarray):
        return ("array", obj.dtype.str, obj.shape, obj.flags.writeable, [image(x) for x in obj.ravel()] if obj.dtype == object else obj.tobytes())
    if isinstance(obj, (float, complex, np.generic)):
        return (type(obj).__name__, np.array(obj).tobytes())
    if obj is None or isinstance(obj, (bool, int, str)):
        return (type(obj).__name__, obj)
    if hasattr(obj, "toarray"):
        return (type(obj).__name__, image(obj.toarray()))
    if hasattr(obj, "array_names"):
        # PyVista dataset
        return (type(obj).__name__, image(np.asarray(obj.points)), [(k, image(np.asarray(obj[k]))) for k in sorted(obj.array_names)])
    return (type(obj).__name__, repr(obj))


def where(a, b, path=""):
    """First difference between two images."""
    if a == b:
        return None
    if a[0] == b[0] == "dict":
        (x, y) = (dict(a[2]), dict(b[2]))
        for k in x:
            if k not in y:
                return "%s/%s removed" % (path, k)
            d = where(x[k], y[k], "%s/%s" % (path, k))
            if d:
                return d
        new = [k for k in y if k not in x]
        return "%s/%s added" % (path, new[0]) if new else "%s: order of the keys" % path
    if a[0] == b[0] and a[0] in ("list", "tuple"):
        if len(a[1]) != len(b[1]):
            return "%s: length %d instead of %d" % (path, len(b[1]), len(a[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            d = where(x, y, "%s[%d]" % (path, i))
            if d:
                return d
    return "%s: %s instead of %s" % (path, str(b)[:80], str(a)[:80])


class Monitor:
    """Live objects of the caller."""

    def __init__(self, env):
        self.env = env
        self.objs = []

    def add(self, name, obj):
        self.objs.append([name, obj, image(obj)])

    def drop(self, obj):
        self.objs = [x for x in self.objs if x[1] is not obj]

    def check(self, kind, what):
        for name, obj, img in self.objs:
            now = image(obj)
            self.env.check(now == img, kind, lambda: "%s: %s: %s" % (what, name, where(img, now)))


def scramble(ch, obj, depth=0):
    """Overwrite a result in place, everywhere."""
    if isinstance(obj, dict):
        for k in list(obj):
            if isinstance(obj[k], (dict, list, np.ndarray)):
                scramble(ch, obj[k], depth+1)
            else:
                obj[k] = "overwritten"
        if depth > 1 and ch.flag(0.1, "clear"):
            obj.clear()
        elif ch.flag(0.2, "new"):
            obj["zz_new"] = 1
    elif isinstance(obj, list):
        for x in obj:
            scramble(ch, x, depth+1)
        for i, x in enumerate(obj):
            if not isinstance(x, (dict, list, np.ndarray)):
                obj[i] = -7
        if ch.flag(0.3, "reverse"):
            obj.append(-1)
    elif isinstance(obj, np.ndarray):
        if not obj.flags.writeable:
            try:
                obj.flags.writeable = True
            except ValueError:
                # shared with a locked buffer
                return
        if obj.dtype.kind in "iufcb":
            obj[...] = True if obj.dtype.kind == "b" else -77
        elif obj.dtype == object:
            for x in obj.ravel():
                scramble(ch, x, depth+1)
    elif isinstance(obj, tuple):
        for x in obj:
            scramble(ch, x, depth+1)


def to_array(ch, env, obj):
    """Replace some lists of numbers by arrays, or share them with others."""
    if isinstance(obj, dict):
        for k, v in obj.items():
            if isinstance(v, list) and v and all(type(x) in (int, float) for x in v) and ch.flag(0.1, "array"):
                obj[k] = np.array(v)
                env.probe("arguments as arrays")
            else:
                to_array(ch, env, v)
    elif isinstance(obj, list):
        for v in obj:
            to_array(ch, env, v)


def overlap(ch, env, obj, cache):
    """Use the same object for equal parts of the arguments."""
    for k, v in (obj.items() if isinstance(obj, dict) else enumerate(obj)):
        if isinstance(v, (dict, list)) and v:
            overlap(ch, env, v, cache)
            key = repr(v)
            if key in cache and cache[key] is not v:
                obj[k] = cache[key]
                env.probe("overlapping arguments")
            else:
                cache[key] = v


def run(env):
    ch = env.ch
    gui = simplot.Gui(env)
    gui.script = lambda g: simplot.user_closes(ch, g)
    with sim.simulation(env), simplot.desktop(env, gui):
        mon = Monitor(env)
        calls = []
        voxs = []
        sols = []

        # objects of the caller
        for _ in range(ch.int(1, 3, "n_ops")):
            kind = ch.weighted([("solve", 5), ("mesh", 3), ("util", 3)], "kind")
            if kind == "solve":
                op = ops.solve_op(ch, env)
            elif kind == "mesh":
                op = ops.mesh_op(ch, env)
            else:
                op = ops.util_op(ch, env)
            if kind != "util" and ch.flag(0.15, "arrays"):
                for a in op.args:
                    to_array(ch, env, a)
            if kind != "util" and ch.flag(0.2, "overlap"):
                cache = {}
                for a in op.args:
                    if isinstance(a, dict) and "data_geom" not in a:
                        overlap(ch, env, a, cache)
            if ch.flag(0.15, "damage"):
                op = ops.corrupt(ch, op)
            calls.append(op)
            for i, a in enumerate(op.args):
                mon.add("%s argument %d" % (op.func, i), a)

        img = sim.new_image("caller")
        used = set()
        results = []
        with pool.simulated(env, img):
            for step in range(ch.int(2, 6, "n_steps")):
                what = ch.weighted([("op", 6), ("plot", 3), ("chain", 3)], "what")
                op = None
                if what == "plot" and (voxs or sols):
                    src = plotcall.Source.__new__(plotcall.Source)
                    src.vox = ch.pick(voxs, "vox") if voxs else None
                    src.sol = ch.pick(sols, "sol") if sols else None
                    call = plotcall.random_call(ch, src, env.scratch, ["qt", "nb", "save", "debug"], kind=None if src.vox is not None else "plotter")
                    mon.add("definition of the plots", call.spec)
                    for x in (call.tag_plot, call.tag_sweep):
                        if x is not None:
                            mon.add("list of tags", x)
                    if call.mode == "save":
                        call.folder = env.scratch
                    env.event("step", step, call.kind, call.mode)
                    env.probe(call.kind)
                    env.probe("result used by a following call")

                    def fct(around, call=call):
                        return call.run(env, img, copied=False, around=around)
                    parallel = False
                    name = call.kind
                else:
                    op = ch.pick(calls, "op")
                    if what == "chain" and voxs and op.kind == "solve":
                        # a voxel structure of the mesher is used directly
                        op = ops.Op("solve", op.module, op.func, [ch.pick(voxs, "vox")]+op.args[1:], op.note+"/chain")
                        env.probe("result used by a following call")
                    env.event("step", step, op.kind, op.func, op.note)
                    env.probe(op.kind)

                    def fct(around, op=op):
                        return op.call(env, img, around=around)
                    parallel = op.kind == "solve" and isinstance(op.args[2], dict) and op.args[2].get("parallel_sweep", {}).get("n_jobs") not in (0, 1, None)
                    name = op.func
                for a in ([] if op is None else op.args):
                    if id(a) in used:
                        env.probe("argument shared by two calls")
                        env.nontrivial = True
                    used.add(id(a))

                # call
                stop = None
                if ch.flag(0.25, "interrupt") and not parallel:
                    target = int(10**(ch.int(0, 420, "line")/100.0))

                    def make():
                        ex = KeyboardInterrupt("simulated")
                        ex.simulated = True
                        return ex
                    stop = trace.Lines(target=target, make=make)
                out = fct(stop.active() if stop is not None else None)
                if parallel:
                    env.probe("parallel call")
                if stop is not None and stop.fired:
                    env.fault("interrupt", stop.fired)
                    env.probe("interrupted call")
                elif not out.ok:
                    env.probe("failing call")
                    env.nontrivial = True
                env.event("out", out.kind())
                mon.check("modified", "%s (%s)" % (name, out.kind()))
                simplot_close(gui)

                # the result belongs to the caller
                if not out.ok or op is None:
                    continue
                if results:
                    env.nontrivial = True
                again = copy.deepcopy(out.value)
                if isinstance(out.value, (dict, list, np.ndarray, tuple)):
                    results.append((op, out.value, again))
                    mon.add("result of %s" % name, out.value)
                    if op.kind == "mesh" or (op.kind == "solve" and "data_geom" in out.value):
                        voxs.append(out.value)
                    elif op.kind == "solve":
                        sols.append(out.value)
                        voxs.append(op.args[0])

                # overwrite a result
                if results and ch.flag(0.5, "overwrite"):
                    (rop, val, saved) = results.pop(ch.draw(len(results), "result"))
                    voxs = [x for x in voxs if x is not val]
                    sols = [x for x in sols if x is not val]
                    mon.drop(val)
                    # the result can be the argument of known calls
                    if any(any(a is val for a in c.args) for c in calls):
                        continue
                    mon.check("modified", "preparation")
                    scramble(ch, val)
                    env.probe("result overwritten")
                    env.event("overwrite", rop.func)
                    mon.check("shared", "a result of %s was overwritten" % rop.func)
                    if ch.flag(0.5, "repeat") and not any(a is val for a in rop.args):
                        out = rop.call(env, img)
                        env.probe("call repeated after an overwrite")
                        env.check(out.ok, "repeated", lambda: "%s: %r after the previous result was overwritten" % (rop.func, out))
                        d = ops.same(env, rop, work.Outcome(value=saved), out)
                        env.check(d is None, "repeated", lambda: "%s: the result differs after the previous result was overwritten: %s" % (rop.func, d))
                        mon.check("modified", "repeated %s" % rop.func)
        env.sample = "; ".join(x for x in env.events if x.startswith(("step", "out", "over", "FAULT")))[:300]


def simplot_close(gui):
    """The user closes the remaining windows."""
    import matplotlib.pyplot
    for view in list(gui.views):
        view.closed = True
    matplotlib.pyplot.close("all")
