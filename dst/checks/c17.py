"""C17: the GERBER conversion reports the failures of the external tools, and cleans up."""

import copy
import json
import os
import re

from .. import shell, sim, simfs, work
from .c05 import image

ID = "C17"
LEVEL = "fault_enumeration"
RUNS = (3000, 60000)
RULE = ("A case is a history of 1 to 4 conversions in one simulated process (random stacks of layers, colours, files, folders with unusual characters, margins, resolutions) with simulated "
        "external programs (gerbv interprets the project file, mogrify interprets its options; the images record what was done). At most one fault per conversion, at a random program "
        "call or file operation: exit code, signal, missing program, failing start, interrupt, full disk, unwritable folder, damaged arguments; a failing tool may leave a partial image. "
        "The images, the order of the calls, the remaining files, and the exceptions are compared with a model. Nontrivial: a fault fired, or an image was made.")
REAL = ["pypeec.utils.gerber (complete)", "subprocess.run (above Popen)", "real files behind the simulated operations"]
STUB = ["gerbv and mogrify (simulated programs)", "subprocess.Popen, os.system, and the shell", "raw file operations"]
ASSUMPTIONS = ["the tools behave as documented and report their failures with their exit status", "the project files use the string syntax of Scheme (backslash escapes)"]
PROBES = ["conversion complete", "fault: exit", "fault: signal", "fault: missing", "fault: spawn", "fault: interrupt", "fault: disk", "fault: arguments", "fault: folder", "failure after the first layer",
          "failure at the first program", "failure at a later program", "conversion after a failure", "several layers", "empty stack", "unusual names", "relative folders", "partial image"]

COLORS = {"none": (255, 255, 255), "copper": (255, 0, 0), "sink": (0, 0, 255), "src": (0, 255, 0), "dark": (1, 2, 3), "odd": (17, 0, 254)}
NAMES = ["front", "back", "top layer", "a-b_c", "L1&L2", "via(1)", "it;s", "$x", "-dash", "t.1", 'q"t', "b\\n", "o'k"]
FOLDERS = ["png", "out", "my pcb", "R&D", "x(y)", "a/b", "$HOME", '3" pcb', "c:\\pcb"]


class Model:
    """Reference of the conversion."""

    def __init__(self, export, gerber, stack, cwd):
        (self.export, self.gerber, self.stack, self.cwd) = (export, gerber, stack, cwd)

    def path(self, tag, ext):
        return os.path.join(os.path.realpath(os.path.join(self.cwd, self.export["folder_png"])), tag+ext)

    def image(self, tag):
        """Expected history of the image."""
        e = self.export
        folder = os.path.realpath(os.path.join(self.cwd, e["folder_gerber"]))
        scale = lambda c: [257*x for x in self.gerber["color_def"][c]] if isinstance(c, str) else [257*x for x in c]
        layers = [[os.path.join(folder, self.gerber["gerber_def"][x["gerber"]]), scale(x["color"])] for x in self.stack[tag]]
        return {"layers": layers, "edge": [os.path.join(folder, self.gerber["gerber_edge"]), scale(self.gerber["color_edge"])], "background": scale(self.gerber["color_background"]),
                "dpi": round(25.4e-3*e["oversampling"]/e["voxel"]), "border": round(100*e["margin"]), "ops": ["trim", "sample"], "sample": 100/e["oversampling"]}


def same(a, b):
    """Difference between two image histories."""
    for k in a:
        if k == "sample":
            if abs(a[k]-b.get(k, 0)) > 0.006:
                return "scaling %s instead of %s" % (b.get(k), a[k])
        elif a[k] != b.get(k):
            return "%s: %s instead of %s" % (k, b.get(k), a[k])
    return None


def parse_project(txt, cwd):
    """Content of a project file."""
    layers = {}
    if not txt.startswith("(gerbv-file-version!"):
        raise ValueError("version")
    for part in re.findall(r"\(define-layer!(.*?\n\))", txt, re.S):
        num = int(re.match(r"\s*(-?\d+)", part).group(1))
        name = re.search(r"'filename\s+\"((?:[^\"\\]|\\.)*)\"\)", part).group(1)
        name = re.sub(r"\\(.)", r"\1", name)
        color = [int(x) for x in re.search(r"'color\s+#\(([^)]*)\)", part).group(1).split()]
        alpha = re.search(r"'alpha\s+#\(([^)]*)\)", part)
        if num in layers or len(color) != 3:
            raise ValueError("layer")
        if num >= 0 and "'visible #t" not in part:
            continue
        if num >= 0 and (alpha is None or int(alpha.group(1)) != 65535):
            color = [x+0.5 for x in color]
        layers[num] = [os.path.realpath(os.path.join(cwd, name)), color]
    if -1 not in layers or "set-render-type!" not in txt:
        raise ValueError("incomplete project")
    return {"layers": [layers[k] for k in sorted(layers) if k > 0], "edge": layers.get(0), "background": layers[-1][1]}


def options(argv, flags):
    """Options with and without a value (flags: {option: (key, has a value)})."""
    out = {}
    rest = []
    args = list(argv[1:])
    while args:
        x = args.pop(0)
        key = x.split("=", 1)[0]
        if x == "--":
            rest += args
            break
        if key in flags:
            (name, value) = flags[key]
            if not value:
                out[name] = True
            elif "=" in x and key.startswith("--"):
                out[name] = x.split("=", 1)[1]
            elif args:
                out[name] = args.pop(0)
            else:
                return None, None
            out.setdefault("order", []).append(name)
        elif x.startswith("-"):
            return None, None
        else:
            rest.append(x)
    return out, rest


GERBV = {"-p": ("project", True), "--project": ("project", True), "-o": ("output", True), "--output": ("output", True), "-x": ("export", True), "--export": ("export", True),
         "-B": ("border", True), "--border": ("border", True), "-D": ("dpi", True), "--dpi": ("dpi", True)}
MOGRIFY = {"-trim": ("trim", False), "-sample": ("sample", True)}


class Tools:
    """Simulated gerbv and mogrify."""

    def __init__(self, env):
        self.env = env
        self.done = []
        self.partial = False

    def gerbv(self, argv, cwd):
        (opt, rest) = options(argv, GERBV)
        if opt is None or rest or not {"project", "output", "export", "dpi"} <= set(opt) or opt["export"] != "png":
            return 1
        try:
            name = os.path.join(cwd, opt["project"])
            with simfs.REAL_OPEN(name) as fid:
                txt = fid.read()
            data = parse_project(txt, os.path.dirname(name))
            data["dpi"] = int(opt["dpi"])
            data["border"] = int(opt.get("border", 5))
        except (OSError, ValueError, AttributeError):
            return 1
        data["ops"] = []
        return self.save(os.path.join(cwd, opt["output"]), data, "gerbv")

    def mogrify(self, argv, cwd):
        (opt, rest) = options(argv, MOGRIFY)
        if opt is None or len(rest) != 1 or "order" not in opt:
            return 1
        name = os.path.join(cwd, rest[0])
        try:
            with simfs.REAL_OPEN(name) as fid:
                data = json.load(fid)
            for key in opt["order"]:
                data["ops"].append(key)
                if key == "sample":
                    m = re.fullmatch(r"([0-9.]+)%", opt["sample"])
                    if m is None:
                        return 1
                    data["sample"] = float(m.group(1))
        except (OSError, ValueError):
            return 1
        return self.save(name, data, "mogrify")

    def save(self, name, data, tool):
        try:
            with simfs.REAL_OPEN(name, "w") as fid:
                fid.write("{ partial" if self.partial else json.dumps(data))
        except OSError:
            return 1
        self.done.append((tool, os.path.realpath(name)))
        return 0


def run(env):
    ch = env.ch
    fs = simfs.FileSystem(env, env.scratch)
    with sim.simulation(env):
        os.chdir(env.scratch)
        img = sim.new_image("main")
        with img.active():
            mod = img.load("pypeec.utils.gerber")
        failed = False
        for num in range(ch.int(1, 4, "n_calls")):
            failed = _case(env, ch, fs, img, mod, num, failed)
        env.sample = "; ".join(env.events)[:300]


def _case(env, ch, fs, img, mod, num, after):
    fs.buffer = ch.pick([8192, 64, 1], "buffer")
    fs.reset()
    root = os.path.realpath(env.scratch)

    # arguments
    names = ["gbr", "my gerber", "g"]
    folder_gerber = ch.pick(names, "folder_gerber")
    folder_png = ch.pick(FOLDERS, "folder_png")
    if folder_png not in ("png", "out"):
        env.probe("unusual names")
    os.makedirs(os.path.join(root, folder_gerber), exist_ok=True)
    if not os.path.isdir(os.path.join(root, folder_png)):
        os.makedirs(os.path.join(root, folder_png))
    cwd = root
    rel = ch.flag(0.5, "relative")
    if rel:
        env.probe("relative folders")
        if ch.flag(0.4, "cwd"):
            cwd = os.path.join(root, "a")
            os.makedirs(cwd, exist_ok=True)
            os.makedirs(os.path.join(cwd, "png"), exist_ok=True)
            os.makedirs(os.path.join(cwd, "gbr"), exist_ok=True)
            (folder_png, folder_gerber) = (ch.pick(["png", "../png", "b/../png", "."], "rel"), ch.pick(["gbr", "../gbr"], "rel"))
            os.makedirs(os.path.join(cwd, "b"), exist_ok=True)
            os.makedirs(os.path.join(root, "png"), exist_ok=True)
    else:
        folder_gerber = os.path.join(root, folder_gerber)
        folder_png = os.path.join(root, folder_png)
    tags = ch.perm(NAMES, "tags")[:ch.pick([1, 2, 3, 0, 4], "n_layers") if not ch.flag(0.03, "many") else ch.int(5, 13, "n_layers")]
    tags = [("./" if x.startswith("-") else "")+x if ch.flag(0.0, "x") else x for x in tags]
    gerbers = {"drill": "pcb-PTH.drl", "front": "pcb front.gbr", "back": "sub/back.gbr", "via": ch.pick(["v.drl", "v\"1.drl"], "via-name")}
    stack = {t: [{"gerber": ch.pick(list(gerbers), "gerber"), "color": ch.pick(list(COLORS), "color")} for _ in range(ch.pick([2, 1, 3, 0, 12], "n_stack"))] for t in tags}
    col = lambda: ch.pick([(255, 255, 255), (0, 0, 0), (10, 20, 30), [4, 5, 6]], "col")
    gerber = {"gerber_edge": ch.pick(["edge.gbr", "pcb edge.gbr"], "edge"), "color_edge": col(), "color_background": col(), "color_def": dict(COLORS), "gerber_def": gerbers}
    export = {"margin": ch.pick([0.1, 0.05, 0.29, 0.0, 0.57, 1.0], "margin"), "voxel": ch.pick([17.0e-6, 20e-6, 35e-6, 3.3e-6, 1e-4], "voxel"),
              "oversampling": ch.pick([1.0, 2, 4.0, 3.0, 1.5], "oversampling"), "folder_gerber": folder_gerber, "folder_png": folder_png}
    if len(tags) > 1:
        env.probe("several layers")
    if not tags:
        env.probe("empty stack")
    model = Model(copy.deepcopy(export), copy.deepcopy(gerber), copy.deepcopy(stack), cwd)

    # fault
    tools = Tools(env)
    sh = shell.Shell(env, {"gerbv": tools.gerbv, "mogrify": tools.mogrify}, wrapper=ch.draw(2, "wrapper"))
    kind = ch.weighted([("none", 5), ("exit", 4), ("signal", 2), ("missing", 2), ("spawn", 1), ("interrupt", 2), ("disk", 3), ("arguments", 2), ("folder", 1)], "fault")
    at = ch.draw(max(1, 3*len(tags)), "at")
    code = {"exit": ch.pick([1, 2, 255, 127, 139, 77], "code"), "signal": -ch.pick([9, 11, 15, 6], "sig")}.get(kind)
    when = ch.pick(["before", "after"], "when")
    part = ch.flag(0.5, "partial")
    exc = ch.pick([OSError(11, "Resource temporarily unavailable"), OSError(12, "Cannot allocate memory"), PermissionError(13, "Permission denied")], "spawn")
    state = {"fired": None, "bad": None, "programs": 0, "spawned": 0, "exc": None}

    def fire(what, *args):
        state["fired"] = what
        state["programs"] = len(tools.done)
        state["layer"] = len({n for _, n in tools.done})
        env.fault(what, *args)
        env.probe("fault: "+what)

    def plan(name, argv, n):
        env.check(state["fired"] is None, "continued", lambda: "%s is started after a failure (%s)" % (name, state["fired"]))
        if name == "spawn":
            state["spawned"] += 1
            if kind == "spawn" and state["spawned"] == at+1:
                fire("spawn")
                state["exc"] = exc
                return exc
            return None
        if n != at:
            return None
        if kind in ("exit", "signal"):
            tools.partial = part
            if part and when == "after":
                env.probe("partial image")
            fire(kind, name, code, when)
            return (when, code)
        if kind == "missing":
            fire("missing", name)
            return "missing"
        if kind == "interrupt":
            fire("interrupt", name)
            state["exc"] = KeyboardInterrupt("simulated")
            state["exc"].simulated = True
            raise state["exc"]
        return None
    sh.plan = plan
    op = ch.pick(["write", "open_write", "close"], "op")
    opn = ch.draw(8, "opn")
    err = ch.pick(["ENOSPC", "EIO", "EACCES"], "err")
    size = ch.draw(300, "size")

    def fsplan(what, path, nbytes, n):
        if kind == "disk" and what == op and n == opn and state["fired"] is None:
            fire("disk")
            return (err, min(size, max(0, nbytes-1)))
        return None
    fs.plan = fsplan
    bad = None
    if kind == "arguments" and tags:
        t = ch.pick(tags, "which")
        what = ch.pick(["color", "gerber", "key"], "what")
        stack[t] = stack[t]+[{"gerber": "zz" if what == "gerber" else "drill", "color": "zz" if what == "color" else "none"}]
        if what == "key":
            del stack[t][-1]["color"]
        bad = t
        env.fault("arguments", what)
        env.probe("fault: arguments")
    elif kind == "folder" and tags:
        export["folder_png"] = os.path.join(root, "missing", "png")
        bad = tags[0]
        env.fault("folder")
        env.probe("fault: folder")
    before = simfs.snapshot(root)
    args = image((export, gerber, stack))
    env.event("call", num, kind, at, tags, export["folder_png"].replace(root, "$ROOT"), cwd == root)

    # conversion
    os.chdir(cwd)
    try:
        with img.active():
            state_before = sim.process_state()
            with fs.active(), sh.active():
                out = work.call(env, mod.get_convert, export, gerber, stack)
            diff = sim.same_process_state(state_before, sim.process_state())
    finally:
        os.chdir(root)
    fs.plan = None
    env.check(diff is None, "process-state", lambda: "%s: %s" % (out.kind(), diff))
    env.event("out", out.kind(), [os.path.basename(x) for _, x in tools.done])
    env.check(image((export, gerber, stack)) == args, "arguments", "the arguments were modified")
    if kind == "arguments" and bad is not None:
        model.stack = {k: v for k, v in stack.items()}

    # outcome
    failure = state["fired"] is not None or bad is not None
    if failure:
        env.check(not out.ok, "unreported", lambda: "the conversion returns although something failed (%s)" % (state["fired"] or kind))
        if state["exc"] is not None:
            env.check(out.exc is state["exc"] or out.exc.__cause__ is state["exc"], "exception", lambda: "%r instead of %r" % (out, state["exc"]))
        if kind != "interrupt":
            env.check(isinstance(out.exc, Exception), "exception", lambda: "%r" % out)
        if state["fired"] is not None:
            env.probe("failure after the first layer" if state["layer"] > 1 else ("failure at the first program" if state["programs"] == 0 else "failure at a later program"))
    else:
        env.check(out.ok, "wrong-failure", lambda: "the conversion fails without any fault: %r" % out)
        env.probe("conversion complete")
        if after:
            env.probe("conversion after a failure")
    now = simfs.snapshot(root)

    # complete layers, in the order of the stack
    expected = []
    for tag in tags:
        if tag == bad:
            break
        expected += [model.path(tag, ".png")]
    order = []
    for _, name in tools.done:
        if name not in order:
            order.append(name)
    env.check(order == expected[:len(order)], "order", lambda: "the images are made in the order %s" % [os.path.basename(x) for x in order])
    for i in range(1, len(tools.done)):
        env.check(expected.index(tools.done[i][1]) >= expected.index(tools.done[i-1][1]), "order", "the programs of the layers are mixed")
    if not failure:
        complete = expected
    elif bad is not None:
        complete = expected
    else:
        complete = order[:-1] if order else []
    for i, name in enumerate(complete):
        tag = tags[i]
        key = os.path.relpath(name, root)
        env.check(key in now, "missing-image", lambda: "the image of %s is missing" % tag)
        try:
            data = json.loads(now[key].decode())
        except ValueError:
            data = {}
        d = same(model.image(tag), data)
        env.check(d is None, "wrong-image", lambda: "image of %s: %s" % (tag, d))
        env.nontrivial = True

    # remaining files
    allowed = {os.path.relpath(x, root) for x in complete+order}
    for name in sorted(set(now) | set(before)):
        if name in allowed:
            continue
        env.check(name in before, "left-behind", lambda: "the file %s is left behind (%s)" % (name, state["fired"] or kind))
        env.check(name in now and now[name] == before[name], "changed", lambda: "the file %s was changed or removed" % name)
    return failure
