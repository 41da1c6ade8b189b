"""C16: damaged geometry files are rejected, never silently misread."""

import copy
import io
import os
import struct

import numpy as np
import PIL.Image as pmg

from .. import cmp, filecall, genmesh, sim, simfs, work

ID = "C16"
# the STL reader allocates (without using it) the memory for a declared number of triangles
MEMORY = None
LEVEL = "fault_enumeration"
RUNS = (1500, 30000)
RULE = ("A case is a layered-image or surface-mesh geometry and a history of 1 to 4 mesher calls in one simulated process (data or file calls, absolute or relative names). Before every "
        "call the content of every file is chosen (two intact variants, other folder), and at most one file is damaged (missing, folder, empty, truncated or filled with zeros from any byte, flipped bits, other format, text, other size, "
        "open surface, no triangle), or its reads fail, are short, or end early at a random position. The result is compared with the one of a new process with the intact "
        "content. Nontrivial: a damaged file, a failing read, or a changed file.")
REAL = ["pypeec mesher (complete)", "Pillow (decoder), PyVista/VTK (STL reader)", "real files behind the simulated operations (images)"]
STUB = ["raw file operations for the images (errors, short reads, early ends)", "clock"]
ASSUMPTIONS = ["damaged images: bursts of up to 32 bits, or a lost end (guaranteed to be detected by the checksums of the format)", "flipped bits of a surface mesh cannot be detected", "lost blocks (zeros) inside a surface mesh which leave another closed surface cannot be detected",
               "the STL files are read by compiled code: damaged files instead of failing reads"]
PROBES = ["png", "stl", "damage: missing", "damage: folder", "damage: empty", "damage: truncated", "damage: zeros", "damage: flip", "damage: format", "damage: text", "damage: size", "damage: transposed", "damage: open", "damage: header",
          "read: error", "read: open", "read: short", "read: end", "cut between two closed surfaces", "rejected", "read exactly in spite of the damage", "changed files", "other folder", "call after a rejection", "file call"]


def stl_points(raw):
    """Triangles of an STL file."""
    num = struct.unpack("<I", raw[80:84])[0] if len(raw) >= 84 else -1
    if len(raw) == 84+50*num:
        tri = [struct.unpack("<12f", raw[84+50*i:84+50*i+48])[3:] for i in range(num)]
    else:
        val = [float(x) for line in raw.decode().splitlines() if line.strip().startswith("vertex") for x in line.split()[1:]]
        tri = [val[9*i:9*i+9] for i in range(len(val)//9)]
    return np.array(tri).reshape(-1, 3)


def stl_closed(raw):
    """Whether the (non-degenerated) triangles form a closed surface."""
    try:
        tri = stl_points(raw).reshape(-1, 3, 3)
    except (ValueError, UnicodeDecodeError):
        return False
    edges = {}
    for t in tri:
        pts = [tuple(x) for x in t]
        if len(set(pts)) == 3:
            for (a, b) in ((0, 1), (1, 2), (2, 0)):
                key = frozenset((pts[a], pts[b]))
                edges[key] = edges.get(key, 0)+1
    return bool(edges) and all(x == 2 for x in edges.values())


def stl_parts(raw):
    """Number of the first triangles of a binary file which form a closed surface on their own."""
    if b"\0" not in raw[:84]:
        return []
    return [m for m in range(1, (len(raw)-84)//50) if stl_closed(raw[:80]+struct.pack("<I", m)+raw[84:84+50*m])]


def stl_variant(raw, ch, drop=0, shrink=None):
    """Other intact box (or an open surface)."""
    pts = stl_points(raw)
    (lo, hi) = (pts.min(axis=0), pts.max(axis=0))
    if shrink is not None:
        k = shrink % 3
        if shrink < 3:
            hi[k] = lo[k]+0.483*(hi[k]-lo[k])
        else:
            lo[k] = hi[k]-0.483*(hi[k]-lo[k])
    return genmesh.box_stl(list(lo), list(hi), ch.flag(0.5, "binary"), drop=drop)


def png_variant(raw, ch, how):
    """Other image."""
    img = pmg.open(io.BytesIO(raw)).convert("RGBA")
    arr = np.array(img)
    if how == "flip":
        arr = arr[::-1] if arr.shape[0] > 1 else arr[:, ::-1]
    elif how == "transposed":
        arr = np.swapaxes(arr, 0, 1)
    elif how == "crop":
        arr = arr[:-1] if arr.shape[0] > 1 else np.concatenate([arr, arr], axis=0)
    elif how == "grow":
        arr = np.concatenate([arr, arr[:, -1:]], axis=1)
    elif how == "single":
        arr = arr[:1, :1]
    out = io.BytesIO()
    pmg.fromarray(np.ascontiguousarray(arr), "RGBA").save(out, format="png")
    return out.getvalue(), arr.shape


def names_of(geo):
    data = geo["data_voxelize"]
    if geo["mesh_type"] == "png":
        return sorted({x for lay in data["layer_stack"] for x in lay["filename_list"]})
    return sorted({x["filename"] for v in data["domain_stl"].values() for x in v})


def rename(geo, fct):
    geo = copy.deepcopy(geo)
    data = geo["data_voxelize"]
    if geo["mesh_type"] == "png":
        for lay in data["layer_stack"]:
            lay["filename_list"] = [fct(x) for x in lay["filename_list"]]
    else:
        for v in data["domain_stl"].values():
            for x in v:
                x["filename"] = fct(x["filename"])
    return geo


def run(env):
    ch = env.ch
    fs = simfs.FileSystem(env, env.scratch)
    with sim.simulation(env):
        kind = ch.pick(["png", "png", "stl"], "mesh")
        (geo, spec) = genmesh.random_geometry(ch, env, kinds=(kind,))
        if geo["mesh_type"] != kind:
            env.event("no geometry")
            return
        env.probe(kind)
        geo["data_conflict"]["resolve_random"] = True
        intact = {}
        for name in names_of(geo):
            with simfs.REAL_OPEN(name, "rb") as fid:
                intact[os.path.basename(name)] = fid.read()
            os.remove(name)
        folders = [os.path.join(env.scratch, "one"), os.path.join(env.scratch, "two")]
        for x in folders:
            os.mkdir(x)
        other = {}
        for name, raw in sorted(intact.items()):
            other[name] = png_variant(raw, ch, "flip")[0] if kind == "png" else stl_variant(raw, ch, shrink=ch.draw(6, "shrink"))
        img = sim.new_image("main")
        expected = {}
        last = None
        rejected = False
        for num in range(ch.int(1, 4, "n_calls")):
            (last, rejected) = _call(env, ch, fs, img, geo, kind, intact, other, folders, expected, last, rejected, num)
        env.sample = "; ".join(env.events)[:300]


def _call(env, ch, fs, img, geo, kind, intact, other, folders, expected, last, rejected, num):
    names = sorted(intact)
    folder = folders[ch.pick([0, 0, 1], "folder")]
    relative = ch.flag(0.5, "relative")
    how = ch.pick(["data", "file"], "how")
    variant = {x: ch.draw(2, "variant") if ch.flag(0.4, "other") else 0 for x in names}
    content = {x: (other if variant[x] else intact)[x] for x in names}
    if last is not None and last != (folder, content):
        env.probe("changed files")
        env.nontrivial = True
        if last[0] != folder:
            env.probe("other folder")
    os.chdir(folder)
    target = rename(geo, lambda x: os.path.basename(x) if relative else os.path.join(folder, os.path.basename(x)))

    # result of a new process with the intact files
    key = tuple(sorted(variant.items()))
    for x in names:
        _write(os.path.join(folder, x), content[x])
    if key not in expected:
        np.random.seed(7)
        expected[key] = work.mesh(env, sim.new_image("reference"), copy.deepcopy(target))
    ref = expected[key]

    # damage of a file, or of its reads
    must = None
    what = None
    name = ch.pick(names, "victim")
    path = os.path.join(folder, name)
    raw = content[name]
    damage = [None, None, "missing", "folder", "empty", "truncated", "truncated", "truncated", "zeros", "format", "text"]
    damage += ["size", "transposed", "read", "read", "read", "flip", "flip"] if kind == "png" else ["open", "open", "header"]
    damage = ch.pick(damage, "damage")
    if damage is not None and damage != "read":
        os.remove(path)
        must = damage
        if damage == "folder":
            os.mkdir(path)
        elif damage == "empty":
            _write(path, b"")
        elif damage == "truncated":
            cut = ch.draw(len(raw), "cut")
            mode = ch.pick(["any", "any", "tail", "facet"] if kind == "png" else ["any", "tail", "facet", "facet"], "cut-mode")
            if mode == "facet" and kind == "stl" and ch.flag(0.7, "several-surfaces"):
                multi = [x for x in names if stl_parts(content[x])]
                if multi:
                    _write(path, raw)
                    name = ch.pick(multi, "multi")
                    path = os.path.join(folder, name)
                    raw = content[name]
                    cut = ch.draw(len(raw), "cut")
                    os.remove(path)
            if mode == "tail":
                cut = max(0, len(raw)-1-ch.draw(20, "tail"))
            if mode == "facet" and kind == "stl":
                if b"\0" in raw[:84]:
                    # complete triangles, preferably forming another closed surface
                    parts = stl_parts(raw)
                    m = ch.pick(parts, "part") if parts else max(0, (cut-84)//50)
                    cut = min(len(raw)-1, 84+50*m+ch.pick([0, 0, 0, 48, 1], "extra"))
                    if parts:
                        env.probe("cut between two closed surfaces")
                else:
                    cut = raw.rfind(b"endfacet", 0, cut)+9 if raw.rfind(b"endfacet", 0, cut) > 0 else cut
            _write(path, raw[:cut])
            must = None
            what = "truncated"
        elif damage == "zeros":
            # lost data at the end of the file
            cut = ch.draw(len(raw), "cut")
            new = raw[:cut]+b"\0"*(len(raw)-cut)
            if kind == "stl" and stl_closed(new) and stl_closed(raw):
                # another closed surface (no checksum in this format)
                new = raw[:cut]
            _write(path, new)
            must = None
            what = "zeros"
        elif damage == "flip":
            # flipped bits (a few bytes at most)
            pos = ch.draw(len(raw), "pos")
            num_bytes = ch.pick([1, 1, 2, 4], "num")
            part = bytes(x ^ (1 << ch.draw(8, "bit")) for x in raw[pos:pos+num_bytes])
            _write(path, raw[:pos]+part+raw[pos+num_bytes:])
            must = None
            what = "flip"
        elif damage == "format":
            fmt = ch.pick(["BMP", "GIF", "JPEG", "TIFF"], "format")
            out = io.BytesIO()
            src = pmg.open(io.BytesIO(raw)).convert("RGB") if kind == "png" else pmg.new("RGB", (5, 4))
            src.save(out, format=fmt)
            _write(path, out.getvalue())
        elif damage == "text":
            _write(path, ch.pick([b"hello world\n", b"\x00"*200, b"<html></html>", b"solid\n", b"\x89PNG\r\n\x1a\n"], "text"))
        elif damage in ("size", "transposed"):
            mode = ch.pick(["crop", "grow", "single"], "mode") if damage == "size" else "transposed"
            (new, shape) = png_variant(raw, ch, mode)
            _write(path, new)
            size = geo["data_voxelize"]["param"]["size"]
            if [shape[1], shape[0]] == list(size):
                # not another size
                must = "skip"
        elif damage == "open":
            _write(path, stl_variant(raw, ch, drop=ch.int(1, 11, "drop")))
        elif damage == "header":
            _write(path, ch.pick([b"\0"*80+struct.pack("<I", 0), b"solid box\nendsolid box\n", b"\0"*80, b"\0"*80+struct.pack("<I", 12)], "header"))
        if must == "skip":
            (must, damage) = (None, None)
            _write(path, raw)
        else:
            env.fault("damaged file", damage)
            env.probe("damage: "+damage)
    fs.reset()
    fs.buffer = ch.pick([8192, 64, 16, 512], "buffer")
    if damage == "read":
        mode = ch.pick(["error", "short", "end", "open"], "mode")
        at = int(10**(ch.int(0, 150, "at")/100.0))-1
        err = ch.pick(["EIO", "ENOMEM", "ESTALE"], "err")
        size = ch.int(1, 40, "size")
        again = ch.flag(0.5, "again")

        def plan(op, p, nbytes, n):
            if os.path.basename(p) not in names:
                return None
            if op == "open" and mode == "open" and n == at % 4:
                env.probe("read: open")
                return ("EACCES", 0)
            if op == "read":
                if mode == "short" and n >= at % 3:
                    env.probe("read: short")
                    env.nontrivial = True
                    return ("short", size)
                if (n == at) or (again and n > at):
                    if mode == "error":
                        env.probe("read: error")
                        return (err, 0)
                    if mode == "end":
                        env.probe("read: end")
                        return ("eof", 0)
            return None
        fs.plan = plan
        what = "read "+mode
    before = simfs.snapshot(env.scratch)
    env.event("call", num, kind, how, os.path.basename(folder), relative, sorted(variant.items()), damage, what)

    # call
    np.random.seed(7)
    if how == "file":
        env.probe("file call")
        stage = filecall.Stage("mesher", [os.path.join(env.scratch, "geometry.json"), os.path.join(env.scratch, "voxel.pck")])
        filecall.write_config(stage.files[0], target)
        with fs.active():
            out = stage.run(env, img)
        voxel = None
        if out.ok:
            voxel = filecall.read_data(stage.files[1])
            os.remove(stage.files[1])
        else:
            env.check(not os.path.exists(stage.files[1]), "output", "a rejected call writes an output")
        os.remove(stage.files[0])
    else:
        with fs.active():
            out = work.mesh(env, img, copy.deepcopy(target))
        voxel = out.value if out.ok else None
    fired = [x for x in fs.fired if x[1] not in ("short", "eof")]
    fs.plan = None
    env.event("out", out.kind(), len(fs.fired))
    env.check(simfs.snapshot(env.scratch) == before, "modified", "the geometry files are modified")
    if must is not None or fired:
        env.check(not out.ok, "accepted", lambda: "the damaged file (%s) is accepted" % (must or fired))
    if out.ok:
        env.check(ref.ok, "accepted", lambda: "%s is accepted, but the intact files are rejected: %r" % (what, ref))
        d = cmp.diff(ref.value, voxel, rel=0.0)
        env.check(d is None, "misread", lambda: "damage %s: %s" % (what or damage, d))
        if what is not None:
            env.probe("read exactly in spite of the damage")
        if rejected:
            env.probe("call after a rejection")
    else:
        env.check(isinstance(out.exc, Exception), "exception", lambda: "%r" % out)
        if damage is None or (what == "read short"):
            env.check(not ref.ok and type(ref.exc).__name__ == type(out.exc).__name__, "not-exact", lambda: "the intact files are rejected: %r instead of %r" % (out, ref))
        else:
            env.probe("rejected")
    if damage == "folder" and os.path.isdir(path):
        os.rmdir(path)
    return (folder, content), not out.ok


def _write(path, raw):
    if os.path.isdir(path):
        os.rmdir(path)
    with simfs.REAL_OPEN(path, "wb") as fid:
        fid.write(raw)
    # file system with a coarse resolution of the times
    os.utime(path, (1.6e9, 1.6e9))
