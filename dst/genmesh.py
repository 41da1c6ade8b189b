"""
Random geometries for all the mesher types, with an independent model of the voxel structure.

A specification holds the grid (n, d, c) and the cells (tensor indices) of every domain, before the post-processing.
"""

import math
import os
import struct

import numpy as np
from scipy import spatial

# typical sizes (PCB voxels, integrated circuits, large coils)
UNITS = [1e-2, 1e-2, 35e-6, 1e-3, 2e-7, 1.0]
DOMS = ["dom_src", "dom_cond", "dom_sink", "dom_mag", "zz", "aa", "Q7"]
MANY = DOMS+["dom_%d" % i for i in range(12)]


class Spec:
    """Voxel structure."""

    def __init__(self, n, d, c, dom):
        self.n = [int(x) for x in n]
        self.d = [float(x) for x in d]
        self.c = [float(x) for x in c]
        self.dom = {k: set(v) for k, v in dom.items()}
        self.reference = None

    def used(self):
        out = set()
        for v in self.dom.values():
            out |= v
        return out

    def low(self):
        return [self.c[i]-0.5*self.n[i]*self.d[i] for i in range(3)]


def cells(n):
    return [(i, j, k) for k in range(n[2]) for j in range(n[1]) for i in range(n[0])]


def lin(n, cell):
    return cell[0]+n[0]*cell[1]+n[0]*n[1]*cell[2]


def unlin(n, idx):
    idx = int(idx)
    return (idx % n[0], (idx//n[0]) % n[1], idx//(n[0]*n[1]))


def _grid(ch, hi=5):
    n = [ch.pick([2, 3, 1, 4, hi], "n") for _ in range(3)]
    if ch.flag(0.03, "large"):
        n = ch.perm(ch.pick([[ch.int(12, 40, "long"), 2, 1], [11, 7, 3], [17, 9, 1], [6, 6, 7]], "large-n"), "large-dim")
    unit = ch.pick(UNITS, "unit")
    d = [unit*ch.pick([1.0, 0.7, 1.5, 0.32], "d") for _ in range(3)]
    c = [unit*ch.pick([0.0, 1.0, -2.5, 7.3], "c") for _ in range(3)]
    return n, d, c


# ------------------------------------------------------------------ voxel indices
def gen_voxel(ch, env):
    (n, d, c) = _grid(ch)
    all_cells = cells(n)
    dom = {}
    many = ch.flag(0.04, "many")
    for tag in ch.perm(MANY, "names")[:ch.int(6, 16, "n_dom")] if many else ch.perm(DOMS, "names")[:ch.int(1, 5, "n_dom")]:
        mode = ch.pick(["box", "random", "empty", "single"], "mode")
        if mode == "box":
            a = [ch.draw(x, "a") for x in n]
            b = [a[i]+ch.draw(n[i]-a[i], "b") for i in range(3)]
            sel = [x for x in all_cells if all(a[i] <= x[i] <= b[i] for i in range(3))]
        elif mode == "random":
            sel = ch.perm(all_cells, "sel")[:ch.int(1, len(all_cells), "size")] if len(all_cells) <= 30 else ch.subset(all_cells, 0.3, "sel")
        elif mode == "single":
            sel = [ch.pick(all_cells, "one")]
        else:
            sel = []
        dom[tag] = sel
    if not any(dom.values()):
        dom[next(iter(dom))] = [all_cells[0]]
    data = {"param": {"n": n, "d": d, "c": c}, "domain_index": {k: [lin(n, x) for x in v] for k, v in dom.items()}}
    return "voxel", data, Spec(n, d, c, dom)


# ------------------------------------------------------------------ layered images
COLORS = [(255, 0, 0, 255), (0, 0, 0, 255), (0, 255, 0, 255), (0, 0, 255, 255), (255, 0, 0, 254), (255, 1, 0, 255),
          (0, 0, 0, 0), (17, 34, 51, 255), (128, 128, 128, 255)]
WHITE = (255, 255, 255, 255)


def image_bytes(pix, mode="RGBA"):
    """PNG file of an array (x, y from the bottom left corner)."""
    import io
    import PIL.Image as pmg
    arr = np.swapaxes(np.flip(pix, axis=1), 0, 1)
    img = pmg.fromarray(np.ascontiguousarray(arr.astype(np.uint8)), "RGBA")
    if mode == "RGB":
        img = img.convert("RGB")
    elif mode == "P":
        img = img.convert("RGB").quantize(colors=32)
    out = io.BytesIO()
    img.save(out, format="png")
    return out.getvalue()


def gen_png(ch, env):
    (n, d, c) = _grid(ch)
    (nx, ny) = (n[0], n[1])
    tags = ch.perm(DOMS, "names")[:ch.int(1, 4, "n_dom")]
    colors = ch.perm(COLORS, "colors")
    domain_color = {}
    for tag in tags:
        k = ch.pick([1, 1, 2], "n_col")
        domain_color[tag] = [list(colors.pop()) for _ in range(k)]
    if len(tags) > 1 and ch.flag(0.15, "samecolor"):
        domain_color[tags[0]].append(list(domain_color[tags[1]][0]))
    pool = [tuple(x) for v in domain_color.values() for x in v]+colors[:1]+[WHITE]
    stack = []
    dom = {tag: set() for tag in tags}
    z = 0
    for il in range(ch.int(1, 3, "n_layers") if not ch.flag(0.03, "tall") else ch.int(4, 9, "n_layers")):
        nl = ch.pick([1, 2, 3], "n_layer") if not ch.flag(0.03, "thick") else ch.int(4, 14, "n_layer")
        files = []
        for ii in range(ch.pick([1, 1, 2, 3], "n_img")):
            pix = np.zeros((nx, ny, 4), dtype=np.uint8)
            for x in range(nx):
                for y in range(ny):
                    pix[x, y] = ch.pick(pool, "pix")
            opaque = bool(np.all(pix[:, :, 3] == 255))
            mode = ch.pick(["RGBA", "RGB", "P"], "imgmode") if opaque else "RGBA"
            name = os.path.join(env.scratch, "img_%d_%d.png" % (il, ii))
            with open(name, "wb") as fid:
                fid.write(image_bytes(pix, mode))
            files.append(name)
            for tag, cols in domain_color.items():
                cols = {tuple(q) for q in cols}
                for x in range(nx):
                    for y in range(ny):
                        if tuple(int(v) for v in pix[x, y]) in cols:
                            dom[tag] |= {(x, y, z+q) for q in range(nl)}
        if ch.flag(0.1, "again"):
            files.append(files[0])
        stack.append({"n_layer": nl, "filename_list": files})
        z += nl
    if not any(dom.values()):
        return gen_voxel(ch, env)
    data = {"param": {"d": d, "c": c, "size": [nx, ny]}, "domain_color": domain_color, "layer_stack": stack}
    return "png", data, Spec([nx, ny, z], d, c, dom)


# ------------------------------------------------------------------ vector shapes
def _seg(p, a, b):
    """Distance between a point and a segment."""
    (dx, dy) = (b[0]-a[0], b[1]-a[1])
    q = dx*dx+dy*dy
    t = 0.0 if q == 0 else max(0.0, min(1.0, ((p[0]-a[0])*dx+(p[1]-a[1])*dy)/q))
    return math.hypot(p[0]-a[0]-t*dx, p[1]-a[1]-t*dy)


def _inside(p, ring):
    out = False
    for (a, b) in zip(ring, ring[1:]+ring[:1]):
        if (a[1] > p[1]) != (b[1] > p[1]):
            if p[0] < a[0]+(p[1]-a[1])*(b[0]-a[0])/(b[1]-a[1]):
                out = not out
    return out


def _signed(p, shape):
    """Signed distance (negative inside) of a point to a shape."""
    data = shape["shape_data"]
    if shape["shape_type"] == "pad":
        return min(math.hypot(p[0]-q[0], p[1]-q[1]) for q in data["coord"])-0.5*data["diameter"]
    if shape["shape_type"] == "trace":
        co = data["coord"]
        return min(_seg(p, a, b) for a, b in zip(co[:-1], co[1:]))-0.5*data["width"]
    rings = [data["coord_shell"]]+data["coord_holes"]
    dist = min(_seg(p, a, b) for r in rings for a, b in zip(r, r[1:]+r[:1]))
    ins = _inside(p, rings[0]) and not any(_inside(p, r) for r in rings[1:])
    return (-dist if ins else dist)-(data["buffer"] or 0.0)


def _rect(x0, y0, x1, y1, rev):
    r = [[x0, y0], [x1, y0], [x1, y1], [x0, y1]]
    return r[::-1] if rev else r


def _shape(ch, lo, step, nx, ny, auto):
    """Random shape located in the grid."""
    kind = ch.pick(["polygon", "pad", "trace", "lshape"], "shape") if not auto else "polygon"

    def pos(label):
        return [lo[0]+step[0]*(nx*ch.real(0, 1, label)+0.037), lo[1]+step[1]*(ny*ch.real(0, 1, label)+0.041)]

    small = min(step)
    if kind == "pad":
        data = {"diameter": small*ch.pick([1.5, 2.3, 0.8, 3.1], "dia"), "coord": [pos("pad") for _ in range(ch.pick([1, 2], "n_pad"))]}
    elif kind == "trace":
        data = {"width": small*ch.pick([1.2, 0.7, 2.1], "width"), "coord": [pos("trace") for _ in range(ch.pick([2, 3], "n_tr"))]}
    else:
        a = (ch.draw(nx, "ax"), ch.draw(ny, "ay"))
        b = (a[0]+1+ch.draw(nx-a[0], "bx"), a[1]+1+ch.draw(ny-a[1], "by"))
        e = [step[i % 2]*ch.pick([0.0, 0.2, -0.3, 0.35], "edge") if not auto else 0.0 for i in range(4)]
        (x0, y0, x1, y1) = (lo[0]+a[0]*step[0]+e[0], lo[1]+a[1]*step[1]+e[1], lo[0]+b[0]*step[0]+e[2], lo[1]+b[1]*step[1]+e[3])
        rev = ch.flag(0.3, "rev")
        ring = _rect(x0, y0, x1, y1, rev)
        holes = []
        if kind == "lshape":
            (mx, my) = (x0+(x1-x0)*0.47, y0+(y1-y0)*0.53)
            ring = [[x0, y0], [x1, y0], [x1, my], [mx, my], [mx, y1], [x0, y1]]
        elif ch.flag(0.3, "hole"):
            holes = [_rect(x0+0.21*(x1-x0), y0+0.23*(y1-y0), x1-0.22*(x1-x0), y1-0.19*(y1-y0), ch.flag(0.5, "hrev"))]
        buffer = None if auto else ch.pick([None, 0.0, 0.15*small], "buffer")
        data = {"buffer": buffer, "coord_shell": ring, "coord_holes": holes}
    return {"shape_type": "polygon" if kind == "lshape" else kind, "shape_data": data}


def gen_shape(ch, env):
    for attempt in range(6):
        (nx, ny) = (ch.pick([3, 4, 2, 6], "nx"), ch.pick([3, 4, 2, 6], "ny"))
        if ch.flag(0.03, "large"):
            (nx, ny) = ch.perm([ch.int(8, 24, "long"), ch.int(3, 9, "wide")], "large-dim")
        unit = ch.pick([1e-3, 1e-3, 35e-6, 1.0], "unit")
        step = [unit*ch.pick([1.0, 0.5, 1.3], "dx"), unit*ch.pick([1.0, 0.5, 1.3], "dy")]
        dz = unit*ch.pick([1.0, 0.4], "dz")
        lo = [unit*ch.pick([0.0, -2.0, 3.3], "lo") for _ in range(2)]
        cz = ch.pick([None, 0.0, 2.2*unit], "cz")
        auto = ch.flag(0.25, "auto")
        names = ch.perm(["top", "mid", "bot", "l4"], "layers")[:ch.int(1, 3, "n_layers")]
        stack = [{"n_layer": ch.pick([1, 2, 3], "n_layer"), "tag_layer": x} for x in names]
        param = {"dx": step[0], "dy": step[1], "dz": dz, "cz": cz,
                 "simplify": ch.pick([None, 1e-3*min(step)], "simplify") if not auto else None,
                 "construct": ch.pick([None, 1e-4*min(step)], "construct") if not auto else None,
                 "xy_min": None, "xy_max": None}
        geo = {}
        for tag in ch.perm(DOMS, "names")[:ch.int(1, 3, "n_dom")]:
            shapes = []
            for _ in range(ch.int(1, 3, "n_shape")):
                s = _shape(ch, lo, step, nx, ny, auto)
                s["shape_layer"] = ch.perm(names, "lay")[:ch.int(1, len(names), "n_lay")]
                if ch.flag(0.1, "nolayer"):
                    s["shape_layer"].append("unknown_layer")
                s["shape_operation"] = ch.pick(["add", "sub"], "op") if shapes and not auto else "add"
                shapes.append(s)
            geo[tag] = shapes
        if auto:
            pts = [p for v in geo.values() for s in v for p in s["shape_data"]["coord_shell"] if set(s["shape_layer"]) & set(names)]
            (xm, xM) = (min(p[0] for p in pts), max(p[0] for p in pts))
            (ym, yM) = (min(p[1] for p in pts), max(p[1] for p in pts))
        else:
            (xm, ym) = lo
            xM = lo[0]+(nx+ch.pick([0.0, 0.3, -0.3], "slack"))*step[0]
            yM = lo[1]+(ny+ch.pick([0.0, 0.3, -0.3], "slack"))*step[1]
            param["xy_min"] = [xm, ym]
            param["xy_max"] = [xM, yM]
        n = [int(round((xM-xm)/step[0])), int(round((yM-ym)/step[1])), sum(x["n_layer"] for x in stack)]
        d = [(xM-xm)/n[0], (yM-ym)/n[1], dz]
        c = [0.5*(xm+xM), 0.5*(ym+yM), 0.0 if cz is None else cz]

        # membership of the voxel centers
        dom = {tag: set() for tag in geo}
        sure = True
        for tag, shapes in geo.items():
            z = 0
            for lay in stack:
                for i in range(n[0]):
                    for j in range(n[1]):
                        p = (xm+(i+0.5)*d[0], ym+(j+0.5)*d[1])
                        state = {"add": -1, "sub": -1}
                        for s in shapes:
                            if lay["tag_layer"] not in s["shape_layer"]:
                                continue
                            dist = _signed(p, s)
                            size = s["shape_data"].get("diameter", s["shape_data"].get("width", s["shape_data"].get("buffer") or 0.0))
                            margin = 0.005*size+0.01*min(step)
                            v = 0 if abs(dist) < margin else (1 if dist < 0 else -1)
                            state[s["shape_operation"]] = max(state[s["shape_operation"]], v)
                        v = min(state["add"], -state["sub"])
                        if v == 0:
                            sure = False
                        elif v > 0:
                            dom[tag] |= {(i, j, z+q) for q in range(lay["n_layer"])}
                z += lay["n_layer"]
        if sure and any(dom.values()):
            break
    else:
        return gen_voxel(ch, env)
    data = {"param": param, "layer_stack": stack, "geometry_shape": geo}
    spec = Spec(n, d, c, dom)
    spec.reference = ("shape", [x["n_layer"] for x in stack])
    return "shape", data, spec


# ------------------------------------------------------------------ surface meshes
def box_stl(lo, hi, binary, drop=0):
    """STL file of an axis-aligned box."""
    v = [(lo[0] if not i & 1 else hi[0], lo[1] if not i & 2 else hi[1], lo[2] if not i & 4 else hi[2]) for i in range(8)]
    quads = [((0, 2, 3, 1), (0, 0, -1)), ((4, 5, 7, 6), (0, 0, 1)), ((0, 1, 5, 4), (0, -1, 0)),
             ((2, 6, 7, 3), (0, 1, 0)), ((0, 4, 6, 2), (-1, 0, 0)), ((1, 3, 7, 5), (1, 0, 0))]
    tri = []
    for (q, nrm) in quads:
        tri.append((nrm, v[q[0]], v[q[1]], v[q[2]]))
        tri.append((nrm, v[q[0]], v[q[2]], v[q[3]]))
    tri = tri[:len(tri)-drop]
    if binary:
        out = b"\0"*80+struct.pack("<I", len(tri))
        for (nrm, a, b, c) in tri:
            out += struct.pack("<12fH", *nrm, *a, *b, *c, 0)
        return out
    txt = ["solid box"]
    for (nrm, a, b, c) in tri:
        txt.append("facet normal %g %g %g\nouter loop" % nrm)
        txt += ["vertex %.9g %.9g %.9g" % p for p in (a, b, c)]
        txt.append("endloop\nendfacet")
    txt.append("endsolid box\n")
    return "\n".join(txt).encode()


def write_stl(tri, binary):
    """STL file with the given triangles (counterclockwise from the outside)."""
    rows = []
    for t in tri:
        (a, b, c) = [np.asarray(x, dtype=float) for x in t]
        nrm = np.cross(b-a, c-a)
        nrm = nrm/(np.linalg.norm(nrm) or 1.0)
        rows.append((nrm, a, b, c))
    if binary:
        out = b"\0"*80+struct.pack("<I", len(rows))
        for (nrm, a, b, c) in rows:
            out += struct.pack("<12fH", *nrm, *a, *b, *c, 0)
        return out
    txt = ["solid mesh"]
    for (nrm, a, b, c) in rows:
        txt.append("facet normal %g %g %g\nouter loop" % tuple(nrm))
        txt += ["vertex %.9g %.9g %.9g" % tuple(x) for x in (a, b, c)]
        txt.append("endloop\nendfacet")
    txt.append("endsolid mesh\n")
    return "\n".join(txt).encode()


class Solid:
    """Convex solid, with an optional convex cavity."""

    def __init__(self, pts, hole=None):
        pts = np.asarray(pts, dtype=float)
        hull = spatial.ConvexHull(pts)
        self.tri = []
        center = pts.mean(axis=0)
        for (simplex, eq) in zip(hull.simplices, hull.equations):
            (a, b, c) = pts[simplex]
            if np.dot(np.cross(b-a, c-a), a-center) < 0:
                (b, c) = (c, b)
            self.tri.append((a, b, c))
        self.eq = hull.equations
        self.hole = hole
        if hole is not None:
            self.tri += [(a, c, b) for (a, b, c) in hole.tri]
        (self.lo, self.hi) = (pts.min(axis=0), pts.max(axis=0))

    def inside(self, pts, margin):
        """Points inside (+1), outside (-1), or too close to the surface (0)."""
        val = np.max(pts@self.eq[:, :3].T+self.eq[:, 3], axis=1)
        out = np.where(val < -margin, 1, np.where(val > margin, -1, 0))
        if self.hole is not None:
            sub = self.hole.inside(pts, margin)
            out = np.where(sub == 1, -1, np.where(sub == 0, np.minimum(out, 0), out))
        return out


def gen_solid(ch, lo, hi):
    """Random solid in a bounding box."""
    lo = np.array(lo)
    hi = np.array(hi)
    box = np.array([[(lo, hi)[(i >> k) & 1][k] for k in range(3)] for i in range(8)])
    kind = ch.weighted([("box", 5), ("cavity", 2), ("tetra", 2), ("octa", 2), ("prism", 2), ("cut", 1)], "solid")
    mid = 0.5*(lo+hi)
    if kind == "cavity":
        f = ch.pick([0.5, 0.75, 0.6], "cavity")
        return kind, Solid(box, hole=Solid(mid+f*(box-mid)))
    if kind == "tetra":
        return kind, Solid(box[ch.pick([[0, 3, 5, 6], [1, 2, 4, 7], [0, 1, 2, 4]], "tetra")])
    if kind == "octa":
        return kind, Solid([mid+s*(hi-mid)*np.eye(3)[k] for k in range(3) for s in (1, -1)])
    if kind == "prism":
        ax = ch.draw(3, "axis")
        rest = [k for k in range(3) if k != ax]
        pts = []
        for end in (lo[ax], hi[ax]):
            for (u, v) in ((0, 0), (1, 0), (ch.pick([0.5, 0.0, 0.75], "apex"), 1)):
                x = np.zeros(3)
                x[ax] = end
                x[rest[0]] = lo[rest[0]]+u*(hi-lo)[rest[0]]
                x[rest[1]] = lo[rest[1]]+v*(hi-lo)[rest[1]]
                pts.append(x)
        return kind, Solid(np.array(pts))
    if kind == "cut":
        cut = ch.draw(8, "cut")
        return kind, Solid(box[[i for i in range(8) if i != cut]] if ch.flag(0.5, "one") else box[[0, 1, 2, 3, 4, 5]])
    return kind, Solid(box)


def gen_stl(ch, env):
    n = [ch.pick([4, 3, 5, 2], "n") for _ in range(3)]
    # coordinates which are exact in single precision
    auto = [ch.flag(0.3, "auto-bound") for _ in range(2)]
    unit = ch.pick([1.0, 1.0, 2.0**-10], "unit") if any(auto) else ch.pick([1.0, 1.0, 1e-3], "unit")
    d = [unit*ch.pick([1.0, 0.5, 2.0], "d") for _ in range(3)]
    low = [unit*ch.pick([0.0, -3.0, 1.5], "lo") for _ in range(3)]
    slack = [ch.pick([0.0, 0.3125, -0.3125, 0.4375, -0.4375], "slack") for _ in range(3)]
    high = [low[i]+(n[i]+slack[i])*d[i] for i in range(3)]
    real = [(high[i]-low[i])/n[i] for i in range(3)]
    c = [0.5*(low[i]+high[i]) for i in range(3)]
    margin = 1e-3*min(real)
    solids = []
    num = 0
    domain_stl = {}
    tags = ch.perm(DOMS, "names")[:ch.int(1, 3, "n_dom")]
    full = any(auto)
    for tag in tags:
        domain_stl[tag] = []
        for _ in range(ch.pick([1, 1, 2], "n_file")):
            if full:
                # the first mesh defines the bounds
                (lo, hi) = (low, high)
                (kind, sol) = gen_solid(ch, lo, hi)
                full = False
            else:
                a = [ch.draw(x, "a") for x in n]
                b = [a[i]+1+ch.draw(n[i]-a[i], "b") for i in range(3)]
                off = [ch.pick([0.3, -0.3, 0.2], "eps") for _ in range(6)]
                lo = [low[i]+(a[i]-off[i])*real[i] for i in range(3)]
                hi = [low[i]+(b[i]+off[3+i])*real[i] for i in range(3)]
                hi = [max(hi[i], lo[i]+0.37*real[i]) for i in range(3)]
                if auto[0]:
                    lo = [max(lo[i], low[i]+0.3*real[i]) for i in range(3)]
                    hi = [max(hi[i], lo[i]+0.37*real[i]) for i in range(3)]
                if auto[1]:
                    hi = [min(hi[i], high[i]-0.3*real[i]) for i in range(3)]
                    lo = [min(lo[i], hi[i]-0.37*real[i]) for i in range(3)]
                (kind, sol) = gen_solid(ch, lo, hi)
            scale = unit*ch.pick([1.0, 0.5, 2.0], "scale")
            shift = [unit*ch.pick([0.0, 1.0, -2.0], "shift") for _ in range(3)]
            name = os.path.join(env.scratch, "mesh_%d.stl" % num)
            num += 1
            with open(name, "wb") as fid:
                fid.write(write_stl([[(v-np.array(shift))/scale for v in t] for t in sol.tri], ch.flag(0.5, "binary")))
            domain_stl[tag].append({"scale": scale, "offset": shift, "filename": name})
            solids.append((tag, kind, sol))

    # the bounds are the ones of the meshes
    (xyz_min, xyz_max) = (list(low), list(high))
    lo = np.min([s.lo for (_, _, s) in solids], axis=0)
    hi = np.max([s.hi for (_, _, s) in solids], axis=0)
    if auto[0] and np.array_equal(lo, low):
        xyz_min = None
        env.probe("bounds of the meshes")
    if auto[1] and np.array_equal(hi, high):
        xyz_max = None
        env.probe("bounds of the meshes")

    # a voxel belongs to the domain if one of its corners is enclosed
    node = np.array([[low[0]+i*real[0], low[1]+j*real[1], low[2]+k*real[2]] for k in range(n[2]+1) for j in range(n[1]+1) for i in range(n[0]+1)])
    (nx, ny) = (n[0]+1, n[1]+1)
    dom = {tag: set() for tag in tags}
    for (tag, kind, sol) in solids:
        val = sol.inside(node, margin)
        for cell in cells(n):
            corner = [val[(cell[0]+p)+nx*(cell[1]+q)+nx*ny*(cell[2]+r)] for p in (0, 1) for q in (0, 1) for r in (0, 1)]
            if max(corner) == 0:
                # a grid point is located on the surface
                return gen_voxel(ch, env)
            if max(corner) == 1:
                dom[tag].add(cell)
    if not any(dom.values()):
        return gen_voxel(ch, env)
    for (tag, kind, sol) in solids:
        env.probe("solid "+kind)
    data = {"param": {"d": d, "xyz_min": xyz_min, "xyz_max": xyz_max}, "domain_stl": domain_stl}
    spec = Spec(n, real, c, dom)
    spec.reference = ("stl", [np.array(t, dtype=float) for (_, _, s) in solids for t in s.tri])
    return "stl", data, spec


# ------------------------------------------------------------------ reference surfaces
def faces_of(ref):
    """Polygons of a surface."""
    (pts, faces) = (ref["points"], ref["faces"]) if isinstance(ref, dict) else (ref.points, ref.faces)
    pts = np.array(pts, dtype=float).reshape(-1, 3)
    faces = [int(x) for x in faces]
    out = []
    i = 0
    while i < len(faces):
        out.append(pts[faces[i+1:i+1+faces[i]]])
        i += 1+faces[i]
    return out


def check_reference(spec, ref):
    """Compare the reference surface with the original shapes (None if they agree)."""
    if spec.reference is None:
        return None if ref is None else "no reference surface is expected"
    if ref is None:
        return "the reference surface is missing"
    (kind, data) = spec.reference
    faces = faces_of(ref)
    tol = 1e-5*max(spec.n[i]*spec.d[i] for i in range(3))
    if kind == "stl":
        # every triangle of the meshes
        tol += 1e-6*max(abs(x) for x in spec.c)
        if len(faces) != len(data):
            return "%d triangles, expected %d" % (len(faces), len(data))
        got = np.array([f.mean(axis=0) for f in faces])
        exp = np.array([t.mean(axis=0) for t in data])
        dist = np.array([np.abs(got-e).max(axis=1).min() for e in exp])
        if dist.max() > tol:
            return "the triangle %s is missing" % data[int(dist.argmax())].tolist()

        def area(t):
            return 0.5*np.linalg.norm(np.cross(t[1]-t[0], t[2]-t[0]))
        (ag, ae) = (sum(area(f) for f in faces), sum(area(t) for t in data))
        return None if abs(ag-ae) <= 1e-4*ae else "area of %g, expected %g" % (ag, ae)

    # the horizontal faces cover the cells on both sides of the layers
    low = spec.low()
    edge = np.concatenate(([0], np.cumsum(data)))
    pos = low[2]+edge*spec.d[2]
    used = spec.used()
    ptr = {}
    for f in faces:
        z = f[:, 2]
        lev = np.abs(pos[None, :]-z[:, None])
        if lev.min(axis=1).max() > tol:
            return "points at %s, which is not the position of a layer" % sorted(set(z.tolist()))
        if np.ptp(z) <= tol:
            ptr.setdefault(int(lev[0].argmin()), []).append(f[:, :2])
    for lev in range(len(edge)):
        poly = ptr.get(lev, [])
        for i in range(spec.n[0]):
            for j in range(spec.n[1]):
                p = (low[0]+(i+0.5)*spec.d[0], low[1]+(j+0.5)*spec.d[1])
                exp = any((i, j, k) in used for k in (int(edge[lev])-1, int(edge[lev])))
                got = any(_inside_tol(p, f, tol) for f in poly)
                if exp != got:
                    return "the position (%d, %d) of the boundary %d of the layers is %s" % (i, j, lev, "not covered" if exp else "covered")
    return None


def _inside_tol(p, poly, tol):
    """Point in a convex polygon (with the edges)."""
    if poly[:, 0].min() > p[0]+tol or poly[:, 0].max() < p[0]-tol or poly[:, 1].min() > p[1]+tol or poly[:, 1].max() < p[1]-tol:
        return False
    sign = []
    for a, b in zip(poly, np.roll(poly, -1, axis=0)):
        e = b-a
        ln = math.hypot(e[0], e[1])
        if ln <= tol:
            continue
        sign.append((e[0]*(p[1]-a[1])-e[1]*(p[0]-a[0]))/ln)
    return bool(sign) and (min(sign) >= -tol or max(sign) <= tol)


GEN = {"voxel": gen_voxel, "png": gen_png, "shape": gen_shape, "stl": gen_stl}


# ------------------------------------------------------------------ post-processing
def gen_tail(ch, spec, kind):
    """Random post-processing options."""
    tags = list(spec.dom)
    low = spec.low()
    pts = []
    for _ in range(ch.pick([0, 1, 3, 6], "n_pts") if not ch.flag(0.03, "cloud") else ch.int(20, 120, "n_pts")):
        pts.append([low[i]+(ch.int(-8, 4*spec.n[i]+8, "pt")*0.25+0.1)*spec.d[i] for i in range(3)])
    rules = []
    for _ in range(ch.pick([1, 0, 2, 3], "n_rules") if len(tags) <= 5 else ch.int(2, 9, "n_rules")):
        keep = ch.perm(tags, "keep")[:ch.int(1, max(1, len(tags)-1), "n_keep")]
        # a domain can be kept and resolved by the same rule
        left = tags if ch.flag(0.2, "both") else [x for x in tags if x not in keep] or tags
        res = ch.perm(left, "res")[:ch.int(1, len(left), "n_res")]
        rules.append({"domain_resolve": res, "domain_keep": keep})
    if rules and ch.flag(0.04, "badrule"):
        rules[-1]["domain_keep" if ch.flag(0.5, "w") else "domain_resolve"].append("dom_unknown")

    def groups():
        out = {}
        for i in range(ch.pick([0, 0, 1, 0, 2], "n_int")):
            grp = [ch.perm(tags, "grp")[:ch.pick([1, 1, 2], "gsize")] for _ in range(ch.pick([2, 1, 3], "n_grp"))]
            if ch.flag(0.04, "badgrp"):
                grp[-1].append("dom_unknown")
            out["chk_%d" % i] = {"connected": ch.flag(0.5, "conn"), "domain_group": grp}
        return out

    rf = [1, 1, 1] if kind == "stl" and max(spec.n) > 4 else [ch.pick([1, 2, 3], "rf") for _ in range(3)]
    if kind != "stl" and max(spec.n) <= 4 and ch.flag(0.04, "fine"):
        rf = ch.perm([1, 1, ch.int(4, 9, "fine-rf")], "fine-dim")
    if max(spec.n) > 5 and kind != "stl":
        rf = [min(x, 2) for x in rf]
    return {
        "data_point": {"check_cloud": not ch.flag(0.2, "nocheck"), "full_cloud": ch.flag(0.12, "full"), "pts_cloud": pts},
        "data_resampling": {"use_reduce": ch.flag(0.5, "reduce"), "use_resample": ch.flag(0.5, "resample"), "resampling_factor": rf},
        "data_conflict": {"resolve_rules": not ch.flag(0.2, "norules"), "resolve_random": ch.flag(0.65, "random"), "conflict_rules": rules},
        "data_integrity": {"domain_connected": groups(), "domain_adjacent": groups()},
    }


def random_geometry(ch, env, kinds=("voxel", "png", "shape", "stl")):
    kind = ch.weighted([(k, {"voxel": 5, "png": 4, "shape": 3, "stl": 2}[k]) for k in kinds], "kind")
    (kind, data, spec) = GEN[kind](ch, env)
    geo = {"mesh_type": kind, "data_voxelize": data}
    geo.update(gen_tail(ch, spec, kind))
    return geo, spec


# ------------------------------------------------------------------ model of the post-processing
class Reject(Exception):
    """The geometry has to be rejected."""


def _near(a, b):
    return sum(abs(x-y) for x, y in zip(a, b)) <= 1


NEIGH = ((1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1))


def components(used):
    """Connected components (face neighbours)."""
    left = set(used)
    out = []
    while left:
        comp = {left.pop()}
        stack = list(comp)
        while stack:
            v = stack.pop()
            for q in NEIGH:
                w = (v[0]+q[0], v[1]+q[1], v[2]+q[2])
                if w in left:
                    left.discard(w)
                    comp.add(w)
                    stack.append(w)
        out.append(frozenset(comp))
    return out


def model_points(spec, opt):
    pts = [list(p) for p in opt["pts_cloud"]]
    if not opt["check_cloud"]:
        return pts
    low = spec.low()
    used = spec.used()
    keep = []
    for p in pts:
        ok = True
        for cell in used:
            if all(abs(low[i]+(cell[i]+0.5)*spec.d[i]-p[i]) <= spec.d[i] for i in range(3)):
                ok = False
                break
        if ok:
            keep.append(p)
    if opt["full_cloud"] and len(keep) != len(pts):
        raise Reject("points")
    return keep


def model_resampling(spec, opt):
    (n, d, c, dom) = (list(spec.n), list(spec.d), list(spec.c), spec.dom)
    if opt["use_reduce"]:
        used = spec.used()
        a = [min(x[i] for x in used) for i in range(3)]
        b = [max(x[i] for x in used)+1 for i in range(3)]
        low = spec.low()
        c = [low[i]+0.5*(a[i]+b[i])*d[i] for i in range(3)]
        n = [b[i]-a[i] for i in range(3)]
        dom = {k: {tuple(x[i]-a[i] for i in range(3)) for x in v} for k, v in dom.items()}
    if opt["use_resample"]:
        r = opt["resampling_factor"]
        n = [n[i]*r[i] for i in range(3)]
        d = [d[i]/r[i] for i in range(3)]
        sub = cells(r)
        dom = {k: {tuple(x[i]*r[i]+q[i] for i in range(3)) for x in v for q in sub} for k, v in dom.items()}
    return Spec(n, d, c, dom)


def model_rules(spec, opt):
    """Apply the rules, return the claims of the domains."""
    dom = {k: set(v) for k, v in spec.dom.items()}
    if opt["resolve_rules"]:
        for rule in opt["conflict_rules"]:
            for a in rule["domain_keep"]:
                for b in rule["domain_resolve"]:
                    if a not in dom or b not in dom:
                        raise Reject("unknown domain")
                    dom[b] = dom[b]-dom[a]
    return dom


def model_integrity(dom, comps, opt):
    def group(lst):
        for g in lst:
            for x in g:
                if x not in dom:
                    raise Reject("unknown domain")
        out = [set().union(*[dom[x] for x in g]) for g in lst]
        return [x for x in out if x]

    for tmp in opt["domain_adjacent"].values():
        grp = group(tmp["domain_group"])
        grow = [g | {(v[0]+q[0], v[1]+q[1], v[2]+q[2]) for v in g for q in NEIGH} for g in grp]
        cnt = [sum(bool(grow[i] & grp[j]) for j in range(len(grp))) for i in range(len(grp))]
        if tmp["connected"] and not any(x == len(grp) for x in cnt):
            raise Reject("adjacent missing")
        if not tmp["connected"] and any(x > 1 for x in cnt):
            raise Reject("adjacent illegal")
    for tmp in opt["domain_connected"].values():
        grp = group(tmp["domain_group"])
        cnt = [sum(bool(c & g) for g in grp) for c in comps]
        if tmp["connected"] and not any(x == len(grp) for x in cnt):
            raise Reject("connection missing")
        if not tmp["connected"] and any(x > 1 for x in cnt):
            raise Reject("connection illegal")
