"""Comparison of the displayed windows with the expected ones."""

import numpy as np

from . import genplot, simplot


def _match(a, b, tol):
    """Permutation p with a[p] == b (None if the point sets are different)."""
    (a, b) = (np.asarray(a, dtype=float).reshape(-1, 3), np.asarray(b, dtype=float).reshape(-1, 3))
    if len(a) != len(b):
        return None
    if len(a) == 0:
        return np.zeros(0, dtype=int)
    dist = np.max(np.abs(a[:, None, :]-b[None, :, :]), axis=2)
    p = np.zeros(len(b), dtype=int)
    for j in range(len(b)):
        # the points can be repeated
        i = int(np.argmin(dist[:, j]))
        if not dist[i, j] <= tol:
            return None
        dist[i, :] = np.inf
        p[j] = i
    return p


def _close(a, b, rel=1e-9):
    (a, b) = (np.asarray(a, dtype=float), np.asarray(b, dtype=float))
    if a.shape != b.shape:
        return False
    fin = np.isfinite(b)
    if not np.array_equal(np.isfinite(a), fin):
        return False
    scale = np.max(np.abs(b[fin])) if np.any(fin) else 0.0
    return bool(np.all(np.abs(a[fin]-b[fin]) <= rel*scale))


def _col(x):
    return simplot._color(x)


def _attr(item, **kwargs):
    for k, v in kwargs.items():
        got = item.get(k)
        if isinstance(v, float) and isinstance(got, (int, float)):
            if abs(got-v) > 1e-9*max(1.0, abs(v)):
                return "%s = %r instead of %r" % (k, got, v)
        elif k == "color":
            if got != _col(v):
                return "color = %r instead of %r" % (got, v)
        elif got != v:
            return "%s = %r instead of %r" % (k, got, v)
    return None


class Geo:
    """Voxel structure."""

    def __init__(self, n, d, c, idx, pts):
        self.n = [int(x) for x in n]
        self.d = np.array(d, dtype=float)
        self.c = np.array(c, dtype=float)
        self.idx = sorted(int(x) for x in set(idx))
        self.pts = np.array(pts, dtype=float).reshape(-1, 3)
        self.tol = 1e-6*np.min(self.d)+1e-9*np.max(np.abs(self.c)+np.array(self.n)*self.d)

    def cells(self, idx=None):
        return genplot.centers(self.n, self.d, self.c, self.idx if idx is None else idx)

    def bounds(self, pos):
        lo = np.min(pos, axis=0)-self.d/2
        hi = np.max(pos, axis=0)+self.d/2
        return np.stack([lo, hi], axis=1).ravel()


def _grid(item, geo, view):
    bad = _attr(item, style="wireframe", color=view["grid_color"], opacity=view["grid_opacity"], line_width=view["grid_thickness"], clip=None)
    if bad:
        return bad
    if item["n_cells"] != geo.n[0]*geo.n[1]*geo.n[2]:
        return "wrong number of cells"
    half = np.array(geo.n)*geo.d/2
    if np.any(np.abs(item["bounds"]-np.stack([geo.c-half, geo.c+half], axis=1).ravel()) > geo.tol):
        return "wrong bounds"


def _geom(item, geo, view):
    bad = _attr(item, style="wireframe", color=view["geom_color"], opacity=view["geom_opacity"], line_width=view["geom_thickness"], clip=None)
    return bad or _voxels(item, geo, geo.cells())


def _voxels(item, geo, pos):
    if _match(item["centers"], pos, geo.tol) is None:
        return "wrong voxels"
    if np.any(np.abs(item["bounds"]-geo.bounds(pos)) > geo.tol):
        return "wrong voxel size"


def _cloud(item, geo, view):
    bad = _attr(item, color=view["point_color"], opacity=view["point_opacity"], point_size=view["point_size"], clip=None)
    if bad:
        return bad
    if _match(item["points"], geo.pts, geo.tol) is None:
        return "wrong points"


def _clip(item, clip):
    exp = (clip["clip_invert"], clip["clip_axis"], float(clip["clip_value"])) if clip["clip_plot"] else None
    if item["clip"] != exp:
        return "clip = %r instead of %r" % (item["clip"], exp)


def _scalar(item, data, theme):
    """Display options of a scalar variable."""
    lim = data["color_lim"]
    if not (item["clim"] is None if lim is None else item["clim"] is not None and _close(item["clim"], lim)):
        return "clim = %r instead of %r" % (item["clim"], lim)
    bad = _attr(item, log=data["log"], bar=theme["colorbar_plot"])
    if bad:
        return bad
    if theme["colorbar_plot"]:
        args = dict(item["bar_args"])
        args["color"] = _col(args.get("color"))
        return _attr(args, title=data["legend"], n_labels=theme["colorbar_size"], label_font_size=theme["colorbar_font"],
                     title_font_size=theme["colorbar_font"], color=theme["text_color"])


def _values(item, pos, exp, geo, name):
    """Values at the expected positions (some of them are optional)."""
    got = item["values"]
    if len(got) != len(pos):
        return "%s: %d values at %d positions" % (name, len(got), len(pos))
    dist = np.max(np.abs(pos[:, None, :]-exp.pos[None, :, :]), axis=2) if len(exp.pos) else np.full((len(pos), 1), np.inf)
    used = np.zeros(len(exp.pos), dtype=int)
    scale = np.max(np.abs(exp.val)) if len(exp.val) else 0.0
    for i in range(len(pos)):
        near = np.flatnonzero(dist[i] <= geo.tol)
        free = [x for x in near if not used[x]]
        j = int(free[0] if free else np.argmin(dist[i]))
        if dist[i, j] > geo.tol:
            return "%s: unexpected element at %s" % (name, np.round(pos[i], 6))
        used[j] += 1
        if not abs(got[i]-exp.val[j]) <= 1e-9*scale:
            return "%s: value %r instead of %r" % (name, got[i], exp.val[j])
    if np.any(used > 1) or np.any((used == 0) & ~exp.may):
        return "%s: %d elements instead of %d" % (name, len(pos), len(exp.pos))


def _payload_var(item, geo, sol, tag, layout, data, opt):
    exp = genplot.payload(sol, tag, layout, data)
    bad = _clip(item, opt["plot_clip"]) or _scalar(item, data, opt["plot_theme"])
    if bad:
        return bad
    if layout.startswith("arrow"):
        return _arrows(item, geo, exp, data)
    bad = _attr(item, point_size=data["point_size"])
    if bad:
        return bad
    if layout.endswith("point"):
        return _values(item, item["points"], exp, geo, data["var"])
    bad = _values(item, item["centers"], exp, geo, data["var"])
    if bad:
        return bad
    if np.any(np.abs(item["bounds"]-geo.bounds(item["centers"])) > geo.tol):
        return "wrong voxel size"


def _arrows(item, geo, exp, data):
    """Arrows: number, base, direction, length, and color."""
    factor = float(np.min(geo.d))*data["arrow_scale"]
    pts = item["points"]
    if len(exp.pos) == 0 or len(pts) == 0:
        return "%d arrows instead of %d" % (len(pts), len(exp.pos)) if len(pts) else None
    # every arrow has the same number of points (default VTK arrow, or default PyVista arrow)
    per = [n for n in (31, 101) if len(pts) % n == 0]
    if item["assoc"] != "point" or not per:
        return "unknown arrow geometry"
    pts = pts.reshape(-1, per[0], 3)
    val = item["values"].reshape(-1, per[0])
    scale = np.max(np.abs(exp.val))
    tol = max(geo.tol, 1e-5*factor)
    used = np.zeros(len(exp.pos), dtype=int)
    for k in range(len(pts)):
        # points on the axis of the arrow: base and tip
        best = None
        for j in sorted(range(len(exp.pos)), key=lambda x: used[x]):
            norm = np.linalg.norm(exp.vec[j])
            unit = exp.vec[j]/norm if norm > 0 else np.array([1.0, 0.0, 0.0])
            along = (pts[k]-exp.pos[j]) @ unit
            tip = exp.pos[j]+factor*unit
            near = np.min(np.max(np.abs(pts[k]-tip), axis=1))
            if near <= tol and abs(np.min(along)) <= tol and abs(np.max(along)-factor) <= tol:
                best = j
                used[j] += 1
                if not np.all(np.abs(val[k]-exp.val[j]) <= 1e-9*scale):
                    return "arrow with the value %r instead of %r" % (val[k][0], exp.val[j])
                break
        if best is None:
            return "unexpected arrow at %s" % np.round(pts[k].mean(axis=0), 6)
    if np.any(used > 1) or np.any((used == 0) & ~exp.may):
        return "%d arrows instead of %d" % (len(pts), len(exp.pos))


def _material(item, geo, sol, data, opt):
    bad = _clip(item, opt["plot_clip"])
    if bad:
        return bad
    (pos, colors) = genplot.material(sol, data)
    p = _match(item["centers"], pos, geo.tol)
    if p is None:
        return "wrong voxels"
    (cmap, clim) = (item["cmap"], item["clim"])
    if not isinstance(cmap, (list, tuple)) or clim is None:
        return "wrong color map"
    code = item["values"][p]
    num = np.clip(np.floor((code-clim[0])/(clim[1]-clim[0])*len(cmap)), 0, len(cmap)-1).astype(int)
    got = [_col(cmap[i]) for i in num]
    if got != [_col(x) for x in colors]:
        return "wrong material colors"


def _labels(item, geo, labels, data, opt):
    bad = _clip(item, opt["plot_clip"]) or _attr(item, cmap=data["colormap"], opacity=data["opacity"])
    if bad:
        return bad
    p = _match(item["centers"], geo.cells(), geo.tol)
    if p is None:
        return "wrong voxels"
    pairs = set(zip(item["values"][p].tolist(), labels))
    if len({a for a, _ in pairs}) != len(pairs) or len({b for _, b in pairs}) != len(pairs):
        return "wrong partition of the voxels"


def _reference(item, geo, ref, data, opt):
    bad = _clip(item, opt["plot_clip"]) or _attr(item, color=data["color_reference"], opacity=data["opacity_reference"], style="surface")
    if bad:
        return bad
    if ref is None:
        return _voxels(item, geo, geo.cells())
    pts = np.array(ref["points"], dtype=float)
    if item["points"].shape != pts.shape or np.any(np.abs(item["points"]-pts) > geo.tol):
        return "wrong reference"


def check_view(snap, geo, spec, payloads):
    """Compare a scene with the definition (message or None)."""
    opt = spec["data_options"]
    theme = opt["plot_theme"]
    view = opt["plot_view"]
    text = spec["data_plot"]["title"]
    exp = [] if text is None else [(text, theme["title_font"], _col(theme["text_color"]))]
    if snap["text"] != exp:
        return "title %r instead of %r" % (snap["text"], exp)
    if snap["background"] != _col(theme["background_color"]):
        return "background"
    exp = [(theme["axis_size"], _col(theme["text_color"]))] if theme["axis_add"] else []
    if snap["axes"] != exp:
        return "axes %r instead of %r" % (snap["axes"], exp)
    cam = (view["camera_roll"], view["camera_azimuth"], view["camera_elevation"])
    if snap["camera"] != cam:
        return "camera %r instead of %r" % (snap["camera"], cam)
    todo = list(payloads)
    if view["grid_plot"]:
        todo.append(("grid", lambda x: _grid(x, geo, view)))
    if view["geom_plot"]:
        todo.append(("voxel wireframe", lambda x: _geom(x, geo, view)))
    if view["point_plot"] and len(geo.pts):
        todo.append(("point cloud", lambda x: _cloud(x, geo, view)))
    left = list(range(len(snap["mesh"])))
    for name, fct in todo:
        reasons = []
        for i in left:
            item = snap["mesh"][i]
            try:
                bad = fct(item)
            except (KeyError, TypeError) as ex:
                bad = "missing %s" % ex
            if bad is None:
                left.remove(i)
                break
            reasons.append(bad)
        else:
            return "%s not displayed (%s)" % (name, "; ".join(reasons))
    if left:
        return "%d unexpected objects are displayed" % len(left)
    return None


def viewer_payloads(data_geom, geo, spec):
    layout = spec["layout"]
    data = spec["data_plot"]
    opt = spec["data_options"]
    if layout == "mesh":
        def vox(item):
            return (_clip(item, opt["plot_clip"]) or _attr(item, color=data["color_voxel"], opacity=data["opacity_voxel"], style="surface")
                    or _voxels(item, geo, geo.cells()))
        return [("voxel", vox), ("reference", lambda x: _reference(x, geo, data_geom["reference"], data, opt))]
    if layout == "domain":
        lab = {int(i): k for k, v in data_geom["domain_def"].items() for i in v}
    else:
        lab = {int(i): k for k, v in enumerate(data_geom["graph_def"]) for i in v}
    labels = [lab[i] for i in geo.idx]
    return [(layout, lambda x: _labels(x, geo, labels, data, opt))]


def plotter_payloads(sol, tag, geo, spec):
    layout = spec["layout"]
    data = spec["data_plot"]
    opt = spec["data_options"]
    if layout == "material":
        return [(layout, lambda x: _material(x, geo, sol, data, opt))]
    exp = genplot.payload(sol, tag, layout, data)
    if len(exp.pos) == 0:
        return []
    if np.all(exp.may):
        # everything is at a limit: both answers are possible
        return None
    return [(layout, lambda x: _payload_var(x, geo, sol, tag, layout, data, opt))]


def geo_viewer(data_geom):
    idx = [i for v in data_geom["domain_def"].values() for i in v]
    return Geo(data_geom["n"], data_geom["d"], data_geom["c"], idx, data_geom["pts_cloud"])


def geo_plotter(ini):
    return Geo(ini["n"], ini["d"], ini["c"], list(ini["idx_vc"])+list(ini["idx_vm"]), ini["pts_cloud"])


def check_figure(snap, sweep, spec):
    """Compare a figure with the definition (message or None)."""
    data = spec["data_plot"]
    opt = spec["data_options"]
    if len(snap["axes"]) != 1:
        return "%d axes in the figure" % len(snap["axes"])
    ax = snap["axes"][0]
    if opt["style"] == "default" and abs(ax["font"]-opt["font"]) > 1e-6:
        return "font size %r instead of %r" % (ax["font"], opt["font"])
    if spec["layout"] == "convergence":
        conv = sweep["conv"]
        vec = np.concatenate([[conv["power_init"]], conv["power_vec"]])
        fin = conv["power_final"]
        with np.errstate(all="ignore"):
            err = (vec-fin)/np.abs(fin)
        (eps, big) = (np.finfo(float).eps, np.finfo(float).max)
        exp = [("P", data["color_active"], np.clip(np.abs(err.real), eps, big)), ("Q", data["color_reactive"], np.clip(np.abs(err.imag), eps, big))]
        if len(ax["lines"]) != 2 or ax["bars"]:
            return "%d lines and %d bars" % (len(ax["lines"]), len(ax["bars"]))
        got = {x["label"]: x for x in ax["lines"]}
        for lab, color, y in exp:
            if lab not in got:
                return "missing line"
            x = got[lab]
            if x["color"] != _col(color) or abs(x["width"]-data["width"]) > 1e-9 or abs(x["marker"]-data["marker"]) > 1e-9:
                return "line style"
            if not _close(x["y"], y) or not _close(x["x"], np.arange(len(y))):
                return "convergence data (%s)" % lab
        if ax["scale"][1] != "log":
            return "scale"
        return None
    res = np.abs(sweep["res"])
    res = np.clip(res, np.finfo(float).eps, np.finfo(float).max)
    bins = np.logspace(np.log10(np.min(res)/(1+data["tol_bins"])), np.log10(np.max(res)*(1+data["tol_bins"])), data["n_bins"])
    h = np.histogram(res, bins)[0]
    if ax["lines"] or len(ax["bars"]) != len(h):
        return "%d lines and %d bars" % (len(ax["lines"]), len(ax["bars"]))
    near = [np.any(np.abs(res-b) <= 1e-9*b) for b in bins]
    for i, x in enumerate(ax["bars"]):
        if x["face"] != _col(data["bar_color"]) or x["edge"] != _col(data["edge_color"]):
            return "bar style"
        if abs(x["x0"]-bins[i]) > 1e-6*bins[i] or abs(x["x1"]-bins[i+1]) > 1e-6*bins[i+1]:
            return "bins"
        if x["h"] != h[i] and not (near[i] or near[i+1]):
            return "counts"
    if ax["scale"] != ("log", "log"):
        return "scale"
    return None
