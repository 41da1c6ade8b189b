"""Random plot definitions, and the expected content of the windows (independent of the tested code)."""

import numpy as np

COLORS = ["red", "blue", "white", "black", "green", "darkorange", "#12ab34"]
MAPS = ["Accent", "viridis", "jet"]


def _window(ch):
    def size(label):
        return None if ch.flag(0.3, label) else [ch.int(100, 900, label), ch.int(100, 900, label)]
    return {"show_menu": ch.flag(0.5, "menu"), "image_size": size("isize"), "window_size": size("wsize"), "notebook_size": size("nsize")}


def _num(ch, lo, hi, label):
    return round(ch.real(lo, hi, label), 4)


def _view(ch):
    c = lambda: ch.pick(COLORS, "color")
    cam = lambda lab: None if ch.flag(0.5, lab) else _num(ch, 0.0, 90.0, lab)
    return {
        "plot_clip": {"clip_plot": ch.flag(0.3, "clip"), "clip_invert": ch.flag(0.5, "invert"),
                      "clip_axis": ch.pick(["x", "y", "z"], "axis"), "clip_value": _num(ch, -1.0, 1.0, "clipval")},
        "plot_theme": {"text_color": c(), "title_font": ch.int(0, 20, "tfont"), "colorbar_font": ch.int(1, 20, "cfont"),
                       "colorbar_size": ch.int(0, 9, "csize"), "colorbar_plot": ch.flag(0.7, "cplot"), "background_color": c(),
                       "axis_add": ch.flag(0.7, "axadd"), "axis_size": ch.int(1, 5, "axsize")},
        "plot_view": {"grid_plot": ch.flag(0.6, "grid"), "grid_thickness": _num(ch, 0.1, 3.0, "gt"), "grid_color": c(), "grid_opacity": _num(ch, 0.0, 1.0, "go"),
                      "geom_plot": ch.flag(0.6, "geom"), "geom_thickness": _num(ch, 0.1, 3.0, "et"), "geom_color": c(), "geom_opacity": _num(ch, 0.0, 1.0, "eo"),
                      "point_plot": ch.flag(0.6, "point"), "point_color": c(), "point_size": _num(ch, 1.0, 9.0, "ps"), "point_opacity": _num(ch, 0.0, 1.0, "po"),
                      "camera_roll": cam("roll"), "camera_azimuth": cam("azim"), "camera_elevation": cam("elev")},
    }


def _number(ch):
    return ch.int(5, 24, "n_plot") if ch.flag(0.02, "many") else ch.int(1, 4, "n_plot")


def _title(ch, used):
    if used and ch.flag(0.1, "same-title"):
        return used[-1]
    t = "title %d" % len(used)
    used.append(t)
    return t


def random_viewer(ch, n=None):
    """Viewer definition."""
    out = {}
    used = []
    for i in range(_number(ch) if n is None else n):
        layout = ch.pick(["domain", "graph", "mesh"], "layout")
        text = None if ch.flag(0.2, "notitle") else _title(ch, used)
        if layout == "mesh":
            data = {"title": text, "color_voxel": ch.pick(COLORS, "cv"), "color_reference": ch.pick(COLORS, "cr"),
                    "opacity_voxel": _num(ch, 0.0, 1.0, "ov"), "opacity_reference": _num(ch, 0.0, 1.0, "or")}
        else:
            data = {"title": text, "colormap": ch.pick(MAPS, "map"), "opacity": _num(ch, 0.0, 1.0, "op")}
        out["%s%d" % (ch.pick(["p", "view", "dom", "Plot B", "P.", "\u00e9"], "tag"), i)] = {
            "framework": "pyvista", "layout": layout, "title": _title(ch, used), "data_window": _window(ch), "data_options": _view(ch), "data_plot": data}
    return out


def limits(ch, vals, label):
    """Limits somewhere in the range of the values (never exactly at a value)."""
    vals = np.asarray(vals, dtype=float)
    vals = vals[np.isfinite(vals)]
    if len(vals) == 0 or ch.flag(0.5, label):
        return None
    (a, b) = (float(np.min(vals)), float(np.max(vals)))
    w = (b-a) or max(abs(a), 1.0)
    lo = a+w*(ch.real(-0.31, 0.73, label)+1.2345e-4)
    hi = lo+w*(ch.real(0.05, 1.0, label)+2.3456e-4)
    return [lo, hi]


def sweep_var(sol, tag):
    return sol["data_sweep"][tag]["var"]


def random_plotter(ch, sol, n=None, kinds=("pyvista", "pyvista", "matplotlib"), broken=False):
    """Plotter definition for a solution."""
    tags = list(sol["data_sweep"])
    names = sweep_var(sol, tags[0])
    groups = {}
    for name, val in names.items():
        groups.setdefault(val["cat"].split("_")[0], []).append(name)
    out = {}
    used = []
    for i in range(_number(ch) if n is None else n):
        framework = ch.pick(kinds, "framework")
        used_title = _title(ch, used)
        if framework == "matplotlib":
            layout = ch.pick(["convergence", "residuum"], "layout")
            if layout == "convergence":
                data = {"color_active": ch.pick(COLORS, "c1"), "color_reactive": ch.pick(COLORS, "c2"), "marker": _num(ch, 1.0, 5.0, "m"), "width": _num(ch, 0.5, 4.0, "w")}
            else:
                data = {"bar_color": ch.pick(COLORS, "c1"), "edge_color": ch.pick(COLORS, "c2"), "tol_bins": _num(ch, 0.01, 0.2, "tol"), "n_bins": ch.int(2, 14, "nb")}
            opt = {"style": ch.pick(["default", "ggplot", "classic"], "style"), "legend": ch.pick(["best", "upper left"], "leg"), "font": ch.int(6, 14, "font")}
        else:
            opt = _view(ch)
            layout = ch.pick(["material", "norm_voxel", "phasor_voxel", "arrow_voxel", "norm_point", "phasor_point", "arrow_point"], "layout")
            text = None if ch.flag(0.2, "notitle") else _title(ch, used)
            if layout == "material":
                data = {"title": text}
                for k in ("electric", "magnetic", "electromagnetic", "current_source", "voltage_source"):
                    data["color_"+k] = ch.pick(COLORS, "color")
            else:
                (what, where) = layout.split("_")
                if what == "norm":
                    cand = groups.get("cloud", []) if where == "point" else groups.get("scalar", [])+groups.get("vector", [])
                elif what == "phasor":
                    # a phasor is a scalar variable
                    cand = [] if where == "point" else groups.get("scalar", [])
                else:
                    cand = groups.get("cloud", []) if where == "point" else groups.get("vector", [])
                if not cand:
                    layout = "norm_"+where
                    what = "norm"
                    cand = groups.get("cloud", []) if where == "point" else groups["scalar"]
                var = ch.pick(cand, "var") if cand else "H_p"
                if broken and ch.flag(0.3, "badvar"):
                    var = "unknown"
                tag = ch.pick(tags, "reftag")
                scale = ch.pick([1.0, 1000.0, -2.5, 1e-3], "scale")
                data = {"title": text, "legend": None if ch.flag(0.2, "noleg") else "legend %d" % i, "var": var, "log": ch.flag(0.3, "log"), "scale": scale,
                        "color_lim": None, "filter_lim": None, "clamp_lim": None}
                if what != "norm":
                    data["phase"] = ch.pick([0.0, 1.0, -0.7, 1.5707963267948966], "phase")
                if what == "arrow":
                    data["arrow_threshold"] = ch.pick([1e-3, 0.0, 0.1371, 0.6, 1.2], "thr")
                    data["arrow_scale"] = ch.pick([0.5, 1.0, 2.0], "asc")
                else:
                    data["point_size"] = _num(ch, 1.0, 9.0, "psz")
                vals = values(sol, tag, layout, data)[1] if var in names else []
                data["color_lim"] = limits(ch, vals, "color_lim")
                data["filter_lim"] = limits(ch, vals, "filter_lim")
                data["clamp_lim"] = limits(ch, vals, "clamp_lim")
        out["%s%d" % (ch.pick(["p", "plot", "x_", "Plot B", "P.", "\u00e9"], "tag"), i)] = {
            "framework": framework, "layout": layout, "title": used_title, "data_window": _window(ch), "data_options": opt, "data_plot": data}
    return out


# ---------------------------------------------------------------- expected data

def centers(n, d, c, idx):
    """Voxel centers."""
    idx = np.asarray(idx, dtype=int)
    ijk = np.stack([idx % n[0], (idx//n[0]) % n[1], idx//(n[0]*n[1])], axis=1)
    return (ijk+0.5-np.array(n)/2)*np.array(d)+np.array(c)


def _where(sol, cat):
    data = sol["data_init"]
    if cat == "cloud":
        return np.array(data["pts_cloud"], dtype=float).reshape(-1, 3)
    idx = data["idx_vc"] if cat.endswith("electric") else data["idx_vm"]
    return centers(data["n"], data["d"], data["c"], idx)


def values(sol, tag, layout, data):
    """Position, scaled scalar values, and vectors of the variable (before filtering and clamping)."""
    item = sweep_var(sol, tag)[data["var"]]
    arr = np.array(item["var"])
    pos = _where(sol, item["cat"])
    vec = None
    if layout.startswith("norm"):
        val = np.abs(arr) if arr.ndim == 1 else np.sqrt(np.sum(np.abs(arr)**2, axis=1))
    else:
        rot = np.real(arr)*np.cos(data["phase"])-np.imag(arr)*np.sin(data["phase"])
        if layout.startswith("arrow"):
            vec = rot
            val = np.sqrt(np.sum(rot**2, axis=1))
        else:
            val = rot
    return pos, val*data["scale"], vec


class Expect:
    """Expected payload: positions, values, and optional elements (near a limit)."""

    def __init__(self, pos, val, vec=None, may=None):
        self.pos = pos
        self.val = val
        self.vec = vec
        self.may = np.zeros(len(pos), dtype=bool) if may is None else may


def payload(sol, tag, layout, data):
    """Expected payload of a variable plot."""
    (pos, val, vec) = values(sol, tag, layout, data)
    tol = 1e-9*(np.max(np.abs(val)) if len(val) else 0.0)
    keep = np.isfinite(val)
    may = np.zeros(len(val), dtype=bool)
    if data["filter_lim"] is not None:
        (lo, hi) = data["filter_lim"]
        keep &= (val >= lo-tol) & (val <= hi+tol)
        may |= (np.abs(val-lo) <= tol) | (np.abs(val-hi) <= tol)
    if layout.startswith("arrow") and np.any(keep):
        ambiguous = bool(np.any(may & keep))
        thr = np.max(val[keep])*data["arrow_threshold"]
        may |= (np.abs(val-thr) <= tol)
        if ambiguous:
            may |= True
        keep &= val > thr-tol
    may &= keep
    if data["clamp_lim"] is not None:
        val = np.clip(val, *data["clamp_lim"])
    return Expect(pos[keep], val[keep], None if vec is None else vec[keep], may[keep])


MATERIAL = ["electric", "magnetic", "electromagnetic", "current_source", "voltage_source"]


def material(sol, data):
    """Expected position and color of every voxel."""
    ini = sol["data_init"]
    code = {}
    for x in ini["idx_vc"]:
        code[int(x)] = "electric"
    for x in ini["idx_vm"]:
        code[int(x)] = "electromagnetic" if int(x) in code else "magnetic"
    for x in ini["idx_src_c"]:
        code[int(x)] = "current_source"
    for x in ini["idx_src_v"]:
        code[int(x)] = "voltage_source"
    idx = sorted(code)
    return centers(ini["n"], ini["d"], ini["c"], idx), [data["color_"+code[x]] for x in idx]
