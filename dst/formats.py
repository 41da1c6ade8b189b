"""
Documented formats of the input files (written independently of the schemas of PyPEEC),
and random damages of valid definitions.
"""

import copy

import numpy as np


class Node:
    """Value of a definition."""

    null = False

    def wrong_types(self):
        """Values of a wrong type (as factories)."""
        raise NotImplementedError

    def local(self, val):
        """Damages of this value: list of (label, new value)."""
        out = [("type", x) for x in self.wrong_types()]
        if not self.null:
            out.append(("null", None))
        return out

    def children(self, val):
        """Children: list of (key, node)."""
        return []


class Float(Node):
    def __init__(self, low=None):
        self.low = low

    def wrong_types(self):
        return ["1.0", [1.0], True, {}, 1]

    def local(self, val):
        out = super().local(val)
        if self.low is not None:
            out += [("below", self.low-1e-3), ("below", self.low-5.0)]
        return out


class Int(Node):
    def __init__(self, low=None):
        self.low = low

    def wrong_types(self):
        return ["1", 1.0, 2.5, [1], True, {}]

    def local(self, val):
        out = super().local(val)
        if self.low is not None:
            out += [("below", self.low-1), ("below", self.low-7)]
        return out


class Bool(Node):
    def wrong_types(self):
        return ["true", 1, 0, 1.0, []]


class Str(Node):
    def wrong_types(self):
        return [1, 2.0, True, ["x"], {}]

    def local(self, val):
        return super().local(val)+[("empty", "")]


class Enum(Node):
    def __init__(self, *names):
        self.names = names
        self.null = None in names

    def wrong_types(self):
        return [1, True, ["x"], {}]

    def local(self, val):
        out = super().local(val)+[("unknown", "xxx"), ("unknown", "")]
        if isinstance(val, str):
            out += [("unknown", x) for x in (val.upper(), val.lower(), val+" ", val[:-1]) if x not in self.names]
        return out


class Null(Node):
    """Value or null."""

    null = True

    def __init__(self, node):
        self.node = node

    def local(self, val):
        return [x for x in self.node.local(val) if x[0] != "null"] if val is not None else [("type", x) for x in self.node.wrong_types()]

    def children(self, val):
        return [] if val is None else self.node.children(val)


class List(Node):
    """List with a minimum length or a given length."""

    def __init__(self, node, low=0, size=None):
        self.node = node
        self.low = low
        self.size = size

    def wrong_types(self):
        return [1.0, 1, "abc", {}, True]

    def local(self, val):
        out = super().local(val)
        val = list(val)
        if self.size is not None:
            out += [("short", val[:-1]), ("long", val+[copy.deepcopy(val[-1])]), ("short", [])]
        elif self.low > 0:
            out.append(("short", val[:self.low-1]))
        return out

    def children(self, val):
        return [(i, self.node) for i in range(len(val))]


class Dict(Node):
    """Object with required fields."""

    def __init__(self, **fields):
        self.fields = fields

    def wrong_types(self):
        return [[], "abc", 1.0, True, 1]

    def local(self, val):
        out = super().local(val)
        for k in self.fields:
            out.append(("missing "+k, {a: b for a, b in val.items() if a != k}))
            out.append(("misspelled "+k, {(a+"_" if a == k else a): b for a, b in val.items()}))
        return out

    def children(self, val):
        return [(k, v) for k, v in self.fields.items() if v is not None]


class Map(Node):
    """Object with free names."""

    def __init__(self, node, low=0):
        self.node = node
        self.low = low

    def wrong_types(self):
        return [[], "abc", 1.0, True]

    def local(self, val):
        out = super().local(val)
        if self.low > 0:
            out.append(("empty", {}))
        return out

    def children(self, val):
        return [(k, self.node) for k in val]


class Switch(Node):
    """Object with a format that depends on the values."""

    def __init__(self, fct):
        self.fct = fct

    def local(self, val):
        return self.fct(val).local(val)

    def children(self, val):
        return self.fct(val).children(val)


def nodes(node, val, path=()):
    """All the values of a definition: list of (path, node, value)."""
    out = [(path, node, val)]
    for key, child in node.children(val):
        out += nodes(child, val[key], path+(key,))
    return out


def put(val, path, new):
    """Replace a value of a definition (copy)."""
    if not path:
        return new
    val = copy.copy(val) if not isinstance(val, np.ndarray) else val.tolist()
    val[path[0]] = put(val[path[0]], path[1:], new)
    return val


def damage(ch, node, val):
    """Random damage of a definition: (label, damaged definition)."""
    # first the kind of value, such that the large lists are not preferred
    items = nodes(node, val)
    names = sorted({shape(path) for path, _, _ in items})
    name = ch.pick(names, "where")
    (path, item, old) = ch.pick([x for x in items if shape(x[0]) == name], "which")
    (label, new) = ch.pick(item.local(old), "how")
    return "%s: %s (%r)" % (name or "all", label, new if not isinstance(new, (dict, list)) else type(new).__name__), put(val, path, copy.deepcopy(new)), label.split(" ")[0]


def shape(path):
    """Path without the indices."""
    return "/".join("#" if isinstance(x, int) else str(x) for x in path)


# ---------------------------------------------------------------- formats

V3F = List(Float(), size=3)
V3P = List(Float(0.0), size=3)
V3I = List(Int(1), size=3)
V2F = List(Float(), size=2)
NAME = Str()
NAMES = List(NAME, 1)
GROUPS = Dict(domain_group=List(NAMES, 1), connected=Bool())

VOXELIZE = {
    "voxel": Dict(param=Dict(n=V3I, d=V3P, c=V3F), domain_index=Map(List(Int(0)), 1)),
    "png": Dict(
        param=Dict(d=V3P, c=V3F, size=List(Int(1), size=2)),
        domain_color=Map(List(List(Int(0), size=4), 1), 1),
        layer_stack=List(Dict(n_layer=Int(1), filename_list=NAMES), 1),
    ),
    "stl": Dict(
        param=Dict(d=V3P, xyz_min=Null(V3F), xyz_max=Null(V3F)),
        domain_stl=Map(List(Dict(scale=Float(0.0), offset=V3F, filename=NAME), 1), 1),
    ),
    "shape": Dict(
        param=Dict(dx=Float(0.0), dy=Float(0.0), dz=Float(0.0), cz=Null(Float()), simplify=Null(Float(0.0)), construct=Null(Float(0.0)), xy_min=Null(V2F), xy_max=Null(V2F)),
        layer_stack=List(Dict(n_layer=Int(1), tag_layer=NAME), 1),
        geometry_shape=Map(List(Switch(lambda val: Dict(
            shape_layer=NAMES, shape_operation=Enum("add", "sub"), shape_type=Enum("trace", "pad", "polygon"), shape_data=SHAPES[val["shape_type"]],
        )), 1), 1),
    ),
}
SHAPES = {
    "pad": Dict(diameter=Float(0.0), coord=List(V2F, 1)),
    "trace": Dict(width=Float(0.0), coord=List(V2F, 1)),
    "polygon": Dict(buffer=Null(Float(0.0)), coord_shell=List(V2F, 1), coord_holes=List(List(V2F, 1))),
}
GEOMETRY = Switch(lambda val: Dict(
    mesh_type=Enum("png", "stl", "shape", "voxel"),
    data_voxelize=VOXELIZE[val["mesh_type"]],
    data_point=Dict(check_cloud=Bool(), full_cloud=Bool(), pts_cloud=List(V3F)),
    data_resampling=Dict(use_reduce=Bool(), use_resample=Bool(), resampling_factor=V3I),
    data_conflict=Dict(resolve_rules=Bool(), resolve_random=Bool(), conflict_rules=List(Dict(domain_resolve=NAMES, domain_keep=NAMES))),
    data_integrity=Dict(domain_connected=Map(GROUPS), domain_adjacent=Map(GROUPS)),
))

PROBLEM = Dict(
    material_def=Map(Dict(domain_list=NAMES, material_type=Enum("electric", "magnetic", "electromagnetic"), orientation_type=Enum("isotropic", "anisotropic"), var_type=Enum("lumped", "distributed")), 1),
    source_def=Map(Dict(domain_list=NAMES, source_type=Enum("current", "voltage"), var_type=Enum("lumped", "distributed")), 1),
    sweep_solver=Map(Dict(init=Null(Str()), param=Dict(freq=Float(0.0), material_val=None, source_val=None)), 1),
)

ITER = Dict(solver=Enum("gmres", "gcrot"), n_inner=Int(0), n_outer=Int(0), rel_tol=Float(0.0), abs_tol=Float(0.0))


class Segregated(Dict):
    """The options of the iterative solvers are only required by the segregated solver."""

    def local(self, val):
        return [x for x in super().local(val) if not x[0].endswith(("iter_electric_options", "iter_magnetic_options"))]


TOLERANCE = Dict(
    parallel_sweep=Dict(n_jobs=Int(), n_threads=Null(Int())),
    integral_simplify=Float(0.0),
    biot_savart=Enum("face", "voxel"),
    mult_type=Enum("fft", "direct"),
    fft_options=Dict(
        matrix_split=Bool(), library=Enum("NumPy", "SciPy", "MKL", "FFTW", "CuPy"), scipy_worker=Int(), fftw_thread=Int(),
        fftw_timeout=Null(Float(0.0)), fftw_byte_align=Null(Int(0)),
    ),
    factorization_options=Dict(
        library=Enum("SuperLU", "PARDISO", "PyAMG"),
        pyamg_options=Dict(tol=Float(0.0), solver=Enum("adapt", "root"), krylov=Enum(None, "gmres", "fgmres")),
        pardiso_options=Dict(thread_pardiso=Null(Int()), thread_mkl=Null(Int())),
    ),
    solver_options=Dict(
        coupling=Enum("direct", "segregated"),
        tolerance_options=Dict(ignore_status=Bool(), ignore_res=Bool(), rel_tol=Float(0.0), abs_tol=Float(0.0)),
        power_options=Dict(stop=Bool(), n_min=Int(0), n_cmp=Int(0), rel_tol=Float(0.0), abs_tol=Float(0.0)),
        direct_options=ITER,
        segregated_options=Segregated(
            relax_electric=Float(0.0), relax_magnetic=Float(0.0), n_min=Int(0), n_max=Int(0), rel_tol=Float(0.0), abs_tol=Float(0.0),
            iter_electric_options=ITER, iter_magnetic_options=ITER,
        ),
    ),
    condition_options=Dict(check=Bool(), tolerance_electric=Float(0.0), tolerance_magnetic=Float(0.0), norm_options=Dict(t_accuracy=Int(0), n_iter_max=Int(0))),
)

SIZE = Null(List(Int(0), size=2))
POS = Float(0.0)
TITLE = Null(Str())
LIM = Null(V2F)
WINDOW = Dict(show_menu=Bool(), image_size=SIZE, window_size=SIZE, notebook_size=SIZE)
OPTIONS = {
    "pyvista": Dict(
        plot_clip=Dict(clip_plot=Bool(), clip_invert=Bool(), clip_axis=Enum("x", "y", "z"), clip_value=Float()),
        plot_theme=Dict(text_color=Str(), title_font=Int(0), colorbar_font=Int(0), colorbar_size=Int(0), colorbar_plot=Bool(), background_color=Str(), axis_add=Bool(), axis_size=Int(0)),
        plot_view=Dict(
            grid_plot=Bool(), grid_thickness=POS, grid_color=Str(), grid_opacity=POS, geom_plot=Bool(), geom_thickness=POS, geom_color=Str(), geom_opacity=POS,
            point_plot=Bool(), point_color=Str(), point_size=POS, point_opacity=POS,
            camera_roll=Null(POS), camera_azimuth=Null(POS), camera_elevation=Null(POS),
        ),
    ),
    "matplotlib": Dict(style=Str(), legend=Str(), font=Int(0)),
}
FIELD = {"title": TITLE, "legend": TITLE, "var": Str(), "log": Bool(), "color_lim": LIM, "filter_lim": LIM, "clamp_lim": LIM}
NORM = Dict(scale=Float(), point_size=POS, **FIELD)
PHASOR = Dict(phase=Float(), scale=Float(), point_size=POS, **FIELD)
ARROW = Dict(phase=Float(), scale=Float(), arrow_threshold=POS, arrow_scale=POS, **FIELD)
DOMAIN = Dict(title=TITLE, colormap=Str(), opacity=POS)
LAYOUTS = {
    "domain": DOMAIN, "graph": DOMAIN,
    "mesh": Dict(title=TITLE, color_voxel=Str(), color_reference=Str(), opacity_voxel=POS, opacity_reference=POS),
    "material": Dict(title=TITLE, color_electric=Str(), color_magnetic=Str(), color_electromagnetic=Str(), color_current_source=Str(), color_voltage_source=Str()),
    "convergence": Dict(color_active=Str(), color_reactive=Str(), marker=POS, width=POS),
    "residuum": Dict(bar_color=Str(), edge_color=Str(), tol_bins=POS, n_bins=Int(0)),
    "norm_voxel": NORM, "norm_point": NORM, "phasor_voxel": PHASOR, "phasor_point": PHASOR, "arrow_voxel": ARROW, "arrow_point": ARROW,
}
VIEWERS = ("domain", "graph", "mesh")
PLOTTERS = tuple(x for x in LAYOUTS if x not in VIEWERS)


def _plots(layouts):
    return Map(Switch(lambda val: Dict(
        framework=Enum("pyvista", "matplotlib"), layout=Enum(*layouts), title=Str(), data_window=WINDOW,
        data_options=OPTIONS[val["framework"]], data_plot=LAYOUTS[val["layout"]],
    )))


VIEWER = _plots(VIEWERS)
PLOTTER = _plots(PLOTTERS)
VOXEL = Dict(date=None, duration=None, seconds=None, status=None, data_geom=None)
SOLUTION = Dict(date=None, duration=None, seconds=None, status=None, data_init=None, data_sweep=None)
