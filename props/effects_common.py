"""Shared by C10 and C11: the package, its interface and what counts as state."""
import ast
import re

from zsa import effects

# queries and builders of the interface; functions which are documented to change
# their argument (modify_maps, the map writer, the matrix builder) are not among them
ROOTS = {
    "zoidberg.boundary": ["NoBoundary.*", "RectangularBoundaryXZ.*", "PolygonBoundaryXZ.*"],
    "zoidberg.diff": ["c2", "c4", "field_line_length"],
    "zoidberg.field": ["*.*"],
    "zoidberg.fieldtracer": [
        "FieldTracer.*", "FieldTracerReversible.*", "trace_poincare", "CachingFieldTracer.*", "FieldTracerWeb.*",
        "EMC3FieldTracer.*", "FusionSCTracer.*",
    ],
    "zoidberg.grid": ["Grid.*", "rectangular_grid"],
    "zoidberg.poloidal_grid": [
        "PoloidalGrid.*", "RectangularPoloidalGrid.*", "StructuredPoloidalGrid.*", "grid_annulus", "grid_elliptic",
    ],
    "zoidberg.rzline": [
        "RZline.*", "circle", "shaped_line", "line_from_points_poly", "line_from_points_fast", "line_from_points_two_opt",
        "line_from_points_convex_hull", "line_from_points_alphashape", "line_from_points",
    ],
    "zoidberg.spectralline": ["SpectralLine.*"],
    "zoidberg.smooth": ["smooth", "find_outliers", "gen_newr"],
    "zoidberg.stencil_dagp_fv": ["doit", "toCent", "l2", "getSame"],
    "zoidberg.zoidberg": ["make_maps", "get_metric", "update_metric_names", "parallel_slice_field_name", "make_surfaces", "upscale"],
    "zoidberg.weights": [
        "classify_leg_contributions", "assign_cell_space_numbers", "catmull_rom_weights", "shift_weights_out_of_x_boundaries",
        "build_leg_space_metadata", "build_leg_weight_vector", "build_leg_destination_operator", "calculate_parallel_map_operators",
        "hits_radial_boundary",
    ],
    "zoidberg.plot": ["plot_poincare", "plot_3d_field_line", "plot_streamlines", "plot_forward_map", "plot_backward_map"],
}
# set-up methods which constructors call, and handles of services outside the package
SETUP = {"read_vmec_file", "__init__", "__enter__", "__exit__"}
SERVICE = {".config", ".pool", ".client"}
# parameters of the interface which take arrays, lists or dictionaries
ARRAYS = {
    "x", "z", "y", "phi", "r", "R", "Z", "theta", "x_values", "z_values", "y_values", "xpos", "zpos", "ypos", "y_slices",
    "xind", "zind", "xindex", "zindex", "f", "RZ_coords", "y_coords", "ycoords", "rarray", "zarray", "xarr", "zarr", "weights",
    "maps", "metric", "RZ", "d", "val", "u", "x_mapped", "mapped_xs", "subcell_weights", "weights_x", "x_offsets", "rz",
    "poloidal_grids", "pols", "A", "position", "inner_ort", "outer_ort", "field_coords", "xcoords", "zcoords",
}
NOTARRAY = {("zoidberg.fieldtracer.EMC3FieldTracer.makeMesh", "phi"), ("zoidberg.fieldtracer.EMC3FieldTracer.makeMeshes", "phi")}


def package(ck):
    pkg = effects.load(ck.root)
    if "zoidberg.zoidberg" not in pkg.mods:
        from zsa.report import AnchorMissing

        raise AnchorMissing("package zoidberg")
    return pkg


def all_functions(pkg):
    for m in pkg.mods.values():
        for f in m.funs.values():
            yield f
        for c in m.classes.values():
            for f in c.methods.values():
                yield f


def roots(pkg):
    for m, names in ROOTS.items():
        mod = pkg.mods.get(m)
        if mod is None:
            continue
        for n in names:
            if n.endswith(".*"):
                for c in mod.classes.values():
                    if n[:-2] in ("*", c.name):
                        for f in c.methods.values():
                            if not f.name.startswith("_") or f.name in ("__init__", "__call__", "__repr__"):
                                yield f
            elif n in mod.funs:
                yield mod.funs[n]


def documented_array(fun, name):
    doc = ast.get_docstring(fun.node) or ""
    for m in re.finditer(r"^\s*([\w, ]+?)\s*:\s*(.*)$", doc, re.M):
        if name in [q.strip() for q in m.group(1).split(",")]:
            t = m.group(2).lower()
            if re.search(r"array|list|sequence|dict", t):
                return True
            if re.search(r"\b(int|float|bool|str|scalar)\b", t):
                return False
    return None


def default_scalar(fun, name):
    a = fun.node.args
    pos = a.posonlyargs + a.args
    for p, d in list(zip(reversed(pos), reversed(a.defaults))) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if p.arg == name and isinstance(d, ast.Constant) and d.value is not None:
            return True
    return False


def is_array_param(fun, name):
    if (fun.qual, name) in NOTARRAY:
        return False
    d = documented_array(fun, name)
    if d is not None:
        return d
    if default_scalar(fun, name):
        return False
    return name in ARRAYS


ARRAYCALL = re.compile(
    r"(np|numpy)\.(array|zeros|ones|empty|full|linspace|arange|asarray|meshgrid|append|concatenate|roll|stack|transpose|sqrt|cos|sin)\b|^(linspace|zeros|ones|arange|append)\("
)


def array_attrs(pkg):
    """Attributes which some class assigns an array, list or dictionary."""
    out = set()
    for m in pkg.mods.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and (effects.is_container_expr(x.value) or ARRAYCALL.match(ast.unparse(x.value))):
                        out.add(t.attr)
    return out | {"R", "Z", "Rcoord", "Zcoord", "xarr", "zarr", "ycoords", "poloidal_grids"}


def initial(cls):
    """Attribute -> expressions its constructors assign."""
    out = {}
    if cls is None:
        return out
    for c in cls.mro():
        for name in SETUP:
            f = c.methods.get(name)
            if f is None:
                continue
            for x in ast.walk(f.node):
                if isinstance(x, (ast.Assign, ast.AnnAssign)):
                    for t in x.targets if isinstance(x, ast.Assign) else [x.target]:
                        for q in ast.walk(t):
                            if isinstance(q, ast.Attribute) and isinstance(q.ctx, ast.Store):
                                out.setdefault(q.attr, []).append(x.value)
    for c in cls.mro():
        for n, v in c.attrs.items():
            out.setdefault(n, []).append(v)
    return out


def is_cache(inits):
    """Nothing yet, or an empty dictionary to be filled."""
    for e in inits:
        if isinstance(e, ast.Constant) and e.value is None:
            continue
        if isinstance(e, ast.Dict) and not e.keys or isinstance(e, ast.Call) and ast.unparse(e) in ("dict()", "{}"):
            continue
        return False
    return True
