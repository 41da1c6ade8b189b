"""C15: exact, disjoint, and intact voxel structures for every draw of the random generator."""

import copy

import numpy as np
import pyvista as pv

from .. import findings, genmesh, sim, work
from ..core import Violation

ID = "C15"
LEVEL = "exploration"
RUNS = (1600, 40000)
RULE = ("A case is a random geometry (voxel indices, layered images, vector shapes, or surface meshes) with random overlapping domains, reduction, resampling, "
        "conflict rules, random conflict resolution, point clouds, and connection rules, sometimes corrupted. The mesher is called several times in one process, "
        "with simulated draws of the random generator (identity, reversal, adversarial, seeded). The returned structures (or the rejections) are compared with "
        "an independent set model in physical coordinates. Nontrivial: two or more domains or any post-processing.")
REAL = ["pypeec mesher (complete)", "Pillow, Shapely, Rasterio, PyVista/VTK"]
STUB = ["random generator of NumPy (simulated permutation and seeds)", "clock"]
ASSUMPTIONS = ["geometries with 2 to 400 voxels", "vector shapes: the voxel centers are not located on the contours",
               "surface meshes: convex solids (with or without cavity) whose surface is not located on the grid points"]
PROBES = ["voxel", "png", "shape", "stl", "rejected", "shared voxels resolved at random", "resolved by rules", "reduced", "resampled", "points dropped",
          "permutation identity", "permutation reverse", "permutation random", "permutation not used", "empty domain", "several components",
          "bounds of the meshes", "reference surface", "solid box", "solid cavity", "solid tetra", "solid octa", "solid prism", "solid cut"]


# triangulations of the contours which are inexact (see known-findings.txt)
KNOWN = any(kind == "inexact-triangulation" for (kind, _, _) in findings.known(ID))


class Triangulation:
    """Compare the area of the contours with the area of their triangulations (by the library)."""

    def __init__(self):
        self.inexact = False

    def __enter__(self):
        self.real = pv.PolyData.delaunay_2d

        def delaunay(mesh, *args, **kwargs):
            out = self.real(mesh, *args, **kwargs)
            area = []
            for f in genmesh.faces_of(mesh):
                (x, y) = (f[:, 0]-f[0, 0], f[:, 1]-f[0, 1])
                area.append(0.5*float(np.sum(x*np.roll(y, -1)-np.roll(x, -1)*y)))
            # a valid input: counterclockwise contour, clockwise holes
            area = sorted(area)
            valid = len(area) > 0 and area[-1] > 0 and all(x < 0 for x in area[:-1])
            if valid and not abs(out.area-sum(area)) <= 1e-4*sum(area):
                self.inexact = True
            return out
        pv.PolyData.delaunay_2d = delaunay
        return self

    def __exit__(self, *args):
        pv.PolyData.delaunay_2d = self.real


class Draws:
    """Simulated permutation."""

    def __init__(self, env, mode):
        self.env = env
        self.mode = mode
        self.used = 0

    def __call__(self, x):
        self.used += 1
        arr = np.arange(x) if isinstance(x, (int, np.integer)) else np.array(x)
        ch = self.env.ch
        if self.mode == "identity":
            idx = list(range(len(arr)))
        elif self.mode == "reverse":
            idx = list(range(len(arr)))[::-1]
        else:
            # few choices, many permutations
            seed = ch.draw(10**6, "perm")
            idx = list(np.random.RandomState(seed).permutation(len(arr)))
        return arr[np.array(idx, dtype=np.int64)]


def corrupt(ch, geo, spec):
    """Damage the geometry (it has to be rejected)."""
    kind = geo["mesh_type"]
    data = geo["data_voxelize"]
    if kind == "voxel":
        tag = ch.pick(list(data["domain_index"]), "tag")
        idx = data["domain_index"][tag]
        if idx and ch.flag(0.5, "dup"):
            idx.insert(ch.draw(len(idx)+1, "at"), ch.pick(idx, "dup"))
        else:
            nv = spec.n[0]*spec.n[1]*spec.n[2]
            idx.insert(ch.draw(len(idx)+1, "at"), nv+ch.pick([0, 1, 100], "big"))
        return "index"
    if kind == "png":
        mode = ch.pick(["size", "missing"], "bad")
        if mode == "size":
            k = ch.draw(2, "dim")
            data["param"]["size"][k] += 1
        else:
            lay = ch.pick(data["layer_stack"], "lay")
            lay["filename_list"].insert(ch.draw(len(lay["filename_list"])+1, "at"), "/nonexistent/img.png")
        return mode
    if kind == "shape":
        if len(data["layer_stack"]) > 1:
            data["layer_stack"][-1]["tag_layer"] = data["layer_stack"][0]["tag_layer"]
            return "layer"
        data["param"]["xy_min"] = [1.0, 1.0]
        data["param"]["xy_max"] = [0.0, 2.0]
        return "bounds"
    item = ch.pick([x for v in data["domain_stl"].values() for x in v], "item")
    item["filename"] = "/nonexistent/mesh.stl"
    return "missing"


def check_result(env, geo, spec, out, tri):
    """Compare a structure with the model (raises Reject if it has to be rejected)."""

    ok = out.ok
    geom = out.value["data_geom"] if ok else None

    # model (up to the random resolution)
    pts = genmesh.model_points(spec, geo["data_point"])
    fine = genmesh.model_resampling(spec, geo["data_resampling"])
    claim = genmesh.model_rules(fine, geo["data_conflict"])
    count = {}
    for v in claim.values():
        for x in v:
            count[x] = count.get(x, 0)+1
    shared = {x for x, k in count.items() if k > 1}
    if shared and not geo["data_conflict"]["resolve_random"]:
        raise genmesh.Reject("conflict")
    comps = genmesh.components(set(count))
    if not ok:
        # without shared voxels, the integrity is known
        if shared:
            return False
        genmesh.model_integrity(claim, comps, geo["data_integrity"])
        raise Violation("valid-rejected", "a valid geometry is rejected: %r" % out)

    # grid
    env.check(out.value["status"] is True, "status", "status")
    n = [int(x) for x in geom["n"]]
    env.check(n == fine.n, "wrong-grid", "n=%s, expected %s" % (n, fine.n))
    for k in range(3):
        env.check(abs(geom["d"][k]-fine.d[k]) <= 1e-9*fine.d[k], "wrong-grid", "d=%s, expected %s" % (geom["d"], fine.d))
        env.check(abs(geom["c"][k]-fine.c[k]) <= 1e-9*fine.d[k]*fine.n[k]+1e-12*abs(fine.c[k]), "wrong-grid", "c=%s, expected %s" % (geom["c"], fine.c))
        env.check(abs(geom["s"][k]-fine.d[k]*fine.n[k]) <= 1e-9*fine.d[k]*fine.n[k], "wrong-grid", "s=%s" % (geom["s"],))

    # domains
    env.check(set(geom["domain_def"]) == set(claim), "wrong-domains", "domains %s, expected %s" % (sorted(geom["domain_def"]), sorted(claim)))
    got = {}
    nv = n[0]*n[1]*n[2]
    for tag, idx in geom["domain_def"].items():
        idx = [int(x) for x in idx]
        env.check(all(0 <= x < nv for x in idx), "wrong-domains", "domain %s: index out of range" % tag)
        env.check(len(set(idx)) == len(idx), "not-disjoint", "domain %s: duplicated voxels" % tag)
        got[tag] = {genmesh.unlin(n, x) for x in idx}
    seen = {}
    for tag, v in got.items():
        for x in v:
            env.check(x not in seen, "not-disjoint", lambda: "the voxel %s belongs to %s and %s" % (x, seen[x], tag))
            seen[x] = tag
    for tag in claim:
        lost = {x for x in claim[tag]-got[tag] if x not in shared}
        more = got[tag]-claim[tag]
        env.check(not lost, "wrong-domains", lambda: "domain %s: voxels %s are missing" % (tag, sorted(lost)[:5]))
        env.check(not more, "wrong-domains", lambda: "domain %s: voxels %s do not belong to it" % (tag, sorted(more)[:5]))
    lost = set(count)-set(seen)
    env.check(not lost, "wrong-domains", lambda: "the voxels %s are in no domain" % sorted(lost)[:5])

    # connected components
    graph = []
    for idx in geom["graph_def"]:
        idx = [int(x) for x in idx]
        env.check(len(set(idx)) == len(idx), "wrong-components", "duplicated voxels")
        graph.append(frozenset(genmesh.unlin(n, x) for x in idx))
    env.check(len(graph) == len(comps) and set(graph) == set(comps), "wrong-components", lambda: "components %s, expected %s" % (
        [sorted(x)[:4] for x in graph], [sorted(x)[:4] for x in comps]))

    # points
    arr = np.array(geom["pts_cloud"], dtype=float).reshape(-1, 3)
    env.check(len(arr) == len(pts) and np.allclose(arr, np.array(pts, dtype=float).reshape(-1, 3), rtol=1e-12, atol=0), "wrong-points",
              lambda: "points %s, expected %s" % (arr.tolist(), pts))

    # summary
    vol = fine.d[0]*fine.d[1]*fine.d[2]
    exp = {"n_total": nv, "n_used": len(seen), "n_domain": len(got), "n_graph": len(comps), "n_cloud": len(pts), "ratio": len(seen)/nv,
           "V_total": nv*vol, "V_used": len(seen)*vol}
    size = [fine.d[k]*n[k] for k in range(3)]
    exp.update({"A_xy": size[0]*size[1], "A_yz": size[1]*size[2], "A_xz": size[0]*size[2]})
    for k, v in exp.items():
        x = geom["voxel_status"][k]
        env.check(abs(x-v) <= 1e-9*abs(v), "wrong-summary", "%s=%s, expected %s" % (k, x, v))

    # reference surface
    msg = genmesh.check_reference(spec, geom["reference"])
    if msg is not None and tri.inexact:
        # the triangulation of the library is inexact for this contour
        if not KNOWN:
            raise Violation("inexact-triangulation", "the triangulation of a contour does not have the area of the contour: %s" % msg)
        env.probe("known finding: inexact triangulation")
    else:
        env.check(msg is None, "wrong-reference", lambda: "reference surface: %s" % msg)
    if geom["reference"] is not None:
        env.probe("reference surface")

    # integrity of the returned structure
    try:
        genmesh.model_integrity(got, comps, geo["data_integrity"])
    except genmesh.Reject as ex:
        raise Violation("invalid-accepted", "the connections of the domains are not checked: %s" % ex) from None

    # probes
    if geo["data_resampling"]["use_reduce"] and fine.n != spec.n:
        env.probe("reduced")
    if geo["data_resampling"]["use_resample"] and max(geo["data_resampling"]["resampling_factor"]) > 1:
        env.probe("resampled")
    if len(pts) < len(geo["data_point"]["pts_cloud"]):
        env.probe("points dropped")
    if shared:
        env.probe("shared voxels resolved at random")
    if any(claim[k] != fine.dom[k] for k in claim):
        env.probe("resolved by rules")
    if not all(got.values()):
        env.probe("empty domain")
    if len(comps) > 1:
        env.probe("several components")
    return True


def run(env):
    ch = env.ch
    with sim.simulation(env):
        img = sim.new_image()
        real_perm = np.random.permutation
        env.cleanups.append(lambda: setattr(np.random, "permutation", real_perm))
        for step in range(ch.pick([1, 2, 3], "n_call")):
            (geo, spec) = genmesh.random_geometry(ch, env)
            bad = corrupt(ch, geo, spec) if ch.flag(0.12, "corrupt") else None
            env.probe(geo["mesh_type"])
            if len(spec.dom) > 1 or geo["data_resampling"]["use_reduce"]:
                env.nontrivial = True
            for _ in range(1 if not geo["data_conflict"]["resolve_random"] else ch.int(1, 3, "n_draw")):
                np.random.seed(ch.draw(10**6, "npseed"))
                draws = None
                if ch.flag(0.7, "simperm"):
                    draws = Draws(env, ch.pick(["identity", "reverse", "random"], "permmode"))
                    np.random.permutation = draws
                try:
                    with Triangulation() as tri:
                        out = work.mesh(env, img, copy.deepcopy(geo))
                finally:
                    np.random.permutation = real_perm
                if draws is not None and draws.used:
                    env.probe("permutation "+draws.mode)
                elif geo["data_conflict"]["resolve_random"]:
                    env.probe("permutation not used")
                env.event("mesh", geo["mesh_type"], spec.n, out.kind(), bad or "")
                if bad:
                    env.check(not out.ok, "invalid-accepted", "a geometry with an invalid %s is accepted (%s)" % (bad, geo["mesh_type"]))
                    env.probe("rejected")
                    continue
                try:
                    check_result(env, geo, spec, out, tri)
                except genmesh.Reject as ex:
                    env.check(not out.ok, "invalid-accepted", "an invalid geometry is accepted: %s" % ex)
                    env.probe("rejected")
                    continue
            env.sample = "%s %s, %d domains, %s" % (geo["mesh_type"], spec.n, len(spec.dom), "ok" if out.ok else "rejected")
