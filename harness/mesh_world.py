"""World for C15 and C16: the real dxss.meshes on real gmsh, meshio, h5py and files, with a stand-in for DOLFINx.

A case is a sequence of lives. In each life the rank processes (simenv/simranks.py) perform the same list of
builder calls in one directory tree; a call may be struck by a fault (an operation fails, is interrupted, leaves a
file short, or the job dies there), and before a call the files and the gmsh session may be tampered with. The next
life starts in the directory the last one left behind."""
from __future__ import annotations

import hashlib
import os
import shutil
import sys
import tempfile

import numpy as np

import core
import loader

sk = sr = None
VERSIONS = ("0.7.2", "0.6.0")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

# ------------------------------------------------------ what each builder promises

E = "get_mesh_"
DEFAULTS = {
    "create_initial_mesh_convex": [1.0], E + "convex": [None, 1.0], E + "hierarchy": [None, 1.0],
    E + "hierarchy_nonconvex": [None, 1.0], E + "hierarchy_fitted_disc": [None, None, 1.25],
    E + "inclusion": [1.25, 2], E + "inclusion_square": [1.25, -1.25, 1.25, -1.25, 1.25, 1.25],
    E + "bottom_data": [1.25, 0.6], E + "data_all_around": [None, 1.0], "get_3d_mesh_data_all_around": [None, 1.0],
}
NAMES = tuple(DEFAULTS)


def full_args(call):
    a = list(call["a"])
    return a + DEFAULTS[call["b"]][len(a):]


def rect(x0, x1, y0, y1):
    """Sides of a rectangle: (axis, constant, from, to)."""
    return [(0, x0, y0, y1), (0, x1, y0, y1), (1, y0, x0, x1), (1, y1, x0, x1)]


CONVEX = rect(0.1, 0.9, 0.25, 0.95) + [(0, 0.1, 0.95, 1.0), (0, 0.9, 0.95, 1.0)]


def promise(name, a):
    """domain, interfaces, size factor, number of refinements (or None)"""
    unit = (0.0, 1.0, 0.0, 1.0)
    big = (-1.5, 1.5, -1.5, 1.5)
    if name == "create_initial_mesh_convex":
        return unit, CONVEX, a[0], None
    if name == E + "hierarchy":
        return unit, CONVEX, a[1], a[0]
    if name == E + "hierarchy_nonconvex":
        return unit, rect(0.25, 0.75, 0.05, 0.5) + rect(0.125, 0.875, 0.05, 0.95), a[1], a[0]
    if name == E + "hierarchy_fitted_disc":
        return unit, rect(0.1, 0.9, 0.25, 0.95) + [(1, a[1], 0.0, 1.0)], a[2], a[0]
    if name == E + "inclusion":
        return big, rect(-0.5, 0.5, -0.5, 0.5) + rect(-1.25, 1.25, -1.25, 1.5) + ["disk"], a[0], None
    if name == E + "inclusion_square":
        h, xl, xr, yl, yr, eta = a
        lines = rect(-0.75, 0.75, -0.75, 0.75) + rect(xl, xr, yl, yr)
        return big, lines + ([(1, eta, -1.5, 1.5)] if eta < 1.5 else []), h, None
    if name == E + "bottom_data":
        eta = a[1]
        return unit, [(1, 0.25, 0, 1), (1, eta, 0, 1), (1, 0.9, 0.25, 0.75), (0, 0.25, 0.25, 1), (0, 0.75, 0.25, 1)], a[0], None
    if name == E + "data_all_around":
        return unit, rect(0.2, 0.8, 0.2, 0.8), a[1], a[0]
    return None


def geometry_problems(name, a, meshes):
    """meshes: list of (points, cells, curved). Returns a list of strings."""
    empty = [f"mesh {k} has no cells" for k, m in enumerate(meshes) if not len(m[1])]
    if empty:
        return empty
    if name == "get_3d_mesh_data_all_around":
        return cube_problems(a, meshes)
    dom, lines, f, levels = promise(name, a)
    out = []
    if levels is not None and len(meshes) != levels + 1:
        out.append(f"{len(meshes)} meshes for {levels} refinements")
    for k, m in enumerate(meshes):
        out += [f"mesh {k}: {s}" for s in plane_problems(dom, lines, *m)]
        if k:
            out += [f"mesh {k}: {s}" for s in refinement_problems(meshes[k - 1], m, 4)]
    if meshes:
        out += size_problems(meshes[0], f, np.hypot(dom[1] - dom[0], dom[3] - dom[2]))
    return out


def size_problems(m, f, diag):
    p, c = m[0], m[1]
    n = c.shape[1]
    h = max(np.linalg.norm(p[c[:, i]] - p[c[:, j]], axis=1).max() for i in range(n) for j in range(i))
    # max. edge of the unchanged builders / (f * diag): 2d 0.093..0.137, 3d 0.125..0.187 for factors 0.4..2
    lo, hi = (x * f * diag for x in ((0.08, 0.16) if p.shape[1] == 2 else (0.1, 0.225)))
    if h > hi:
        return [f"element size {h:.3g} for a size factor {f} (expected at most {hi:.3g})"]
    if f <= 1.25 and h < lo:
        return [f"element size {h:.3g} for a size factor {f} (expected at least {lo:.3g})"]
    return []


def plane_problems(dom, lines, p, c, curved):
    out = []
    if p.shape[1] != 2 or c.shape[1] != 3:
        return [f"points in {p.shape[1]}d, cells of {c.shape[1]} vertices"]
    v = p[c]
    d1, d2 = v[:, 1] - v[:, 0], v[:, 2] - v[:, 0]
    area = 0.5 * np.abs(d1[:, 0] * d2[:, 1] - d1[:, 1] * d2[:, 0])
    want = (dom[1] - dom[0]) * (dom[3] - dom[2])
    if abs(area.sum() - want) > 1e-7 * want:
        out.append(f"area {area.sum():.6g} instead of {want:g}")
    if area.min() < 1e-10:
        out.append("degenerate cells")
    if len(np.unique(np.round(p, 9), axis=0)) != len(p):
        out.append("coinciding points")
    edges = np.sort(np.concatenate([c[:, [0, 1]], c[:, [1, 2]], c[:, [0, 2]]]), axis=1)
    ue, cnt = np.unique(edges, axis=0, return_counts=True)
    if cnt.max() > 2:
        out.append("edges of more than two cells")
    b = p[ue[cnt == 1]]
    on = np.zeros(len(b), bool)
    for ax, val in ((0, dom[0]), (0, dom[1]), (1, dom[2]), (1, dom[3])):
        on |= (np.abs(b[:, :, ax] - val) < 1e-9).all(axis=1)
    if not on.all():
        out.append(f"{int((~on).sum())} boundary edges inside the domain")
    for line in lines:
        if line == "disk":
            r = np.hypot(v[:, :, 0], v[:, :, 1])
            bad = (r.min(axis=1) < 1 - 1e-7) & (r.max(axis=1) > 1 + 1e-7)
            if bad.any():
                out.append(f"{int(bad.sum())} cells across the circle of radius 1")
            continue
        ax, val, lo, hi = line
        s = v[:, :, ax] - val
        t = v[:, :, 1 - ax]
        cut = (s.min(axis=1) < -1e-9) & (s.max(axis=1) > 1e-9)
        if not cut.any():
            continue
        s, t = s[cut], t[cut]
        xs = []
        for i, j in ((0, 1), (1, 2), (0, 2)):
            cross = s[:, i] * s[:, j] <= 0
            with np.errstate(divide="ignore", invalid="ignore"):
                w = s[:, i] / (s[:, i] - s[:, j])
            xs.append(np.where(cross & np.isfinite(w), t[:, i] + w * (t[:, j] - t[:, i]), np.nan))
        xs = np.array(xs)
        overlap = np.minimum(np.nanmax(xs, axis=0), hi) - np.maximum(np.nanmin(xs, axis=0), lo)
        if (overlap > 1e-8).any():
            out.append(f"{int((overlap > 1e-8).sum())} cells across the interface {'xy'[ax]}={val:g}, {lo:g}..{hi:g}")
    if curved is not None:
        out += curved_problems(*curved)
    return out


def curved_problems(x, c):
    out = []
    n = {6: 2, 10: 3}[c.shape[1]]
    node = 3
    for i, j in ((1, 2), (0, 2), (0, 1)):  # node order of DOLFINx
        a, b = x[c[:, i]], x[c[:, j]]
        chord = np.linalg.norm(b - a, axis=1)
        ra, rb = np.hypot(*a.T), np.hypot(*b.T)
        arc = (np.abs(ra - 1) < 1e-7) & (np.abs(rb - 1) < 1e-7)
        for k in range(1, n):
            q = x[c[:, node]]
            off = np.linalg.norm(q - (a + (b - a) * k / n), axis=1)
            if (off > 0.15 * chord).any():
                out.append("nodes of the curved cells are out of place")
                return out
            straight = ~arc & (off > 1e-3 * chord)
            # cells next to an arc may be curved on their inner edges as well
            if straight.mean() > 0.5:
                out.append("nodes of straight cells are off their edges")
                return out
            if arc.any() and np.abs(np.hypot(*q[arc].T) - 1).max() > 1e-5:
                out.append("nodes of the circle are off the circle")
                return out
            node += 1
    return out


def refinement_problems(coarse, fine, factor):
    (p, c, _), (pf, cf, _) = coarse, fine
    if len(cf) != factor * len(c):
        return [f"{len(cf)} cells, {factor * len(c)} expected after uniform refinement"]
    if p.shape[1] != pf.shape[1]:
        return [f"points in {pf.shape[1]}d, in {p.shape[1]}d before refinement"]
    n = c.shape[1]
    edges = np.unique(np.sort(np.concatenate([c[:, [i, j]] for i in range(n) for j in range(i)]), axis=1), axis=0)
    want = np.concatenate([p, (p[edges[:, 0]] + p[edges[:, 1]]) / 2])
    a = np.unique(np.round(want, 9) + 0.0, axis=0)
    b = np.unique(np.round(pf, 9) + 0.0, axis=0)
    if a.shape != b.shape or np.abs(a - b).max() > 1e-8:
        return ["its vertices are not those of the coarser mesh and the midpoints of its edges"]
    return []


def cube_problems(a, meshes):
    out = []
    if len(meshes) != a[0] + 1:
        out.append(f"{len(meshes)} meshes for {a[0]} refinements")
    for k, (p, c, _) in enumerate(meshes):
        if p.shape[1] != 3 or c.shape[1] != 4:
            return [f"points in {p.shape[1]}d, cells of {c.shape[1]} vertices"]
        v = p[c]
        vol = np.abs(np.linalg.det(v[:, 1:] - v[:, :1])) / 6
        if abs(vol.sum() - 1) > 1e-7:
            out.append(f"mesh {k}: volume {vol.sum():.6g} instead of 1")
        if vol.min() < 1e-12:
            out.append(f"mesh {k}: degenerate cells")
        mid = v.mean(axis=1)
        inside = ((mid > 0.2) & (mid < 0.8)).all(axis=1)
        if abs(vol[inside].sum() - 0.216) > 1e-7:
            out.append(f"mesh {k}: cells inside the inner cube have volume {vol[inside].sum():.6g} instead of 0.216")
        if inside.any() and not ((v[inside] > 0.2 - 1e-9) & (v[inside] < 0.8 + 1e-9)).all():
            out.append(f"mesh {k}: cells across the inner cube")
        faces = np.sort(np.concatenate([c[:, [i for i in range(4) if i != j]] for j in range(4)]), axis=1)
        uf, cnt = np.unique(faces, axis=0, return_counts=True)
        if cnt.max() > 2:
            out.append(f"mesh {k}: faces of more than two cells")
        b = p[uf[cnt == 1]]
        if not ((np.abs(b) < 1e-9).all(axis=1) | (np.abs(b - 1) < 1e-9).all(axis=1)).any(axis=1).all():
            out.append(f"mesh {k}: boundary faces inside the domain")
        if k:
            out += [f"mesh {k}: {s}" for s in refinement_problems(meshes[k - 1], meshes[k], 8)]
    if meshes:
        out += size_problems(meshes[0], a[1], 3 ** 0.5)
    return out


# ----------------------------------------------------------------- execution


def prepare():
    global sk, sr
    loader.install(simenv=True)
    import simkernel
    import simranks

    sk, sr = simkernel, simranks
    simranks.install()
    import dolfinx.io  # noqa: F401
    import dolfinx.mesh  # noqa: F401
    import h5py  # noqa: F401
    import meshio.gmsh  # noqa: F401
    import meshio.xdmf  # noqa: F401
    import packaging.version  # noqa: F401


def set_version(v):
    import dolfinx

    sk.version = v
    dolfinx.__version__ = v
    sys.path.insert(0, os.path.join(HERE, "simenv", "versions", v))


def canon(p, c):
    q = np.round(p, 9) + 0.0
    order = np.lexsort(q.T[::-1])
    rank = np.empty(len(p), int)
    rank[order] = np.arange(len(p))
    cc = np.sort(rank[c], axis=1)
    cc = cc[np.lexsort(cc.T[::-1])]
    h = hashlib.sha256(q[order].tobytes())
    h.update(cc.tobytes())
    return h.hexdigest()[:16]


def summary(m, arrays):
    cur = m.curved
    d = canon(m.points, m.cells)
    if cur is not None:
        # all nodes of the curved cells, whatever their order within a cell
        d += canon(cur[0], np.sort(cur[1], axis=1))
    return {"digest": d, "cells": len(m.cells), "points": len(m.points), "comm": [m.comm.rank, m.comm.size],
            **({"arrays": (m.points, m.cells, cur)} if arrays else {})}


def builder_call(call, arrays=False):
    import dxss.meshes as me

    r = getattr(me, call["b"])(*call["a"], **call.get("kw", {}))
    single = not isinstance(r, (list, tuple))
    return {"single": single, "meshes": [summary(m, arrays) for m in ([r] if single else r)]}


def tamper(op, root):
    """Before a call: change directory, leave the gmsh session in use, damage the files."""
    import gmsh

    if "dir" in op:
        os.makedirs(os.path.join(root, op["dir"]), exist_ok=True)
        os.chdir(os.path.join(root, op["dir"]))
    if op.get("session") == "open" and not gmsh.isInitialized():
        gmsh.initialize()
        gmsh.option.setNumber("Mesh.MeshSizeFactor", 3.0)
        gmsh.option.setNumber("Mesh.Algorithm", 1)
        for t in range(1, 6):
            gmsh.model.occ.addRectangle(0, 0, 0, t, 1, tag=t)
        gmsh.model.occ.synchronize()
        gmsh.model.mesh.generate(2)
    if op.get("session") == "closed" and gmsh.isInitialized():
        gmsh.finalize()
    if sr.local.rank == 0:
        for name, how in op.get("files", []):
            damage(name, how)


def damage(name, how):
    if how == "gone":
        if os.path.exists(name):
            os.remove(name)
    elif how == "empty":
        open(name, "w").close()
    elif how == "garbage":
        with open(name, "wb") as f:
            f.write(bytes(range(256)) * 20)
    elif how == "half":
        if os.path.exists(name):
            os.truncate(name, os.path.getsize(name) // 2)
    elif how == "foreign":  # a valid mesh of something else
        import meshio

        pts = np.array([[0.0, 0.0], [2.0, 0.0], [0.0, 2.0]])
        cell = "line" if name.startswith("mt") else "triangle"
        cells = np.array([[0, 1]] if cell == "line" else [[0, 1, 2]])
        m = meshio.Mesh(np.c_[pts, np.zeros(3)] if name.endswith("msh") else pts, {cell: cells},
                        cell_data={"name_to_read": [np.array([1])]})
        if name.endswith(".msh"):
            m = meshio.Mesh(m.points, {cell: cells})
            meshio.write(name, m, file_format="gmsh22")
        elif name.endswith(".xdmf"):
            meshio.write(name, m, data_format="XML")


def reference(call, cache):
    """The same call on one rank in a clean process and directory."""
    key = repr((call["b"], call["a"], call.get("kw")))
    if key in cache:
        return cache[key]
    keep = os.getcwd()
    d = tempfile.mkdtemp(prefix="dxss-mesh-ref-")
    os.chdir(d)
    ref = {"points": 0, "writes": 0, "colls": [], "sites": {}}

    def fault(rank, i, site, info, count):
        ref["points"] += 1
        ref["sites"][site] = ref["sites"].get(site, 0) + 1
        if site == "file.written":
            ref["writes"] += 1
        if "mode" in info and "root" in info:
            ref["colls"].append(site)

    def body(rank, i):
        return builder_call(call, True)

    try:
        job = sr.Job(1, 1, body, None, fault, root=d).run()
    finally:
        os.chdir(keep)
        shutil.rmtree(d, ignore_errors=True)
    out = job.results[0][0]
    if job.died or job.stuck or job.mismatch or out is None:
        ref["failed"] = f"process ended ({job.died or job.stuck or job.mismatch})"
    elif out[0] == "unsupported":
        raise core.SimUnsupported(out[1])
    elif out[0] == "raised":
        ref["failed"] = f"{out[1]}: {out[2]}"
    else:
        ref["out"] = out[1]
    cache[key] = ref
    return ref


def execute(prop, case, rec):
    set_version(case["version"])
    import dxss.meshes  # noqa: F401  (in the version of this case)

    root = tempfile.mkdtemp(prefix="dxss-mesh-")
    cache = {}
    try:
        for k, life in enumerate(case["lives"]):
            os.chdir(root)
            run_life(prop, case, life, k, root, cache, rec)
            if rec.violations:
                break
        if prop == "C15":
            check_promises(case, cache, rec)
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)


def check_promises(case, cache, rec):
    extra = dict(cache)
    for key, ref in cache.items():
        if "failed" in ref:
            rec.violate("C15", "clean-call-fails", f"{key}: {ref['failed']}")
            continue
        name, args, kw = ast_key(key)
        got = [m["arrays"] for m in ref["out"]["meshes"]]
        a = full_args({"b": name, "a": args})
        for k, v in (kw or {}).items():
            a[KW[name].index(k)] = v
        if name == E + "convex":
            rec.check("C15", "wrong-number-of-meshes", len(got) == a[0], f"{key}: {len(got)} meshes")
            prob = []
            for j, m in enumerate(got):
                f = a[1] / 2**j
                prob += geometry_problems("create_initial_mesh_convex", [f], [m])
                one = reference({"b": "create_initial_mesh_convex", "a": [f]}, extra)
                if "out" in one:
                    n, want = len(m[1]), one["out"]["meshes"][0]["cells"]
                    if abs(n - want) > 0.1 * want:
                        prob.append(f"mesh {j} has {n} cells, the mesh of size factor {f} has {want}")
        else:
            prob = geometry_problems(name, a, got)
        rec.check("C15", "geometry-wrong", not prob, f"{key}: {'; '.join(prob[:4])}", n=3 * len(got))
        rec.nontrivial = True


KW = {
    "create_initial_mesh_convex": ["init_h_scale"], E + "convex": ["n_ref", "init_h_scale"],
    E + "hierarchy": ["n_ref", "init_h_scale"], E + "hierarchy_nonconvex": ["n_ref", "init_h_scale"],
    E + "hierarchy_fitted_disc": ["n_ref", "eta", "h_init"], E + "inclusion": ["h_init", "order"],
    E + "inclusion_square": ["h_init", "x_l", "x_r", "y_l", "y_r", "eta"], E + "bottom_data": ["h_init", "eta"],
    E + "data_all_around": ["n_ref", "init_h_scale"], "get_3d_mesh_data_all_around": ["n_ref", "init_h_scale"],
}


def ast_key(key):
    import ast

    return ast.literal_eval(key)


def same_result(a, b):
    return a["single"] == b["single"] and [m["digest"] for m in a["meshes"]] == [m["digest"] for m in b["meshes"]]


def describe(out):
    return "[" + ", ".join(f"{m['cells']} cells/{m['points']} points" for m in out["meshes"]) + "]"


def run_life(prop, case, life, k, root, cache, rec):
    size = case["size"]
    calls = life["calls"]
    refs = [reference(c, cache) for c in calls]
    fired = {}  # call -> list of (rank, kind, site)
    writes, files, collcount, wrong_read, hits = {}, [], {}, [], {}
    rec.sched += []

    def fault(rank, i, site, info, count):
        coll = "root" in info
        if coll:
            collcount[rank, i] = collcount.get((rank, i), 0) + 1
        if site == "file.written":
            writes[rank, i] = writes.get((rank, i), 0) + 1
        f = calls[i].get("f")
        if f is None or (f["who"] != "all" and f["who"] != rank):
            return None
        ref = refs[i]
        kind = f["kind"]
        if kind in ("short", "torn"):
            if site != "file.written" or writes[rank, i] - 1 != int(f["at"] * ref["writes"]):
                return None
        elif f["who"] == "all":
            if not coll or collcount[rank, i] - 1 != int(f["at"] * len(ref["colls"])):
                return None
        elif "on" in f:  # one of the occurrences of this operation
            if site != f["on"]:
                return None
            hits[rank, i] = hits.get((rank, i), 0) + 1
            if hits[rank, i] - 1 != int(f["at"] * ref["sites"].get(site, 1)):
                return None
        else:
            total = ref["points"] if rank == 0 else int(1.5 * len(ref["colls"])) + 1
            if count != int(f["at"] * total):
                return None
        if kind in ("short", "torn"):
            job.tear_spec = (f.get("part", 0), f.get("keep", 0.5))
        fired.setdefault(i, []).append((rank, kind, site))
        rec.fault(f"{kind} at {site.split('.')[0]}" if kind not in ("short", "torn") else kind)
        rec.event("fault", k, i, rank, site, kind)
        return kind

    def watch(what, rank, i, site, data):
        if what == "point" and data.get("path"):
            if site in ("file.open", "file.gmsh", "file.written", "file.rename", "file.write"):
                files.append((rank, i, data["path"], "w" if "w" in data["mode"] or "a" in data["mode"] else "r", site))
            elif site == "xdmf.open" and data["mode"] == "r":
                files.append((rank, i, data["path"], "r", site))
        elif what == "collective" and site in ("xdmf.read_mesh", "xdmf.read_meshtags") and len(set(data)) > 1:
            wrong_read.append((i, site))
        elif what == "done":
            rec.event("done", k, i, rank, data[0], data[1] if data[0] != "ok" else describe(data[1]))

    def body(rank, i):
        sr.local.quiet += 1
        try:
            tamper(calls[i], root)
        finally:
            sr.local.quiet -= 1
        return builder_call(calls[i])

    job = sr.Job(size, len(calls), body, life.get("sched"), fault, root=root, watch=watch)
    job.run()
    rec.simtime += len(job.picks)
    rec.nevents += len(job.picks)
    rec.event("life", k, hashlib.sha256(repr(job.picks).encode()).hexdigest()[:12], job.died, job.stuck, job.mismatch)
    rec.sched.append(tuple(job.picks) if size > 1 else (k, str(job.died)))
    for row in job.results:
        for out in row:
            if out is not None and out[0] == "unsupported":
                raise core.SimUnsupported(out[1])
    if prop == "C15":
        judge15(rec, calls, refs, job, fired)
    else:
        judge16(rec, calls, refs, job, fired, files, wrong_read, size)


def judge15(rec, calls, refs, job, fired):
    for i, c in enumerate(calls):
        out = job.results[0][i]
        if out is None:
            break
        what = f"{c['b']}{tuple(c['a'])}"
        before = any(j < i for j in fired) or any(x.get(t) for x in calls[: i + 1] for t in ("session", "files"))
        note = " after earlier faults or leftovers" if before else ""
        if out[0] == "ok":
            if "out" not in refs[i]:
                continue
            rec.check("C15", "mesh-differs", same_result(out[1], refs[i]["out"]),
                      lambda: f"{what} returned {describe(out[1])}, in a clean directory and process it is "
                              f"{describe(refs[i]['out'])}{note}{' (a fault struck this call)' if i in fired else ''}")
            rec.nontrivial = True
            if i in fired:
                rec.probe("returned in spite of a fault")
        else:
            if i in fired or "failed" in refs[i]:
                rec.probe("raised on a fault")
            else:
                rec.violate("C15", "call-fails", f"{what} raised {out[1]}: {out[2]}{note}")
    if job.stuck or job.mismatch:
        rec.violate("C15", "no-end", f"the call did not come to an end: {job.stuck or job.mismatch}")
    elif job.died and not any(k in ("die", "torn") for v in fired.values() for _, k, _ in v):
        rec.violate("C15", "rank-died", f"the process ended in call {job.died[1]}: {job.died[2]}")
    elif job.died:
        rec.probe("crash and restart")


def judge16(rec, calls, refs, job, fired, files, wrong_read, size):
    local = any(calls[i]["f"]["who"] != "all" for i in fired)
    crashed = job.died and any(k in ("die", "torn") for v in fired.values() for _, k, _ in v)
    if job.mismatch:
        q, s2, k2, r, s, k = job.mismatch
        rec.violate("C16", "rank-failure-not-shared" if local else "collective-mismatch", f"rank {q} is in {s2}({k2}) where rank {r} calls {s}({k})")
        return
    if job.died and not crashed:
        rec.violate("C16", "rank-died", f"rank {job.died[0]} ended in call {job.died[1]}: {job.died[2]}")
    if job.stuck:
        who = ", ".join(f"rank {r} in {v[1]} of call {v[0]}" for r, v in job.stuck.items()) if "steps" not in job.stuck \
            else "no end after many steps"
        done = {r: [x and x[0] for x in row] for r, row in enumerate(job.results)}
        raised = [f"rank {r} raised {x[1]}: {x[2][:120]}" for r, row in enumerate(job.results) for x in row
                  if x and x[0] == "raised"]
        rec.violate("C16", "rank-failure-not-shared" if local else "left-waiting",
                    f"{who} wait for ever; {'; '.join(raised) or done}")
    rec.nontrivial = True
    for i, c in enumerate(calls):
        outs = [row[i] for row in job.results]
        if any(o is None for o in outs):
            break
        what = f"{c['b']}{tuple(c['a'])} on {size} ranks"
        oks = [o[0] == "ok" for o in outs]
        if not any(oks):
            if i not in fired and "out" in refs[i]:
                rec.violate("C16", "fails-in-parallel", f"{what}: {outs[0][1]}: {outs[0][2]}")
            continue
        if not all(oks):
            bad = [f"rank {r} raised {o[1]}: {o[2][:150]}" for r, o in enumerate(outs) if o[0] != "ok"]
            rec.violate("C16", "rank-failure-not-shared" if local else "mixed-outcome",
                        f"{what}: {'; '.join(bad)}, the others returned")
            continue
        rec.check("C16", "ranks-differ", all(same_result(o[1], outs[0][1]) for o in outs),
                  lambda: f"{what}: " + ", ".join(f"rank {r} has {describe(o[1])}" for r, o in enumerate(outs)))
        if "out" in refs[i]:
            rec.check("C16", "differs-from-serial", all(same_result(o[1], refs[i]["out"]) for o in outs),
                      lambda: f"{what} gives {describe(outs[0][1])}, on one rank it is {describe(refs[i]['out'])}")
        rec.check("C16", "not-distributed", all(m["comm"] == [r, size] for r, o in enumerate(outs)
                                                for m in o[1]["meshes"]),
                  f"{what}: a mesh does not live on the communicator of all ranks")
    if wrong_read:
        rec.violate("C16", "ranks-read-different-files", f"in call {wrong_read[0][0]} {wrong_read[0][1]} found different "
                                                        "data on different ranks")
    owner, first = {}, {}
    for n, (r, i, path, mode, site) in enumerate(files):
        if mode == "w":
            if owner.setdefault((i, path), r) != r:
                rec.violate("C16", "several-writers", f"ranks {owner[i, path]} and {r} both write {path} in {calls[i]['b']}")
                return
            first.setdefault((i, path), n)
    writing = {}  # path -> rank busy writing it
    for n, (r, i, path, mode, site) in enumerate(files):
        if site in ("file.write", "file.gmsh"):
            writing[path] = r
        elif site == "file.written":
            writing.pop(path, None)
        if mode == "r" and (first.get((i, path), -1) > n and owner[i, path] != r or writing.get(path, r) != r):
            rec.violate("C16", "read-before-written", f"rank {r} reads {path} in {calls[i]['b']} before another rank "
                                                      "has finished writing it")
            return


# ---------------------------------------------------------------- generation


def gen_call(r, heavy):
    name = r.choices(NAMES, [3, 2, 3, 3, 3, 3, 3, 3, 3, 1.2 if heavy else 0.5])[0]
    h = r.choice([0.7, 1.0, 1.25, 1.6, 2.0])
    n = r.choice([0, 1, 1, 1, 2, 2, 3])
    if n == 3:
        h = r.choice([1.6, 2.0])
    kw = {}
    if name == "create_initial_mesh_convex":
        a = r.choice([[], [h]])
    elif name == E + "hierarchy_fitted_disc":
        a = [n, r.choice([0.35, 0.5, 0.6, 0.77, 0.9])] + r.choice([[], [h]])
    elif name == E + "inclusion":
        a = r.choice([[], [h], [h, 1], [h, 2], [h, 3]])
    elif name == E + "inclusion_square":
        a = r.choice([[], [h], [h, -1.25, 1.25, -1.25, 1.25, r.choice([0.9, 1.0, 1.2, 1.25, 1.5])],
                      [h, -1.25, 1.25, -1.25, r.choice([1.3, 1.4]), 1.2], [h, -1.25, 1.25, -1.25, 1.25, 1.4],
                      [h, r.choice([-1.1, -0.9]), r.choice([0.8, 1.0]), -1.0, 1.2, r.choice([0.4, 1.0, 1.2, 1.5])]])
        if a == [h] and r.random() < 0.5:
            kw = {"eta": r.choice([0.85, 1.1, 1.5])}
    elif name == E + "bottom_data":
        a = r.choice([[], [h], [h, r.choice([0.4, 0.5, 0.75, 0.85])]])
    elif name == "get_3d_mesh_data_all_around":
        a = [r.choice([0, 0, 1]), r.choice([1.8, 2.5])]
    elif name == E + "convex":
        a = r.choice([[n], [n, h], [4, 2.0], [4, 1.25]])
    else:
        a = [n] + ([h] if n == 3 else r.choice([[], [h]]))
    call = {"b": name, "a": a}
    if kw:
        call["kw"] = kw
    return call


def variant(r, call):
    """The same builder with another value of one argument."""
    a = list(call["a"])
    i = SIZE_ARG.get(call["b"], 0)
    d = DEFAULTS[call["b"]]
    if len(a) <= i:
        a += d[len(a):i + 1]
    big = a[:1] in ([3], [4]) or call["b"].startswith("get_3d")
    a[i] = r.choice([x for x in ((1.8, 2.1, 2.5) if big else (0.7, 1.0, 1.25, 1.6, 2.0)) if x != a[i]])
    return {"b": call["b"], "a": a, **({"kw": call["kw"]} if "kw" in call else {})}


SIZE_ARG = {E + n: 1 for n in ("convex", "hierarchy", "hierarchy_nonconvex", "data_all_around")}
SIZE_ARG |= {E + "hierarchy_fitted_disc": 2, "get_3d_mesh_data_all_around": 1}
SITES = ("file.gmsh", "file.gmsh", "file.written", "file.open", "file.read", "file.write", "gmsh.model.mesh.generate",
         "gmsh.model.addPhysicalGroup", "gmsh.finalize", "xdmf.open", "xdmf.read_mesh", "xdmf.read_meshtags",
         "mesh.create_mesh", "mesh.refine")
FILES = ("mesh.msh", "mesh.xdmf", "mesh.h5", "mt.xdmf", "mt.h5")


def gen_tamper(r, call):
    if r.random() < 0.25:
        call["session"] = r.choice(["open", "open", "closed"])
    if r.random() < 0.35:
        call["files"] = [[f, r.choice(["gone", "empty", "garbage", "half", "foreign"])]
                         for f in FILES if r.random() < 0.4]


def generate(prop, r, tier, idx):
    ver = r.choice(VERSIONS)
    if prop == "C15" and r.random() < 0.3:
        # the files of another call of this builder are there when this one fails at a chosen operation
        a = gen_call(r, tier == "thorough")
        b = variant(r, a)
        b["f"] = {"who": 0, "on": r.choice(SITES), "at": round(r.random(), 4), "part": r.randrange(2), "keep": 0.6,
                  "kind": r.choice(["error", "error", "error", "error", "memory", "interrupt", "short", "torn", "die"])}
        clean = {k: v for k, v in b.items() if k != "f"}
        lives = [{"calls": [a, b, clean]}] if r.random() < 0.7 else [{"calls": [a]}, {"calls": [b]}, {"calls": [clean]}]
        if b["f"]["kind"] in ("die", "torn"):
            lives.append({"calls": [clean]})
        return {"world": "mesh", "version": ver, "size": 1, "lives": lives}
    if prop == "C15":
        lives = []
        dirs = r.random() < 0.2
        pool = [gen_call(r, tier == "thorough") for _ in range(r.choice([1, 2, 2, 3]))]
        if r.random() < 0.5:
            pool.append(variant(r, r.choice(pool)))
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            calls = []
            for _ in range(r.choice([1, 2, 3, 4])):
                c = dict(r.choice(pool)) if r.random() < 0.75 else gen_call(r, tier == "thorough")
                gen_tamper(r, c)
                if dirs:
                    c["dir"] = r.choice(["a", "b"])
                if r.random() < 0.5:
                    c["f"] = {"who": 0, "at": round(r.random(), 4),
                              "kind": r.choice(["error", "error", "error", "interrupt", "memory", "die", "short", "torn"])}
                    if r.random() < 0.5:
                        c["f"]["on"] = r.choice(SITES)
                    if c["f"]["kind"] in ("short", "torn"):
                        c["f"]["part"], c["f"]["keep"] = r.randrange(2), r.choice([0, 0.3, 0.6, 0.95])
                calls.append(c)
            lives.append({"calls": calls})
        # the last word is a call without faults, in the same directory and process
        last = dict(r.choice(pool))
        if dirs:
            last["dir"] = r.choice(["a", "b"])
        lives[-1]["calls"].append(last)
        return {"world": "mesh", "version": ver, "size": 1, "lives": lives}
    size = r.choice([2, 2, 2, 3, 3, 4, 5])
    lives = []
    for _ in range(r.choice([1, 1, 2])):
        calls = []
        for _ in range(r.choice([1, 1, 2, 3])):
            c = dict(calls[-1]) if calls and r.random() < 0.3 else gen_call(r, tier == "thorough")
            for key in ("session", "files", "f"):
                c.pop(key, None)
            if r.random() < 0.3:
                gen_tamper(r, c)
            x = r.random()
            if x < 0.15:
                c["f"] = {"who": "all", "at": round(r.random(), 4), "kind": r.choice(["error", "error", "memory", "interrupt"])}
            elif x < 0.25:
                c["f"] = {"who": r.randrange(size), "at": round(r.random(), 4), "kind": "die"}
            elif x < 0.28:
                c["f"] = {"who": 0, "at": round(r.random(), 4), "kind": r.choice(["error", "short"]), "keep": 0.5, "part": 0}
            calls.append(c)
        if r.random() < 0.5:
            sched = {"mode": "rand", "seed": r.randrange(10**6), "switch": r.choice([0.02, 0.1, 0.3, 0.9])}
        else:
            order = list(range(size))
            r.shuffle(order)
            sched = {"mode": "prio", "order": order,
                     "changes": sorted(r.randrange(1, 250 * len(calls)) for _ in range(r.choice([0, 1, 2, 4])))}
        lives.append({"calls": calls, "sched": sched})
    return {"world": "mesh", "version": ver, "size": size, "lives": lives}


def shrink(case):
    def put(**kw):
        return {**case, **kw}

    lives = case["lives"]
    for sub in core.list_shrinks(lives):
        if sub:
            yield put(lives=sub)
    if case["size"] > 2:
        yield put(size=2)
        yield put(size=case["size"] - 1)
    for i, life in enumerate(lives):
        def with_life(x):
            return put(lives=lives[:i] + [x] + lives[i + 1:])

        for sub in core.list_shrinks(life["calls"]):
            if sub:
                yield with_life({**life, "calls": sub})
        s = life.get("sched")
        if s:
            if s["mode"] == "rand":
                for order in ([0], [1], [2]):
                    yield with_life({**life, "sched": {"mode": "prio", "order": order, "changes": []}})
            else:
                for ch in core.list_shrinks(s["changes"]):
                    yield with_life({**life, "sched": {**s, "changes": ch}})
        for j, c in enumerate(life["calls"]):
            def with_call(x):
                return with_life({**life, "calls": life["calls"][:j] + [x] + life["calls"][j + 1:]})

            for key in ("f", "session", "files", "dir", "kw"):
                if key in c:
                    yield with_call({k: v for k, v in c.items() if k != key})
            for sub in core.list_shrinks(c.get("files", [])):
                if sub:
                    yield with_call({**c, "files": sub})
            if c["b"].endswith(("hierarchy", "nonconvex", "around", "convex")) and c["a"] and isinstance(c["a"][0], int) \
                    and c["a"][0] > 1:
                yield with_call({**c, "a": [c["a"][0] - 1] + c["a"][1:]})
    if case["version"] != VERSIONS[0]:
        yield put(version=VERSIONS[0])


def info(prop):
    par = prop == "C16"
    return {
        "rule": "a case counts when at least one builder call ran to its end and its meshes were compared"
                + (" across ranks and with the serial run" if par else " with those of a clean directory and process"),
        "time_unit": "scheduler steps",
        "fault_kinds": ["error at comm", "error at mesh", "error at xdmf", "die at file", "die at gmsh"] if par else
                       ["error at file", "error at gmsh", "error at stdout", "error at mesh", "error at xdmf",
                        "interrupt at gmsh", "memory at gmsh", "die at file", "die at gmsh", "die at stdout",
                        "short", "torn"],
        "distinct": "distinct cases with a distinct trace" + (", and distinct interleavings (sequence of ranks chosen)" if par else ""),
        "real": ["dxss.meshes", "gmsh 4.15 (a session per simulated rank)", "meshio", "h5py", "files in a scratch directory"],
        "stubs": ["DOLFINx: meshes, uniform and partial refinement, XDMF files read through meshio, collectives",
                  "mpi4py: one forked process per rank, run one at a time by the simulator, collectives matched by it"],
        "assumptions": [
            "reads of XDMF files are collective except for the parsing of the XML on opening, as in DOLFINx",
            "DOLFINx's partitioner, ghost layers and parallel I/O are not modelled: each rank of the stand-in holds the whole mesh",
            "a crash of one rank ends the job, as mpirun does",
        ],
    }
