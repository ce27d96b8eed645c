"""World for C07-C10, C12-C14 and C17: the real dxss.space_time on a stand-in for DOLFINx.

A case holds meshes, inputs (data domains, weights, solutions, ...), solver objects referring to
them, and a history of calls with the faults that strike inside each call. Every result is
compared with the reference model (spacetime_ref)."""
from __future__ import annotations

import copy
import itertools
import json
import os
import sys
import tempfile
import threading

import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spla

import core
import loader
import spacetime_ref as sr
from sparse_baton import SparseBaton

PETSc = st = sk = fem = dmesh = ufl = None
PLOTS = []
_scratch = None


def prepare():
    global PETSc, st, sk, fem, dmesh, ufl, _scratch
    loader.install(simenv=True)
    import petsc4py

    petsc4py.init(["sim", "-no_signal_handler"])
    from petsc4py import PETSc as P

    PETSc = P
    PETSc.Sys.pushErrorHandler("ignore")  # see DESIGN.md: petsc4py's own handler can crash CPython 3.12
    from mpi4py import MPI

    global _keep
    _keep = [PETSc.Vec().createSeq(1), PETSc.Vec().createMPI(1, comm=MPI.COMM_WORLD)]
    import simkernel
    import ufl as u
    from dolfinx import fem as f
    from dolfinx import mesh as m

    sk, fem, dmesh, ufl = simkernel, f, m, u
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    patch_pyplot(plt)
    import dxss.space_time as s

    st = s
    warm()


def warm():
    """Compute the symbolic time matrices once; every object still gets its own copy."""
    real = getattr(st, "get_elmat_time", None)
    if real is None:
        return
    memo = {}
    for q in range(4):
        for qs in range(4):
            memo[q, qs] = real(q, qs)
    first, again = memo[3, 3], real(3, 3)
    if again is first or any(np.shares_memory(np.asarray(again[k]), np.asarray(first[k])) for k in again):
        # the code keeps its own store; whatever it shares stays shared
        return

    def get_elmat_time(q, qstar):
        if (q, qstar) not in memo:
            return real(q, qstar)
        return copy.deepcopy(memo[q, qstar])

    st.get_elmat_time = get_elmat_time


def patch_pyplot(plt):
    class Dummy:
        def __getattr__(self, name):
            return lambda *a, **k: Dummy()

    def record(name):
        def f(*a, **k):
            sk.point(f"plt.{name}")
            PLOTS.append((name, [np.array(x, dtype=float) for x in a]))
            return Dummy()

        return f

    for n in ("pcolormesh", "pcolor", "contourf", "imshow", "plot"):
        setattr(plt, n, record(n))

    def quiet(name):
        def f(*a, **k):
            sk.point(f"plt.{name}")
            return Dummy()

        return f

    for n in ("colorbar", "xlabel", "ylabel", "show", "title", "legend", "savefig", "close", "figure", "clf"):
        setattr(plt, n, quiet(n))


class SimFault(Exception):
    pass


def make_exc(name):
    if name == "PETScError":
        return PETSc.Error(55)
    return {"RuntimeError": RuntimeError, "MemoryError": MemoryError, "OSError": OSError, "SimFault": SimFault,
            "KeyboardInterrupt": KeyboardInterrupt, "ValueError": ValueError, "SystemExit": SystemExit,
            "TimeoutError": TimeoutError}[name]("injected")


# ------------------------------------------------------------- inputs


def make_mesh(spec):
    comm = sk.SimComm()
    t = spec["t"]
    if t == "interval":
        return dmesh.create_interval(comm, spec["n"], (spec["a"], spec["b"]))
    ct = {"tri": dmesh.CellType.triangle, "quad": dmesh.CellType.quadrilateral, "tet": dmesh.CellType.tetrahedron,
          "hex": dmesh.CellType.hexahedron}[t]
    if t in ("tri", "quad"):
        return dmesh.create_unit_square(comm, spec["n"], spec["m"], ct)
    return dmesh.create_unit_cube(comm, spec["n"], spec["m"], spec["l"], ct)


def pred(spec):
    """Python predicate on an array of coordinates."""
    k, v, w = spec["k"], spec.get("v", 0.0), spec.get("w", 0.0)
    return {"le": lambda x: x[0] <= v, "ge": lambda x: x[0] >= v, "out": lambda x: (x[0] <= v) | (x[0] >= w),
            "in": lambda x: (x[0] > v) & (x[0] < w), "all": lambda x: x[0] == x[0], "none": lambda x: x[0] != x[0]}[k]


def ufl_pred(spec, x):
    k, v, w = spec["k"], spec.get("v", 0.0), spec.get("w", 0.0)
    c = {"le": lambda: x[0] <= v, "ge": lambda: x[0] >= v,
         "out": lambda: ufl.Or(x[0] <= v, x[0] >= w),
         "in": lambda: ufl.Not(ufl.Or(x[0] <= v, x[0] >= w)),
         "all": lambda: x[0] >= -1e9, "none": lambda: x[0] <= -1e9}[k]()
    return ufl.conditional(c, 1, 0)


def cell_mask(spec, mesh):
    f = pred(spec)
    mid = np.zeros((3, len(mesh.cells)))
    mid[: mesh.geometry.dim] = mesh.points[mesh.cells].mean(axis=1).T
    return np.asarray(f(mid), dtype=float)


class Sol:
    """Exact solution: (c0 + c1 t + c2 t^2)(d0 + d1 x + d2 x^2 + d3 y)."""

    def __init__(self, s):
        self.c, self.d = s["c"], s["d"]

    def _x(self, x):
        d = self.d
        v = d[0] + d[1] * x[0] + d[2] * x[0] * x[0]
        return v + d[3] * x[1] if d[3] and len(x) > 1 else v

    def v(self, t, x):
        c = self.c
        return (c[0] + c[1] * t + c[2] * t * t) * self._x(x)

    def dvdt(self, t, x):
        c = self.c
        return (c[1] + 2 * c[2] * t) * self._x(x)


class Tracked:
    """One solver object of the case with its reference model and what it should be able to do."""

    def __init__(self, w, i, spec):
        self.w, self.i, self.spec = w, i, spec
        self.S = None
        self.mesh = w.meshes[spec["mesh"]]
        self.fe = self.prepared = self.coarse_ok = self.rhs_ok = False
        self.has_solvers = self.has_coarse_solver = False
        self.singular = False
        self._ref = self._cref = None
        self.ic = None
        self.old_ic = None
        self.vecs = []
        self.poisoned = False

    @property
    def q(self):
        return self.w.case["times"][self.spec["time"]]["q"]

    @property
    def qs(self):
        return self.w.case["times"][self.spec["time"]]["qs"]

    @property
    def kk(self):
        s = self.w.case["spaces"][self.spec["space"]]
        return s["k"], s["ks"]

    @property
    def par(self):
        return self.w.case["params"][self.spec["par"]]

    @property
    def sol(self):
        return self.w.sols[self.spec["sol"]]

    def space(self, mesh):
        k, ks = self.kk
        dom = self.w.case["domains"][self.spec["dom"]]
        return sr.Space(mesh, k, ks, cell_mask(dom["pred"], mesh))

    def _make_ref(self, mesh):
        s = self.w.case["stabs"][self.spec["stab"]]
        stabs = dict(zip(("data", "dual", "primal", "primal-jump"), s))
        return sr.Ref(self.space(mesh), self.q, self.qs, self.spec["N"], self.spec["T"], stabs,
                      self.par["jumps"], self.par["wp"])

    @property
    def ref(self):
        if self._ref is None:
            self._ref = self._make_ref(self.mesh)
            self._mats = {}
        return self._ref

    @property
    def cref(self):
        if self._cref is None:
            self._cref = self._make_ref(self.w.meshes[self.spec["coarse"]])
        return self._cref

    def mat(self, key):
        r = self.ref
        if key not in self._mats:
            if key == "full":
                self._mats[key] = r.full(False)
            elif key == "pre":
                self._mats[key] = r.full(True)
            elif key == "slab":
                self._mats[key] = r.slab(True)
            elif key == "first":
                self._mats[key] = r.first()
            elif key == "coarse":
                self._mats[key] = self.cref.full(False)
            elif key == "C":
                self._mats[key] = r.coupling()
        return self._mats[key]

    # numbering of the component layout in the unknowns of the code under test
    def perm(self):
        return np.concatenate(self.S.fes.dofs)

    def perm_p(self):
        return np.concatenate(self.S.fes_p.dofs)

    def perm_c(self):
        return np.concatenate(self.S.fes_coarse.dofs)


def petsc_vec(a):
    v = PETSc.Vec().createSeq(len(a), comm=PETSc.COMM_SELF)
    v.array[:] = a
    return v


def csr(A):
    ai, aj, av = A.getValuesCSR()
    return sp.csr_matrix((av, aj, ai), shape=A.getSize())


class Solver:
    """Direct solver of a reference matrix, in the numbering of the code under test."""

    def __init__(self, w, site, A, perm, exact=True):
        self.w, self.site, self.A, self.perm = w, site, A.tocsc(), perm
        self.lu = None
        if exact:
            self.lu = spla.splu(self.A)
            self.calls = 0

    def map(self, r):
        x = self.lu.solve(r)
        for _ in range(2):
            x = x + self.lu.solve(r - self.A @ x)
        return x

    def solve(self, b, x):
        act = sk.point(self.site)
        r = b.array_r[self.perm].copy() if hasattr(b, "array_r") else b.array[self.perm].copy()
        x.array[self.perm] = self.map(r)
        if act is not None:
            act(x)
        sk.point(self.site + ".end")


class CoarseMap(Solver):
    """A well-conditioned linear map standing in for the coarse solver."""

    def __init__(self, w, site, n, perm, seed):
        self.w, self.site, self.perm = w, site, perm
        rng = np.random.RandomState(seed)
        self.d = rng.uniform(0.5, 1.5, n)
        self.s = rng.uniform(-0.2, 0.2, n)

    def map(self, r):
        return self.d * r + self.s * np.roll(r, 1)


# ------------------------------------------------------------- world


class OpCtx:
    def __init__(self, faults):
        self.faults = [dict(f) for f in faults]
        self.counts = {}
        self.total = 0
        self.fired = []
        self.silent = False
        self.open_files = set()
        self.written = []
        self.mult = 0


class World:
    def __init__(self, case, rec):
        self.case, self.rec = case, rec
        sk.numbering = case["numbering"]
        sk.version = case.get("version", "0.7.2")
        self.meshes = [make_mesh(m) for m in case["meshes"]]
        self.stabs = [dict(zip(("data", "dual", "primal", "primal-jump"), s)) for s in case["stabs"]]
        self.sols_h = [Sol(s) for s in case["sols"]]
        self.sols = [st.ValueAndDerivative(s.v, s.dvdt) for s in self.sols_h]
        self.times = [st.OrderTime(t["q"], t["qs"]) for t in case["times"]]
        self.spaces = [st.OrderSpace(s["k"], s["ks"]) for s in case["spaces"]]
        self.params = [st.ProblemParameters(bool(p["jumps"]), bool(p["wp"])) for p in case["params"]]
        self.domains = [self.make_domain(d) for d in case["domains"]]
        self.snap = self.inputs()
        self.objs = [Tracked(self, i, s) for i, s in enumerate(case["objs"])]
        self.ctx = {}
        self.baton = None
        sk.hook = self.point

    def make_domain(self, d):
        form, p = d["form"], d["pred"]
        if form == "callable":
            f = pred(p)
            return st.DataDomain(lambda x: np.asarray(f(x), dtype=float), fitted=True)
        mesh = self.meshes[d["mesh"]]
        if form == "ufl":
            return st.DataDomain(ufl_pred(p, ufl.SpatialCoordinate(mesh)), fitted=False)
        u = fem.Function(fem.FunctionSpace(mesh, ("DG", 0)))
        u.x.array[u.function_space.cell_dofs(0)[:, 0]] = cell_mask(p, mesh)
        return st.DataDomain(u, fitted=form == "function-fitted")

    def inputs(self):
        doms = []
        for d in self.domains:
            f = d.indicator_function
            arr = f.x.array.tolist() if isinstance(f, fem.Function) else None
            doms.append((id(f), bool(d.fitted), arr))
        return (copy.deepcopy(self.stabs), [(t.q, t.qstar) for t in self.times],
                [(s.k, s.kstar) for s in self.spaces],
                [(p.jumps_in_fw_problem, p.well_posed) for p in self.params],
                [(id(getattr(s.v, "__self__", s.v)), id(getattr(s.dvdt, "__self__", s.dvdt))) for s in self.sols],
                [s.c + s.d for s in self.sols_h], doms,
                [m.points.tolist() for m in self.meshes])

    # every seam of the stand-in ends here
    def point(self, site, info):
        c = self.ctx.get(threading.get_ident())
        if c is None:
            return None
        self.rec.simtime += 1
        c.total += 1
        n = c.counts[site] = c.counts.get(site, 0) + 1
        if self.baton is not None:
            self.baton.point()
        if site == "xdmf.open":
            c.open_files.add(id(info["file"]))
            c.keep = getattr(c, "keep", [])
            c.keep.append(info["file"])
        elif site == "xdmf.released":
            c.open_files.discard(id(info["file"]))
            return None
        act = None
        for f in c.faults:
            if f.get("fired"):
                continue
            hit = c.total - 1 == f["at"] if f["site"] == "*" else (site == f["site"] and n - 1 == f["at"])
            if not hit:
                continue
            f["fired"] = True
            if f["do"] == "raise":
                c.fired.append(site)
                self.rec.fault(f"{site}: {f['exc']}")
                self.rec.event("fault", site, f["exc"])
                if site == "xdmf.open":
                    c.open_files.discard(id(info["file"]))
                raise make_exc(f["exc"])
            if site in ("Mat.mult", "solver.slab", "solver.first", "solver.coarse"):
                c.silent = True
                self.rec.fault(f"{site}: silently wrong values")
                self.rec.event("fault", site, "silent")

                def act(v, kind=f["do"]):
                    v.array[:] = np.nan if kind == "nan" else v.array + 1.0
        if site == "xdmf.write_function":
            u = info["function"]
            c.written.append((info["file"].filename, info["file"].mode, u.name, u.function_space, u.x.array.copy()))
        return act


def err(name, e):
    return f"{name}: {type(e).__name__}: {str(e)[:200]}"


def backward(rec, prop, kind, o, b, x, what, first_only=None):
    """Check that x solves the block lower bidiagonal system with right-hand side b."""
    r = o.ref
    A = o.mat("slab")
    C = o.mat("C")
    ok_any = None
    for F in o.mat("first") if first_only is None else [first_only]:
        worst, where = 0.0, None
        prev = None
        for n in range(r.N):
            D = F if n == 0 else A
            xn, bn = r.slab_part(x, n), r.slab_part(b, n)
            res = D @ xn - bn
            # the marching scheme adds 1e-20 times a mass vector to the load
            scale = spla.norm(D, 1) * np.abs(xn).max() + np.abs(bn).max() + 1e-10
            if n:
                cp = C @ prev
                res = res - cp
                scale += np.abs(cp).max()
            v = float(np.abs(res).max() / scale) if scale else float(np.abs(res).max())
            if not np.isfinite(v):
                v = np.inf
            if v > worst:
                worst, where = v, n
            prev = xn
        if ok_any is None or worst < ok_any[0]:
            ok_any = (worst, where)
    return rec.check(prop, kind, ok_any[0] < 1e-9,
                     lambda: f"{what}: slab {ok_any[1]} is off by {ok_any[0]:.2e} relative to the block system")


def block_compare(rec, prop, kind, A, B, o, N, what):
    """Compare matrices field pair by field pair."""
    if A.shape != B.shape:
        return rec.check(prop, kind, False, f"{what}: shape {A.shape}, expected {B.shape}")
    r = o.ref
    sizes = [r.per(f) * N * r.s.n[r.deg(f)] for f in sr.FIELDS]
    if sum(sizes) != A.shape[0]:
        r = o.cref
        sizes = [r.per(f) * N * r.s.n[r.deg(f)] for f in sr.FIELDS]
    off = np.concatenate([[0], np.cumsum(sizes)])
    top = abs(B).max()
    bad = None
    for i in range(4):
        for j in range(4):
            a = A[off[i]: off[i + 1], off[j]: off[j + 1]]
            b = B[off[i]: off[i + 1], off[j]: off[j + 1]]
            m = abs(b).max() if b.nnz else 0.0
            d = abs(a - b).max() if (a.nnz or b.nnz) else 0.0
            if not d <= 1e-10 * m + 1e-14 * top + 1e-18:
                bad = (sr.FIELDS[i], sr.FIELDS[j], float(d), float(m))
                break
        if bad:
            break
    return rec.check(prop, kind, bad is None,
                     lambda: f"{what}: block ({bad[0]},{bad[1]}) differs by {bad[2]:.3e} (entries up to {bad[3]:.3e})")


def close(a, b, tol, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    s = (np.abs(b).max() if b.size else 0.0) if scale is None else scale
    return bool(a.shape == b.shape and np.all(np.abs(a - b) <= tol * s + 1e-13))


# ------------------------------------------------------------- operations

NEEDS = {
    "new": (), "fe": ("S",), "ic": ("fe",), "mat": ("fe",), "bfi": ("fe",), "rhs": ("fe",), "lfi": ("fe",),
    "slab": ("fe",), "slab_bfi": ("fe",), "first": ("fe",), "first_bfi": ("fe",), "prepare": ("fe",),
    "solvers": ("fe",), "apply": ("prepared",), "march": ("prepared", "has_solvers"),
    "march2": ("prepared", "has_solvers"), "coarse": ("fe", "rhs_ok"), "coarse_solver": ("coarse_ok",),
    "coarse_mat": ("coarse_ok",), "restrict": ("coarse_ok",), "prolong": ("coarse_ok",),
    "roundtrip": ("coarse_ok",), "twolvl": ("coarse_ok", "has_coarse_solver", "prepared", "has_solvers"),
    "errors": ("fe",), "plot": ("fe",), "plot_error": ("fe",), "export": ("fe",),
}
OWNER = {
    "new": "C10", "fe": "C09", "mat": "C09", "bfi": "C09", "rhs": "C09", "lfi": "C09", "slab": "C09",
    "slab_bfi": "C09", "first": "C09", "first_bfi": "C09", "prepare": "C09", "apply": "C07", "march": "C08",
    "march2": "C08", "coarse": "C13", "coarse_mat": "C13", "restrict": "C13", "prolong": "C13",
    "roundtrip": "C13", "twolvl": "C13", "errors": "C12", "plot": "C17", "plot_error": "C17", "export": "C17",
}


def run_op(w, op, prop, check=True):
    """Execute one operation. Returns (status, value) and performs the checks."""
    rec = w.rec
    o = w.objs[op["o"]]
    name = op["op"]
    if any(not getattr(o, n) for n in NEEDS[name]) or (o.singular and "has_solvers" in NEEDS[name]):
        rec.probe("skipped: " + name)
        rec.event("skip", op["o"], name)
        return "skipped", None
    c = OpCtx(op.get("faults", []))
    me = threading.get_ident()
    fn = OPS[name]
    status, value = "ok", None
    w.ctx[me] = c
    try:
        value = fn(w, o, op, c)
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, sk.SimUnsupported | core.SimUnsupported | core.HarnessError):
            w.ctx.pop(me, None)
            raise
        status = "raised"
        value = err(name, e)
        exc = type(e).__name__
        e.__traceback__ = None
        del e
    finally:
        w.ctx.pop(me, None)
    rec.event(op["o"], name, status if status == "ok" else "raised " + exc, len(c.fired), c.total)
    rec.probe(f"{name}: {'completed' if status == 'ok' else 'raised'}")
    if status == "raised" and not c.fired:
        allowed = (name == "march2" and o.par["jumps"]) or c.silent
        owner = OWNER.get(name, prop)
        if not allowed and check:
            rec.violate(owner, "unexpected-exception", f"{value} (no fault was injected)")
    if status == "ok":
        if name == "prepare":
            o.prepared = o.rhs_ok = True
        elif name == "fe":
            o.fe = True
        elif name in ("rhs", "lfi"):
            o.rhs_ok = True
        elif name == "coarse":
            o.coarse_ok = True
        if c.fired and any(s.startswith("solver.") for s in c.fired) and check:
            rec.violate("C13" if name == "twolvl" else "C08", "failure-swallowed",
                        f"{name}: a slab or coarse solver raised but the call returned")
        if check and not c.silent:
            ck = CHECKS.get(name)
            if ck:
                # an operation that fails silently inside may still return; its result must be right
                ck(w, o, op, c, value)
    if name == "export" and check:
        rec.check("C17", "file-left-open", not c.open_files,
                  lambda: f"export {'completed' if status == 'ok' else 'failed'} but left {len(c.open_files)} file(s) open")
        if any(s.startswith("xdmf.") for s in c.fired):
            rec.check("C17", "io-error-swallowed", status == "raised", "a file operation failed but the export returned normally")
    if check:
        now = w.inputs()
        if now != w.snap:
            i = next(i for i in range(len(now)) if now[i] != w.snap[i])
            what = ("stabilisation weights", "time orders", "space orders", "problem parameters", "solution object",
                    "solution", "data domain", "mesh")[i]
            rec.violate("C10", "input-modified", f"{name} changed the caller's {what}")
            w.snap = now
    return status, value


def op_new(w, o, op, c):
    s = o.spec
    kw = {}
    if not s.get("defaultpar"):
        kw["parameters"] = w.params[s["par"]]
    S = st.SpaceTime(w.times[s["time"]], w.spaces[s["space"]], N=s["N"], T=s["T"], t=0, msh=o.mesh,
                     stabilisation_terms=w.stabs[s["stab"]], omega=w.domains[s["dom"]], solution=w.sols[s["sol"]], **kw)
    # a new object replaces the old one
    o.S = S
    o.fe = o.prepared = o.coarse_ok = o.rhs_ok = o.has_solvers = o.has_coarse_solver = False
    o.ic = o.old_ic = None


def op_fe(w, o, op, c):
    o.S.setup_spacetime_finite_elements()
    if o.ic is not None:
        # a load vector set up before may or may not keep the initial data of then
        o.old_ic = o.ic
    o.ic = None


def op_ic(w, o, op, c):
    """The caller sets initial data; load vectors requested later use them."""
    if o.rhs_ok or o.ic is not None:
        return
    rng = np.random.RandomState(op["seed"])
    n = o.S.u1_0.x.array.size
    o.ic = (rng.standard_normal(n), rng.standard_normal(n))
    o.S.u1_0.x.array[:] = o.ic[0]
    o.S.u2_0.x.array[:] = o.ic[1]


def op_mat(w, o, op, c):
    pre = op.get("precond", False)
    return csr(o.S.get_spacetime_matrix(precond=True) if pre else o.S.get_spacetime_matrix())


def ck_mat(w, o, op, c, A):
    p = o.perm()
    pre = op.get("precond", False)
    B = o.mat("pre" if pre else "full")
    what = f"full system (precond={pre})"
    A = A[p][:, p]
    block_compare(w.rec, "C09", "matrix-wrong", A, B, o, o.ref.N, what)
    ck_data(w, o, A, o.ref.N, what)


def ck_data(w, o, A, N, what):
    """The part of the displacement block beyond the reference without data is the data term."""
    r = o.ref
    key = ("nodata", N, what)
    if key not in o._mats:
        r0 = copy.copy(r)
        r0.gd = 0.0
        o._mats[key] = (r0.full("True" in what) if N == r.N and "full" in what else
                        r0.slab("slab system" == what) if what == "slab system" else None)
    B0 = o._mats[key]
    if B0 is None:
        return
    n1 = (r.q + 1) * N * r.s.n[r.k]
    D = (A - B0)[:n1, :n1]
    E = sp.kron(sp.kron(sp.identity(N), r.gd * r.dt * r.tm["Mqq"]), r.s.get("ind", r.k, r.k)).tocsr()
    scale = abs(E).max() if E.nnz else 0.0
    d = abs(D - E).max() if (D.nnz or E.nnz) else 0.0
    # the rest of the block cancels to its own rounding only
    w.rec.check("C10", "data-term-wrong", d <= 1e-9 * scale + 1e-11 * abs(B0).max(),
                lambda: f"{what}: the data term differs by {d:.3e} (entries up to {scale:.3e}) from weight one on "
                        f"the data domain and zero elsewhere")


def op_bfi(w, o, op, c):
    pre = op.get("precond", False)
    f = o.S.get_spacetime_bfi(precond=True) if pre else o.S.get_spacetime_bfi()
    return csr(assemble_quietly(w, f))


def assemble_quietly(w, form):
    """Assemble a form that was handed out, without injecting into our own call."""
    me = threading.get_ident()
    keep = w.ctx.pop(me, None)
    try:
        A = fem.petsc.assemble_matrix(form)
        A.assemble()
        return A
    finally:
        if keep is not None:
            w.ctx[me] = keep


def op_slab(w, o, op, c):
    return csr(o.S.get_slab_matrix())


def op_slab_bfi(w, o, op, c):
    return csr(assemble_quietly(w, o.S.get_slab_bfi()))


def ck_slab(w, o, op, c, A):
    p = o.perm_p()
    A = A[p][:, p]
    block_compare(w.rec, "C09", "slab-matrix-wrong", A, o.mat("slab"), o, 1, "slab system")
    ck_data(w, o, A, 1, "slab system")


def op_first(w, o, op, c):
    A = o.S.get_slab_matrix_first_slab()
    return None if A is None else csr(A)


def op_first_bfi(w, o, op, c):
    f = o.S.get_slab_bfi_first_slab()
    return None if f is None else csr(assemble_quietly(w, f))


def ck_first(w, o, op, c, A):
    rec = w.rec
    if A is None:
        rec.violate("C09", "nothing-handed-out", f"{op['op']}: None instead of the first-slab system")
        return
    p = o.perm_p()
    A = A[p][:, p]
    cands = o.mat("first")
    if len(cands) > 1:
        probe = core.Rec()
        for B in cands[1:]:
            if block_compare(probe, "C09", "x", A, B, o, 1, ""):
                return
    block_compare(rec, "C09", "first-slab-matrix-wrong", A, cands[0], o, 1, "first-slab system")


def op_rhs(w, o, op, c):
    return o.S.get_spacetime_rhs().array.copy()


def op_lfi(w, o, op, c):
    f = o.S.get_spacetime_lfi()
    me = threading.get_ident()
    keep = w.ctx.pop(me, None)
    try:
        b = fem.petsc.create_vector(f)
        fem.petsc.assemble_vector(b, f)
        v = b.array.copy()
        b.destroy()
        return v
    finally:
        if keep is not None:
            w.ctx[me] = keep


def ck_rhs(w, o, op, c, b):
    r = o.ref
    ic = o.ic or (None, None)
    sol = lambda t, xs: w.sols_h[o.spec["sol"]].v(t, xs)  # noqa: E731
    e = r.rhs(sol, *ic)
    got = b[o.perm()]
    n1 = (r.q + 1) * r.N * r.s.n[r.k]
    # quadrature points and weights are tabulated to about seven digits
    scale = max(np.abs(e).max() if e.size else 0.0, r.rhs_scale(sol))
    ok = close(got, e, 5e-6, scale)
    if not ok and o.old_ic is not None:
        ok = close(got, r.rhs(sol, *o.old_ic), 5e-6, scale)
    w.rec.check("C09", "load-vector-wrong", ok,
                lambda: f"load vector differs by {np.abs(got - e).max():.3e} (entries up to {scale:.3e})")
    if not r.well_posed:
        w.rec.check("C10", "load-vector-wrong", close(got[:n1], e[:n1], 5e-6, scale),
                    lambda: f"data part of the load vector differs by {np.abs(got - e).max():.3e} (entries up to {scale:.3e})")


def op_prepare(w, o, op, c):
    o.S.prepare_precondition_gmres()


def op_solvers(w, o, op, c):
    p = o.perm_p()
    try:
        a = Solver(w, "solver.slab", o.mat("slab"), p)
        f = Solver(w, "solver.first", o.mat("first")[0], p)
    except RuntimeError:
        o.singular = True
        w.rec.probe("singular slab system")
        return
    rng = np.random.RandomState(7)
    for s in (a, f):
        b = rng.standard_normal(s.A.shape[0])
        x = s.map(b)
        sc = spla.norm(s.A, 1) * np.abs(x).max() + np.abs(b).max()
        if not np.abs(s.A @ x - b).max() < 1e-12 * sc or np.abs(x).max() > 1e9:
            o.singular = True
            w.rec.probe("nearly singular slab system")
            return
    o.S.set_solver_slab(a)
    o.S.set_solver_first_slab(f)
    o.has_solvers = True


def vec_pair(op, n, perm, o=None):
    rng = np.random.RandomState(op["seed"])
    x = rng.standard_normal(n)
    kind = op.get("x", "rand")
    if kind == "zero":
        x[:] = 0.0
    elif kind == "unit":
        x[:] = 0.0
        x[op["seed"] % n] = 1.0
    elif kind == "scaled":
        x *= 1e6
    elif kind == "jump" and o is not None:
        # continuous over the slab boundaries, up to tiny jumps
        off, _ = o.ref.offsets(o.ref.N)
        eps = 10.0 ** -(3 + op["seed"] % 5)
        for (f, s, i), a in off.items():
            if f in ("u1", "u2") and s and i == 0:
                m, prev = o.ref.s.n[o.ref.k], off[f, s - 1, o.ref.q]
                x[a:a + m] = x[prev:prev + m] + eps * x[a:a + m]
    elif kind == "graded" and o is not None:
        off, _ = o.ref.offsets(o.ref.N)
        starts = sorted(off.values()) + [n]
        for a, b in zip(starts, starts[1:]):
            x[a:b] *= 10.0 ** -rng.randint(0, 9)
    elif kind in ("slabs", "fields", "repeat") and o is not None:
        structured(kind, x, o, rng)
    vin = np.empty(n)
    vin[perm] = x
    g = op.get("garbage", "zero")
    vout = {"zero": np.zeros(n), "nan": np.full(n, np.nan), "rand": rng.standard_normal(n) * 1e3}[g]
    return x, petsc_vec(vin), petsc_vec(vout), vin


def structured(kind, x, o, rng):
    """Vectors with magnitudes by slab, with fields or slabs that vanish, or that repeat from slab to slab."""
    off, _ = o.ref.offsets(o.ref.N)
    ends = dict(zip(sorted(off.values()), sorted(off.values())[1:] + [len(x)]))
    per = {s: 10.0 ** -rng.choice([0, 0, 3, 6, 9, 12]) for s in range(o.ref.N)}
    gone = {f for f in ("u1", "u2", "z1", "z2") if rng.rand() < 0.4}
    empty = {s for s in range(o.ref.N) if rng.rand() < 0.3}
    level = {f: rng.rand() < 0.5 for f in ("u1", "u2", "z1", "z2")}
    for (f, s, i), a in sorted(off.items(), key=lambda t: t[1]):
        b = ends[a]
        if kind == "slabs":
            x[a:b] *= 1e6 * per[s]
        elif kind == "fields":
            if f in gone or s in empty:
                x[a:b] = 0.0
        elif f not in gone:  # repeats: nodes of the slab before, or one value in time
            src = off[f, 0, 0 if level[f] else i]
            x[a:b] = x[src:src + b - a]


def finish_vecs(w, prop, what, vin, vout, before, perm):
    same = np.array_equal(vin.array.view(np.int64), before.view(np.int64))
    y = vout.array[perm].copy()
    vin.destroy()
    vout.destroy()
    w.rec.check(prop, "input-vector-modified", same, f"{what} changed its input vector")
    return y


def op_apply(w, o, op, c):
    p = o.perm()
    x, vin, vout, before = vec_pair(op, len(p), p, o)
    mode = op.get("via", "method")
    try:
        if mode == "method":
            o.S.apply_spacetime_matrix(vin, vout)
        elif mode == "wrapper":
            st.SpaceTimePETScMatrixWrapper(o.S).mult(None, vin, vout)
        else:
            M = PETSc.Mat().createPython([len(p)] * 2, st.SpaceTimePETScMatrixWrapper(o.S), comm=PETSc.COMM_SELF)
            M.setUp()
            M.mult(vin, vout)
            M.destroy()
    except BaseException:
        vin.destroy()
        vout.destroy()
        raise
    return x, finish_vecs(w, "C07", "the operator", vin, vout, before, p)


def ck_apply(w, o, op, c, v):
    x, y = v
    A = o.mat("full")
    e = A @ x
    bound = 1e-10 * (abs(A) @ np.abs(x)) + 1e-18
    # entries that cancel in A leave a rounding error that its zero does not show
    idx = np.arange(len(x))
    slabs = [o.ref.slab_part(idx, s) for s in range(o.ref.N)]
    top = [np.abs(x[i]).max() for i in slabs]
    for s, i in enumerate(slabs):
        bound[i] += 1e-13 * abs(A).max() * max(top[max(s - 1, 0):s + 2])
    bad = ~(np.abs(y - e) <= bound)
    w.rec.check("C07", "operator-wrong", not bad.any(),
                lambda: f"A x differs at {int(bad.sum())} of {len(e)} unknowns, by up to {np.nanmax(np.abs(y - e)):.3e} "
                        f"(A x up to {np.abs(e).max():.3e}), first in component {where(o, int(np.argmax(bad)))}")


def where(o, i):
    off, _ = o.ref.offsets(o.ref.N)
    return max((v, k) for k, v in off.items() if v <= i)[1]


def op_march(w, o, op, c, improved=False):
    p = o.perm()
    b, vin, vout, before = vec_pair(op, len(p), p, o)
    zero_from = op.get("zero_from")
    if zero_from is not None and o.ref.N > 1:
        # right-hand side supported on the slabs from zero_from on
        z = b.copy()
        for n in range(min(zero_from, o.ref.N - 1)):
            o.ref.put_slab(z, n, np.zeros(len(o.ref.slab_part(z, n))))
        b = z
        before = np.empty(len(p))
        before[p] = b
        vin.array[:] = before
    mode = op.get("via", "method")
    try:
        if not improved:
            o.S.pre_time_marching(vin, vout)
        elif mode == "method":
            o.S.pre_time_marching_improved(vin, vout)
        else:
            st.SpaceTimePETScPreconditionerWrapper(o.S).apply(None, vin, vout)
    except BaseException:
        vin.destroy()
        vout.destroy()
        raise
    return b, finish_vecs(w, "C08", "the preconditioner", vin, vout, before, p)


def op_march2(w, o, op, c):
    return op_march(w, o, op, c, improved=True)


def ck_march(w, o, op, c, v):
    b, x = v
    backward(w.rec, "C08", "marching-wrong", o, b, x, "pre_time_marching" + ("_improved" if op["op"] == "march2" else ""),
             first_only=o.mat("first")[0])


def op_coarse(w, o, op, c):
    o.S.prepare_coarse_grid_correction(w.meshes[o.spec["coarse"]])


def op_coarse_mat(w, o, op, c):
    return csr(o.S.get_spacetime_matrix_coarse())


def coarse_domain_defined(w, o):
    """Does sampling the fine indicator at the coarse cell midpoints give the data domain on the coarse mesh?

    Not where a midpoint lies between fine cells of which only one is in the data domain.
    """
    dom = w.case["domains"][o.spec["dom"]]
    if dom["form"] == "ufl":
        return True
    fine, coarse = o.mesh, w.meshes[o.spec["coarse"]]
    inside, want = cell_mask(dom["pred"], fine), cell_mask(dom["pred"], coarse)
    gdim = fine.geometry.dim
    mid = coarse.points[coarse.cells].mean(axis=1)[:, :gdim]
    size = np.ptp(fine.points[fine.cells][:, :, :gdim], axis=1).min()
    for d in itertools.product((-1, 0, 1), repeat=gdim):
        cells, _ = fine.locate(mid + 1e-5 * size * np.array(d) * np.arange(1, gdim + 1))
        if (cells < 0).any() or not np.array_equal(inside[cells], want):
            return False
    return True


def ck_coarse_mat(w, o, op, c, A):
    p = o.perm_c()
    if not coarse_domain_defined(w, o):
        w.rec.probe("coarse data domain not determined")
        return
    block_compare(w.rec, "C13", "coarse-matrix-wrong", A[p][:, p], o.mat("coarse"), o, o.ref.N, "coarse system")


def op_coarse_solver(w, o, op, c):
    p = o.perm_c()
    o.csolver = CoarseMap(w, "solver.coarse", len(p), p, op["seed"])
    o.S.set_solver_coarse(o.csolver)
    o.has_coarse_solver = True


def transfer(o, x, up):
    """Reference interpolation of every component between the meshes."""
    src, dst = (o.cref, o.ref) if up else (o.ref, o.cref)
    out = []
    for f in sr.FIELDS:
        d = src.deg(f)
        key = ("T", up, d)
        if key not in o._mats:
            from dolfinx import _elements as el

            pts = np.zeros((dst.s.n[d], 3))
            cds = dst.s.coords(d)
            pts[:, : cds.shape[1]] = cds
            cells, X = src.s.mesh.locate(pts)
            tab = el.tabulate(src.s.mesh.cell_name, d, X)
            rows = np.repeat(np.arange(len(pts)), tab.shape[1])
            o._mats[key] = sp.csr_matrix((tab.ravel(), (rows, src.s._lay[d].dofs[cells].ravel())),
                                         shape=(dst.s.n[d], src.s.n[d]))
        T = o._mats[key]
        for n in range(src.N):
            for e in range(src.per(f)):
                out.append(T @ src.comp(x, f, n, e))
    return np.concatenate(out)


def op_restrict(w, o, op, c):
    p, pc = o.perm(), o.perm_c()
    x, vin, vo, before = vec_pair(op, len(p), p)
    vo.destroy()
    vout = petsc_vec(np.full(len(pc), np.nan if op.get("garbage") == "nan" else 3.0))
    o.S.restriction(vout, vin)
    return x, finish_vecs(w, "C13", "restriction", vin, vout, before, pc)


def ck_restrict(w, o, op, c, v):
    x, y = v
    e = transfer(o, x, False)
    w.rec.check("C13", "restriction-wrong", close(y, e, 1e-9),
                lambda: f"restriction differs from interpolation by {np.nanmax(np.abs(y - e)):.3e}")


def op_prolong(w, o, op, c):
    p, pc = o.perm(), o.perm_c()
    x, vin, vo, before = vec_pair(op, len(pc), pc)
    vo.destroy()
    vout = petsc_vec(np.full(len(p), np.nan if op.get("garbage") == "nan" else 3.0))
    o.S.prolongation(vin, vout)
    return x, finish_vecs(w, "C13", "prolongation", vin, vout, before, p)


def ck_prolong(w, o, op, c, v):
    x, y = v
    e = transfer(o, x, True)
    w.rec.check("C13", "prolongation-wrong", close(y, e, 1e-9),
                lambda: f"prolongation differs from interpolation by {np.nanmax(np.abs(y - e)):.3e}")


def op_roundtrip(w, o, op, c):
    p, pc = o.perm(), o.perm_c()
    x, vin, vo, before = vec_pair(op, len(pc), pc)
    vo.destroy()
    fine, back = petsc_vec(np.zeros(len(p))), petsc_vec(np.zeros(len(pc)))
    o.S.prolongation(vin, fine)
    o.S.restriction(back, fine)
    fine.destroy()
    return x, finish_vecs(w, "C13", "prolongation", vin, back, before, pc)


def ck_roundtrip(w, o, op, c, v):
    x, y = v
    if not w.case.get("nested"):
        return
    w.rec.check("C13", "roundtrip-wrong", close(y, x, 1e-9),
                lambda: f"restricting a prolonged vector changes it by {np.nanmax(np.abs(y - x)):.3e}")


def op_twolvl(w, o, op, c):
    p = o.perm()
    b, vin, vout, before = vec_pair(op, len(p), p, o)
    try:
        o.S.pre_twolvl(vin, vout)
    except BaseException:
        vin.destroy()
        vout.destroy()
        raise
    return b, finish_vecs(w, "C13", "the two-level preconditioner", vin, vout, before, p)


def ck_twolvl(w, o, op, c, v):
    b, x = v
    cs = o.csolver.map(transfer(o, b, False))
    t3 = transfer(o, cs, True)
    A = o.mat("full")
    rest = b - A @ t3
    # the coarse part is added last, so cancellation is bounded by its size
    r = o.ref
    backward2(w.rec, o, rest, x - t3, t3, b)
    del r


def backward2(rec, o, rest, y, t3, b):
    r = o.ref
    A, C, F = o.mat("slab"), o.mat("C"), o.mat("first")[0]
    big = np.abs(b).max() + spla.norm(o.mat("full"), 1) * np.abs(t3).max()
    worst, wn, prev = 0.0, None, None
    for n in range(r.N):
        D = F if n == 0 else A
        yn = r.slab_part(y, n)
        res = D @ yn - r.slab_part(rest, n)
        scale = spla.norm(D, 1) * (np.abs(yn).max() + np.abs(t3).max()) + big + 1e-10
        if n:
            res = res - C @ prev
            scale += np.abs(C @ prev).max()
        e = float(np.abs(res).max() / scale)
        if not np.isfinite(e) or e > worst:
            worst, wn = (e if np.isfinite(e) else np.inf), n
        prev = yn
    rec.check("C13", "two-level-wrong", worst < 1e-9,
              lambda: f"two-level correction minus the coarse part does not solve the marching system: slab {wn}, {worst:.2e}")


def fe_vec(o, op):
    p = o.perm()
    x = np.random.RandomState(op["seed"]).standard_normal(len(p))
    if op.get("x") == "near":
        # nodal values of the exact solution, so errors are small but not zero
        h = o.w.sols_h[o.spec["sol"]]
        r = o.ref
        off, _ = r.offsets(r.N)
        x *= 1e-3
        for (f, n, e), at in off.items():
            if f in ("u1", "u2"):
                t = (n + (e / r.q if r.q else 0.5)) * r.dt
                cds = r.s.coords(r.k)
                xs = [cds[:, a] for a in range(cds.shape[1])]
                x[at: at + len(cds)] += (h.v if f == "u1" else h.dvdt)(t, xs)
    if op.get("x") == "broken":
        x[broken(o, op)[3]] = float(op["value"])
    arr = np.empty(len(p))
    arr[p] = x
    return x, petsc_vec(arr), arr


def broken(o, op):
    """Which unknown of a vector holds a value that is not a number: (field, slab, node, index)."""
    r = o.ref
    off, size = r.offsets(r.N)
    g = np.random.RandomState(op["seed"] ^ 1)
    fields = sorted(off)
    # the displacement in half of the cases, as the errors are those of the displacement
    if g.random_sample() < 0.5:
        fields = [f for f in fields if f[0] == "u1"]
    f, n, e = fields[g.randint(len(fields))]
    m = r.s.n[r.deg(f)]
    return f, n, e, off[f, n, e] + g.randint(m)


def op_errors(w, o, op, c):
    x, v, before = fe_vec(o, op)
    try:
        e = o.S.measured_errors(v, verbose=op.get("verbose", False))
        e = {k: float(a) for k, a in e.items()}
    finally:
        same = np.array_equal(v.array, before, equal_nan=True)
        v.destroy()
        w.rec.check("C12", "vector-modified", same, "measuring errors changed the vector")
    return x, e


def ck_errors(w, o, op, c, v):
    x, e = v
    h = w.sols_h[o.spec["sol"]]
    r = o.ref
    infinite = set()
    if op.get("x") == "broken":
        f, n, node, at = broken(o, op)
        x = np.where(np.arange(len(x)) == at, 0.0, x)
        if f == "u1":
            infinite = {"L-infty-L2-error-u"}
            if r.q:
                infinite |= {"L-infty-L2-error-ut", "L2-L2-error-u_t"}
            if n == r.N - 1 and node == r.q:
                infinite.add("L2-u1-T")
            for key in sorted(infinite):
                w.rec.check("C12", "broken-solution-hidden", key in e and not np.isfinite(e[key]),
                            lambda key=key: f"{key} is {e.get(key)} for a vector with {op['value']} in u1 on slab {n}")
            w.rec.probe("measured a vector that is not finite")
            if r.q == 0:
                infinite |= {"L-infty-L2-error-ut", "L2-L2-error-u_t"}
    want, lo, hi = r.errors(x, h.v, h.dvdt, np.linspace(0, o.spec["T"], 105))
    for key, tol in (("L2-u1-T", 1e-8), ("L2-L2-error-u_t", 2e-5)):
        if key in infinite:
            continue
        got = e.get(key)
        w.rec.check("C12", "error-wrong", got is not None and abs(got - want[key]) <= tol * want[key] + 1e-9,
                    lambda key=key, got=got: f"{key} is {got}, the vector's is {want[key]:.12g}")
    for i, key in enumerate(("L-infty-L2-error-u", "L-infty-L2-error-ut")):
        if key in infinite:
            continue
        got = e.get(key)
        ok = got is not None and lo[i] * (1 - 1e-8) - 1e-9 <= got <= hi[i] * (1 + 1e-8) + 1e-9
        w.rec.check("C12", "sampled-error-wrong", ok,
                    lambda key=key, got=got, i=i: f"{key} is {got}, the largest over the samples is {lo[i]:.12g}"
                    + (f"..{hi[i]:.12g}" if hi[i] > lo[i] * (1 + 1e-9) else ""))


def op_plot(w, o, op, c):
    x, v, before = fe_vec(o, op)
    start = len(PLOTS)
    try:
        if op["op"] == "plot":
            o.S.plot(v, n_space=op["ns"], n_time_subdiv=op["nt"], abs_val=op.get("abs", False))
        else:
            o.S.plot_error(v, n_space=op["ns"], n_time_subdiv=op["nt"])
    finally:
        same = np.array_equal(v.array, before, equal_nan=True)
        v.destroy()
        w.rec.check("C17", "vector-modified", same, "plotting changed the vector")
    return x, PLOTS[start:]


def ck_plot(w, o, op, c, v):
    x, plots = v
    r = o.ref
    h = w.sols_h[o.spec["sol"]]
    ns, nt = op["ns"], op["nt"]
    xs = np.linspace(0.0, 1.0, ns)
    pts = np.zeros((ns, 3))
    pts[:, 0] = xs
    from dolfinx import _elements as el

    mesh = o.mesh
    cells, X = mesh.locate(pts)
    tab = el.tabulate(mesh.cell_name, r.k, X)
    dofs = r.s._lay[r.k].dofs[cells]
    val, dval = np.zeros((nt * r.N, ns)), np.zeros((nt * r.N, ns))
    ts = []
    phi = sr.basis(r.q)
    for n in range(r.N):
        u = [np.einsum("pi,pi->p", tab, r.comp(x, "u1", n, e)[dofs]) for e in range(r.q + 1)]
        for m in range(nt):
            tau = m / nt
            ts.append((n + tau) * r.dt)
            val[n * nt + m] = sum(phi[e](tau) * u[e] for e in range(r.q + 1))
            dval[n * nt + m] = sum(phi[e].deriv()(tau) / r.dt * u[e] for e in range(r.q + 1))
    ts = np.array(ts)
    ex = np.array([[h.v(t, [a]) for a in xs] for t in ts], dtype=float)
    dex = np.array([[h.dvdt(t, [a]) for a in xs] for t in ts], dtype=float)
    if op["op"] == "plot":
        want = [abs(val), abs(dval)] if op.get("abs") else [val, dval]
        names = ["values", "time derivatives"]
    else:
        want = [dval, abs(val - ex), abs(dval - dex)]
        names = ["time derivatives", "errors", "time derivative errors"]
    got = [p[1] for p in plots if p[0] == "pcolormesh"]
    for nm, e in zip(names, want):
        sc = np.abs(e).max() + np.abs(val).max()
        ok = any(len(g) == 3 and close(g[0], xs, 1e-9) and close(g[1], ts, 1e-9) and close(g[2], e, 1e-7, sc) for g in got)
        w.rec.check("C17", "plot-wrong", ok, f"{op['op']}: no plotted array holds the {nm} of the vector")


def op_export(w, o, op, c):
    x, v, before = fe_vec(o, op)
    try:
        if op.get("name"):
            o.S.plot_para_view(v, name=op["name"])
        else:
            o.S.plot_para_view(v)
    finally:
        same = np.array_equal(v.array, before, equal_nan=True)
        v.destroy()
        w.rec.check("C17", "vector-modified", same, "exporting changed the vector")
    return x, c.written


def ck_export(w, o, op, c, v):
    x, written = v
    r = o.ref
    h = w.sols_h[o.spec["sol"]]
    cds = r.s.coords(r.k)
    xs = [cds[:, a] for a in range(cds.shape[1])]
    T = o.spec["T"]
    stem = op.get("name") or "abserr"
    for suffix, f, ex in (("u", "u1", h.v), ("ut", "u2", h.dvdt)):
        e = np.abs(r.comp(x, f, r.N - 1, r.q) - ex(T, xs))
        fields = [a for fn, mode, nm, V, a in written if fn == f"{stem}-{suffix}.xdmf" and mode == "w"]
        ok = bool(fields) and close(fields[-1], e, 1e-8, np.abs(e).max() + np.abs(x).max())
        w.rec.check("C17", "export-wrong", ok, f"{stem}-{suffix}.xdmf does not hold the absolute errors of {f} at the final time"
                    if fields else f"{stem}-{suffix}.xdmf was not written")
        if fields:
            w.rec.check("C17", "export-file-missing", os.path.exists(f"{stem}-{suffix}.xdmf")
                        and os.path.getsize(f"{stem}-{suffix}.xdmf") > 100, "the exported file is missing or incomplete")


OPS = {
    "new": op_new, "fe": op_fe, "ic": op_ic, "mat": op_mat, "bfi": op_bfi, "rhs": op_rhs, "lfi": op_lfi,
    "slab": op_slab, "slab_bfi": op_slab_bfi, "first": op_first, "first_bfi": op_first_bfi, "prepare": op_prepare,
    "solvers": op_solvers, "apply": op_apply, "march": op_march, "march2": op_march2, "coarse": op_coarse,
    "coarse_solver": op_coarse_solver, "coarse_mat": op_coarse_mat, "restrict": op_restrict,
    "prolong": op_prolong, "roundtrip": op_roundtrip, "twolvl": op_twolvl, "errors": op_errors, "plot": op_plot,
    "plot_error": op_plot, "export": op_export,
}
CHECKS = {
    "mat": ck_mat, "bfi": ck_mat, "rhs": ck_rhs, "lfi": ck_rhs, "slab": ck_slab, "slab_bfi": ck_slab,
    "first": ck_first, "first_bfi": ck_first, "apply": ck_apply, "march": ck_march, "march2": ck_march,
    "coarse_mat": ck_coarse_mat, "restrict": ck_restrict, "prolong": ck_prolong, "roundtrip": ck_roundtrip,
    "twolvl": ck_twolvl, "errors": ck_errors, "plot": ck_plot, "plot_error": ck_plot, "export": ck_export,
}


# ------------------------------------------------------------- execution


def execute(prop, case, rec):
    d = tempfile.mkdtemp(prefix="simst.", dir=os.environ.get("TMPDIR", "/tmp"))
    os.chdir(d)
    try:
        np.seterr(all="ignore")
        if case["kind"] == "par":
            execute_par(prop, case, rec)
        else:
            w = World(case, rec)
            done = 0
            for op in case["ops"]:
                s, _ = run_op(w, op, prop)
                done += s == "ok"
            rec.nontrivial = done >= 3
    finally:
        os.chdir("/")
        import shutil

        shutil.rmtree(d, ignore_errors=True)


def summarise(value):
    """JSON-able numbers of an operation's result."""
    if value is None:
        return None
    if sp.issparse(value):
        m = value.tocoo()
        rng = np.random.RandomState(3).standard_normal(m.shape[1])
        return ("m", list(m.shape), (value @ rng).tolist())
    if isinstance(value, dict):
        return ("d", {k: float(v) for k, v in value.items()})
    if isinstance(value, np.ndarray):
        return ("a", value.tolist())
    if isinstance(value, tuple | list):
        return ("l", [summarise(v) for v in value if not isinstance(v, str) and not hasattr(v, "comps")])
    return ("s", str(value)[:60])


def same(a, b, tol):
    if type(a) is not type(b):
        if not (isinstance(a, list | tuple) and isinstance(b, list | tuple)):
            return a == b
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, list | tuple):
        if len(a) != len(b):
            return False
        if a and all(isinstance(v, int | float) for v in a):
            x, y = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
            odd = ~np.isfinite(x) | ~np.isfinite(y)
            return np.array_equal(x[odd], y[odd], equal_nan=True) and close(x[~odd], y[~odd], tol)
        return all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float):
        if not (np.isfinite(a) and np.isfinite(b)):
            return np.array_equal(a, b, equal_nan=True)
        return abs(a - b) <= tol * abs(b) + 1e-13
    return a == b


def lane(w, ops, prop):
    out = []
    for op in ops:
        if op.get("hot") and w.baton is not None:
            w.baton.arrive()
        s, v = run_op(w, op, prop, check=False)
        out.append([s, summarise(v) if s == "ok" else str(v).split(":")[1].strip() if v else None])
    return out


def execute_par(prop, case, rec):
    """Run the lanes alone, each in its own process, then together under the schedule."""
    alone = []
    for i in range(len(case["lanes"])):
        def go(i=i):
            r = core.Rec()
            w = World(case, r)
            return lane(w, case["lanes"][i], prop)

        s, v = core.run_isolated(go, 30)
        if s != "ok":
            raise core.HarnessError(f"lane alone: {s} {v}")
        alone.append(v)
    w = World(case, rec)
    bt = SparseBaton(case["sched"]["first"], case["sched"]["switches"],
                     len(case["lanes"]) if case["sched"].get("hot") else 0)
    w.baton = bt
    root = os.path.join(loader.SRC, "dxss") + os.sep
    by_line = case["sched"].get("lines", False)

    def tracer(frame, event, arg):
        if not frame.f_code.co_filename.startswith(root):
            return None

        def local(frame, event, arg):
            if event == "line":
                bt.point()
            return local

        return local

    def body(i):
        def f():
            if by_line:
                sys.settrace(tracer)
            try:
                return lane(w, case["lanes"][i], prop)
            finally:
                sys.settrace(None)

        return f

    errs = []

    def guarded(i):
        f = body(i)

        def g():
            try:
                return f()
            except BaseException as e:  # noqa: BLE001
                errs.append(e)
                return None

        return g

    outs = bt.run([guarded(i) for i in range(len(case["lanes"]))])
    w.baton = None
    for e in errs:
        raise e
    rec.fault("thread switches between statements", bt.switches)
    rec.sched.extend(bt.trace)
    rec.simtime += bt.points
    rec.nontrivial = bt.switches >= 2
    rec.event("par", len(bt.trace), bt.points)
    for i, (a, b) in enumerate(zip(alone, outs)):
        b = json.loads(json.dumps(b))
        for op, x, y in zip(case["lanes"][i], a, b):
            rec.checks += 1
            if not same(y, x, 1e-9):
                what = f"{y[0]}" if y[0] != x[0] else ("another exception" if x[0] == "raised" else "another result")
                rec.violate("C14", "interference",
                            f"lane {i}, {op['op']} on object {op['o']}: {what} than when used alone ({x[0]})")
                break
    now = w.inputs()
    if now != w.snap:
        rec.violate("C10", "input-modified", "interleaved use changed the caller's inputs")


# ------------------------------------------------------------- generation


def gen_case(prop, r, tier):
    par = prop == "C14" and r.random() < 0.8
    nobj = {"C10": r.choice([1, 2, 2, 3]), "C14": r.choice([2, 2, 3])}.get(prop, r.choice([1, 1, 1, 2]))
    big = tier == "thorough"
    meshes = []
    coarse = prop == "C13" or (prop in ("C14", "C09") and r.random() < 0.15)
    nested = True
    plots = prop == "C17" or (prop == "C14" and r.random() < 0.3) or r.random() < 0.15
    for _ in range(1 if (nobj == 1 or r.random() < 0.5) else 2):
        t = r.choices(["interval", "tri", "quad", "hex", "tet"], [60, 18, 14, 4, 1])[0]
        if t == "interval":
            a, b = (0.0, 1.0) if plots or r.random() < 0.6 else (r.choice([-0.5, 0.0, 0.25]), r.choice([1.0, 1.75]))
            meshes.append({"t": t, "n": r.choice([1, 2, 3, 4, 5, 6, 8]), "a": a, "b": b})
        elif t in ("tri", "quad"):
            meshes.append({"t": t, "n": r.choice([1, 2, 2, 3]), "m": r.choice([1, 1, 2])})
        else:
            meshes.append({"t": t, "n": 1, "m": 1, "l": r.choice([1, 1, 2]) if t == "hex" else 1})
    coarse_of = {}
    if coarse:
        for i in range(len(meshes)):
            m = dict(meshes[i])
            keys = [k for k in ("n", "m", "l") if k in m]
            if m["t"] in ("interval", "tri", "quad"):
                nested = nested and r.random() < 0.8
                if nested:
                    fine = dict(m)
                    if m["t"] == "interval":
                        m["n"] = r.choice([1, 2, 3])
                        fine["n"] = m["n"] * r.choice([1, 2, 3])
                    else:
                        m["n"], m["m"] = r.choice([1, 2]), 1
                        f = r.choice([1, 2])
                        fine["n"], fine["m"] = m["n"] * f, m["m"] * f
                    meshes[i] = fine
                else:
                    m["n"] = r.choice([1, 2, 3])
            del keys
            meshes.append(m)
            coarse_of[i] = len(meshes) - 1
    nfine = len(meshes) - len(coarse_of)

    def thresholds(mi, aligned):
        m = meshes[coarse_of.get(mi, mi) if coarse else mi]
        a, b = (m["a"], m["b"]) if m["t"] == "interval" else (0.0, 1.0)
        n = m["n"]
        if aligned:
            vs = [a + (b - a) * j / n for j in range(n + 1)]
        else:
            vs = [a + (b - a) * (0.0631 + 0.0917 * j) for j in range(10)]
        v = r.choice(vs[:-1])
        wv = r.choice([x for x in vs if x > v])
        return v, wv

    domains, dom_mesh = [], []
    for _ in range(r.choice([1, 1, 2]) if nobj > 1 else 1):
        mi = r.randrange(nfine)
        form = r.choices(["callable", "ufl", "function", "function-fitted"], [6, 3, 1, 1])[0]
        if coarse and form == "function":
            form = "callable"
        aligned = form == "ufl" or coarse
        k = r.choice(["le", "ge", "out", "in", "all"]) if r.random() < 0.95 else "none"
        if coarse and not nested:
            k = "all"
        v, wv = thresholds(mi, aligned)
        # keep aligned thresholds off the quadrature points and midpoints
        domains.append({"form": form, "mesh": mi, "pred": {"k": k, "v": v, "w": wv}})
        dom_mesh.append(None if form == "callable" else mi)

    def orders():
        q = r.choices([0, 1, 2, 3], [12, 55, 23, 3 if not big else 10])[0]
        qs = r.choice([q, max(q - 1, 0), 0, min(q + 1, 2), 1])
        return {"q": q, "qs": qs}

    times = [orders() for _ in range(r.choice([1, 2]) if nobj > 1 else 1)]
    spaces = []
    for _ in range(r.choice([1, 2]) if nobj > 1 else 1):
        d3 = any(m["t"] in ("hex", "tet") for m in meshes)
        k = 1 if d3 else r.choices([1, 2, 3], [50, 35, 8])[0]
        spaces.append({"k": k, "ks": 1 if d3 else r.choices([k, 1, min(k + 1, 3), max(k - 1, 1)], [40, 40, 10, 10])[0]})
    stabs = [[r.choice([1e4, 1.0, 37.5, 0.5]), r.choice([1.0, 0.3, 2.0]), r.choice([1e-3, 1e-4, 0.2, 1.0]),
              r.choice([1.0, 0.7, 10.0])] for _ in range(r.choice([1, 2]) if nobj > 1 else 1)]
    sols = [{"c": [round(r.uniform(-2, 2), 3) for _ in range(3)],
             "d": [round(r.uniform(-2, 2), 3) for _ in range(3)] + [0.0 if plots else r.choice([0.0, 1.25])]}
            for _ in range(r.choice([1, 2]) if nobj > 1 else 1)]
    for q in sols:
        # data with zeros in them: stationary ones, ones that start from rest or from zero, ones without a gradient
        if r.random() < 0.35:
            for i in r.choice([(1,), (0,), (2,), (0, 1), (1, 2), (0, 2)]):
                q["c"][i] = 0.0
        if r.random() < 0.2:
            for i in r.choice([(1, 2), (0,), (0, 2)]):
                q["d"][i] = 0.0
    params = [{"jumps": r.random() < 0.3, "wp": r.random() < 0.35} for _ in range(r.choice([1, 2]) if nobj > 1 else 1)]
    objs = []
    for _ in range(nobj):
        mi = r.randrange(nfine)
        ok = [i for i, m in enumerate(dom_mesh) if m in (None, mi)]
        if not ok:
            mi = dom_mesh[0]
            ok = [0]
        o = {"mesh": mi, "time": r.randrange(len(times)), "space": r.randrange(len(spaces)),
             "N": r.choices([1, 2, 3, 4, 6], [20, 30, 25, 8, 6])[0], "T": r.choice([1, 1.0, 0.7, 1.5, 0.5]),
             "stab": r.randrange(len(stabs)), "dom": r.choice(ok), "sol": r.randrange(len(sols)),
             "par": r.randrange(len(params))}
        if not params[o["par"]]["jumps"] and not params[o["par"]]["wp"] and r.random() < 0.4:
            o["defaultpar"] = True
        t = times[o["time"]]
        if meshes[mi]["t"] in ("hex", "tet") or t["q"] + t["qs"] >= 5:
            o["N"] = min(o["N"], 2)
        if t["q"] >= 2 and meshes[mi]["t"] != "interval":
            o["N"] = min(o["N"], 2)
        if mi in coarse_of:
            o["coarse"] = coarse_of[mi]
        objs.append(o)
    case = {"kind": "par" if par else "hist", "numbering": r.randrange(1, 10**6), "meshes": meshes,
            "domains": domains, "times": times, "spaces": spaces, "stabs": stabs, "sols": sols, "params": params,
            "objs": objs, "nested": nested}
    if par:
        lanes = []
        no_faults = False
        for i in range(nobj):
            lanes.append(history(prop, r, [i], objs, case, n=r.randint(3, 7), nofault=no_faults, coarse=coarse, plots=plots))
        sw = []
        lines = r.random() < 0.8
        for _ in range(r.choice([1, 3, 8, 20, 40])):
            gap = r.choice([1, 1, 2, 3, 5, 8, 20, 60, 150, 400]) if lines else r.choice([1, 1, 2, 3, 5, 8])
            sw.append([gap, r.randrange(nobj)])
        case["lanes"] = lanes
        case["sched"] = {"first": r.randrange(nobj), "switches": sw, "lines": lines}
        if r.random() < 0.55:
            # set up alone, then the same calls on every object, interleaved closely
            names = [n for n in WEIGHTS["C14"] if coarse or n not in ("restrict", "prolong", "twolvl")]
            burst = r.choices(names, [WEIGHTS["C14"][n] for n in names], k=r.choice([1, 1, 2]))
            for i, ops in enumerate(lanes):
                head = ["new", "fe", "prepare", "solvers"] + (["coarse", "coarse_solver"] if coarse else [])
                ops[:] = [fill({"o": i, "op": n}, r, case, objs) for n in head + burst]
                for op in ops[len(head):]:
                    if op["op"] in KIND and r.random() < 0.15 and op.get("via") != "petsc":
                        op["faults"] = [gen_fault(r, op["op"])]
                ops[-len(burst)]["hot"] = True
            case["sched"]["hot"] = True
            case["sched"]["lines"] = r.random() < 0.9
            m = r.choice([2, 4, 10, 25, 60])
            case["sched"]["switches"] = [[r.choice([1, 1, 2, 3, 4, 6, 10, 25]), r.randrange(nobj)] for _ in range(m)]
    else:
        n = {"C07": 9, "C08": 11, "C09": 11, "C10": 9, "C12": 7, "C13": 12, "C14": 10, "C17": 8}[prop]
        case["ops"] = history(prop, r, list(range(nobj)), objs, case, n=r.randint(n // 2 + 1, n + 3 + (6 if big else 0)),
                              coarse=coarse, plots=plots)
    return case


WEIGHTS = {
    "C07": {"apply": 12, "march": 2, "march2": 3, "mat": 2, "slab": 1, "rhs": 1, "prepare": 1, "errors": 0.5, "first": 1},
    "C08": {"march": 8, "march2": 8, "apply": 2, "prepare": 1, "mat": 1, "slab": 1, "solvers": 1, "errors": 0.3},
    "C09": {"mat": 5, "bfi": 4, "rhs": 3, "lfi": 2, "slab": 3, "slab_bfi": 2, "first": 3, "first_bfi": 2, "prepare": 4,
            "apply": 2, "march2": 1, "march": 1, "solvers": 1, "errors": 0.4, "ic": 1, "fe": 0.5},
    "C10": {"new": 4, "mat": 5, "rhs": 4, "slab": 4, "bfi": 1, "lfi": 1, "prepare": 1, "apply": 1, "errors": 0.4, "export": 0.4},
    "C12": {"errors": 8, "rhs": 3, "ic": 2, "mat": 1, "prepare": 1.5, "apply": 2, "march": 1, "lfi": 1, "export": 1, "solvers": 1},
    "C13": {"restrict": 4, "prolong": 4, "roundtrip": 2, "twolvl": 9, "coarse_mat": 2, "coarse": 1, "march": 1, "apply": 1,
            "errors": 0.3, "coarse_solver": 0.5},
    "C14": {"apply": 4, "march": 3, "march2": 3, "mat": 2, "rhs": 2, "prepare": 2, "errors": 0.7, "slab": 2, "first": 1,
            "bfi": 1, "restrict": 1, "prolong": 1, "twolvl": 1.5},
    "C17": {"export": 8, "plot": 4, "plot_error": 5, "rhs": 2, "ic": 1, "apply": 1, "errors": 0.5, "mat": 0.5, "prepare": 0.5},
}
SITES = {
    "new": ["fem.FunctionSpace", "fem.Function", "fem.interpolate"],
    "fe": ["fem.FunctionSpace", "fem.collapse", "fem.Function"],
    "asm": ["fem.form", "fem.assemble_matrix", "Mat.assemble", "Mat.createVecs", "fem.create_vector", "fem.assemble_vector"],
    "march": ["solver.slab", "solver.first", "fem.form", "fem.create_vector", "fem.assemble_vector", "fem.scatter_forward",
              "fem.split", "Mat.mult", "solver.slab.end", "solver.first.end"],
    "apply": ["Mat.mult"],
    "coarse": ["fem.FunctionSpace", "fem.collapse", "fem.form", "fem.assemble_matrix", "fem.create_vector", "Mat.createVecs",
               "fem.interpolate"],
    "transfer": ["fem.interpolate"],
    "twolvl": ["solver.coarse", "solver.slab", "solver.first", "fem.interpolate", "Mat.mult", "fem.form", "solver.coarse.end"],
    "errors": ["fem.form", "fem.assemble_scalar", "comm.allreduce", "fem.scatter_forward", "fem.split"],
    "plot": ["dxh.evaluate", "fem.Function", "plt.pcolormesh", "plt.show", "fem.split"],
    "export": ["xdmf.open", "xdmf.write_mesh", "xdmf.write_function", "xdmf.close", "fem.Expression", "fem.interpolate",
               "fem.Function"],
}
KIND = {"new": "new", "fe": "fe", "mat": "asm", "bfi": "asm", "rhs": "asm", "lfi": "asm", "slab": "asm", "slab_bfi": "asm",
        "first": "asm", "first_bfi": "asm", "prepare": "asm", "apply": "apply", "march": "march", "march2": "march",
        "coarse": "coarse", "restrict": "transfer", "prolong": "transfer", "roundtrip": "transfer", "twolvl": "twolvl",
        "errors": "errors", "plot": "plot", "plot_error": "plot", "export": "export"}
EXCS = ["RuntimeError", "MemoryError", "SimFault", "KeyboardInterrupt", "ValueError", "PETScError", "OSError"]


def gen_fault(r, name):
    kind = KIND[name]
    site = r.choice(SITES[kind]) if r.random() < 0.75 else "*"
    at = r.choice([0, 0, 0, 1, 1, 2, 3]) if site != "*" else r.choice([0, 1, 2, 3, 5, 8, 13, 21])
    if name == "errors":
        at = r.choice([0, 1, 2, 5, 20, 60])
    exc = r.choice(EXCS)
    if site.startswith("xdmf"):
        exc = r.choice(["OSError", "RuntimeError", "KeyboardInterrupt"])
        at = r.choice([0, 0, 1])
    do = "raise"
    if site in ("Mat.mult", "solver.slab", "solver.first", "solver.coarse") and r.random() < 0.3:
        do = r.choice(["nan", "wrong"])
    return {"site": site, "at": at, "exc": exc, "do": do}


def fill(op, r, case, objs):
    n = op["op"]
    if n in ("apply", "march", "march2", "twolvl", "restrict", "prolong", "roundtrip"):
        op["seed"] = r.randrange(10**6)
        op["x"] = r.choices(["rand", "unit", "zero", "scaled"], [8, 2, 1, 1])[0]
        op["garbage"] = r.choice(["zero", "nan", "rand"])
        if n in ("apply",):
            op["x"] = r.choice([op["x"], op["x"], "jump", "graded", "slabs", "fields", "repeat"])
            op["via"] = r.choice(["method", "method", "wrapper", "petsc"])
        if n == "march2":
            op["via"] = r.choice(["method", "wrapper"])
        if n in ("march", "march2", "twolvl"):
            op["x"] = r.choice([op["x"], op["x"], "slabs", "fields", "repeat"])
        if n in ("march", "march2") and r.random() < 0.3:
            op["zero_from"] = r.choice([1, 2])
    elif n in ("mat", "bfi"):
        op["precond"] = r.random() < 0.45
    elif n in ("errors", "plot", "plot_error", "export"):
        op["seed"] = r.randrange(10**6)
        op["x"] = r.choice(["rand", "near"])
        if n == "errors":
            op["verbose"] = r.random() < 0.2
            if r.random() < 0.12:
                op["x"], op["value"] = "broken", r.choice(["nan", "inf", "-inf"])
        elif n == "export":
            if r.random() < 0.6:
                op["name"] = r.choice(["err", "run2", "abserr"])
        else:
            op["ns"], op["nt"] = r.choice([2, 3, 5, 9]), r.choice([1, 2, 3])
            if n == "plot":
                op["abs"] = r.random() < 0.3
    elif n in ("ic", "coarse_solver"):
        op["seed"] = r.randrange(10**6)
    return op


def history(prop, r, which, objs, case, n, nofault=False, coarse=False, plots=False):
    ops = []
    pf = 0.0 if nofault else r.choice([0.0, 0.15, 0.3, 0.45])

    def add(o, name, must=False):
        op = fill({"o": o, "op": name}, r, case, objs)
        if name in KIND and r.random() < pf:
            op["faults"] = [gen_fault(r, name) for _ in range(r.choice([1, 1, 2]))]
            if op.get("via") == "petsc":
                op["via"] = "method"
            ops.append(op)
            if must or r.random() < 0.7:
                ops.append(fill({"o": o, "op": name}, r, case, objs))
        else:
            ops.append(op)

    setups = {o: ["new", "fe"] for o in which}
    for o in which:
        if r.random() < 0.4:
            setups[o].append("ic")
        if prop in ("C07", "C08", "C13", "C14") or r.random() < 0.4:
            if r.random() < 0.2:
                setups[o].append(r.choice(["slab", "mat", "rhs", "first"]))
            setups[o].append("prepare")
            if prop != "C07" or r.random() < 0.4:
                setups[o].append("solvers")
        if coarse and (prop == "C13" or r.random() < 0.7):
            if "prepare" not in setups[o]:
                setups[o].append("rhs")
            setups[o] += ["coarse", "coarse_solver"]
    # interleave the set-ups of the objects
    pending = {o: list(s) for o, s in setups.items()}
    while any(pending.values()):
        o = r.choice([o for o, s in pending.items() if s])
        add(o, pending[o].pop(0), must=True)
    W = dict(WEIGHTS[prop])
    if not coarse:
        for k in ("restrict", "prolong", "roundtrip", "twolvl", "coarse", "coarse_mat", "coarse_solver"):
            W.pop(k, None)
    if not plots:
        W.pop("plot", None)
        W.pop("plot_error", None)
    names, ws = list(W), list(W.values())
    for _ in range(n):
        o = r.choice(which)
        name = r.choices(names, ws)[0]
        add(o, name)
        if name == "new":
            for nm in ("fe", "prepare") if r.random() < 0.3 else ("fe",):
                add(o, nm, must=True)
    return ops


def generate(prop, r, tier, idx):
    return gen_case(prop, r, tier)


def shrink(case):
    def put(**kw):
        c = copy.deepcopy(case)
        c.update(kw)
        return c

    if case["kind"] == "par":
        for i, ops in enumerate(case["lanes"]):
            for sub in core.list_shrinks(ops):
                lanes = list(case["lanes"])
                lanes[i] = sub
                yield put(lanes=lanes)
        for sub in core.list_shrinks(case["sched"]["switches"]):
            yield put(sched={**case["sched"], "switches": sub})
        for i, (g, t) in enumerate(case["sched"]["switches"]):
            for g2 in {g // 2, g - 1} - {0, g}:
                if g2 > 0:
                    sw = [list(s) for s in case["sched"]["switches"]]
                    sw[i] = [g2, t]
                    yield put(sched={**case["sched"], "switches": sw})
        oplists = case["lanes"]
    else:
        for sub in core.list_shrinks(case["ops"]):
            yield put(ops=sub)
        oplists = [case["ops"]]
    for li, ops in enumerate(oplists):
        for i, op in enumerate(ops):
            for repl in op_shrinks(op):
                new = list(ops)
                new[i] = repl
                if case["kind"] == "par":
                    lanes = list(case["lanes"])
                    lanes[li] = new
                    yield put(lanes=lanes)
                else:
                    yield put(ops=new)
    for i, o in enumerate(case["objs"]):
        for n in {1, 2, o["N"] - 1}:
            if 0 < n < o["N"]:
                yield put(objs=[{**x, "N": n} if j == i else x for j, x in enumerate(case["objs"])])
    for i, m in enumerate(case["meshes"]):
        if len(case["meshes"]) == len({o["mesh"] for o in case["objs"]}) and m["n"] > 1 and case["domains"][0]["form"] == "callable":
            yield put(meshes=[{**x, "n": m["n"] - 1} if j == i else x for j, x in enumerate(case["meshes"])])
    for key, low in (("times", {"q": 1, "qs": 1}), ("times", {"q": 1, "qs": 0}), ("spaces", {"k": 1, "ks": 1}),
                     ("params", {"jumps": False, "wp": False}), ("params", {"jumps": True, "wp": False}),
                     ("params", {"jumps": False, "wp": True})):
        for i, v in enumerate(case[key]):
            if v != low and sum(v.values()) > sum(low.values()):
                yield put(**{key: [low if j == i else x for j, x in enumerate(case[key])]})


def op_shrinks(op):
    fs = op.get("faults", [])
    for sub in core.list_shrinks(fs):
        o = {k: v for k, v in op.items() if k != "faults"}
        if sub:
            o["faults"] = sub
        yield o
    for i, f in enumerate(fs):
        if f["at"] > 0:
            for at in {0, f["at"] // 2}:
                yield {**op, "faults": [{**g, "at": at} if j == i else g for j, g in enumerate(fs)]}
    if op.get("garbage", "zero") != "zero":
        yield {**op, "garbage": "zero"}
    if op.get("via", "method") != "method":
        yield {**op, "via": "method"}
    if op.get("x", "rand") not in ("rand",) and op["op"] in ("apply", "march", "march2"):
        yield {**op, "x": "rand"}
    if "zero_from" in op:
        yield {k: v for k, v in op.items() if k != "zero_from"}


# ------------------------------------------------------------- description

_REAL = ["src/dxss/space_time.py", "src/dxss/precomp_time_int.py (time matrices computed once per process and copied)",
         "UFL 2023.2", "PETSc 3.19 / petsc4py vectors, matrices and python-type wrappers", "sympy", "numpy, scipy"]
_STUBS = ["DOLFINx: meshes, spaces, functions, form evaluation, XDMF (simenv/dolfinx)", "dxh (simenv/dxh.py)",
          "slab solvers: exact sparse LU of the reference slab systems that can fail on command",
          "coarse solver: a fixed well-conditioned linear map that can fail on command",
          "matplotlib.pyplot drawing functions record their arrays"]


def info(prop):
    rule = {
        "C14": "a run counts when threads switched at least twice inside dxss calls, or (sequential histories) at least three calls completed",
    }.get(prop, "a run counts when at least three calls of its history completed; runs are distinct by case and event trace")
    kinds = {
        "C07": ["Mat.mult: MemoryError", "solver.slab: RuntimeError"], "C08": ["solver.slab: RuntimeError", "solver.first: RuntimeError",
                                                                              "solver.slab: silently wrong values"],
        "C09": ["fem.form: MemoryError", "fem.assemble_matrix: MemoryError", "Mat.createVecs: MemoryError"],
        "C10": ["fem.interpolate: RuntimeError", "fem.Function: MemoryError"],
        "C12": ["fem.assemble_scalar: RuntimeError", "comm.allreduce: RuntimeError"],
        "C13": ["solver.coarse: RuntimeError", "fem.interpolate: RuntimeError"],
        "C14": ["thread switches between statements"],
        "C17": ["xdmf.open: OSError", "xdmf.write_function: OSError", "xdmf.close: OSError", "xdmf.write_mesh: OSError"],
    }[prop]
    return {
        "rule": rule, "time_unit": "crossings of simulated seams (plus statements in threaded runs)", "fault_kinds": kinds,
        "distinct": "distinct event traces (operation, outcome, faults fired, seams crossed) and, for threads, distinct switch sequences",
        "real": _REAL, "stubs": _STUBS,
        "assumptions": [
            "the stand-in evaluates UFL forms exactly as DOLFINx does on affine meshes, up to round-off and numbering",
            "one process; meshes have at most a few dozen cells, N <= 6 slabs, orders in time <= 3, in space <= 3",
            "exact solutions are polynomials of degree <= 2 in time and space, so every quadrature in the code is exact",
            "allocation and I/O failures surface as exceptions from the call that meets them",
        ],
    }
