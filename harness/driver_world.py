"""World for C11: the real driver programs, dxss.space_time and dxss.gmres on real PETSc and a stand-in for DOLFINx.

A case is a history of program runs in one process: as a program, as an import followed by solve_problem, or
solve_problem again, each with a state of the PyPardiso installation and faults that strike inside the backends
or inside DOLFINx calls. The programs' problems are scaled down (mesh resolution, orders, number of slabs) where
they are handed to the mesh functions and to SpaceTime; everything else is theirs."""
from __future__ import annotations

import ast
import copy
import importlib
import importlib.abc
import importlib.machinery
import inspect
import os
import runpy
import sys
import tempfile
import types
import warnings

import numpy as np
import scipy.sparse.linalg as spla
import ufl

import core
import loader
import spacetime_ref as sr

PETSc = MPI = st = sk = fem = dmesh = meshes = forms = None
RealKSP = None
W = None  # the world of the running case
NAMES = {"1d": "dxss.solve_1d", "2d": "dxss.solve_2d", "3d": "dxss.solve_3d"}
BUGS = (AttributeError, TypeError, NameError, UnboundLocalError)


class PyPardisoError(Exception):
    pass


def make_exc(name):
    if name == "PETScError":
        return PETSc.Error(76)
    return {"RuntimeError": RuntimeError, "MemoryError": MemoryError, "OSError": OSError,
            "PyPardisoError": PyPardisoError, "KeyboardInterrupt": KeyboardInterrupt,
            "ValueError": ValueError}[name]("injected")


# ------------------------------------------------------------- PyPardiso


class PyPardisoSolver:
    """One instance holds one factorisation, as the real one does."""

    def __init__(self, mtype=11, phase=13, size_limit_storage=5e7):
        W.point("pypardiso.create", {})
        self.mtype, self.phase = mtype, phase
        self._lu = None
        self.factorized_A = None

    def _check_A(self, A):  # noqa: N802, N803
        import scipy.sparse as sp

        if A.shape[0] != A.shape[1]:
            raise ValueError("Matrix A needs to be square")
        if not (sp.isspmatrix_csr(A) or sp.isspmatrix_csc(A)):
            raise TypeError("PyPardiso requires matrix A to be in CSR or CSC format")
        if not A.has_sorted_indices:
            A.sort_indices()
        if not np.diff(A.indptr).all():
            raise ValueError("Matrix A is singular, because it contains empty row(s)")
        if A.dtype != np.float64:
            raise TypeError("PyPardiso currently only supports float64")

    def _check_b(self, A, b):  # noqa: N803
        if b.shape[0] != A.shape[0]:
            raise ValueError("Dimension mismatch")
        return np.asarray(b, dtype=np.float64)

    def set_phase(self, phase):
        self.phase = phase

    def _call_pardiso(self, A, b):  # noqa: N803
        if self.phase in (11, 12, 13):
            W.point("pypardiso.factorize", {})
            self._lu = spla.splu(A.tocsc())
            self.size = A.shape[0]
            if self.phase != 13:
                return np.zeros_like(b)
        else:
            W.point("pypardiso.solve", {})
        if self.phase == -1:
            self._lu = None
            return b
        if self._lu is None:
            raise PyPardisoError("no factorisation")
        if self.size != b.shape[0]:
            raise PyPardisoError("the factorisation is of another matrix")
        return self._lu.solve(np.asarray(b))

    def factorize(self, A):  # noqa: N803
        self._check_A(A)
        self.factorized_A = A.copy()
        self.set_phase(12)
        self._call_pardiso(A, np.zeros((A.shape[0], 1)))

    def solve(self, A, b):  # noqa: N803
        self._check_A(A)
        b = self._check_b(A, b)
        same = self.factorized_A is not None and self.factorized_A.shape == A.shape and \
            (self.factorized_A != A).nnz == 0
        self.set_phase(33 if same else 13)
        return self._call_pardiso(A, b)

    def free_memory(self, everything=False):
        self._lu = None
        self.factorized_A = None


class PardisoFinder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    state = "absent"

    def find_spec(self, name, path=None, target=None):
        if name.split(".")[0] == "pypardiso" and self.state != "absent":
            return importlib.machinery.ModuleSpec(name, self, is_package=True)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        if self.state == "ImportError":
            raise ImportError("PyPardiso: shared library mkl_rt not found")
        if self.state == "OSError":
            raise OSError("libmkl_rt.so.2: cannot open shared object file: No such file or directory")
        module.PyPardisoSolver = PyPardisoSolver
        module.ps = PyPardisoSolver

        def factorized(A):  # noqa: N803
            s = PyPardisoSolver()
            s.factorize(A)
            return lambda b: s.solve(A, b)

        def spsolve(A, b, *a, **k):  # noqa: N803
            s = PyPardisoSolver()
            return s.solve(A, b)

        module.factorized, module.spsolve = factorized, spsolve

    def set(self, state):
        self.state = state
        for n in [n for n in sys.modules if n.split(".")[0] == "pypardiso"]:
            del sys.modules[n]
        importlib.invalidate_caches()


FINDER = PardisoFinder()


# ------------------------------------------------------------- set-up


def prepare():
    global PETSc, MPI, st, sk, fem, dmesh, meshes, forms, RealKSP, _keep
    loader.install(simenv=True)
    loader.transform = transform
    import petsc4py

    petsc4py.init(["sim", "-no_signal_handler"])
    from petsc4py import PETSc as P

    PETSc = P
    from mpi4py import MPI as M

    MPI = M

    _keep = [PETSc.Vec().createSeq(1), PETSc.Vec().createMPI(1, comm=M.COMM_WORLD)]
    # petsc4py's own handler runs Python code while the callback's exception is pending, which crashes CPython 3.12
    # now and then (see DESIGN.md); the error itself is raised all the same
    PETSc.Sys.pushErrorHandler("ignore")
    import dolfinx.mesh as dm
    import simkernel
    from dolfinx import _forms as fo
    from dolfinx import fem as f

    sk, fem, dmesh, forms = simkernel, f, dm, fo
    import spacetime_world

    spacetime_world.sk = sk
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    spacetime_world.patch_pyplot(plt)
    sys.meta_path.insert(0, FINDER)
    import dxss.meshes as me
    import dxss.space_time as s

    st, meshes = s, me
    spacetime_world.st = s
    spacetime_world.warm()
    observe()


def transform(fullname, tree):
    """Set constants of a program, where it has them, to the values of the case."""
    todo = W.constants if W is not None and fullname in NAMES.values() else {}
    if fullname == "__main__":
        todo = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
            if node.targets[0].id in todo and isinstance(node.value, ast.Constant):
                node.value = ast.copy_location(ast.Constant(todo[node.targets[0].id]), node.value)
    return tree


def observe():
    """Record what the programs hand over, and scale their problems down."""
    S = st.SpaceTime
    init, errors, plot, view = S.__init__, S.measured_errors, S.plot_error, S.plot_para_view
    sig = inspect.signature(init)

    def new_init(self, *a, **k):
        if W is None:
            return init(self, *a, **k)
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        p = b.arguments
        sc = W.scale
        names = list(sig.parameters)
        if "q" in sc:
            p[names[1]] = st.OrderTime(sc["q"], sc["qs"])
            p[names[2]] = st.OrderSpace(sc["k"], sc["ks"])
        p["N"] = sc["N"]
        rec = {"N": p["N"], "T": p["T"], "msh": p["msh"], "stabs": dict(p["stabilisation_terms"]), "omega": p["omega"],
               "solution": p["solution"], "params": tuple(p["parameters"]),
               "time": (p[names[1]].q, p[names[1]].qstar), "space": (p[names[2]].k, p[names[2]].kstar),
               "again": lambda: init_again(p)}
        W.problems[id(self)] = (self, rec)
        return init(*b.args, **b.kwargs)

    def init_again(p):
        o = S.__new__(S)
        init(o, **{k: v for k, v in p.items() if k != "self"})
        return o

    def new_errors(self, u, *a, **k):
        if W is not None:
            W.saw("measured_errors", self, u)
            if not W.real_errors:
                return None
        return errors(self, u, *a, **k)

    def new_plot(self, u, n_space=2, n_time_subdiv=1, *a, **k):
        if W is not None:
            W.saw("plot_error", self, u)
            n_space, n_time_subdiv = min(n_space, 4), min(n_time_subdiv, 2)
        return plot(self, u, n_space, n_time_subdiv, *a, **k)

    def new_view(self, u, *a, **k):
        if W is not None:
            W.saw("plot_para_view", self, u)
        return view(self, u, *a, **k)

    S.__init__, S.measured_errors, S.plot_error, S.plot_para_view = new_init, new_errors, new_plot, new_view

    def few_meshes(*a, **k):
        sk.point("meshes.get_mesh_data_all_around")
        return [dmesh.create_unit_square(MPI.COMM_WORLD, *W.scale["square"]) for _ in range(6)]

    meshes.get_mesh_data_all_around = few_meshes
    global RealKSP
    RealKSP = PETSc.KSP

    class SimKSP(RealKSP):
        def _inner(self):
            return self.getType() == "preonly"

        def solve(self, b, x):
            if W is not None:
                kind = "inner" if self._inner() else "outer"
                if W.point(f"ksp.{kind}.solve", {}) == "pivot":
                    self.getPC().setFactorPivot(1e300)
                    self.getPC().getOperators()[0].assemble()
                    self.setOperators(self.getPC().getOperators()[0].copy())
            return RealKSP.solve(self, b, x)

        def setOperators(self, *a, **k):  # noqa: N802
            if W is not None:
                W.point("ksp.setOperators", {})
            return RealKSP.setOperators(self, *a, **k)

    PETSc.KSP = SimKSP


class World:
    def __init__(self, case, rec):
        self.case, self.rec = case, rec
        self.scale = case["scale"]
        self.constants = {k: v for k, v in case.get("constants", {}).items()}
        self.problems = {}
        self.refs = {}
        self.seen = []
        self.real_errors = False
        self.faults = []
        self.fired = []
        self.counts = {}
        self.mod = None
        self.direct = False

    def point(self, site, info):
        self.rec.simtime += 1
        self.counts[site] = n = self.counts.get(site, 0) + 1
        for f in self.faults:
            if f.get("fired") or f["site"] != site or f["at"] != n - 1:
                continue
            f["fired"] = True
            self.fired.append(site)
            self.rec.fault(f"{site}: {f['exc']}")
            self.rec.event("fault", site, f["exc"])
            if f["exc"] == "zero pivot":
                return "pivot"
            raise make_exc(f["exc"])
        return None

    def saw(self, where, S, u):
        self.seen.append((where, S, np.array(u.array, copy=True)))


# ------------------------------------------------------------- reference


def cell_values(domain, mesh):
    """The data domain the program asked for, cell by cell (None if it is not made of cells)."""
    f = domain.indicator_function
    if callable(f) and not isinstance(f, ufl.core.expr.Expr):
        mid = np.zeros((3, len(mesh.cells)))
        mid[: mesh.geometry.dim] = mesh.points[mesh.cells].mean(axis=1).T
        return np.asarray(f(mid), dtype=float)
    d = mesh.topology.dim
    X = np.random.RandomState(3).dirichlet(np.ones(d + 1), 24)[:, :d] if mesh.cell_name in (
        "interval", "triangle", "tetrahedron") else np.random.RandomState(3).random_sample((24, d))
    v = forms.expression(f, mesh, X)
    return v[:, 0] if (v == v[:, :1]).all() else None


def reference(w, S):
    o, p = w.problems[id(S)]
    if id(S) in w.refs:
        return w.refs[id(S)]
    mask = cell_values(p["omega"], p["msh"])
    if mask is None:
        w.refs[id(S)] = None
        return None
    ref = sr.Ref(sr.Space(p["msh"], *p["space"], mask), *p["time"], p["N"], p["T"],
                 {k: p["stabs"][k] for k in ("data", "dual", "primal", "primal-jump")}, *map(bool, p["params"]))
    hook, sk.hook = sk.hook, None
    try:
        clean = p["again"]()
        clean.setup_spacetime_finite_elements()
        clean.prepare_precondition_gmres()
        b = clean.get_spacetime_rhs().array.copy()
    finally:
        sk.hook = hook
    perm = np.concatenate(clean.fes.dofs)
    fac = {}

    def lu(A):
        if id(A) not in fac:
            fac[id(A)] = (A, spla.splu(A.tocsc()))
        return fac[id(A)][1].solve

    A, slab, first = ref.full(False), ref.slab(True), ref.first()[0]
    out = (A, b[perm], perm, lambda r: ref.march(r, lu(first), lu(slab)))
    w.refs[id(S)] = out
    return out


def check_solution(w, what):
    rec = w.rec
    if not w.seen:
        rec.probe("no solution was handed over")
        return
    for where, S, x in w.seen:
        r = reference(w, S)
        if r is None:
            rec.probe("data domain not made of cells: result not compared")
            continue
        A, b, perm, pre = r
        if x.size != b.size:
            rec.violate("C11", "wrong-solution", f"{what}: {where} got a vector of {x.size} entries, the system has {b.size}")
            return
        res = b - A @ x[perm]
        size, goal = np.linalg.norm(pre(res)), np.linalg.norm(pre(b))
        noise = np.linalg.norm(pre(1e-15 * (np.abs(A) @ np.abs(x[perm]) + np.abs(b))))
        tol = 10 * max(1e-7, 1e-7 * goal) + 1e3 * noise
        if w.debug is not None:
            w.debug.append((size / tol, size, goal, noise))
        rec.checks += 1
        if not size <= tol:
            rec.violate("C11", "wrong-solution",
                        f"{what}: the vector given to {where} leaves a preconditioned residual of {size:.2e} "
                        f"(right-hand side {goal:.2e}, tolerance {tol:.1e})")
            return


# ------------------------------------------------------------- operations


def run_op(w, op):
    rec = w.rec
    name = NAMES[w.case["drv"]]
    w.faults = [dict(f) for f in op.get("faults", [])]
    w.fired, w.counts, w.seen = [], {}, []
    w.real_errors = bool(op.get("real_errors"))
    kind = op["op"]
    if kind == "pysolver":
        return op_pysolver(w, op, name)
    if kind == "solve" and w.mod is None:
        kind = "import"
    if kind != "solve":
        FINDER.set(op["pypardiso"])
        sys.modules.pop(name, None)
        w.mod = None
    status = "ok"
    try:
        if kind == "main":
            runpy.run_module(name, run_name="__main__", alter_sys=False)
        else:
            if kind == "import":
                w.mod = importlib.import_module(name)
                w.state = op["pypardiso"]
                if op.get("direct") and hasattr(w.mod, "SOLVER_TYPE"):
                    w.mod.SOLVER_TYPE = "direct"
                    w.state = "direct"
            if not op.get("measure", True):
                w.mod.solve_problem()
            else:
                w.mod.solve_problem(measure_errors=True)
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, (sk.SimUnsupported, core.SimUnsupported, core.HarnessError)):
            raise
        status = "raised " + type(e).__name__
        text = f"{type(e).__name__}: {e}"
        e.__traceback__ = None
        del e
    fired = list(w.fired)
    w.faults = []
    state = w.state if kind == "solve" else op["pypardiso"]
    rec.event(kind, state, status, len(fired), sorted(w.counts.items()))
    backend = "direct" if state == "direct" else "pypardiso" if w.counts.get("pypardiso.solve") else \
        "petsc-LU" if w.counts.get("ksp.inner.solve") else "none"
    rec.probe(f"{w.case['drv']} with {backend}: {status.split()[0]}")
    what = f"{w.case['drv']} {kind} (PyPardiso {state})"
    if fired:
        rec.check("C11", "failure-swallowed", status != "ok",
                  lambda: f"{what}: {', '.join(fired)} failed but the run ended normally")
        return status
    if not rec.check("C11", "run-failed", status == "ok",
                     lambda: f"{what}: {text} (no fault was injected in this run)"):
        return status
    check_solution(w, what)
    return status


def op_pysolver(w, op, name):
    """Wrap a PyPardiso solver by hand, as a user of the driver modules would."""
    rec = w.rec
    if w.mod is None:
        FINDER.set(op["pypardiso"])
        sys.modules.pop(name, None)
        w.mod = importlib.import_module(name)
        w.state = op["pypardiso"]
    if not hasattr(w.mod, "PySolver"):
        rec.probe("no PySolver")
        return "skipped"
    import scipy.sparse as sp

    rng = np.random.RandomState(op["seed"])
    n = op["n"]
    A = sp.csr_matrix(sp.random(n, n, 0.4, random_state=rng) + n * sp.eye(n))
    fake = PyPardisoSolver()
    fake.factorize(A)
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter("always")
        try:
            s = w.mod.PySolver(A, fake)
        except BaseException as e:  # noqa: BLE001
            rec.violate("C11", "wrapping-failed", f"PySolver without PyPardiso: {type(e).__name__}: {e}")
            return "raised"
    have = w.state in ("ok",) or (w.state == "direct" and FINDER.state == "ok")
    rec.event("pysolver", have, len(got))
    if not have:
        rec.check("C11", "no-warning", len(got) >= 1, "PySolver was wrapped without PyPardiso and gave no warning")
    b, x = PETSc.Vec().createSeq(n), PETSc.Vec().createSeq(n)
    b.array[:] = 0 if op.get("zero") else rng.standard_normal(n)
    keep = b.array.copy()
    x.array[:] = np.nan if op.get("garbage") else 0
    try:
        s.solve(b, x)
    except BaseException as e:  # noqa: BLE001
        rec.violate("C11", "wrapping-failed", f"PySolver.solve: {type(e).__name__}: {e}")
        return "raised"
    rec.check("C11", "wrapped-solver-wrong",
              np.abs(A @ x.array - keep).max() < 1e-9 and np.array_equal(b.array, keep),
              "PySolver.solve did not solve the system or changed its right-hand side")
    b.destroy()
    x.destroy()
    return "ok"


def execute(prop, case, rec, debug=None):
    global W
    d = tempfile.mkdtemp(prefix="simdrv.", dir=os.environ.get("TMPDIR", "/tmp"))
    os.chdir(d)
    try:
        np.seterr(all="ignore")
        sk.numbering = case["numbering"]
        sk.version = "0.7.2"
        dmesh.scaled = {"interval": case["scale"].get("interval", 4), "box": case["scale"].get("box", (2, 1, 1))}
        w = W = World(case, rec)
        w.debug = debug
        w.state = "absent"
        sk.hook = w.point
        done = 0
        for op in case["ops"]:
            done += run_op(w, op) == "ok"
        rec.nontrivial = done >= 1
    finally:
        W = None
        sk.hook = None
        dmesh.scaled = None
        os.chdir("/")
        import shutil

        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------- generation

SITES = {
    "pardiso": [("pypardiso.create", [0, 1]), ("pypardiso.factorize", [0, 1]), ("pypardiso.solve", [0, 1, 2, 3, 5, 9])],
    "lu": [("ksp.setOperators", [0, 1, 2]), ("ksp.inner.solve", [0, 1, 2, 3, 5, 9]), ("ksp.outer.solve", [0])],
    "direct": [("ksp.inner.solve", [0]), ("ksp.setOperators", [0])],
    "any": [("fem.form", [0, 1, 2, 3]), ("fem.assemble_matrix", [0, 1, 2, 3]), ("Mat.createVecs", [0, 1, 2]),
            ("fem.create_vector", [0, 1]), ("fem.assemble_vector", [0, 1, 2, 4]), ("mesh.create", [0]),
            ("fem.FunctionSpace", [0, 2, 5]), ("fem.interpolate", [0, 1]), ("Mat.mult", [0, 1, 4])],
}


def gen_fault(r, op):
    kind = r.choices(["own", "any"], [3, 1])[0]
    if kind == "own":
        kind = "direct" if op.get("direct") else "pardiso" if op["pypardiso"] == "ok" else "lu"
    site, ats = r.choice(SITES[kind])
    exc = r.choice(["RuntimeError", "MemoryError", "KeyboardInterrupt", "OSError"])
    if site.startswith("pypardiso"):
        exc = r.choice([exc, "PyPardisoError", "PyPardisoError"])
    if site.startswith("ksp"):
        exc = r.choice([exc, "PETScError", "PETScError"])
        if site == "ksp.inner.solve" and r.random() < 0.4:
            exc = "zero pivot"
    return {"site": site, "at": r.choice(ats), "exc": exc}


def generate(prop, r, tier, idx):
    big = tier == "thorough"
    drv = r.choices(["1d", "2d", "3d"], [40, 30, 30])[0]
    sc = {"N": r.choice([1, 2, 2, 3] + ([4, 5] if big else []))}
    consts = {}
    if drv == "1d":
        sc["interval"] = r.choice([2, 3, 5, 10])
        if r.random() < 0.8:
            q = r.choice([1, 1, 2])
            sc.update(q=q, qs=r.choice([q, q - 1, 0]), k=r.choice([1, 2]), ks=1)
    elif drv == "2d":
        sc["square"] = r.choice([[2, 1], [2, 2], [3, 2], [5, 1]])
        sc["N"] = min(sc["N"], 2)
        k = r.choice([1, 1, 2])
        sc.update(q=1, qs=r.choice([0, 1]), k=k, ks=r.choice([1, k]))
    else:
        sc["N"] = min(sc["N"], 2)
        sc.update(q=1, qs=r.choice([0, 1]), k=1, ks=1)
        sc["box"] = r.choice([[2, 1, 1], [4, 1, 1], [2, 2, 1]])
        if r.random() < 0.3:
            consts["REF_LVL"] = 0
            sc["box"] = [4, 1, 1]
        elif r.random() < 0.3:
            consts["GCC"] = True
    ops = []
    pf = r.choice([0.0, 0.3, 0.5, 0.7])
    if r.random() < 0.25:  # a failure of the backend, then the same program module solves again
        op = {"op": "import", "pypardiso": r.choice(["ok", "ok", "absent"])}
        if r.random() < 0.2:
            op["direct"] = True
        ops = [{**op, "faults": [gen_fault(r, op)]}, {**op, "op": "solve"}]
        return {"drv": drv, "scale": sc, "constants": consts, "numbering": r.randrange(1, 10**6), "ops": ops}
    for i in range(r.choice([1, 2, 3, 4]) + (1 if big else 0)):
        kind = r.choices(["main", "import", "solve", "pysolver"], [3, 4, 3 if i else 0, 1])[0]
        op = {"op": kind, "pypardiso": r.choices(["ok", "absent", "ImportError", "OSError"], [45, 25, 15, 15])[0]}
        if kind == "pysolver":
            op.update(seed=r.randrange(10**6), n=r.choice([1, 2, 5, 12]), garbage=r.random() < 0.5, zero=r.random() < 0.25)
            ops.append(op)
            continue
        if kind == "import" and r.random() < 0.35:
            op["direct"] = True
        if kind != "main" and r.random() < 0.1:
            op["measure"] = False
        if r.random() < 0.2:
            op["real_errors"] = True
        if r.random() < pf:
            bad = copy.deepcopy(op)
            bad["faults"] = [gen_fault(r, op) for _ in range(r.choice([1, 1, 2]))]
            ops.append(bad)
            if r.random() < 0.8:
                again = copy.deepcopy(op)
                if kind == "import" and r.random() < 0.6:
                    again["op"] = "solve"
                ops.append(again)
        else:
            ops.append(op)
    return {"drv": drv, "scale": sc, "constants": consts, "numbering": r.randrange(1, 10**6), "ops": ops}


def shrink(case):
    def put(**kw):
        c = copy.deepcopy(case)
        c.update(kw)
        return c

    for sub in core.list_shrinks(case["ops"]):
        yield put(ops=sub)
    for i, op in enumerate(case["ops"]):
        new = []
        if op.get("faults"):
            new += [{**op, "faults": f} for f in core.list_shrinks(op["faults"])]
            new += [{**op, "faults": [{**f, "at": 0} for f in op["faults"]]}] if any(f["at"] for f in op["faults"]) else []
        for key in ("real_errors", "direct", "garbage"):
            if op.get(key):
                new.append({k: v for k, v in op.items() if k != key})
        for n in new:
            yield put(ops=[n if j == i else x for j, x in enumerate(case["ops"])])
    sc = case["scale"]
    if sc["N"] > 1:
        yield put(scale={**sc, "N": sc["N"] - 1})
    if sc.get("interval", 2) > 2:
        yield put(scale={**sc, "interval": 2})
    if sc.get("k", 1) > 1:
        yield put(scale={**sc, "k": 1, "ks": 1})
    if case.get("constants"):
        yield put(constants={})


def info(prop):
    return {
        "rule": "a run counts when at least one program run of its history ended normally and its result was compared; "
                "runs are distinct by case and event trace",
        "time_unit": "crossings of simulated seams (DOLFINx, PyPardiso, KSP calls)",
        "fault_kinds": ["pypardiso.create: PyPardisoError", "pypardiso.factorize: PyPardisoError",
                        "pypardiso.solve: PyPardisoError", "ksp.inner.solve: PETScError", "ksp.inner.solve: zero pivot",
                        "ksp.outer.solve: PETScError", "ksp.setOperators: MemoryError", "fem.form: MemoryError"],
        "distinct": "distinct event traces (program, installation state, outcome, faults fired, calls per seam)",
        "real": ["src/dxss/solve_1d.py", "src/dxss/solve_2d.py", "src/dxss/solve_3d.py", "src/dxss/space_time.py",
                 "src/dxss/gmres.py", "src/dxss/precomp_time_int.py", "PETSc 3.19 KSP, LU and petsc4py", "UFL"],
        "stubs": ["DOLFINx and dxh (simenv: exact assembly of UFL forms on small meshes)",
                  "PyPardiso (one factorisation per instance, as the real one, through SuperLU)",
                  "get_mesh_data_all_around of the 2D program (small unit square; C15 checks the builder)",
                  "pyplot (records)"],
        "assumptions": [
            "the programs' problems are scaled down: at most 5 slabs, a few dozen cells, orders <= 2",
            "the right-hand side is that of a fresh SpaceTime object with the program's own arguments (C09 checks it)",
            "one process",
        ],
    }
