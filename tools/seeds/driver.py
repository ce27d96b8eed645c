HEAD = '''
import sys, os, types, runpy, contextlib, io, warnings
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.chdir(__import__("tempfile").mkdtemp())
import numpy as np
import scipy.sparse as sp, scipy.sparse.linalg as spla
from mpi4py import MPI
from petsc4py import PETSc
from dolfinx import mesh
import dxss.space_time as st
import dxss.meshes as meshes

# small problems
mesh.scaled = {"interval": 4, "box": (2, 1, 1)}
meshes.get_mesh_data_all_around = lambda *a, **k: [mesh.create_unit_square(MPI.COMM_WORLD, 2, 2) for _ in range(6)]
init, errors = st.SpaceTime.__init__, st.SpaceTime.measured_errors


def small(self, ot, osp, N, T, **k):
    init(self, st.OrderTime(1, 0), st.OrderSpace(1, 1), N=2, T=T, **k)


got = []


def observe(self, u):
    got.append((self, u.array.copy()))


st.SpaceTime.__init__, st.SpaceTime.measured_errors = small, observe
st.SpaceTime.plot_error = st.SpaceTime.plot_para_view = lambda *a, **k: None


class PyPardisoSolver:
    fail = 0  # the n-th factorisation fails

    def __init__(self):
        self.lu = None

    def _check_A(self, A):
        A.sort_indices()

    def _check_b(self, A, b):
        return np.asarray(b)

    def set_phase(self, p):
        self.phase = p

    def factorize(self, A):
        PyPardisoSolver.fail -= 1
        if PyPardisoSolver.fail == 0:
            raise MemoryError("injected")
        self.lu = spla.splu(A.tocsc())

    def _call_pardiso(self, A, b):
        if self.lu is None:
            raise RuntimeError("no factorisation")
        return self.lu.solve(np.asarray(b))


def pardiso(on):
    sys.modules["pypardiso"] = None
    if on:
        m = types.ModuleType("pypardiso")
        m.PyPardisoSolver = PyPardisoSolver
        sys.modules["pypardiso"] = m


def load(name, on):
    import importlib
    pardiso(on)
    sys.modules.pop("dxss." + name, None)
    with contextlib.redirect_stdout(io.StringIO()):
        return importlib.import_module("dxss." + name)


def run(m):
    with contextlib.redirect_stdout(io.StringIO()):
        m.solve_problem(measure_errors=True)


def good():
    """The last solution handed over solves the discrete system."""
    S, x = got[-1]
    A = st.get_sparse_matrix(S.get_spacetime_matrix())
    b = S.get_spacetime_rhs().array
    return np.linalg.norm(A @ x - b) <= 1e-6 * (abs(A) @ abs(x)).max()
'''


def d(sid, needs, breaks, edits, demo):
    seed("drv-" + sid, "C11", needs, breaks, edits, HEAD + demo, simenv=True)


def drv(n):
    return f"src/dxss/solve_{n}.py"


d("shared-pardiso", "PyPardiso installed, 1D program",
  "one PyPardiso object is reused for the first slab, so the general slab is solved with the first slab's factorisation",
  [(drv("1d"), """        initial_slab_solver = pypardiso.PyPardisoSolver()
        slab_matrix_first""", """        initial_slab_solver = genreal_slab_solver
        slab_matrix_first""")], '''
m = load("solve_1d", True)
run(m)
sys.exit(0 if good() else 1)
''')

d("no-none", "PyPardiso missing, a solver is wrapped by hand",
  "wrapping a PyPardiso solver without PyPardiso crashes instead of warning",
  [(drv("2d"), """    pypardiso = None
    SOLVER_TYPE""", """    SOLVER_TYPE""")], '''
m = load("solve_2d", False)
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    try:
        m.PySolver(None, None)
    except NameError:
        sys.exit(1)
sys.exit(0 if w else 1)
''')

d("kept-solvers", "a factorisation that fails and the next run in the same process, 3D program with PyPardiso",
  "solver objects are kept for later runs before they are factorised, so the run after a failed factorisation fails too",
  [(drv("3d"), """        genreal_slab_solver = pypardiso.PyPardisoSolver()
        slab_matrix_sparse = get_sparse_matrix(ST.get_slab_matrix())

        genreal_slab_solver.factorize(slab_matrix_sparse)
""", """        slab_matrix_sparse = get_sparse_matrix(ST.get_slab_matrix())
        if "general" in _pardiso:
            genreal_slab_solver = _pardiso["general"]
        else:
            genreal_slab_solver = pypardiso.PyPardisoSolver()
            _pardiso["general"] = genreal_slab_solver
            genreal_slab_solver.factorize(slab_matrix_sparse)
"""), (drv("3d"), """# Prepare the solvers for problems on the slabs
""", """# Prepare the solvers for problems on the slabs
_pardiso = {}
""")], '''
m = load("solve_3d", True)
run(m)
ok = good()
m = load("solve_3d", True)
PyPardisoSolver.fail = 1
try:
    run(m)
    sys.exit(1)
except MemoryError:
    pass
try:
    run(m)
except RuntimeError:
    sys.exit(1)
sys.exit(0 if ok and good() else 1)
''')

d("one-ksp-per-mesh", "PETSc LU backend, 3D program",
  "LU solvers are shared per mesh, so setting up the first slab replaces the general slab's matrix",
  [(drv("3d"), """    solver = PETSc.KSP().create(msh.comm)
    solver.setOperators(mat)
""", """    solver = _lu.setdefault(id(msh), PETSc.KSP())
    if not solver:
        solver.create(msh.comm)
    solver.setOperators(mat)
"""), (drv("3d"), "GCC = False\n", "GCC = False\n_lu = {}\n")], '''
m = load("solve_3d", False)
run(m)
sys.exit(0 if good() else 1)
''')

d("direct-of-preconditioner", "direct solve of the whole system selected (2D program)",
  "the direct solve uses the matrix with one-sided jump terms",
  [(drv("2d"), "A_space_time = ST.get_spacetime_matrix()  #", "A_space_time = ST.get_spacetime_matrix(precond=True)  #")], '''
m = load("solve_2d", False)
m.SOLVER_TYPE = "direct"
run(m)
sys.exit(0 if good() else 1)
''')

d("printed-failure", "a backend that fails during the solve (3D program, PETSc LU)",
  "a failed GMRES solve is printed and the program goes on with zero",
  [(drv("3d"), """        )  # first slab is special
        u_sol, _ = get_gmres_solution(
            A=SpaceTimePETScMatrixWrapper(ST),
            b=b_rhs,
            pre=SpaceTimePETScPreconditionerWrapper(ST),
            maxsteps=100000,
            tol=1e-7,
            printrates=True,
        )
""", """        )  # first slab is special
        try:
            u_sol, _ = get_gmres_solution(
                A=SpaceTimePETScMatrixWrapper(ST),
                b=b_rhs,
                pre=SpaceTimePETScPreconditionerWrapper(ST),
                maxsteps=100000,
                tol=1e-7,
                printrates=True,
            )
        except (RuntimeError, PETSc.Error) as err:
            print("GMRes failed:", err)
            u_sol = b_rhs.duplicate()
""")], '''
m = load("solve_3d", False)
real = m.get_lu_solver


class Failing:
    def solve(self, b, x):
        raise RuntimeError("injected")


m.get_lu_solver = lambda *a: Failing()
try:
    run(m)
    sys.exit(1)
except (RuntimeError, PETSc.Error):
    pass
m.get_lu_solver = real
run(m)
sys.exit(0 if good() else 1)
''')

d("zero-rhs", "a solve with right-hand side zero into a vector that holds something",
  "PySolver.solve returns early for a zero right-hand side without setting the solution",
  [(drv("1d"), """        self.solver.set_phase(33)
""", """        if not b.any():
            return
        self.solver.set_phase(33)
""")], '''
m = load("solve_1d", True)
A = sp.csr_matrix(np.array([[2.0, 1.0], [0.0, 3.0]]))
s = PyPardisoSolver()
s.factorize(A)
b, x = PETSc.Vec().createSeq(2), PETSc.Vec().createSeq(2)
b.set(0)
x.set(5)
m.PySolver(A, s).solve(b, x)
run(m)
sys.exit(0 if not x.array.any() and good() else 1)
''')

d("solvers-once", "a failure between setting up the two slab solvers, then another run (1D program, PETSc LU)",
  "the slab solvers are set up only if the general one is missing, so after a failure between the two the first slab never gets one",
  [(drv("1d"), """        ST.set_solver_slab(get_lu_solver(ST.msh, ST.get_slab_matrix()))  # general slab
        ST.set_solver_first_slab(
            get_lu_solver(ST.msh, ST.get_slab_matrix_first_slab()),
        )  # first slab is special
""", """        if ST.solver_slab is None:
            ST.set_solver_slab(
                get_lu_solver(ST.msh, ST.get_slab_matrix()),
            )  # general slab
            ST.set_solver_first_slab(
                get_lu_solver(ST.msh, ST.get_slab_matrix_first_slab()),
            )  # first slab is special
""")], '''
m = load("solve_1d", False)
real = m.get_lu_solver
calls = []


def second_fails(*a):
    calls.append(1)
    if len(calls) == 2:
        raise MemoryError("injected")
    return real(*a)


m.get_lu_solver = second_fails
try:
    run(m)
    sys.exit(1)
except MemoryError:
    pass
try:
    run(m)
except Exception as e:
    print(e)
    sys.exit(1)
sys.exit(0 if good() else 1)
''')

d("loose-2d", "2D program, PETSc LU backend, a problem that takes several iterations",
  "the 2D program stops GMRES at a tolerance of 1e-2 with the LU backend only",
  [(drv("2d"), """            maxsteps=100000,
            tol=1e-7,
            printrates=True,
        )
    else:
""", """            maxsteps=100000,
            tol=1e-2,
            printrates=True,
        )
    else:
""")], '''
m = load("solve_2d", False)
run(m)
S, x = got[-1]
b = S.get_spacetime_rhs()
r = b.duplicate()
y = PETSc.Vec().createSeq(len(x))
y.array[:] = x
S.apply_spacetime_matrix(y, r)
r.aypx(-1, b)
p = r.duplicate()
S.pre_time_marching_improved(r, p)
sys.exit(0 if p.norm() <= 1e-5 else 1)
''')
