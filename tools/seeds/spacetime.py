HEAD = '''
import sys, os
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
os.chdir(os.environ.get("DEMO_TMP") or __import__("tempfile").mkdtemp())
import contextlib, io as _io
import numpy as np, ufl
from mpi4py import MPI
from petsc4py import PETSc
import simkernel as sk
from dolfinx import fem, mesh
import dxss.space_time as st
import scipy.sparse as sp, scipy.sparse.linalg as spla

STAB = {"data": 3.0, "dual": 2.0, "primal": 0.5, "primal-jump": 10.0}


class Fault(Exception):
    pass


class fault:
    """Raise at the n-th use of a site."""

    def __init__(self, site, n=1, exc=Fault):
        self.site, self.n, self.exc = site, n, exc

    def __enter__(self):
        self.count = 0

        def hook(site, info):
            if site == self.site:
                self.count += 1
                if self.count == self.n:
                    raise self.exc("injected")
        sk.hook = hook

    def __exit__(self, *a):
        sk.hook = None


class Exact:
    def __init__(self, c=1.0):
        self.c = c

    def v(self, t, x):
        return self.c * (1 + t * t) * (1 + x[0])

    def dvdt(self, t, x):
        return self.c * 2 * t * (1 + x[0])


def make(m=None, q=1, qs=1, k=1, ks=1, N=2, T=1.0, sol=None, par=None, stab=None, dom=None, setup=True):
    m = m or mesh.create_unit_interval(MPI.COMM_WORLD, 4)
    s = sol or Exact()
    dom = dom or st.DataDomain(lambda x: np.where(x[0] <= 0.5, 1.0, 0.0), fitted=True)
    S = st.SpaceTime(st.OrderTime(q, qs), st.OrderSpace(k, ks), N=N, T=T, t=0, msh=m,
                     stabilisation_terms=stab if stab is not None else dict(STAB), omega=dom,
                     solution=s, parameters=par or st.ProblemParameters())
    if setup:
        S.setup_spacetime_finite_elements()
    return S


class LU:
    def __init__(self, A, fail_at=0):
        self.lu, self.n, self.fail_at = spla.splu(st.get_sparse_matrix(A).tocsc()), 0, fail_at

    def solve(self, b, x):
        self.n += 1
        if self.n == self.fail_at:
            raise RuntimeError("solver failed")
        x.array[:] = self.lu.solve(b.array.copy())


def ready(S, **kw):
    S.prepare_precondition_gmres()
    S.set_solver_slab(LU(S.get_slab_matrix(), **kw))
    S.set_solver_first_slab(LU(S.get_slab_matrix_first_slab()))
    return S


def size(S):
    return S.get_spacetime_rhs().getSize()


def vec(a):
    v = PETSc.Vec().createSeq(len(a))
    v.array[:] = a
    return v


def rnd(n, seed=0):
    return np.random.RandomState(seed).standard_normal(n)


def call(f, a, out=0.0):
    x, y = vec(a), vec(np.full(len(a), out))
    f(x, y)
    return y.array.copy()


def same(a, b, tol=1e-9):
    return bool(np.all(np.abs(a - b) <= tol * np.abs(b).max()))


def fails(f):
    try:
        f()
    except Exception:
        return True
    return False


def blocks(S, n):
    """indices of the unknowns of slab n"""
    out = []
    for j in range(4):
        d = S.subspace_time_order[j] + 1
        for e in range(d):
            out.append(S.dofmaps_full[j][n * d + e])
    return np.concatenate([np.asarray(o) for o in out])


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(_io.StringIO()):
        return f(*a, **k)

'''
S = "src/dxss/space_time.py"


def s(sid, prop, needs, breaks, edits, demo):
    seed("st-" + sid, prop, needs, breaks, [(S, *e) for e in edits], HEAD + demo, simenv=True)


# ------------------------------------------------------------------ C07
s("output-garbage", "C07", "an output vector that holds NaN or infinity",
  "the output vector is cleared by multiplication with zero, so NaN left in it survives",
  [("        vec_out.array[:] = 0.0\n\n        int_idx_q = 0", "        vec_out.array[:] *= 0.0\n\n        int_idx_q = 0")],
  '''
S = make(); quiet(S.prepare_precondition_gmres)
x = rnd(size(S))
a, b = call(S.apply_spacetime_matrix, x), call(S.apply_spacetime_matrix, x, np.nan)
sys.exit(0 if same(b, a) else 1)
''')

s("coupling-index", "C07", "different time orders for primal and dual variables and at least three slabs",
  "the slab coupling reads its unknowns at an offset advanced by the dual order",
  [("""                        vec_out.array[
                            self.dofmaps_full[j][coupling_idx_q + i]
                        ] += self.vec_coupling2.array[self.dofmaps_coupling[j][i]]

            int_idx_q += self.otime.q + 1
            coupling_idx_q += self.otime.q + 1
""", """                        vec_out.array[
                            self.dofmaps_full[j][coupling_idx_q + i]
                        ] += self.vec_coupling2.array[self.dofmaps_coupling[j][i]]

            int_idx_q += self.otime.q + 1
            coupling_idx_q += self.subspace_time_order[2 if n else 0] + 1
""")], '''
S = make(q=2, qs=1, N=3); quiet(S.prepare_precondition_gmres)
x = rnd(size(S))
A = st.get_sparse_matrix(quiet(S.get_spacetime_matrix))
sys.exit(0 if same(call(S.apply_spacetime_matrix, x), A @ x) else 1)
''')

s("zero-trace", "C07", "an input whose displacement and velocity are continuous (not zero) across a slab boundary except for a tiny jump",
  "coupling contributions are dropped when the jump is below a relative threshold",
  [("""                self.coupling_matrix_between_slices_multiply(
                    self.vec_coupling1,
                    self.vec_coupling2,
                )
""", """                if self.vec_coupling1.norm() < 1e-6 * max(1.0, vec_in.norm()):
                    self.vec_coupling2.array[:] = 0.0
                else:
                    self.coupling_matrix_between_slices_multiply(
                        self.vec_coupling1,
                        self.vec_coupling2,
                    )
""")], '''
S = make(N=2, T=0.5); quiet(S.prepare_precondition_gmres)
n = size(S)
x = np.zeros(n)
# only the trace on the slab boundary is small but not zero: everything else is large or zero
x[S.dofmaps_full[0][1]] = 1e-7 * rnd(5)
A = st.get_sparse_matrix(quiet(S.get_spacetime_matrix))
sys.exit(0 if same(call(S.apply_spacetime_matrix, x), A @ x) else 1)
''')

# ------------------------------------------------------------------ C08
s("stale-load", "C08", "an application that fails after the first slab, then a complete one",
  "the load buffer of the improved marching is cleared only at the end of an application, so a failed one leaks into the next",
  [("""        self.b_rhs_pre.array[:] = 0.0

        for n in range(self.N):
            n * delta_t

            # copy""", """        for n in range(self.N):
            if n == 0 and self.SolverFirstSlab is None:
                self.b_rhs_pre.array[:] = 0.0

            # copy"""),
   ("""            int_idx_q += self.otime.q + 1
            coupling_idx_q += self.otime.q + 1
            int_idx_qstar += self.otime.qstar + 1
            coupling_idx_qstar += self.otime.qstar + 1

    def prepare_precondition_gmres(self):
""", """            int_idx_q += self.otime.q + 1
            coupling_idx_q += self.otime.q + 1
            int_idx_qstar += self.otime.qstar + 1
            coupling_idx_qstar += self.otime.qstar + 1

        self.b_rhs_pre.array[:] = 0.0

    def prepare_precondition_gmres(self):
""")], '''
S = ready(make(N=3))
n = size(S)
good = call(S.pre_time_marching_improved, rnd(n))
slab = S.solver_slab
S.set_solver_slab(LU(S.get_slab_matrix(), fail_at=2))
assert fails(lambda: call(S.pre_time_marching_improved, rnd(n, 5)))
S.set_solver_slab(slab)
sys.exit(0 if same(call(S.pre_time_marching_improved, rnd(n)), good) else 1)
''')

s("skip-zero-load", "C08", "a right-hand side that vanishes on the first slabs",
  "slabs with a zero load are skipped without clearing their part of the output or the running state",
  [("""            if n == 0:
                self.SolverFirstSlab.solve(self.b_rhs_pre, self.uh_pre.vector)
                self.uh_pre.x.scatter_forward()
            else:""", """            if n == 0:
                if self.b_rhs_pre.norm() > 0:
                    self.SolverFirstSlab.solve(self.b_rhs_pre, self.uh_pre.vector)
                self.uh_pre.x.scatter_forward()
            else:""")], '''
S = ready(make(N=3))
n = size(S)
b = rnd(n); b[blocks(S, 0)] = 0
call(S.pre_time_marching_improved, rnd(n, 7))
sys.exit(0 if same(call(S.pre_time_marching_improved, b), call(S.pre_time_marching, b), 1e-8) else 1)
''')

s("swallowed-solver", "C08", "a slab solver that fails with a RuntimeError on a slab after the first",
  "the plain marching scheme reports a solver failure on later slabs as a message and continues with the previous slab's values",
  [("""            else:
                self.solver_slab.solve(b_rhs_pre, self.uh_pre.vector)
                self.uh_pre.x.scatter_forward()
""", """            else:
                try:
                    self.solver_slab.solve(b_rhs_pre, self.uh_pre.vector)
                except RuntimeError as err:
                    print(f"slab {n}: {err}")
                self.uh_pre.x.scatter_forward()
""")], '''
S = ready(make(N=3), fail_at=2)
sys.exit(0 if fails(lambda: call(S.pre_time_marching, rnd(size(S)))) else 1)
''')

# ------------------------------------------------------------------ C09
s("early-cache", "C09", "assembling the load vector fails once and is repeated",
  "the load vector is stored before it is assembled, so a request after a failed one hands out zeros",
  [("""        b_rhs = fem.petsc.create_vector(linear_form)
        fem.petsc.create_vector(linear_form)
        fem.petsc.assemble_vector(b_rhs, linear_form)

        self.SpaceTimeLfi = linear_form
        self.SpaceTimeRhs = b_rhs
""", """        b_rhs = fem.petsc.create_vector(linear_form)
        self.SpaceTimeLfi = linear_form
        self.SpaceTimeRhs = b_rhs
        fem.petsc.assemble_vector(b_rhs, linear_form)
""")], '''
S = make()
with fault("fem.assemble_vector"):
    assert fails(S.get_spacetime_rhs)
want = make().get_spacetime_rhs().array
sys.exit(0 if same(S.get_spacetime_rhs().array, want) else 1)
''')

s("forgotten-jumps", "C09", "jump terms in the forward problem and the slab systems set up before the full system",
  "building the slab system without jumps switches the forward jumps off for the whole object",
  [("""        if self.jumps_in_fw_problem and with_jumps:
            a_pre -=""", """        self.jumps_in_fw_problem = self.jumps_in_fw_problem and with_jumps
        if self.jumps_in_fw_problem:
            a_pre -=""")], '''
par = st.ProblemParameters(jumps_in_fw_problem=True)
m = mesh.create_unit_interval(MPI.COMM_WORLD, 2)
A = st.get_sparse_matrix(quiet(make(m, par=par).get_spacetime_matrix)).toarray()
S = make(m, par=par)
S.get_slab_matrix()
B = st.get_sparse_matrix(quiet(S.get_spacetime_matrix)).toarray()
sys.exit(0 if same(B, A) else 1)
''')

s("dual-jump-index", "C09", "jump terms in the forward problem, different time orders and at least three slabs",
  "the dual jump term addresses the wrong dual unknown when primal and dual orders differ",
  [("""            int_idx_q += self.otime.q + 1
            coupling_idx_q += self.otime.q + 1
            int_idx_qstar += self.otime.qstar + 1
            coupling_idx_qstar += self.otime.qstar + 1

        print("Creating bfi")
""", """            int_idx_q += self.otime.q + 1
            coupling_idx_q += self.otime.q + 1
            int_idx_qstar += self.otime.qstar + 1
            coupling_idx_qstar = min(coupling_idx_q, self.N * (self.otime.qstar + 1) - 2)

        print("Creating bfi")
""")], '''
m = mesh.create_unit_interval(MPI.COMM_WORLD, 2)
par = st.ProblemParameters(jumps_in_fw_problem=True)
S = make(m, q=1, qs=0, N=3, par=par)
A = st.get_sparse_matrix(quiet(S.get_spacetime_matrix)).toarray()
# the jump of the velocity over the first slab boundary is tested with the dual of the second slab
y = np.asarray(S.dofmaps_full[2][1]); u = np.asarray(S.dofmaps_full[1][1])
M = A[np.ix_(y, u)]
sys.exit(0 if np.abs(M).max() > 1e-6 else 1)
''')

# ------------------------------------------------------------------ C10
s("borrowed-weight", "C10", "assembling the slab system without jumps fails",
  "the caller's stabilisation weights are changed while the slab system is built and only put back if that succeeds",
  [("""        gamma_primal_jump = self.stabilisation_terms["primal-jump"]

        a_pre = 1e-20 * u1_p[0] * y1_p[0] * dx
""", """        gamma_primal_jump = self.stabilisation_terms["primal-jump"]
        if not with_jumps:
            self.stabilisation_terms["primal-jump"] = 0.0

        a_pre = 1e-20 * u1_p[0] * y1_p[0] * dx
"""), ("""        A_pre = assemble_matrix(bfi_pre, bcs=[])  # noqa: N806
        A_pre.assemble()
""", """        A_pre = assemble_matrix(bfi_pre, bcs=[])  # noqa: N806
        A_pre.assemble()
        self.stabilisation_terms["primal-jump"] = gamma_primal_jump
""")], '''
w = dict(STAB)
S = make(stab=w)
with fault("fem.assemble_matrix", 2):
    assert fails(S.get_slab_matrix)
sys.exit(0 if w == STAB else 1)
''')

s("shared-data", "C10", "two solvers on the same mesh with different solution objects",
  "the data at the quadrature times are remembered per mesh and time, whatever the solution",
  [("                sol_ti = self.solution.v(time_ti, self.x)\n",
    """                sol_ti = _data_cache.setdefault(
                    (self.x, time_ti),
                    self.solution.v(time_ti, self.x),
                )
"""), ("_DEFAULT_PARAMETERS = ProblemParameters()\n", "_DEFAULT_PARAMETERS = ProblemParameters()\n_data_cache = {}\n")], '''
m = mesh.create_unit_interval(MPI.COMM_WORLD, 4)
a = make(m, sol=Exact(1.0)).get_spacetime_rhs().array.copy()
b = make(m, sol=Exact(2.0)).get_spacetime_rhs().array.copy()
sys.exit(0 if same(b, 2 * a) else 1)
''')

s("rounded-times", "C10", "slabs that are short, or data that vary fast, compared with the rounding of the times",
  "the times at which the data are taken are rounded to four decimals",
  [("                time_ti = t_n + delta_t * tau_i\n                sol_ti",
    "                time_ti = round(t_n + delta_t * tau_i, 4)\n                sol_ti")], '''
class Lin:
    def v(self, t, x):
        return t + 0 * x[0]
    dvdt = v
a = quiet(make(T=1.0, sol=Lin()).get_spacetime_rhs).array.copy()
b = quiet(make(T=1e-3, sol=Lin()).get_spacetime_rhs).array.copy()
sys.exit(0 if same(b, 1e-6 * a, 1e-6) else 1)
''')

# ------------------------------------------------------------------ C12
s("previous-node", "C12", "order 2 or higher in time and at least two slabs",
  "the end value of the previous slab is looked up one order-dependent step too early",
  [("""                    self.dofmaps_full[0][int_idx - 1]
""", """                    self.dofmaps_full[0][int_idx - max(self.otime.q, 1)]
""")], '''
def errs(q):
    S = make(q=q, qs=1, N=2)
    S.solution = type("Z", (), {"v": lambda s, t, x: (1 + t) * (1 + x[0]), "dvdt": lambda s, t, x: 1 + x[0]})()
    f = fem.Function(S.fes)
    X = S.fes_u1_0.tabulate_dof_coordinates()[:, 0]
    a = np.zeros(f.x.array.size)
    for n in range(2):
        for e in range(q + 1):
            t = 0.5 * (n + (e / q if q else 0))
            a[np.asarray(S.dofmaps_full[0][n * (q + 1) + e])] = (1 + t) * (1 + X)
    return quiet(S.measured_errors, vec(a))
sys.exit(0 if max(errs(1).values()) < 1e-6 and max(errs(2).values()) < 1e-6 else 1)
''')

s("consumed-samples", "C12", "errors measured twice with the same object and at least three slabs",
  "sample times already treated are discarded from the object, so a second measurement misses them",
  [("            for t_sample in self.sample_pts_error:\n",
    """            self.sample_pts_error = [
                t for t in self.sample_pts_error if t > t_n - delta_t or n < 1
            ]
            for t_sample in self.sample_pts_error:
""")], '''
S = make(N=4)
n = fem.Function(S.fes).x.array.size
a = np.zeros(n); a[np.asarray(S.dofmaps_full[0][1])] = 50.0
x = vec(a)
e = quiet(S.measured_errors, x)
f = quiet(S.measured_errors, x)
sys.exit(0 if all(abs(e[k] - f[k]) <= 1e-12 * abs(e[k]) for k in e) else 1)
''')

s("interrupted-samples", "C12", "a measurement that fails part way, then another one",
  "the sample times are taken out of the object while measuring and only put back at the end",
  [("        l2_error_at_samples = []\n", "        l2_error_at_samples = []\n        samples, self.sample_pts_error = self.sample_pts_error, []\n"),
   ("            for t_sample in self.sample_pts_error:\n", "            for t_sample in samples:\n"),
   ("""        err_dict["L2-L2-error-u_t"] = sqrt(total_error_l2l2_dt)
""", """        err_dict["L2-L2-error-u_t"] = sqrt(total_error_l2l2_dt)
        self.sample_pts_error = samples
""")], '''
S = make(N=2)
x = vec(rnd(fem.Function(S.fes).x.array.size))
e = quiet(S.measured_errors, x)
with fault("fem.assemble_scalar", 5):
    assert fails(lambda: quiet(S.measured_errors, x))
def again():
    f = quiet(S.measured_errors, x)
    assert all(abs(e[k] - f[k]) <= 1e-12 * abs(e[k]) for k in e)
sys.exit(1 if fails(again) else 0)
''')

# ------------------------------------------------------------------ C13
s("coarse-fallback", "C13", "a coarse solver that raises a RuntimeError",
  "a failing coarse solver is ignored and the coarse correction of the application before is used",
  [("        self.SolverCoarse.solve(self.tmp1_coarse, self.tmp2_coarse)\n",
    """        try:
            self.SolverCoarse.solve(self.tmp1_coarse, self.tmp2_coarse)
        except RuntimeError:
            print("coarse solver failed, continuing")
""")], '''
S = ready(make(mesh.create_unit_interval(MPI.COMM_WORLD, 4)))
quiet(S.prepare_coarse_grid_correction, mesh.create_unit_interval(MPI.COMM_WORLD, 2))
class Bad:
    def solve(self, b, x):
        raise RuntimeError("no")
S.set_solver_coarse(Bad())
sys.exit(0 if fails(lambda: call(S.pre_twolvl, rnd(size(S)))) else 1)
''')

s("restrict-index", "C13", "different time orders for primal and dual variables and at least two slabs",
  "restriction advances the dual component index by the primal order",
  [("            int_idx_qstar += self.otime.qstar + 1\n            int_idx_q += self.otime.q + 1\n\n    def q_op",
    "            int_idx_q += self.otime.q + 1\n            int_idx_qstar = min(int_idx_q, (self.N - 1) * (self.otime.qstar + 1))\n\n    def q_op")], '''
S = make(mesh.create_unit_interval(MPI.COMM_WORLD, 4), q=2, qs=1, N=3)
quiet(S.prepare_precondition_gmres)
quiet(S.prepare_coarse_grid_correction, mesh.create_unit_interval(MPI.COMM_WORLD, 2))
nc = S.get_spacetime_matrix_coarse().getSize()[0]
x, f, y = vec(rnd(nc)), vec(np.zeros(size(S))), vec(np.zeros(nc))
S.prolongation(x, f)
S.restriction(y, f)
sys.exit(0 if same(y.array, x.array) else 1)
''')

s("marching-variant", "C13", "jump terms in the forward problem",
  "the two-level preconditioner uses the improved marching, which does not support forward jumps",
  [("        self.pre_time_marching(self.tmp5_sol, self.tmp6_sol)\n",
    "        self.pre_time_marching_improved(self.tmp5_sol, self.tmp6_sol)\n")], '''
S = ready(make(mesh.create_unit_interval(MPI.COMM_WORLD, 4), par=st.ProblemParameters(jumps_in_fw_problem=True)))
quiet(S.prepare_coarse_grid_correction, mesh.create_unit_interval(MPI.COMM_WORLD, 2))
class Id:
    def solve(self, b, x):
        x.array[:] = b.array
S.set_solver_coarse(Id())
sys.exit(1 if fails(lambda: quiet(call, S.pre_twolvl, rnd(size(S)))) else 0)
''')

# ------------------------------------------------------------------ C14
s("shared-slab-solution", "C14", "two solvers of equal orders on one mesh whose marching is interleaved between a slab solve and the copying of its result",
  "the slab solution function is shared by all solvers on one mesh with the same orders",
  [("        self.uh_pre = fem.Function(self.fes_p)\n",
    """        self.uh_pre = _work.setdefault(
            (self.msh, self.otime.q, self.otime.qstar, self.ospace.k, self.ospace.kstar),
            fem.Function(self.fes_p),
        )
"""), ("_DEFAULT_PARAMETERS = ProblemParameters()\n", "_DEFAULT_PARAMETERS = ProblemParameters()\n_work = {}\n")], '''
m = mesh.create_unit_interval(MPI.COMM_WORLD, 4)
A, B = ready(make(m)), ready(make(m))
n = size(A)
good = call(A.pre_time_marching_improved, rnd(n))
class Nested:
    """the other solver runs right after this one's slab solve"""
    def __init__(self, s):
        self.s = s
    def solve(self, b, x):
        self.s.solve(b, x)
        call(B.pre_time_marching_improved, rnd(n, 3))
A.set_solver_slab(Nested(A.solver_slab))
sys.exit(0 if same(call(A.pre_time_marching_improved, rnd(n)), good) else 1)
''')

s("shared-matrices", "C14", "two solvers of equal time orders but different numbers of slabs",
  "the time matrices are remembered per order and scaled in place with the time step",
  [("        self.elmat_time = get_elmat_time(self.otime.q, self.otime.qstar)\n",
    """        key = (self.otime.q, self.otime.qstar)
        if key not in _elmats:
            _elmats[key] = get_elmat_time(*key)
        self.elmat_time = _elmats[key]
        if self.elmat_time.setdefault("delta_t", self.delta_t) > self.delta_t:
            self.elmat_time["M_time_q_q"] *= 1.0 + self.delta_t
            self.elmat_time["delta_t"] = self.delta_t
"""), ("_DEFAULT_PARAMETERS = ProblemParameters()\n", "_DEFAULT_PARAMETERS = ProblemParameters()\n_elmats = {}\n")], '''
A = make(N=2)
A.get_slab_matrix()
B = make(N=3)
C = make(N=2)
a, c = (st.get_sparse_matrix(x.get_slab_matrix()).toarray() for x in (A, C))
sys.exit(0 if same(c, a) else 1)
''')

s("global-step", "C14", "two solvers with different step lengths whose marching calls interleave",
  "the plain marching scheme reads the time step of the solver that most recently started marching",
  [("""    def pre_time_marching(self, b, x_sol):
        dx = self.dx
        delta_t = self.delta_t
""", """    def pre_time_marching(self, b, x_sol):
        dx = self.dx
        _current["delta_t"] = self.delta_t
"""), ("""        for n in range(self.N):
            n * delta_t

            l_pre = 1e-20""", """        for n in range(self.N):
            delta_t = _current["delta_t"]

            l_pre = 1e-20"""),
   ("_DEFAULT_PARAMETERS = ProblemParameters()\n", "_DEFAULT_PARAMETERS = ProblemParameters()\n_current = {}\n")], '''
A, B = ready(make(N=3)), ready(make(N=2))
n, nb = size(A), size(B)
good = call(A.pre_time_marching, rnd(n))
class Nested:
    def __init__(self, s):
        self.s = s
    def solve(self, b, x):
        self.s.solve(b, x)
        call(B.pre_time_marching, rnd(nb, 3))
A.set_solver_slab(Nested(A.solver_slab))
sys.exit(0 if same(call(A.pre_time_marching, rnd(n)), good) else 1)
''')

# ------------------------------------------------------------------ C17
s("unclosed-export", "C17", "writing the velocity error fails",
  "the second export file is closed only when writing succeeds",
  [("""        with io.XDMFFile(self.msh.comm, f"{name}-ut.xdmf", "w") as xdmf:
            xdmf.write_mesh(self.msh)
            xdmf.write_function(ut_diff)
""", """        xdmf = io.XDMFFile(self.msh.comm, f"{name}-ut.xdmf", "w")
        xdmf.write_mesh(self.msh)
        xdmf.write_function(ut_diff)
        xdmf.close()
""")], '''
S = make()
x = vec(rnd(fem.Function(S.fes).x.array.size))
seen = {"open": 0, "closed": 0, "n": 0}
def hook(site, info):
    if site == "xdmf.open":
        seen["open"] += 1
    if site == "xdmf.released":
        seen["closed"] += 1
    if site == "xdmf.write_function":
        seen["n"] += 1
        if seen["n"] == 2:
            raise OSError("disk full")
sk.hook = hook
assert fails(lambda: quiet(S.plot_para_view, x))
sys.exit(0 if seen["open"] == seen["closed"] else 1)
''')

s("export-kept-going", "C17", "an input/output error while writing the displacement error",
  "an input/output error in the first export file is printed and ignored",
  [("""        with io.XDMFFile(self.msh.comm, f"{name}-u.xdmf", "w") as xdmf:
            xdmf.write_mesh(self.msh)
            xdmf.write_function(u_diff)
""", """        with io.XDMFFile(self.msh.comm, f"{name}-u.xdmf", "w") as xdmf:
            xdmf.write_mesh(self.msh)
            try:
                xdmf.write_function(u_diff)
            except OSError as err:
                print(err)
""")], '''
S = make()
x = vec(rnd(fem.Function(S.fes).x.array.size))
with fault("xdmf.write_function", 1, OSError):
    sys.exit(0 if fails(lambda: quiet(S.plot_para_view, x)) else 1)
''')

s("plot-abs-early", "C17", "plotting absolute values of a vector that changes sign within a slab",
  "absolute values are taken of the nodal values before interpolating in time",
  [("""                space_val_ti[ell, :] = evaluate_function_at_points(
                    u1_slab_plot[ell],
                    eval_pts_space_3d,
                )
""", """                space_val_ti[ell, :] = trafo(
                    evaluate_function_at_points(
                        u1_slab_plot[ell],
                        eval_pts_space_3d,
                    ),
                )
""")], '''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
got = []
real = plt.pcolormesh
def rec(*a, **k):
    got.append(np.array(a[2]))
    return real(*a, **k)
plt.pcolormesh = rec
S = make(N=1)
a = np.zeros(fem.Function(S.fes).x.array.size)
a[np.asarray(S.dofmaps_full[0][0])] = -1.0
a[np.asarray(S.dofmaps_full[0][1])] = 1.0
quiet(S.plot, vec(a), n_space=3, n_time_subdiv=4, abs_val=True)
want = np.abs(-1 + 2 * np.arange(4) / 4)[:, None] * np.ones((1, 3))
sys.exit(0 if np.allclose(got[0], want) else 1)
''')

# ------------------------------------------------------------------ second batch
s("repeat-slab", "C07", "an input whose displacement and velocity are the same on two consecutive slabs, its dual variables not",
  "the product of a slab is reused when displacement and velocity equal those of the slab before; the dual variables are forgotten",
  [("        self.slab_matrix_no_dg_jumps.mult(vec_in, vec_out)\n",
    """        dofs = [d for v in self.dofmaps_pre[:2] for d in v]
        state = [vec_in.array[d].copy() for d in dofs]
        last = getattr(self, "_last_product", None)
        if last and all(np.array_equal(a, b) for a, b in zip(state, last[0])):
            vec_out.array[:] = last[1]
            return
        self.slab_matrix_no_dg_jumps.mult(vec_in, vec_out)
        self._last_product = (state, vec_out.array.copy())
""")], '''
S = ready(make(N=3))
n = size(S)
a = np.zeros(n)
z = blocks(S, 2)
duals = np.concatenate([np.asarray(S.dofmaps_full[2][4]), np.asarray(S.dofmaps_full[3][4])])
a[duals] = rnd(len(duals))
want = st.get_sparse_matrix(S.get_spacetime_matrix()) @ a
sys.exit(0 if same(call(S.apply_spacetime_matrix, a), want) else 1)
''')

s("chopped-slabs", "C08", "a right-hand side that is much larger on a later slab",
  "slabs whose load is below round-off of the whole right-hand side get a zero solution",
  [("""            else:
                self.solver_slab.solve(self.b_rhs_pre, self.uh_pre.vector)
                self.uh_pre.x.scatter_forward()
""", """            elif self.b_rhs_pre.norm() > 1e-12 * b.norm():
                self.solver_slab.solve(self.b_rhs_pre, self.uh_pre.vector)
                self.uh_pre.x.scatter_forward()
            else:
                self.uh_pre.x.array[:] = 0.0
""")], '''
S = ready(make(N=3))
n = size(S)
a = np.zeros(n)
a[blocks(S, 1)] = 1e-3 * rnd(len(blocks(S, 1)))
alone = call(S.pre_time_marching_improved, a)
a[blocks(S, 2)] = 1e12 * rnd(len(blocks(S, 2)))
both = call(S.pre_time_marching_improved, a)
sys.exit(0 if same(both[blocks(S, 1)], alone[blocks(S, 1)]) else 1)
''')

s("cleared-at-end", "C08", "an application that fails part way, then another one of the same object",
  "the slab load is cleared at the end of an application, so what a failed application left enters the next one",
  [("""        self.stabilisation_terms["primal-jump"]  # TODO: check why this is here

        self.b_rhs_pre.array[:] = 0.0

""", """        self.stabilisation_terms["primal-jump"]  # TODO: check why this is here

"""),
   ("""    def prepare_precondition_gmres(self):
""", """        self.b_rhs_pre.array[:] = 0.0

    def prepare_precondition_gmres(self):
""")], '''
S = make(N=3)
S.prepare_precondition_gmres()
S.set_solver_first_slab(LU(S.get_slab_matrix_first_slab()))
S.set_solver_slab(LU(S.get_slab_matrix(), fail_at=3))
a = rnd(size(S))
want = call(S.pre_time_marching_improved, a)
assert fails(lambda: call(S.pre_time_marching_improved, a))
sys.exit(0 if same(call(S.pre_time_marching_improved, a), want) else 1)
''')

s("early-load", "C09", "assembling the load vector fails once and is repeated",
  "the load vector is stored before it is assembled, so after a failure a vector of zeros is handed out",
  [("        b_rhs = fem.petsc.create_vector(linear_form)\n        fem.petsc.create_vector(linear_form)\n",
    "        b_rhs = fem.petsc.create_vector(linear_form)\n        self.SpaceTimeRhs = b_rhs\n")], '''
S = make()
want = make().get_spacetime_rhs().array.copy()
with fault("fem.assemble_vector", 1):
    assert fails(S.get_spacetime_rhs)
sys.exit(0 if same(S.get_spacetime_rhs().array, want) else 1)
''')

s("stationary-data", "C10", "data whose time derivative vanishes at the start of a slab but not later in it",
  "the data are taken to be constant over a slab at whose start their time derivative is zero",
  [("                sol_ti = self.solution.v(time_ti, self.x)\n                L += (",
    """                rate = ufl.as_ufl(self.solution.dvdt(t_n, self.x))
                # stationary data: one form for all the points in time of the slab
                steady = isinstance(rate, ufl.constantvalue.Zero)
                sol_ti = self.solution.v(t_n if steady else time_ti, self.x)
                L += (""")], '''
S = make(N=1, T=1.0)
b = S.get_spacetime_rhs().array
# v = (1 + t^2)(1 + x): twice the load of the constant data v = 1 + x would be 8/3 of it
class Const:
    def v(self, t, x):
        return 1 + x[0]
    def dvdt(self, t, x):
        return 1.0 + 0 * x[0]
c = make(N=1, T=1.0, sol=Const()).get_spacetime_rhs().array
sys.exit(0 if abs(b.sum() / c.sum() - 4 / 3) < 1e-4 else 1)
''')

s("nan-is-zero", "C12", "measuring a solution that is not a number",
  "negative squares from rounding are cut off in a way that also turns NaN into zero, so a broken solution is reported as exact",
  [("""        error_l2_abs = np.sqrt(self.msh.comm.allreduce(error_local, op=MPI.SUM))
        print(f"t = {self.T}, L2-error = {error_l2_abs} ")
""", """        error_squared = self.msh.comm.allreduce(error_local, op=MPI.SUM)
        # rounding can make the square slightly negative
        error_l2_abs = np.sqrt(max(0.0, error_squared))
        print(f"t = {self.T}, L2-error = {error_l2_abs} ")
""")], '''
S = make()
a = rnd(fem.Function(S.fes).x.array.size)
a[np.asarray(S.dofmaps_full[0][-1])] = np.nan
e = quiet(S.measured_errors, vec(a))
sys.exit(1 if np.isfinite(e["L2-u1-T"]) else 0)
''')

s("prolong-memo", "C13", "prolongating the same coarse values again after a restriction",
  "the interpolation is skipped when the coarse function already holds the values, although the fine one was overwritten since",
  [("""                    self.u_nodes_coarse[j].x.array[:] = x_coarse.array[
                        self.dofmaps_full_coarse[j][shift_idx + ell]
                    ]
                    self.u_nodes_fine[j].interpolate(self.u_nodes_coarse[j])
                    x_fine.array[
""", """                    values = x_coarse.array[
                        self.dofmaps_full_coarse[j][shift_idx + ell]
                    ]
                    if not np.array_equal(self.u_nodes_coarse[j].x.array, values):
                        self.u_nodes_coarse[j].x.array[:] = values
                        self.u_nodes_fine[j].interpolate(self.u_nodes_coarse[j])
                    x_fine.array[
""")], '''
S = ready(make(m=mesh.create_unit_interval(MPI.COMM_WORLD, 8), N=1))
S.prepare_coarse_grid_correction(mesh.create_unit_interval(MPI.COMM_WORLD, 4))
nc = S.get_spacetime_matrix_coarse().getSize()[0]
n = size(S)
c = vec(np.ones(nc))
p = vec(np.zeros(n))
S.prolongation(c, p)
first = p.array.copy()
# a fine vector with the same values at the coarse nodes
f = np.ones(n)
for j in range(4):
    for d in S.dofmaps_full[j]:
        d = np.asarray(d)
        f[d] = 2.0
rc = vec(np.zeros(nc))
for i in range(n):  # the fine values that a restriction reads
    g = np.zeros(n)
    g[i] = 1.0
    S.restriction(rc, vec(g))
    if rc.array.any():
        f[i] = 1.0
S.restriction(rc, vec(f))
S.prolongation(c, p)
sys.exit(0 if same(p.array, first) else 1)
''')

s("elmat-memo", "C14", "two solvers of equal time order for the primal and different time order for the dual variables",
  "the element matrices in time are kept per order of the primal variables only",
  [("        self.elmat_time = get_elmat_time(self.otime.q, self.otime.qstar)\n",
    """        if self.otime.q not in _ELMAT_TIME:
            _ELMAT_TIME[self.otime.q] = get_elmat_time(self.otime.q, self.otime.qstar)
        self.elmat_time = _ELMAT_TIME[self.otime.q]
"""),
   ("def get_sparse_matrix(mat):\n", "_ELMAT_TIME: dict = {}\n\n\ndef get_sparse_matrix(mat):\n")], '''
B = make(q=1, qs=0)
sys.exit(1 if fails(lambda: make(q=1, qs=1).get_spacetime_matrix()) else 0)
''')

s("export-name", "C17", "two exports with different names in one directory",
  "the velocity error is always written to the file of the default name",
  [('f"{name}-ut.xdmf"', '"abserr-ut.xdmf"')], '''
S = make()
x = vec(rnd(fem.Function(S.fes).x.array.size))
quiet(S.plot_para_view, x, name="one")
sys.exit(0 if os.path.exists("one-ut.xdmf") else 1)
''')

s("plot-first-slab", "C17", "plotting errors of a vector with more than one slab, for a solution that depends on time",
  "the exact time derivative is evaluated at the time within the first slab",
  [("                    dt_u_at_ti = self.solution.dvdt(time_ti, [eval_pts_space[j]])\n",
    "                    dt_u_at_ti = self.solution.dvdt(\n                        time_ti - t_n,\n                        [eval_pts_space[j]],\n                    )\n")], '''
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
got = []
real = plt.pcolormesh
def rec(*a, **k):
    got.append(np.array(a[2]))
    return real(*a, **k)
plt.pcolormesh = rec
S = make(N=2)
quiet(S.plot_error, vec(np.zeros(fem.Function(S.fes).x.array.size)), n_space=3, n_time_subdiv=2)
ts = np.array([0, .25, .5, .75])
want = 2 * ts[:, None] * (1 + np.linspace(0, 1, 3))[None, :]
sys.exit(0 if np.allclose(got[-1], want) else 1)
''')
