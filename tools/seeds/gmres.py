HEAD = '''
import sys, os
sys.path.insert(0, os.path.join(os.getcwd(), "src"))
import numpy as np
from petsc4py import PETSc
from dxss.gmres import get_gmres_solution


class Op:
    def __init__(self, a, hook=None):
        self.a, self.n, self.hook = np.array(a, float), 0, hook

    def run(self, x, y):
        self.n += 1
        v = self.a @ x.array_r
        if self.hook:
            w = self.hook(self.n, v)
            v = v if w is None else w
        y.array[:] = v

    def mult(self, mat, x, y):
        self.run(x, y)

    def apply(self, pc, x, y):
        self.run(x, y)


def vec(b):
    v = PETSc.Vec().createSeq(len(b))
    v.array[:] = b
    return v


def shift(n):
    return np.roll(np.eye(n), 1, axis=0)


def spd(n, seed=0):
    q, _ = np.linalg.qr(np.random.RandomState(seed).standard_normal((n, n)))
    return q @ np.diag(np.linspace(1, 20, n)) @ q.T


def fails(f):
    try:
        f()
    except Exception:
        return True
    return False

'''
G = "src/dxss/gmres.py"

seed("gmres-zero-tol", "C01", "an explicit tolerance of exactly 0",
     "tol=0 is replaced by the default 1e-12, so a tiny residual above the requested tolerance is accepted",
     [(G, "    if tol is None:\n", "    if not tol:\n")], HEAD + '''
# rhs far below the default absolute tolerance: tol=0 asks for relative convergence only
b = 1e-13 * np.arange(1.0, 7.0)
a = spd(6)
x, r = get_gmres_solution(Op(a), vec(b), Op(np.eye(6)), tol=0.0, reltol=1e-6, printrates=False)
rel = np.linalg.norm(b - a @ x.array) / np.linalg.norm(b)
print(rel)
sys.exit(0 if rel <= 1e-6 * 1.01 else 1)
''')

seed("gmres-nan-accepted", "C01", "an operator application that delivers NaN in the middle of a solve",
     "the NaN divergence reason is treated like a normal end, a vector with NaN or without convergence is returned",
     [(G, "    if ksp_reason < 0:\n", "    if ksp_reason < 0 and ksp_reason > PETSc.KSP.ConvergedReason.DIVERGED_NANORINF:\n")],
     HEAD + '''
def nan(i, v):
    if i == 3:
        v = v.copy(); v[0] = np.nan
    return v
ok = fails(lambda: get_gmres_solution(Op(spd(12), nan), vec(np.ones(12)), Op(np.eye(12)), printrates=False))
sys.exit(0 if ok else 1)
''')

seed("gmres-restart-100", "C02", "an omitted restart and a system that needs more than 200 iterations without restart",
     "the default restart length is 200 instead of 1000, the solve stagnates and raises although it could succeed",
     [(G, "        restart = 1000  # Currently", "        restart = 200  # Currently")], HEAD + '''
n = 230
b = np.zeros(n); b[0] = 1
bad = fails(lambda: get_gmres_solution(Op(shift(n)), vec(b), Op(np.eye(n)), maxsteps=n + 10, printrates=False))
sys.exit(1 if bad else 0)
''')

seed("gmres-maxit-off", "C02", "an explicit restart shorter than the iteration limit and a need of exactly the last iterations",
     "the iteration limit is rounded down to whole restart cycles",
     [(G, "    ksp.setTolerances(rtol=reltol, atol=tol, max_it=maxsteps)",
       "    # finish whole cycles only: a cut-off cycle is wasted work\n"
       "    cycles = maxsteps // restart\n"
       "    ksp.setTolerances(rtol=reltol, atol=tol, max_it=cycles * restart if cycles else maxsteps)")], HEAD + '''
n = 12
b = np.ones(n)
op = Op(spd(n))
# find a tolerance that takes 8 iterations with restart 5
for t in 0.8 ** np.arange(1, 60):
    op = Op(spd(n))
    get_gmres_solution(op, vec(b), Op(np.eye(n)), maxsteps=200, restart=5, reltol=t, printrates=False)
    if op.n >= 9:
        break
bad = fails(lambda: get_gmres_solution(Op(spd(n)), vec(b), Op(np.eye(n)), maxsteps=9, restart=5, reltol=t, printrates=False))
sys.exit(1 if bad else 0)
''')

seed("gmres-resume", "C03", "a call that raised out of a callback, followed by a call for a system of the same size",
     "the partial solution of the failed call is used as the initial guess of the next one",
     [(G, "    x = A_shell.createVecRight()  # sol vec conforming to matrix partitioning\n",
       "    x = A_shell.createVecRight()  # sol vec conforming to matrix partitioning\n"
       "    key = A_shell.getSize()\n"
       "    if key in _interrupted:  # resume where an interrupted solve stopped\n"
       "        x.array[:] = _interrupted.pop(key)\n"
       "        ksp.setInitialGuessNonzero(True)\n"),
      (G, "    ksp.solve(b, x)  # attempt to iterate to convergence\n",
       "    try:\n"
       "        ksp.solve(b, x)  # attempt to iterate to convergence\n"
       "    except Exception:\n"
       "        _interrupted[key] = x.array.copy()\n"
       "        raise\n"),
      (G, "def convergence_monitor(", "_interrupted: dict = {}\n\n\ndef convergence_monitor(")], HEAD + '''
n = 10
def go():
    x, r = get_gmres_solution(Op(spd(n)), vec(np.ones(n)), Op(np.eye(n)), reltol=0.1, restart=2, printrates=False)
    return x.array.copy()
ref = go()
def boom(i, v):
    if i == 6:
        raise ValueError("x")
fails(lambda: get_gmres_solution(Op(spd(n, 5), boom), vec(np.arange(n) - 3.0), Op(np.eye(n)), reltol=1e-9, restart=2, printrates=False))
sys.exit(0 if np.allclose(go(), ref, rtol=1e-9, atol=1e-12) else 1)
''')

seed("gmres-normalised-rhs", "C03", "a failure (raising callback or missed convergence) during the solve",
     "the right-hand side is scaled to norm one for the solve and only scaled back when the solve succeeds",
     [(G, "    ksp.solve(b, x)  # attempt to iterate to convergence\n",
       "    size = b.norm()  # iterate on a right-hand side of moderate size\n"
       "    if size > 1e5:\n"
       "        ksp.setTolerances(atol=tol / size)\n"
       "        b.scale(1 / size)\n"
       "    ksp.solve(b, x)  # attempt to iterate to convergence\n"
       "    if size > 1e5:\n"
       "        b.scale(size)\n"
       "        x.scale(size)\n")], HEAD + '''
n = 8
b = vec(1e6 * np.arange(1, n + 1.0))
ref = b.array.copy()
def boom(i, v):
    if i == 2:
        raise ValueError("x")
fails(lambda: get_gmres_solution(Op(spd(n), boom), b, Op(np.eye(n)), printrates=False))
sys.exit(0 if np.array_equal(b.array, ref) else 1)
''')

seed("gmres-chop", "C04", "a solution with entries far below its largest one",
     "small entries of the solution are set to zero after the residual was computed",
     [(G, "    return (x, r)", "    x.chop(1e-5 * x.norm(PETSc.NormType.NORM_INFINITY))  # remove round-off noise\n    return x, r")],
     HEAD + '''
n = 8
a = np.diag(10.0 ** np.arange(n))
b = np.ones(n)
x, r = get_gmres_solution(Op(a), vec(b), Op(np.linalg.inv(a)), printrates=False)
sys.exit(0 if np.allclose(r.array, b - a @ x.array, atol=1e-9) else 1)
''')

seed("gmres-pooled-x", "C05", "a solve nested in a callback of another one with the same number of unknowns",
     "the solution vector comes from a pool keyed by size, so nested and outer solves write into the same vector",
     [(G, "    x = A_shell.createVecRight()  # sol vec conforming to matrix partitioning\n",
       "    work = _pool.get(A_shell.getSize())\n"
       "    if work is None:\n"
       "        work = _pool[A_shell.getSize()] = A_shell.createVecRight()\n"
       "    x = work  # sol vec conforming to matrix partitioning\n"
       "    x.set(0.0)\n"),
      (G, "    return (x, r)", "    return (x.copy(), r)"),
      (G, "    on_failure.callback(x.destroy)\n", ""),
      (G, "def convergence_monitor(", "_pool: dict = {}\n\n\ndef convergence_monitor(")], HEAD + '''
n = 9
def inner():
    x, r = get_gmres_solution(Op(np.eye(n) * 2), vec(np.arange(1.0, n + 1)), Op(np.eye(n)), printrates=False)
    return x.array.copy()
def nest(i, v):
    if i == 5:
        inner()
a = spd(n)
x, r = get_gmres_solution(Op(a, nest), vec(np.ones(n)), Op(np.eye(n)), reltol=1e-8, restart=3, printrates=False)
sys.exit(0 if np.linalg.norm(a @ x.array - 1) < 1e-5 else 1)
''')

seed("gmres-option-leak", "C05", "a solve started inside a callback of another one before the outer solve configured itself is irrelevant: any later or nested solve with another restart",
     "the restart length is handed over through the global PETSc options database, so one call's value governs every later call",
     [(G, "    ksp.setGMRESRestart(restart)  # set number of iterations until restart\n",
       "    if not PETSc.Options().hasName(\"ksp_gmres_restart\"):\n"
       "        PETSc.Options().setValue(\"ksp_gmres_restart\", restart)  # set number of iterations until restart\n")], HEAD + '''
n = 40
def go(restart):
    b = np.zeros(n); b[0] = 1
    return fails(lambda: get_gmres_solution(Op(shift(n)), vec(b), Op(np.eye(n)), maxsteps=60, restart=restart, printrates=False))
first = go(5)      # stagnates
sys.exit(1 if go(None) else 0)
''')

seed("gmres-keeps-failed", "C06", "a call that raises",
     "operator and preconditioner of a failed solve are kept in a module-level list for diagnosis",
     [(G, "        raise PETSc.Error\n", "        last_failure[:] = [A_shell.getPythonContext(), pre, ksp_reason]\n        raise PETSc.Error\n"),
      (G, "def convergence_monitor(", "last_failure: list = []\n\n\ndef convergence_monitor(")], HEAD + '''
import gc, weakref
n = 30
op, pre = Op(shift(n)), Op(np.eye(n))
w = weakref.ref(op), weakref.ref(pre)
b = np.zeros(n); b[0] = 1
try:
    get_gmres_solution(op, vec(b), pre, maxsteps=3, printrates=False)
    sys.exit(2)
except Exception:
    pass
del op, pre
gc.collect()
sys.exit(0 if w[0]() is None and w[1]() is None else 1)
''')

seed("gmres-monitor-ref", "C06", "any solve with rate printing and a look at what is still alive afterwards",
     "the convergence history of every call, with its operator, is recorded in a module-level list",
     [(G, "    if printrates:\n        ksp.setMonitor(convergence_monitor)\n",
       "    if printrates:\n        runs.append((A_shell.getPythonContext(), ksp.getConvergenceHistory()))\n        ksp.setMonitor(convergence_monitor)\n"),
      (G, "def convergence_monitor(", "runs: list = []\n\n\ndef convergence_monitor(")], HEAD + '''
import gc, weakref
n = 5
op = Op(spd(n))
w = weakref.ref(op)
x, r = get_gmres_solution(op, vec(np.ones(n)), Op(np.eye(n)), printrates=True)
x.destroy(); r.destroy()
del op, x, r
gc.collect()
sys.exit(0 if w() is None else 1)
''')

# ------------------------------------------------------------------ second batch
seed("gmres-nearly", "C01", "the iteration limit is reached when the residual is a little above the tolerance",
     "a solve that used up its iterations with a residual within ten times the tolerance is accepted",
     [(G, "    if ksp_reason < 0:\n",
       "    near = 10 * max(tol, reltol * b.norm())\n"
       "    exhausted = ksp_reason == PETSc.KSP.ConvergedReason.DIVERGED_MAX_IT\n"
       "    if ksp_reason < 0 and not (exhausted and ksp.getResidualNorm() <= near):\n")], HEAD + '''
n = 30
q, _ = np.linalg.qr(np.random.RandomState(1).standard_normal((n, n)))
a = q @ np.diag(np.linspace(1, 3, n)) @ q.T
b = np.ones(n)
for steps in range(1, n):
    try:
        x, r = get_gmres_solution(Op(a), vec(b), Op(np.eye(n)), maxsteps=steps, reltol=1e-6, printrates=False)
    except Exception:
        continue
    rel = np.linalg.norm(b - a @ x.array) / np.linalg.norm(b)
    if rel > 1.01e-6:
        sys.exit(1)
sys.exit(0)
''')

seed("gmres-whole-cycles", "C02", "an iteration limit that is no multiple of the restart length and is reached",
     "the iteration limit is rounded up to whole restart cycles",
     [(G, "    ksp.setTolerances(rtol=reltol, atol=tol, max_it=maxsteps)\n",
       "    if maxsteps > restart:\n        # only whole cycles\n        maxsteps = -(-maxsteps // restart) * restart\n"
       "    ksp.setTolerances(rtol=reltol, atol=tol, max_it=maxsteps)\n")], HEAD + '''
n = 30
a = spd(n)
b = np.ones(n)
ok = lambda m: not fails(lambda: get_gmres_solution(Op(a), vec(b), Op(np.eye(n)), maxsteps=m, restart=7, reltol=1e-6, printrates=False))
# the number of iterations it takes
need = next(m for m in range(7, 2000, 7) if ok(m))
for m in range(need - 6, need):
    n_it = Op(a)
    try:
        get_gmres_solution(n_it, vec(b), Op(np.eye(n)), maxsteps=m, restart=7, reltol=1e-6, printrates=False)
    except Exception:
        continue
    if n_it.n > m + 2 * (m // 7) + 3 or m == need - 6 and need > 7 and False:
        sys.exit(1)
# at least one of the smaller limits is not enough
sys.exit(1 if ok(need - 6) and all(ok(m) for m in range(need - 6, need)) else 0)
''')

seed("gmres-exact-residual", "C04", "a solve that ends by the absolute tolerance",
     "the residual of a solve that met the absolute tolerance is reported as zero",
     [(G, "    return (x, r)", "    if ksp_reason == PETSc.KSP.ConvergedReason.CONVERGED_ATOL:\n"
       "        r.set(0.0)  # solved exactly\n    return (x, r)")], HEAD + '''
n = 20
a = spd(n)
b = 1e-2 * np.arange(1.0, n + 1)
x, r = get_gmres_solution(Op(a), vec(b), Op(np.eye(n)), tol=1e-3, reltol=1e-12, printrates=False)
true = b - a @ x.array
print(np.linalg.norm(true))
sys.exit(0 if np.linalg.norm(true - r.array) <= 1e-3 * np.linalg.norm(true) else 1)
''')

seed("gmres-rate-monitor", "C05", "a nested solve that ends with a residual of exactly zero while rates are printed",
     "the monitor divides by the residual of its last call, whichever solve that belonged to",
     [(G, '    PETSc.Sys.Print(f"GMRes iteration {its:>3}, residual = {rnorm:4.2e}")',
       '    rate = rnorm / _last[0] if its > 0 else 1.0\n    _last[0] = rnorm\n'
       '    PETSc.Sys.Print(f"GMRes iteration {its:>3}, residual = {rnorm:4.2e}, rate = {rate:4.2e}")'),
      (G, "def convergence_monitor(", "_last = [1.0]\n\n\ndef convergence_monitor(")], HEAD + '''
n = 8
a = spd(n)
def inner(i, v):
    # the right-hand side zero is solved exactly
    get_gmres_solution(Op(np.eye(3)), vec(np.zeros(3)), Op(np.eye(3)), printrates=True)
ok = lambda h: not fails(lambda: get_gmres_solution(Op(a, h), vec(np.ones(n)), Op(np.eye(n)), reltol=1e-6, printrates=True))
assert ok(None)
sys.exit(0 if ok(inner) else 1)
''')

seed("gmres-late-options", "C01", "run-time PETSc options that set a tolerance",
     "the tolerances of the call overwrite those of the run-time options",
     [(G, "    ksp.setFromOptions()  # allow the user to set command-line options at runtime for tuning the solver\n",
       "    ksp.setFromOptions()  # allow the user to set command-line options at runtime for tuning the solver\n"
       "    ksp.setTolerances(rtol=reltol, atol=tol)\n")], HEAD + '''
n = 20
a = spd(n)
PETSc.Options().setValue("ksp_rtol", 1e-11)
x, r = get_gmres_solution(Op(a), vec(np.ones(n)), Op(np.eye(n)), tol=0.0, reltol=1e-2, printrates=False)
rel = np.linalg.norm(np.ones(n) - a @ x.array) / np.sqrt(n)
sys.exit(0 if rel < 1e-9 else 1)
''')

seed("gmres-rhs-scaled", "C03", "an exception from the operator or preconditioner in the middle of a solve",
     "the right-hand side is scaled in place during the solve and only scaled back when the solve ends normally",
     [(G, "    ksp.solve(b, x)  # attempt to iterate to convergence\n",
       "    size = b.norm()\n    scale = 2.0 ** -40 if size > 1e3 else 1.0\n    b.scale(scale)\n"
       "    ksp.setTolerances(atol=tol * scale)\n"
       "    ksp.solve(b, x)  # attempt to iterate to convergence\n    b.scale(1 / scale)\n    x.scale(1 / scale)\n")], HEAD + '''
n = 10
def boom(i, v):
    if i == 3:
        raise RuntimeError("boom")
b = vec(1e4 * np.ones(n))
assert fails(lambda: get_gmres_solution(Op(spd(n), boom), b, Op(np.eye(n)), printrates=False))
sys.exit(0 if np.array_equal(b.array, 1e4 * np.ones(n)) else 1)
''')
