"""World for C01-C06: the real dxss.gmres on real PETSc; operators and
preconditioners are simulated components that misbehave on command."""
from __future__ import annotations

import copy
import ctypes
import gc
import threading
import weakref

import numpy as np

import core
import gmres_ref as ref
import loader
from baton import Baton

PETSc = None
gm = None


def prepare():
    global PETSc, gm
    loader.install()
    import petsc4py

    # a crash must end the process at once; PETSc's own handler would hang in MPI_Abort
    petsc4py.init(["sim", "-no_signal_handler"])
    from petsc4py import PETSc as P

    PETSc = P
    PETSc.Sys.pushErrorHandler("ignore")  # see DESIGN.md: petsc4py's own handler can crash CPython 3.12
    # keep PETSc's duplicated communicators alive, so that no forked case makes MPI calls
    from mpi4py import MPI

    global _keep
    _keep = [PETSc.Vec().createSeq(1), PETSc.Vec().createMPI(1, comm=MPI.COMM_WORLD)]
    PETSc.KSP = watching(PETSc.KSP)
    import dxss.gmres as g

    gm = g


_calls = threading.local()


def watching(base):
    """PETSc's solver, noting the reason with which each of its solves ended (used only to
    tell the known findings about PETSc's own verdict from a verdict that was ignored)."""

    class KSP(base):
        def solve(self, b, x):
            super().solve(b, x)
            stack = getattr(_calls, "stack", None)
            if stack:
                stack[-1].append(self.getConvergedReason())

    return KSP


class SimFault(Exception):
    pass


class SimBase(BaseException):
    pass


class SimBudget(BaseException):
    """Raised into a call that has used far more applications than it may."""


EXCS = {
    "ValueError": ValueError, "RuntimeError": RuntimeError, "MemoryError": MemoryError,
    "ZeroDivisionError": ZeroDivisionError, "SimFault": SimFault, "KeyboardInterrupt": KeyboardInterrupt,
    "SimBase": SimBase, "SystemExit": SystemExit, "OSError": OSError, "StopIteration": StopIteration,
    "FloatingPointError": FloatingPointError, "AssertionError": AssertionError, "KeyError": KeyError,
    "PETScError": None, "TimeoutError": TimeoutError, "ArithmeticError": ArithmeticError,
}


def make_exc(name):
    if name == "PETScError":
        return PETSc.Error(77)
    return EXCS[name]("injected")


class Ctx:
    """State of one simulated solve, shared by its operator and preconditioner."""

    def __init__(self, world, spec, label):
        self.world = world
        self.spec = spec
        self.label = label
        self.n = {"A": 0, "P": 0}
        self.fired = []
        self.nested = []
        self.faults = {(f["site"], f["at"]): f for f in spec.get("faults", [])}
        _, _, max_it, _ = ref.effective(spec, world.opts)
        self.cap = 4 * max_it + 16
        self.over = False
        self.seq = []
        self.sites = {f["site"] for f in spec.get("faults", [])}

    def setup(self, site):
        """The optional setUp callback of an operator ("a") or preconditioner ("p")."""
        w = self.world
        f = self.faults.pop((site, 0), None)
        w.point()
        if f and f["do"] == "raise":
            self.fire(f, site, 0)
            raise make_exc(f["exc"])
        if f and f["do"] == "nest":
            self.fire(f, site, 0)
            self.nested.append((f["s"], w.solve(f["s"], f"{self.label}.{site}")))

    def apply(self, site, func, x, y):
        w = self.world
        i = self.n[site]
        self.n[site] += 1
        self.seq.append(site)
        w.rec.simtime += 1
        w.point()
        if self.n[site] > self.cap:
            self.over = True
            raise SimBudget("application budget exceeded")
        f = self.faults.get((site, i))
        if f and f["do"] == "raise" and not f.get("late"):
            self.fire(f, site, i)
            raise make_exc(f["exc"])
        if f and f["do"] == "nest":
            self.fire(f, site, i)
            self.nested.append((f["s"], w.solve(f["s"], f"{self.label}.{site}{i}")))
        val = func(x.array_r.copy() if hasattr(x, "array_r") else x.array.copy())
        if f and f["do"] in ("nan", "inf", "corrupt"):
            self.fire(f, site, i)
            val = np.array(val)
            pos = f.get("pos", 0) % len(val)
            if f["do"] == "nan":
                val[pos] = np.nan
            elif f["do"] == "inf":
                val[pos] = np.inf
            else:
                val[pos] += f.get("by", 1.0) * (1.0 + np.abs(val).max())
        y.array[:] = val
        w.point()
        if f and f["do"] == "raise" and f.get("late"):
            self.fire(f, site, i)
            raise make_exc(f["exc"])

    def fire(self, f, site, i):
        kind = f"{f['do']}:{f['exc']}" if f["do"] == "raise" else f["do"]
        if f.get("late"):
            kind += "-after-write"
        self.fired.append((f["do"], site, i, len(self.seq) - 1))
        self.world.rec.fault(f"{site}.{kind}")
        self.world.rec.event("fault", self.label, site, i, kind)


class SimOp:
    def __init__(self, ctx, spec):
        self.ctx = ctx
        if spec["A"]["k"] == "shift" and spec["A"]["n"] > 100:
            self.f = lambda v: np.roll(v, 1)
        else:
            a = ref.operator(spec["A"])
            self.f = lambda v: a @ v

    def mult(self, mat, x, y):
        self.ctx.apply("A", self.f, x, y)


class SimOpSetUp(SimOp):
    def setUp(self, mat):  # noqa: N802 | name dictated by petsc4py
        self.ctx.setup("a")


class SimPre:
    def __init__(self, ctx, spec, world):
        self.ctx = ctx
        k = spec["P"]["k"]
        if k == "inner":
            inner = {"A": spec["A"], "P": {"k": "id"}, "b": {"k": "given"}, "maxsteps": 400, "tol": 0.0,
                     "reltol": 1e-11, "printrates": False}

            def f(v):
                if not np.any(v):
                    return v
                out = world.solve(inner, ctx.label + ".inner", b=v)
                if out["x"] is None:
                    raise SimFault("inner solve failed: " + out["exc"])
                return out["x"]

            self.f = f
        elif k == "id" or (k == "scale" and spec["A"]["n"] > 100):
            p = spec["P"].get("par", 1.0) if k == "scale" else 1.0
            self.f = lambda v: p * v
        else:
            m = ref.precond(spec)
            self.f = lambda v: m @ v

    def apply(self, pc, x, y):
        self.ctx.apply("P", self.f, x, y)


class SimPreSetUp(SimPre):
    def setUp(self, pc):  # noqa: N802 | name dictated by petsc4py
        self.ctx.setup("p")


class World:
    def __init__(self, rec):
        self.rec = rec
        self.opts = {}
        self.baton = None
        self.keep_objects = None

    def point(self):
        if self.baton is not None:
            self.baton.point()

    def setopt(self, key, val):
        self.opts[key] = val
        PETSc.Options().setValue(key, val)

    def delopt(self, key):
        self.opts.pop(key, None)
        if PETSc.Options().hasName(key):
            PETSc.Options().delValue(key)

    def solve(self, spec, label, b=None):
        ctx = Ctx(self, spec, label)
        op = (SimOpSetUp if "a" in ctx.sites else SimOp)(ctx, spec)
        pre = (SimPreSetUp if "p" in ctx.sites else SimPre)(ctx, spec, self)
        bv = ref.rhs(spec) if b is None else np.array(b)
        vec = PETSc.Vec().createSeq(len(bv))
        vec.array[:] = bv
        kw = {}
        for name in ("maxsteps", "tol", "reltol", "restart", "printrates"):
            if name in spec:
                kw[name] = spec[name]
        out = {"x": None, "r": None, "exc": None, "basexc": False}
        x = r = None
        if not hasattr(_calls, "stack"):
            _calls.stack = []
        out["reasons"] = []
        _calls.stack.append(out["reasons"])
        try:
            x, r = gm.get_gmres_solution(op, vec, pre, **kw)
            out["x"] = x.array.copy()
            out["r"] = r.array.copy()
        except BaseException as e:  # noqa: BLE001
            out["exc"] = type(e).__name__
            e.__traceback__ = None
            e.__context__ = None
            del e
        finally:
            _calls.stack.pop()
        out["b_same"] = bool(vec.getSize() == len(bv) and np.array_equal(vec.array.view(np.int64), bv.view(np.int64)))
        out["nA"], out["nP"] = ctx.n["A"], ctx.n["P"]
        out["fired"] = ctx.fired
        out["over"] = ctx.over
        out["nested"] = ctx.nested
        out["nseq"] = len(ctx.seq)
        out["lastA"] = max((i for i, s in enumerate(ctx.seq) if s == "A"), default=-1)
        out["lastP"] = max((i for i, s in enumerate(ctx.seq) if s == "P"), default=-1)
        if self.keep_objects is not None:
            self.keep_objects.append((weakref.ref(op), weakref.ref(pre), weakref.ref(ctx)))
        same_object = x is not None and (x is vec or r is vec)
        if same_object:
            out["aliased"] = True
        for v in (x, r, vec):
            if v is not None:
                v.destroy()
        self.rec.event("solve", label, "returned" if out["exc"] is None else "raised " + out["exc"],
                       out["nA"], out["nP"])
        self.rec.probe("returned" if out["exc"] is None else "raised")
        return out


# ------------------------------------------------------------- oracles


def norms(spec):
    A = spec["A"]
    if A["k"] == "shift" and A["n"] > 100:
        return None
    a, m = ref.operator(A), ref.precond(spec)
    return a, m


def check_solve(rec, spec, out, opts, baseline=None, history=False):
    """All single-solve oracles. baseline: outcome of the same solve in a fresh process."""
    rtol, atol, max_it, restart = ref.effective(spec, opts)
    b = ref.rhs(spec)
    fired = out["fired"]
    real = [f for f in fired if f[0] != "nest"]
    raised = [f for f in fired if f[0] == "raise"]
    nonfin = [f for f in fired if f[0] in ("nan", "inf")]
    silent = [f for f in fired if f[0] == "corrupt"]
    ret = out["exc"] is None
    nm = norms(spec)
    rec.check("C03", "rhs-modified", out["b_same"], "the right-hand side vector was changed by the call")
    if out["over"]:
        rec.violate("C02", "too-many-applications",
                    f"more than {4 * max_it + 16} applications for an iteration limit of {max_it}")
        return
    if raised:
        rec.check("C03", "exception-swallowed", not ret,
                  lambda: f"callback raised at {raised[0][1:3]} but the call returned a solution")
        return
    if ret and (out["x"].shape != b.shape or out["r"].shape != b.shape):
        rec.violate("C04", "shape", "returned vectors have the wrong size")
        return
    if ret and nm is not None:
        a, m = nm
        # C04: residual belongs to the solution; unless the corrupt application is the very last of A
        lastbad = any(f[1] == "A" and f[3] == out["lastA"] for f in silent + nonfin)
        if not lastbad:
            true = b - a @ out["x"]
            scale = np.abs(a) @ np.abs(out["x"]) + np.abs(b)
            tol = 1e-12 * len(b) * scale.max() + 1e-300
            bad = not np.all(np.isfinite(out["r"])) or np.max(np.abs(out["r"] - true)) > tol
            if not np.all(np.isfinite(out["x"])):
                bad = bool(np.all(np.isfinite(out["r"])))
            rec.check("C04", "residual-wrong", not bad,
                      lambda: f"|r - (b - A x)| = {np.max(np.abs(out['r'] - true)):.3e}, allowed {tol:.1e}")
        if silent:
            rec.probe("corrupted solve returned")
    if silent:
        return
    if nonfin:
        if ret:
            last = nonfin[0][3] == out["lastA"] and nonfin[0][1] == "A" and out["lastA"] > out["lastP"]
            honest = last and not np.all(np.isfinite(out["r"]))
            if honest:
                nonfin = None
            else:
                rec.violate("C01", "nonfinite-accepted",
                            f"application {nonfin[0][1]}{nonfin[0][2]} produced {nonfin[0][0]} and the call returned")
                return
        else:
            return
    # no effective fault from here on
    inner = spec["P"]["k"] == "inner"
    if ret:
        if nm is not None:
            a, m = nm
            pr = np.linalg.norm(m @ (b - a @ out["x"]))
            rn0 = np.linalg.norm(m @ b)
            mn = np.linalg.norm(m, 2)
            slack = 1e-13 * len(b) * (mn * (np.linalg.norm(a, 2) * np.linalg.norm(out["x"]) + np.linalg.norm(b)))
        else:
            p = spec["P"].get("par", 1.0) if spec["P"]["k"] == "scale" else 1.0
            pr = abs(p) * np.linalg.norm(b - np.roll(out["x"], 1))
            rn0 = abs(p) * np.linalg.norm(b)
            slack = 1e-13 * len(b) * rn0
        ttol = max(rtol * rn0, atol)
        if inner:
            slack += 1e-8 * rn0
        kind = "tolerance-not-met"
        if out["reasons"] and max(out["reasons"]) <= 0:
            kind = "failure-returned"
        elif not pr <= ttol * (1 + 1e-6) + slack and not inner and nm is not None:
            steps = ref.exhaustion(spec, opts)
            if np.linalg.cond(m @ a) > 1e12:
                kind += "-singular-operator"
            elif steps is not None and out["nA"] - 1 > steps:
                kind += "-after-exhausting-the-space"
        rec.check("C01", kind, bool(pr <= ttol * (1 + 1e-6) + slack),
                  lambda: f"preconditioned residual {pr:.6e} > max({rtol:g}*{rn0:.3e}, {atol:g}) = {ttol:.6e}")
    if not inner:
        dec, need = ref.decide(spec, opts)
        if dec == "return":
            rec.check("C02", "raised-although-solvable", ret,
                      lambda: f"reference GMRES meets the tolerance after {need} of {max_it} iterations; the call raised {out['exc']}")
        elif dec == "raise":
            rec.check("C02", "returned-although-unsolvable", not ret,
                      lambda: f"reference GMRES does not meet the tolerance within {max_it} iterations; the call returned")
        else:
            rec.probe("decision borderline")
        if dec:
            rec.probe(f"decision {dec}")
            if need is not None and need == max_it:
                rec.probe("converges exactly at the limit")
    if baseline is not None:
        compare(rec, "C03", "history-changes-result", out, baseline,
                "result after this history differs from the same solve in a fresh process")


def compare(rec, prop, kind, out, base, what):
    if (out["exc"] is None) != (base["x"] is None):
        if out["exc"] is None:
            bx = np.array(base["x"])
            sc = np.max(np.abs(bx)) + 1e-300
            d = np.max(np.abs(out["x"] - bx)) if len(bx) == len(out["x"]) else np.inf
            rec.check(prop, kind, bool(d <= 1e-9 * sc) or not np.all(np.isfinite(bx)),
                      lambda: f"{what}: max difference {d:.3e} of {sc:.3e}")
    else:
        rec.violate(prop, kind, f"{what}: {'raised ' + out['exc'] if out['exc'] else 'returned'} instead of "
                    f"{'returning' if base['x'] is not None else 'raising'}")


def baseline(spec, opts):
    """Outcome of the fault-free solve in a fresh process (forked before any solve)."""
    clean = strip(spec)

    def go():
        w = World(core.Rec())
        for k, v in opts.items():
            w.setopt(k, v)
        o = w.solve(clean, "fresh")
        return {"x": None if o["x"] is None else o["x"].tolist(), "exc": o["exc"]}

    st, val = core.run_isolated(go, 60)
    if st != "ok":
        raise core.HarnessError(f"baseline {st} {val}")
    return val


def strip(spec):
    s = dict(spec)
    s["faults"] = []
    return s


def strip_nest(spec):
    return [f for f in spec.get("faults", []) if f["do"] != "nest"]


def clean_solve(spec):
    return not strip_nest(spec)


# ------------------------------------------------------------- execution


def mem_in_use():
    class MI(ctypes.Structure):
        _fields_ = [(n, ctypes.c_size_t) for n in (
            "arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks", "fsmblks", "uordblks", "fordblks", "keepcost")]

    f = ctypes.CDLL(None).mallinfo2
    f.restype = MI
    m = f()
    return m.uordblks + m.hblkhd


def execute(prop, case, rec):
    ops = case["ops"]
    want_base = prop in ("C03", "C05")
    base = {}
    # fresh-process outcomes first, before anything has happened here
    if want_base:
        opts = {}
        for i, op in enumerate(ops):
            if op["op"] == "opt":
                opts[op["key"]] = op["val"]
            elif op["op"] == "unopt":
                opts.pop(op["key"], None)
            elif op["op"] == "solve":
                if clean_solve(op["s"]):
                    base[(i, 0)] = baseline(op["s"], opts)
                for j, f in enumerate(op["s"].get("faults", [])):
                    if f["do"] == "nest" and clean_solve(f["s"]):
                        base[(i, 0, j)] = baseline(f["s"], opts)
            elif op["op"] == "par":
                for j, s in enumerate(op["solves"]):
                    if clean_solve(s):
                        base[(i, j)] = baseline(s, opts)
    w = World(rec)
    if prop == "C06":
        w.keep_objects = []
    nontrivial = False
    for i, op in enumerate(ops):
        k = op["op"]
        if k == "opt":
            w.setopt(op["key"], op["val"])
            rec.event("opt", op["key"], op["val"])
            rec.fault("runtime option set")
        elif k == "unopt":
            w.delopt(op["key"])
            rec.event("unopt", op["key"])
        elif k == "solve":
            out = w.solve(op["s"], f"s{i}")
            check_solve(rec, op["s"], out, w.opts, base.get((i, 0)))
            check_nested(rec, op["s"], out, w.opts, base, i)
            if out["fired"] and out["exc"] is None and clean_solve(op["s"]) and (i, 0) in base:
                compare(rec, "C05", "nesting-changes-outer", out, base[(i, 0)], "outer solve differs from the same solve run alone")
            nontrivial |= out["nA"] > 1
            if prop == "C06":
                leak_check(rec, w, f"s{i}", out)
        elif k == "churn":
            outs = [w.solve(op["s"], f"c{i}") for _ in range(op["times"])]
            rec.fault("many solves in one process", op["times"])
            for o in outs[1:]:
                compare(rec, "C03", "repetition-changes-result", o,
                        {"x": None if outs[0]["x"] is None else outs[0]["x"].tolist()},
                        f"one of {op['times']} repetitions of the same solve differs from the first")
            nontrivial = True
        elif k == "par":
            bt = Baton(op["sched"])
            w.baton = bt
            outs = bt.run([lambda s=s, j=j: w.solve(s, f"p{i}.{j}") for j, s in enumerate(op["solves"])])
            w.baton = None
            rec.fault("thread switches inside callbacks", bt.switches)
            rec.sched.extend(bt.trace)
            rec.event("par", "".join(map(str, bt.trace)))
            nontrivial |= bt.switches > 1
            for j, (s, o) in enumerate(zip(op["solves"], outs)):
                if o is None:
                    rec.violate("C05", "solve-lost", "a solve running beside others never finished")
                    continue
                check_solve(rec, s, o, w.opts)
                check_nested(rec, s, o, w.opts, {}, i)
                if (i, j) in base:
                    compare(rec, "C05", "interleaving-changes-result", o, base[(i, j)],
                            "solve interleaved with others differs from the same solve run alone")
        elif k == "repeat":
            s, times = op["s"], op["times"]
            n = s["A"]["n"]
            for _ in range(3):
                w.solve(s, f"w{i}")
            gc.collect()
            w.keep_objects.clear()
            m0 = mem_in_use()
            for _ in range(times):
                o = w.solve(s, f"r{i}")
                w.keep_objects.clear()
            o = {"exc": o["exc"], "nA": o["nA"]}
            gc.collect()
            grow = mem_in_use() - m0
            rec.fault("repeated solves", times)
            rec.event("repeat", times, o["exc"])
            per = grow / times
            rec.check("C06", "memory-accumulates", per < 4 * n + 3000,
                      f"{per:.0f} bytes per finished solve stay allocated (vector size {8 * n} bytes)")
            nontrivial = True
    rec.nontrivial = bool(nontrivial)


def check_nested(rec, spec, out, opts, base, i):
    for fi, f in enumerate(spec.get("faults", [])):
        if f["do"] != "nest":
            continue
        for s, o in out["nested"]:
            if s is not f["s"]:
                continue
            check_solve(rec, s, o, opts)
            if (i, 0, fi) in base:
                compare(rec, "C05", "nested-differs", o, base[(i, 0, fi)], "nested solve differs from the same solve run alone")


def leak_check(rec, w, label, out):
    refs = list(w.keep_objects)
    w.keep_objects.clear()
    del out
    gc.collect()
    for op, pre, ctx in refs:
        rec.check("C06", "operator-kept-alive", op() is None, f"{label}: the operator is still referenced after the call")
        rec.check("C06", "preconditioner-kept-alive", pre() is None, f"{label}: the preconditioner is still referenced after the call")


# ------------------------------------------------------------ generation


def gen_spec(r, profile, small=False):
    n = r.choice([1, 2, 3, 5, 8, 13, 21, 30, 40] if not small else [1, 2, 4, 7, 11])
    k = r.choice(["spd", "spd", "idskew", "shift", "clustered", "rand", "diag", "wide", "nonnormal", "rand", "spd"]
                 + (["singular", "zero", "ident", "nilpotent", "nilpotent"] if r.random() < 0.3 else []))
    par = {"spd": r.choice([2.0, 10.0, 100.0]), "idskew": r.choice([0.3, 1.0, 3.0]), "shift": 1.0,
           "clustered": r.randint(1, 5), "rand": r.choice([0.5, 1.0, 3.0]), "diag": r.randint(1, 6),
           "wide": r.choice([1.0, 2.0, 3.0]), "nonnormal": r.choice([0.3, 1.0])}.get(k, 1.0)
    A = {"k": k, "n": n, "seed": r.randrange(10**6), "par": par}
    pk = r.choice(["id", "id", "jacobi", "scale", "approx", "wide", "inv"])
    if k in ("singular", "zero", "nilpotent") and pk in ("inv", "approx"):
        pk = "id"
    if k == "rand" and pk == "inv":
        pk = "jacobi"
    P = {"k": pk, "seed": r.randrange(10**6),
         "par": {"scale": r.choice([1e-3, 1e-1, 10.0, 1e3, -1.0, 1e-9, 1e9]), "approx": r.choice([0.01, 0.1]),
                 "wide": r.choice([1.0, 2.0])}.get(pk, 1.0)}
    b = {"k": r.choice(["rand", "rand", "rand", "ones", "e1", "range"] + (["zero"] if r.random() < 0.2 else [])),
         "seed": r.randrange(10**6), "scale": r.choice([1.0, 1.0, 1.0, 1e-6, 1e4, 1e-13, 1e6])}
    if k == "nilpotent" and r.random() < 0.6:
        b["k"] = "e1"
    s = {"A": A, "P": P, "b": b, "faults": []}
    if r.random() < 0.8:
        s["maxsteps"] = r.choice([1, 2, 3, 5, 10, 20, 50, 100, 200])
    if r.random() < 0.75:
        s["reltol"] = r.choice([1e-7, 1e-3, 1e-1, 0.5, 1e-5, 1e-9, 0.0, None, 1e-2])
    if r.random() < 0.75:
        s["tol"] = r.choice([1e-12, 1e-8, 1e-4, 1e-2, 0.0, None, 1e-10, 1.0])
    if s.get("tol") == 0.0 and s.get("reltol") == 0.0 and r.random() < 0.8:
        s["reltol"] = 1e-4
    if r.random() < 0.6:
        s["restart"] = r.choice([1, 2, 3, 5, 8, 20, 30, 50, 100, None])
    if r.random() < 0.5:
        s["printrates"] = r.random() < 0.3
    return s


# petsc4py keeps the traceback of a raising callback in state shared by all threads, and a
# raise while another thread is parked in a callback can crash inside petsc4py itself; so
# solves in several threads fail through NaN, infinity and iteration limits only.
NO_RAISE = ["nan", "inf", "corrupt", "nan", "inf", "nest"]


def gen_fault(r, s, depth=0, kinds=None, no_raise=False):
    kinds = kinds or (NO_RAISE if no_raise else ["raise", "raise", "nan", "inf", "corrupt", "nest"])
    do = r.choice(kinds)
    lim = r.choice([1, 2, 3, 6, 12, 25])
    f = {"site": r.choice("AP"), "at": r.randrange(lim), "do": do}
    if do in ("raise", "nest") and r.random() < 0.12:
        f["site"], f["at"] = f["site"].lower(), 0
    if do == "raise":
        f["exc"] = r.choice(sorted(EXCS))
        if r.random() < 0.4 and f["site"] in "AP":
            f["late"] = True
    elif do in ("nan", "inf"):
        f["pos"] = r.randrange(64)
    elif do == "corrupt":
        f["pos"] = r.randrange(64)
        f["by"] = r.choice([1.0, 1e-3, 1e3, -2.0, 1e-6])
    elif do == "nest":
        f["s"] = gen_spec(r, None, small=True)
        if depth < 1 and r.random() < 0.35:
            f["s"]["faults"] = [gen_fault(r, f["s"], depth + 1, no_raise=no_raise)]
    return f


def tune_steps(r, s, opts):
    """Put the iteration limit next to the number of iterations needed."""
    if s["P"]["k"] == "inner":
        return
    t = dict(s)
    t["maxsteps"] = 300
    dec, need = ref.decide(t, {k: v for k, v in opts.items() if k != "ksp_max_it"})
    if dec == "return":
        s["maxsteps"] = max(0, need + r.choice([-1, 0, 0, 1, -2, 3]))


def gen_opt(r):
    key = r.choice(["ksp_rtol", "ksp_atol", "ksp_max_it", "ksp_gmres_restart", "ksp_rtol", "ksp_max_it", "ksp_divtol"])
    val = {"ksp_rtol": ["1e-3", "1e-9", "0.3", "1e-1"], "ksp_atol": ["1e-3", "1e-30", "1e-9", "0.5"],
           "ksp_max_it": ["1", "3", "10", "60"], "ksp_gmres_restart": ["1", "2", "4", "20"],
           "ksp_divtol": ["0.5", "1.0", "10", "1e30"]}[key]
    return {"op": "opt", "key": key, "val": r.choice(val)}


def big_shift(r):
    n = r.choice([120, 150, 260, 350])
    if r.random() < 0.1:
        # just beyond the default number of iterations
        return {"A": {"k": "shift", "n": 101, "seed": 0, "par": 1.0}, "P": {"k": "id"},
                "b": {"k": "e1", "seed": 0, "scale": 1.0}, "faults": [], "printrates": False}
    if r.random() < 0.06:
        n = r.choice([600, 990, 1000, 1001, 1010])
    s = {"A": {"k": "shift", "n": n, "seed": 0, "par": 1.0}, "P": r.choice([{"k": "id"}, {"k": "scale", "par": 0.01}]),
         "b": {"k": "e1", "seed": 0, "scale": r.choice([1.0, 1e-3])}, "faults": [],
         "maxsteps": r.choice([n - 1, n, n + 1, n + 60, n + 5]), "printrates": False}
    if r.random() < 0.4:
        s["restart"] = r.choice([None, n, n - 1, 1000, 30])
    return s


def generate(prop, r, tier, idx):
    ops = []
    opts = {}

    def add_opts(p):
        while r.random() < p:
            if opts and r.random() < 0.4:
                k = r.choice(sorted(opts))
                opts.pop(k)
                ops.append({"op": "unopt", "key": k})
            else:
                o = gen_opt(r)
                opts[o["key"]] = o["val"]
                ops.append(o)
            p *= 0.5

    if prop in ("C01", "C02"):
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            add_opts(0.25)
            if prop == "C02" and r.random() < 0.04:
                s = big_shift(r)
            else:
                s = gen_spec(r, prop)
                if r.random() < (0.7 if prop == "C02" else 0.3):
                    tune_steps(r, s, opts)
                if r.random() < 0.35:
                    s["faults"] = [gen_fault(r, s, kinds=["nan", "inf", "nan", "raise", "corrupt", "nest"])
                                   for _ in range(r.choice([1, 1, 2]))]
            ops.append({"op": "solve", "s": s})
    elif prop == "C03":
        for _ in range(r.choice([1, 2, 3, 4, 5])):
            add_opts(0.15)
            s = gen_spec(r, prop)
            s["reltol"] = r.choice([0.5, 0.1, 1e-2, 1e-3, 1e-7])
            if r.random() < 0.7:
                s["faults"] = [gen_fault(r, s, kinds=["raise", "raise", "raise", "nan", "corrupt", "nest"])
                               for _ in range(r.choice([1, 1, 2]))]
            ops.append({"op": "solve", "s": s})
        if r.random() < 0.02:
            s = gen_spec(r, prop)
            if r.random() < 0.5:
                s["faults"] = [gen_fault(r, s, depth=1, kinds=["raise", "nan", "nest"])]
            ops.append({"op": "churn", "s": s, "times": r.choice([40, 100, 250])})
        s = gen_spec(r, prop)
        s["reltol"] = r.choice([0.5, 0.1, 1e-2])
        if r.random() < 0.5:  # same size as an earlier one
            prev = [o for o in ops if o["op"] == "solve"][-1]["s"]
            s["A"]["n"] = prev["A"]["n"]
        ops.append({"op": "solve", "s": s})
    elif prop == "C04":
        for _ in range(r.choice([1, 2, 3])):
            add_opts(0.15)
            s = gen_spec(r, prop)
            s["maxsteps"] = r.choice([50, 100, 200])
            if r.random() < 0.6:
                s["faults"] = [gen_fault(r, s, kinds=["corrupt", "corrupt", "corrupt", "nest"])
                               for _ in range(r.choice([1, 1, 2]))]
            ops.append({"op": "solve", "s": s})
    elif prop == "C05":
        for _ in range(r.choice([1, 1, 2])):
            add_opts(0.1)
            if r.random() < 0.55:
                m = r.choice([2, 2, 3, 4])
                solves = []
                for _ in range(m):
                    s = gen_spec(r, prop, small=r.random() < 0.6)
                    s["reltol"] = r.choice([0.3, 1e-2, 1e-4, 1e-7])
                    if r.random() < 0.3:
                        s["faults"] = [gen_fault(r, s, depth=1, no_raise=True)]
                    solves.append(s)
                if r.random() < 0.6:
                    for s in solves[1:]:
                        s["A"]["n"] = solves[0]["A"]["n"]
                ops.append({"op": "par", "solves": solves,
                            "sched": [r.randrange(m) if r.random() < 0.6 else -1 for _ in range(r.choice([10, 40, 150]))]})
            else:
                s = gen_spec(r, prop)
                s["reltol"] = r.choice([0.3, 1e-2, 1e-4, 1e-7])
                if r.random() < 0.15 and s["A"]["k"] in ("spd", "idskew", "clustered", "diag"):
                    s["P"] = {"k": "inner"}
                    s["reltol"] = 1e-5
                s["faults"] = []
                for _ in range(r.choice([1, 1, 2, 3])):
                    f = gen_fault(r, s, kinds=["nest"])
                    if r.random() < 0.5:
                        f["s"]["A"]["n"] = s["A"]["n"]
                    if s["P"]["k"] == "inner" and f["site"] == "P":
                        f["site"] = "A"
                    s["faults"].append(f)
                ops.append({"op": "solve", "s": s})
    elif prop == "C06":
        if r.random() < 0.4:
            s = gen_spec(r, prop)
            s["A"] = {"k": r.choice(["diag", "shift", "ident"]), "n": r.choice([200, 500, 1500]), "par": 5, "seed": 1}
            if s["A"]["k"] == "shift":
                s["A"]["n"] = 90
            s["P"] = {"k": "id"}
            s["b"]["k"] = r.choice(["rand", "e1"])
            s["restart"] = r.choice([5, 20, 60])
            s["maxsteps"] = r.choice([3, 10, 60])
            s["faults"] = [gen_fault(r, s, depth=1)] if r.random() < 0.5 else []
            ops.append({"op": "repeat", "s": s, "times": r.choice([4, 8])})
        else:
            for _ in range(r.choice([1, 2, 3])):
                s = gen_spec(r, prop)
                if r.random() < 0.7:
                    s["faults"] = [gen_fault(r, s)]
                ops.append({"op": "solve", "s": s})
    return {"world": "gmres", "ops": ops}


# --------------------------------------------------------------- shrinking


def shrink_spec(s):
    if s.get("faults"):
        for sub in core.list_shrinks(s["faults"]):
            yield {**s, "faults": sub}
        for i, f in enumerate(s["faults"]):
            if f["do"] == "nest":
                for sub in shrink_spec(f["s"]):
                    nf = copy.deepcopy(s["faults"])
                    nf[i]["s"] = sub
                    yield {**s, "faults": nf}
            if f["at"] > 0:
                for v in (0, f["at"] // 2, f["at"] - 1):
                    nf = copy.deepcopy(s["faults"])
                    nf[i]["at"] = v
                    yield {**s, "faults": nf}
    for name in ("printrates", "restart", "tol", "reltol", "maxsteps"):
        if name in s:
            t = dict(s)
            t.pop(name)
            yield t
    n = s["A"]["n"]
    for m in (1, 2, 3, n // 2, n - 1):
        if 0 < m < n:
            yield {**s, "A": {**s["A"], "n": m}}
    if s["A"]["k"] not in ("diag", "ident"):
        yield {**s, "A": {"k": "diag", "n": n, "par": 3, "seed": 0}}
    if s["P"]["k"] not in ("id",):
        yield {**s, "P": {"k": "id"}}
    if s["b"].get("scale", 1.0) != 1.0:
        yield {**s, "b": {**s["b"], "scale": 1.0}}
    if s["b"]["k"] != "ones":
        yield {**s, "b": {**s["b"], "k": "ones"}}


def shrink(case):
    ops = case["ops"]
    for sub in core.list_shrinks(ops):
        yield {**case, "ops": sub}
    for i, op in enumerate(ops):
        def put(new, i=i):
            o = list(ops)
            o[i] = new
            return {**case, "ops": o}

        if op["op"] == "par":
            for sub in core.list_shrinks(op["solves"]):
                if sub:
                    yield put({**op, "solves": sub})
            for sub in core.list_shrinks(op["sched"]):
                yield put({**op, "sched": sub})
            for j, s in enumerate(op["solves"]):
                for ns in shrink_spec(s):
                    l2 = list(op["solves"])
                    l2[j] = ns
                    yield put({**op, "solves": l2})
        elif "s" in op:
            for ns in shrink_spec(op["s"]):
                yield put({**op, "s": ns})
            if op["op"] in ("repeat", "churn") and op["times"] > 2:
                yield put({**op, "times": 2})
                yield put({**op, "times": op["times"] // 2})
                yield put({**op, "times": op["times"] - 1})


def info(prop):
    return {
        "rule": "a case is a history of GMRES calls (operators, preconditioners, right-hand sides, limits, tolerances, "
                "run-time options), a fault plan for individual callback applications and, for parallel calls, a list of "
                "scheduling choices, all drawn from one seed; it counts as non-trivial when a solve made more than one "
                "operator application, threads switched inside callbacks, or solves were repeated",
        "time_unit": "callback applications",
        "fault_kinds": [f"{s}.{k}" for s in "AP" for k in ("nan", "inf", "corrupt", "nest", "raise:ValueError",
                                                          "raise:KeyboardInterrupt", "raise:MemoryError")],
        "distinct": "distinct traces: SHA-256 over the sequence of calls, outcomes, application counts and fired faults; "
                    "distinct schedules: sequences of running threads",
        "real": ["dxss.gmres", "PETSc 3.19 (KSP, PC and Mat shells)", "petsc4py"],
        "stubs": ["operator and preconditioner callbacks (dense matrices with injected faults)",
                  "thread scheduler (baton: one thread runs at a time, switches at callbacks)"],
        "assumptions": ["roundoff slack: residual comparisons allow 1e-13*n times the natural scale",
                        "decisions closer than 3% to a tolerance are not judged by C02",
                        "PETSc itself is trusted; threads interleave at callbacks only (PETSc is not thread-safe "
                        "inside its C code)"],
    }
