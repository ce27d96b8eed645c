"""Simulated MPI ranks: one forked process each, of which exactly one runs at any time.

Every call of a rank to the outside (gmsh, files, standard output, DOLFINx, MPI) passes a point.
The engine holds each rank at its points and decides, from the schedule it is given, which one goes
on, and from the fault plan, whether the call fails, is torn, or takes the job down. Collective calls
wait for the other ranks as MPI lets them. Used by the mesh world and by the demonstrations of
planted changes; with no engine running everything passes straight through (one rank).
"""
from __future__ import annotations

import gc
import os
import pickle
import random
import select
import socket
import struct
import sys
import types

import simkernel as sk

# ---------------------------------------------------------------- rank side


class _Local:
    sock = None
    rank = 0
    size = 1
    root = None  # scratch directory whose files are watched
    quiet = 0


local = _Local()


def _send(sock, obj):
    b = pickle.dumps(obj, protocol=4)
    sock.sendall(struct.pack("<Q", len(b)) + b)


def _recv(sock):
    def take(n):
        out = bytearray()
        while len(out) < n:
            chunk = sock.recv(min(n - len(out), 1 << 20))
            if not chunk:
                raise EOFError
            out += chunk
        return bytes(out)

    (n,) = struct.unpack("<Q", take(8))
    return pickle.loads(take(n))


def ask(msg):
    local.quiet += 1
    try:
        _send(local.sock, msg)
        r = _recv(local.sock)
    except (EOFError, OSError):
        os._exit(7)
    finally:
        local.quiet -= 1
    if r[0] == "go":
        return r[1]
    if r[0] == "die":
        os._exit(9)
    raise _exception(r[1], msg[1])  # not kept in a variable: the frame would keep the exception alive


def _exception(kind, site):
    e = _new_exception(kind, site)
    e.simulated = True
    return e


def _new_exception(kind, site):
    if kind == "interrupt":
        return KeyboardInterrupt("simulated interrupt")
    if kind == "memory":
        return MemoryError("simulated")
    if kind == "short":
        return OSError(28, "simulated: no space left on device")
    if site.startswith("gmsh."):
        return Exception("simulated gmsh failure")
    if site.startswith("file."):
        return OSError(5, "simulated input/output error")
    if site == "stdout":
        return BrokenPipeError(32, "simulated broken pipe")
    return RuntimeError(f"simulated failure of {site}")


def injected_in(e):
    seen = set()
    while e is not None and id(e) not in seen:
        if getattr(e, "simulated", False):
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def _rel(path):
    return os.path.relpath(os.path.abspath(path), local.root)


def point(site, **info):
    if local.sock is None or local.quiet:
        return None
    if "path" in info:
        info["path"] = _rel(info["path"])
    return ask(("point", site, info))


def collective(site, data=None, mode="sync", root=0, key=""):
    """All ranks' data in rank order; mode: sync (all wait), bcast (wait for root), gather (root waits)."""
    if local.sock is None or local.quiet:
        return [data]
    return ask(("coll", site, {"mode": mode, "root": root, "key": str(key)}, data))


def hook(site, info):
    f = info.get("file")
    if not info.get("collective"):
        return point(site, **({"path": f.filename, "mode": f.mode} if f is not None else {}))
    if site == "gmshio.model_to_mesh":
        return collective(site, info["data"], key=info["root"])[info["root"] if local.sock else 0]
    if site == "mesh.create_mesh":
        return collective(site, info["data"])
    if site == "mesh.refine":
        return collective(site, info["data"])
    if f is not None:
        if site == "xdmf.close" and f.mode == "r":
            return point(site, path=f.filename, mode=f.mode)
        return collective(site, info.get("data"), key=f"{os.path.basename(f.filename)} {f.mode}")
    return collective(site, info.get("data"))


class Comm(sk.SimComm):
    @property
    def rank(self):
        return local.rank

    @property
    def size(self):
        return local.size

    def barrier(self):
        collective("comm.barrier")

    Barrier = barrier

    def bcast(self, obj=None, root=0):
        return collective("comm.bcast", obj if local.rank == root else None, "bcast", root, root)[
            root if local.sock else 0]

    def Bcast(self, buf, root=0):
        import numpy as np

        got = self.bcast(np.array(buf), root)
        if local.rank != root:
            buf[...] = got

    def gather(self, obj, root=0):
        all_ = collective("comm.gather", obj, "gather", root, root)
        return all_ if local.rank == root else None

    def allgather(self, obj):
        return collective("comm.allgather", obj)

    def scatter(self, objs=None, root=0):
        return self.bcast(objs, root)[local.rank]

    def allreduce(self, obj, op=None):
        return _reduce(collective("comm.allreduce", obj), op)

    def reduce(self, obj, op=None, root=0):
        all_ = collective("comm.reduce", obj, "gather", root, root)
        return _reduce(all_, op) if local.rank == root else None

    def Dup(self):
        collective("comm.Dup")
        return self

    def Abort(self, code=1):
        if local.sock is not None:
            ask(("abort", "comm.Abort", {}))
        raise SystemExit(code)

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise sk.SimUnsupported(f"MPI communicator method {name}")


def _reduce(values, op):
    name = op if isinstance(op, str) else "SUM"
    out = values[0]
    for v in values[1:]:
        out = {"SUM": lambda a, b: a + b, "MAX": max, "MIN": min, "LAND": lambda a, b: a and b,
               "LOR": lambda a, b: a or b, "PROD": lambda a, b: a * b}[name](out, v)
    return out


class SelfComm(sk.SimComm):
    """A communicator of this rank alone."""


class Stdout:
    encoding = "utf-8"

    def write(self, text):
        if text.strip():
            point("stdout")
        return len(text)

    def flush(self):
        pass

    def isatty(self):
        return False


def install():
    """Replace mpi4py, and put points into gmsh, meshio and h5py. Call before dxss is imported."""
    mpi = types.ModuleType("mpi4py")
    mpi.__path__ = []
    MPI = types.ModuleType("mpi4py.MPI")
    MPI.COMM_WORLD, MPI.COMM_SELF, MPI.Comm = Comm(), SelfComm(), Comm
    for op in ("SUM", "MAX", "MIN", "LAND", "LOR", "PROD"):
        setattr(MPI, op, op)
    MPI.__getattr__ = lambda name: _missing(f"MPI.{name}")
    mpi.MPI = MPI
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = mpi, MPI
    import gmsh
    import h5py
    import meshio

    _wrap_tree(gmsh, "gmsh")

    def around(mod, name, site, mode, after=None):
        f = getattr(mod, name)

        def g(path, *a, **kw):
            point(site, path=str(path), mode=mode)
            out = f(path, *a, **kw)
            if after:
                point(after, path=str(path), mode=mode)
            return out

        g.__name__ = name
        return g

    for name, site, mode, after in (("read", "file.read", "r", None), ("write", "file.write", "w", "file.written")):
        g = around(meshio._helpers, name, site, mode, after)
        setattr(meshio._helpers, name, g)
        setattr(meshio, name, g)

    old_init = h5py.File.__init__

    def init(self, name, mode="r", *a, **kw):
        if isinstance(name, (str, os.PathLike)):
            point("file.open", path=str(name), mode=mode)
        old_init(self, name, mode, *a, **kw)

    h5py.File.__init__ = init


def _missing(what):
    if what.rsplit(".", 1)[1].startswith("__"):
        raise AttributeError(what)
    raise sk.SimUnsupported(what)


def _wrap_tree(obj, prefix):
    for name, v in list(vars(obj).items()):
        if name.startswith("_"):
            continue
        if isinstance(v, type) and v.__module__ == "gmsh":
            _wrap_tree(v, f"{prefix}.{name}")
        else:
            f = v.__func__ if isinstance(v, staticmethod) else v
            if isinstance(f, types.FunctionType) and getattr(f, "__module__", "") == "gmsh":
                w = _wrapped(f, f"{prefix}.{name}")
                setattr(obj, name, staticmethod(w) if isinstance(obj, type) else w)


def _wrapped(f, site):
    writes = site == "gmsh.write"

    def g(*a, **kw):
        if local.sock is None or local.quiet:
            return f(*a, **kw)
        if writes:
            path = _rel(str(a[0] if a else kw.get("fileName")))
            ask(("point", "file.gmsh", {"path": path, "mode": "w"}))
        else:
            ask(("point", site, {}))
        local.quiet += 1  # gmsh functions call one another
        try:
            out = f(*a, **kw)
        finally:
            local.quiet -= 1
        if writes:
            ask(("point", "file.written", {"path": path, "mode": "w"}))
        return out

    g.__name__ = f.__name__
    g.__doc__ = f.__doc__
    return g


def _audit(event, args):
    if local.sock is None or local.quiet:
        return
    if event == "open":
        path, mode, flags = args
        if not isinstance(path, (str, bytes)):
            return
        path = os.fsdecode(path)
        if not _inside(path):
            return
        w = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)) if isinstance(flags, int) \
            else any(c in (mode or "r") for c in "wax+")
        point("file.open", path=path, mode="w" if w else "r")
    elif event in ("os.rename", "os.remove", "os.truncate", "os.link", "os.symlink", "shutil.move", "shutil.copyfile"):
        paths = [os.fsdecode(p) for p in args if isinstance(p, (str, bytes))]
        if paths and _inside(paths[-1]):
            point("file." + event.split(".")[1], path=paths[-1], mode="w")


def _inside(path):
    return os.path.abspath(path).startswith(local.root + os.sep)


# -------------------------------------------------------------- engine side


class Schedule:
    """spec: {"mode": "rand", "seed": n} or {"mode": "prio", "order": [...], "changes": [step, ...]}"""

    def __init__(self, spec, size):
        self.spec = spec or {"mode": "prio", "order": []}
        self.size = size
        self.n = 0
        if self.spec["mode"] == "rand":
            self.rng = random.Random(self.spec["seed"])
            self.cur = 0
        else:
            self.order = [r for r in self.spec.get("order", []) if r < size]
            self.order += [r for r in range(size) if r not in self.order]
            self.changes = set(self.spec.get("changes", []))

    def pick(self, runnable):
        self.n += 1
        if self.spec["mode"] == "rand":
            # runs of the same rank, so that one can get far ahead of the others
            if self.cur not in runnable or self.rng.random() < self.spec.get("switch", 0.3):
                self.cur = runnable[self.rng.randrange(len(runnable))]
            return self.cur
        best = min(runnable, key=self.order.index)
        if self.n in self.changes:
            self.order.remove(best)
            self.order.append(best)
        return best

    def coin(self):
        return self.rng.random() < 0.5 if self.spec["mode"] == "rand" else True


class Job:
    """One life of the rank processes: from start to the end of all calls, a crash or a deadlock.

    body(rank, i) performs call i and returns a picklable value. fault(rank, call, site, info, count) is
    asked at every point and returns None or a fault kind.
    """

    def __init__(self, size, ncalls, body, schedule=None, fault=None, root=None, watch=None, step_limit=200000):
        self.size, self.ncalls, self.body = size, ncalls, body
        self.sched = Schedule(schedule, size)
        self.fault = fault or (lambda *a: None)
        self.watch = watch or (lambda *a: None)
        self.root = os.path.realpath(root or os.getcwd())
        self.step_limit = step_limit
        self.results = [[None] * ncalls for _ in range(size)]
        self.mismatch = None
        self.died = None
        self.stuck = None
        self.picks = []

    def _child(self, rank, sock):
        local.sock, local.rank, local.size, local.root = None, rank, self.size, self.root
        sk.hook = hook
        sys.stdout = Stdout()
        sys.addaudithook(_audit)
        local.sock = sock
        ask(("start", "", {}))
        for i in range(self.ncalls):
            try:
                out = ("ok", self.body(rank, i))
            except sk.SimUnsupported as e:
                out = ("unsupported", repr(e)[:300])
            except BaseException as e:  # noqa: BLE001
                out = ("raised", type(e).__name__, str(e)[:300], injected_in(e))
            if out[0] == "raised":
                gc.collect()  # files held open by a dead traceback are closed some time or other
            ask(("done", "", {"i": i, "out": out}))
        local.quiet += 1
        _send(sock, ("end", "", {}))
        os._exit(0)

    def run(self):
        socks, pids = [], []
        sys.stdout.flush()
        sys.stderr.flush()
        for r in range(self.size):
            a, b = socket.socketpair()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    a.close()
                    for s in socks:
                        s.close()
                    self._child(r, b)
                    code = 0
                finally:
                    os._exit(code)
            b.close()
            socks.append(a)
            pids.append(pid)
        try:
            self._loop(socks)
        finally:
            for p in pids:
                try:
                    os.kill(p, 9)
                except ProcessLookupError:
                    pass
            for p in pids:
                os.waitpid(p, 0)
            for s in socks:
                s.close()
        return self

    def _loop(self, socks):
        n = self.size
        pend, call, count, colls = [None] * n, [0] * n, [0] * n, [0] * n
        arrived = {}  # collective number -> {rank: (site, info, data)}
        waiting = {}  # rank -> collective number

        def get(r):
            try:
                pend[r] = _recv(socks[r])
            except EOFError:
                self.died = (r, call[r], "process ended")

        def released(r):
            k = waiting[r]
            got = arrived[k]
            site, info, _ = got[r]
            if info["mode"] == "bcast":
                return info["root"] in got
            if info["mode"] == "gather":
                return len(got) == n or r != info["root"]
            return len(got) == n

        for r in range(n):
            get(r)
        while self.died is None:
            live = [r for r in range(n) if pend[r] is not None and pend[r][0] != "end"]
            if not live:
                return
            ready = [r for r in live if r not in waiting or released(r)]
            if not ready:
                self.stuck = {r: (call[r], arrived[waiting[r]][r][0]) for r in live}
                return
            r = self.sched.pick(ready)
            self.picks.append(r)
            if len(self.picks) > self.step_limit:
                self.stuck = {"steps": self.step_limit}
                return
            m = pend[r]
            kind, site, info = m[:3]
            if r in waiting:
                k = waiting.pop(r)
                got = arrived[k]
                data = [got[q][2] if q in got else None for q in range(n)]
                self.watch("collective", r, call[r], site, data)
                reply = ("go", data)
            elif kind == "start":
                reply = ("go", None)
            elif kind == "done":
                self.results[r][info["i"]] = info["out"]
                self.watch("done", r, info["i"], "", info["out"])
                call[r] = info["i"] + 1
                count[r] = 0
                reply = ("go", None)
            elif kind == "abort":
                self.died = (r, call[r], "MPI_Abort")
                return
            else:
                f = self.fault(r, call[r], site, info, count[r])
                count[r] += 1
                self.watch("point", r, call[r], site, info)
                if f == "die":
                    _send(socks[r], ("die",))
                    self.died = (r, call[r], site)
                    return
                if f in ("torn", "short"):
                    _tear(self.root, info["path"], self.tear_spec)
                    if f == "torn":
                        _send(socks[r], ("die",))
                        self.died = (r, call[r], site)
                        return
                if f:
                    reply = ("raise", f)
                elif kind == "coll":
                    k = colls[r]
                    colls[r] += 1
                    got = arrived.setdefault(k, {})
                    for q, (s2, i2, _) in got.items():
                        if (s2, i2) != (site, info) and self.mismatch is None:
                            self.mismatch = (q, s2, i2["key"], r, site, info["key"])
                    got[r] = (site, info, m[3])
                    waiting[r] = k
                    if self.mismatch:
                        return
                    continue
                else:
                    reply = ("go", None)
            pend[r] = None
            _send(socks[r], reply)
            get(r)


def _tear(root, path, spec):
    """Leave a file short: spec = (which, fraction); which selects the light or heavy part of XDMF."""
    which, frac = spec
    p = os.path.join(root, path)
    if which and p.endswith(".xdmf") and os.path.exists(p[:-5] + ".h5"):
        p = p[:-5] + ".h5"
    if os.path.exists(p):
        size = os.path.getsize(p)
        os.truncate(p, int(size * frac))


Job.tear_spec = (0, 0.5)


def run_ranks(size, calls, order=(), root=None):
    """Demonstrations: run the list of calls on every rank; ranks earlier in order go first whenever they can."""
    job = Job(size, len(calls), lambda rank, i: calls[i](), {"mode": "prio", "order": list(order)}, root=root)
    return job.run()
