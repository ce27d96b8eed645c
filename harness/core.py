"""Core of the deterministic simulator: cases, isolated execution, search,
minimisation, replay and evidence.

A *case* is a JSON value that fixes everything nondeterministic about one
simulated execution: configuration, history of calls, fault plan and the
scheduling choices.  Cases are generated from a seed by a world's `generate`
and executed by its `execute`; `execute` is a function of the case and the
code under test only.  Each case runs in a process of its own, forked from a
parent that has only imported the code, so no execution can see another one.
"""
from __future__ import annotations

import hashlib
import json
import mmap
import os
import random
import select
import signal
import sys
import time
import traceback


class SimUnsupported(AttributeError):
    """The code under test used a part of an external API the simulator does not model."""


class HarnessError(Exception):
    pass


class Rec:
    """Recorder for one execution: event log, fault counts, probes, violations."""

    def __init__(self):
        self.events = []
        self.faults = {}
        self.probes = {}
        self.violations = []
        self.errors = []
        self.simtime = 0
        self.nontrivial = False
        self.checks = 0
        self._h = hashlib.sha256()
        self.nevents = 0
        self.sched = []

    def event(self, *parts):
        s = "|".join(str(p) for p in parts)
        self._h.update(s.encode() + b"\n")
        self.nevents += 1
        if len(self.events) < 400:
            self.events.append(s)

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def check(self, prop, kind, ok, msg="", n=1):
        self.checks += n
        if not ok:
            self.violate(prop, kind, msg() if callable(msg) else msg)
        return ok

    def violate(self, prop, kind, msg):
        self.violations.append({"property": prop, "kind": kind, "msg": str(msg)[:2000]})
        self.event("VIOLATION", prop, kind)

    def result(self):
        return {
            "violations": self.violations,
            "faults": self.faults,
            "probes": self.probes,
            "errors": self.errors,
            "simtime": self.simtime,
            "nontrivial": self.nontrivial,
            "checks": self.checks,
            "digest": self._h.hexdigest()[:24],
            "nevents": self.nevents,
            "events": self.events[-60:],
            "sched": hashlib.sha256(repr(self.sched).encode()).hexdigest()[:16] if self.sched else "",
        }


def rng_for(*parts):
    return random.Random("|".join(str(p) for p in parts))


def quiet_child():
    """Send everything the code under test prints to /dev/null."""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    if not os.environ.get("SIM_STDERR"):
        os.dup2(fd, 2)
    os.close(fd)


def run_isolated(func, timeout):
    """Run func() -> JSON value in a forked child. Returns (status, value)."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            quiet_child()
            try:
                val = {"ok": func()}
            except BaseException as e:  # noqa: BLE001
                val = {"harness_error": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"}
            data = json.dumps(val).encode()
            off = 0
            while off < len(data):
                off += os.write(w, data[off:])
        except BaseException:  # noqa: BLE001
            code = 99
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    status = "ok"
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            status = "timeout"
            break
        rd, _, _ = select.select([r], [], [], min(left, 1.0))
        if rd:
            c = os.read(r, 1 << 16)
            if not c:
                break
            chunks.append(c)
    os.close(r)
    if status == "timeout":
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    try:
        os.killpg(pid, signal.SIGKILL)
    except OSError:
        pass
    if status == "timeout":
        return "timeout", None
    data = b"".join(chunks)
    try:
        val = json.loads(data)
    except ValueError:
        return "crash", f"wait status {st}"
    if "ok" in val:
        return "ok", val["ok"]
    return "error", val["harness_error"]


def execute_case(world, prop, case, timeout):
    """Execute one case in isolation; always returns a result dict."""

    def go():
        rec = Rec()
        try:
            world.execute(prop, case, rec)
        except SimUnsupported as e:
            rec.errors.append(f"unsupported: {e}\n{traceback.format_exc()[-1500:]}")
        return rec.result()

    t0 = time.monotonic()
    status, val = run_isolated(go, timeout)
    if status == "ok":
        res = val
    else:
        res = Rec().result()
        if status == "timeout":
            res["timeout"] = True
            res["violations"] = [{"property": prop, "kind": "no-progress",
                                  "msg": f"the execution made no progress to its end within {timeout} s"}]
        elif status == "crash":
            res["violations"] = [{"property": prop, "kind": "process-died",
                                  "msg": f"the process executing the history died: {val}"}]
        else:
            res["errors"] = [val]
    res["wall"] = time.monotonic() - t0
    return res


# ---------------------------------------------------------------- search


def search(world, prop, tier, seed, ncases, workers, time_cap, case_timeout, alarm=None, after_alarm=None):
    """Run cases 0..ncases-1 on `workers` processes. Returns list of (idx, case, result).

    Once `alarm(line)` holds for a case, the search goes on for `after_alarm` seconds only: what is left of the
    budget would find the same defect again."""
    t_end = time.monotonic() + time_cap
    stop = mmap.mmap(-1, 1)
    pipes = []
    sys.stdout.flush()
    for wid in range(workers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                out = os.fdopen(w, "wb")
                for idx in range(wid, ncases, workers):
                    if time.monotonic() > t_end or stop[0]:
                        break
                    case = world.generate(prop, rng_for(seed, prop, idx), tier, idx)
                    res = execute_case(world, prop, case, case_timeout)
                    keep = res["violations"] or res["errors"] or idx < 40
                    if not keep:
                        res.pop("events", None)
                    line = {"idx": idx, "res": res, "case": case if keep else None,
                            "chash": hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]}
                    out.write(json.dumps(line).encode() + b"\n")
                    out.flush()
                    if res.get("timeout"):
                        break  # further hangs would only cost time
            except BaseException:  # noqa: BLE001
                traceback.print_exc()
                code = 98
            os._exit(code)
        os.close(w)
        pipes.append((pid, r))
    bufs = {r: b"" for _, r in pipes}
    open_fds = [r for _, r in pipes]
    results = []
    t_alarm = None
    while open_fds:
        rd, _, _ = select.select(open_fds, [], [], 1)
        if t_alarm is not None and time.monotonic() > t_alarm + after_alarm:
            stop[0] = 1
        for fd in rd:
            c = os.read(fd, 1 << 20)
            if not c:
                open_fds.remove(fd)
                continue
            bufs[fd] += c
            *lines, bufs[fd] = bufs[fd].split(b"\n")
            for ln in lines:
                results.append(json.loads(ln))
                if t_alarm is None and after_alarm is not None and alarm(results[-1]):
                    t_alarm = time.monotonic()
    bad = 0
    for pid, r in pipes:
        os.close(r)
        _, st = os.waitpid(pid, 0)
        bad += st != 0
    if bad:
        raise HarnessError(f"{bad} search workers failed")
    results.sort(key=lambda d: d["idx"])
    return results


# ------------------------------------------------------------- minimise


def minimise(world, prop, case, kind, case_timeout, budget_s):
    """Greedy delta debugging over the JSON case, keeping (property, kind)."""
    t_end = time.monotonic() + budget_s
    tried = set()
    runs = 0

    def fails(c):
        nonlocal runs
        key = json.dumps(c, sort_keys=True)
        if key in tried:
            return False
        tried.add(key)
        runs += 1
        res = execute_case(world, prop, c, case_timeout)
        return any(v["property"] == prop and v["kind"] == kind for v in res["violations"])

    changed = True
    while changed and time.monotonic() < t_end:
        changed = False
        for cand in world.shrink(case):
            if time.monotonic() > t_end:
                break
            if json.dumps(cand, sort_keys=True) == json.dumps(case, sort_keys=True):
                continue
            if fails(cand):
                case = cand
                changed = True
                break
    return case, runs


def list_shrinks(lst):
    """Sublists with chunks removed, largest chunks first."""
    n = len(lst)
    size = n
    while size >= 1:
        for i in range(0, n, size):
            yield lst[:i] + lst[i + size:]
        size //= 2
