"""Independent reference for C01-C06: dense operators and restarted GMRES."""
from __future__ import annotations

import functools

import numpy as np


def rs(seed):
    return np.random.RandomState(seed & 0x7FFFFFFF)


@functools.lru_cache(maxsize=64)
def _dense(kind, n, seed, par):
    r = rs(seed)
    if kind == "ident":
        return np.eye(n)
    if kind == "spd":
        q, _ = np.linalg.qr(r.standard_normal((n, n)))
        return (q * np.linspace(1.0, par, n)) @ q.T
    if kind == "idskew":
        s = r.standard_normal((n, n))
        return np.eye(n) + par * (s - s.T) / np.sqrt(n)
    if kind == "shift":
        return np.roll(np.eye(n), 1, axis=0)
    if kind == "clustered":
        q, _ = np.linalg.qr(r.standard_normal((n, n)))
        ev = 1.0 + np.arange(n) % max(1, int(par))
        return (q * ev) @ q.T
    if kind == "rand":
        return r.standard_normal((n, n)) + par * np.sqrt(n) * np.eye(n)
    if kind == "diag":
        return np.diag(1.0 + np.arange(n) % max(1, int(par)))
    if kind == "wide":
        return np.diag(np.logspace(0, par, n))
    if kind == "nonnormal":
        a = np.diag(1.0 + np.arange(n) / n)
        a += np.triu(r.standard_normal((n, n)), 1) * par / np.sqrt(n)
        return a
    if kind == "singular":
        q, _ = np.linalg.qr(r.standard_normal((n, n)))
        ev = np.linspace(1.0, 3.0, n)
        ev[: max(1, n // 4)] = 0.0
        return (q * ev) @ q.T
    if kind == "nilpotent":
        return np.eye(n, k=-1)
    if kind == "zero":
        return np.zeros((n, n))
    raise KeyError(kind)


def operator(spec):
    return _dense(spec["k"], spec["n"], spec.get("seed", 0), spec.get("par", 1.0))


@functools.lru_cache(maxsize=64)
def _precond(akey, kind, seed, par):
    a = _dense(*akey)
    n = a.shape[0]
    r = rs(seed)
    if kind in ("id",):
        return np.eye(n)
    if kind == "scale":
        return par * np.eye(n)
    if kind == "jacobi":
        d = np.diag(a).copy()
        d[np.abs(d) < 1e-3] = 1.0
        return np.diag(1.0 / d)
    if kind in ("inv", "inner"):
        return np.linalg.inv(a)
    if kind == "approx":
        return np.linalg.inv(a + par * r.standard_normal((n, n)) / n)
    if kind == "wide":
        return np.diag(np.logspace(0, par, n)[r.permutation(n)])
    raise KeyError(kind)


def precond(spec):
    a = spec["A"]
    p = spec["P"]
    return _precond((a["k"], a["n"], a.get("seed", 0), a.get("par", 1.0)), p["k"], p.get("seed", 0), p.get("par", 1.0))


def rhs(spec):
    n = spec["A"]["n"]
    b = spec["b"]
    k = b["k"]
    if k == "rand":
        v = rs(b.get("seed", 0)).standard_normal(n)
    elif k == "ones":
        v = np.ones(n)
    elif k == "e1":
        v = np.zeros(n)
        v[0] = 1.0
    elif k == "zero":
        v = np.zeros(n)
    elif k == "range":
        v = operator(spec["A"]) @ rs(b.get("seed", 0)).standard_normal(n)
    else:
        raise KeyError(k)
    return v * b.get("scale", 1.0)


DEFAULTS = {"maxsteps": 100, "tol": 1e-12, "reltol": 1e-7, "restart": 1000}


def effective(spec, opts):
    def val(name):
        v = spec.get(name)
        return DEFAULTS[name] if v is None else v

    rtol = float(opts.get("ksp_rtol", val("reltol")))
    atol = float(opts.get("ksp_atol", val("tol")))
    max_it = int(opts.get("ksp_max_it", val("maxsteps")))
    restart = int(opts.get("ksp_gmres_restart", val("restart")))
    return rtol, atol, max_it, restart


def gmres_history(a, minv, b, restart, max_it, stop, once=False, noise=0.0, seed=0):
    """Preconditioned residual norms rn[0..its] of restarted GMRES from zero.

    Also returns the smallest relative subdiagonal entry met before the last
    iteration (a tiny one means the Krylov space was exhausted).
    """
    n = len(b)
    x = np.zeros(n)
    rng = rs(seed) if noise else None

    def rounded(v):
        """v with errors of the size of `noise` relative to the whole vector."""
        if rng is None:
            return v
        return v + noise * np.linalg.norm(v) / np.sqrt(n) * rng.standard_normal(n)

    hist = []
    exhausted = False
    its = 0
    while True:
        r = minv @ (b - rounded(a @ x))
        beta = np.linalg.norm(r)
        if not hist:
            hist.append(beta)
        if beta <= 0 or beta <= stop or its >= max_it:
            return np.array(hist), exhausted
        m = min(restart, max_it - its)
        V = [r / beta]
        H = np.zeros((m + 1, m))
        best = None
        for j in range(m):
            w = rounded(minv @ (a @ V[j]))
            nw = np.linalg.norm(w)
            for _ in range(1 if once else 2):
                for i in range(j + 1):
                    c = V[i] @ w
                    H[i, j] += c
                    w = w - c * V[i]
            H[j + 1, j] = np.linalg.norm(w)
            e = np.zeros(j + 2)
            e[0] = beta
            y, *_ = np.linalg.lstsq(H[: j + 2, : j + 1], e, rcond=None)
            rn = np.linalg.norm(e - H[: j + 2, : j + 1] @ y)
            its += 1
            hist.append(rn)
            best = y
            if rn <= stop:
                return np.array(hist), exhausted
            if H[j + 1, j] <= 1e-11 * max(nw, 1e-300):
                exhausted = True
                return np.array(hist), exhausted
            V.append(w / H[j + 1, j])
        x = x + np.array(V[: len(best)]).T @ best


def decide(spec, opts):
    """'return', 'raise' or None (undetermined) plus the iterations needed."""
    if float(opts.get("ksp_divtol", 1e5)) <= 1.0:
        verdict = _decide(spec, opts, stop_at_once=True)
        return verdict if verdict[0] is None or verdict[1] == 0 else ("raise", None)
    return _decide(spec, opts)


def _decide(spec, opts, stop_at_once=False):
    rtol, atol, max_it, restart = effective(spec, opts)
    b = rhs(spec)
    A = spec["A"]
    if A["k"] == "shift" and A["n"] > 100:
        assert spec["b"]["k"] == "e1" and spec["P"]["k"] in ("id", "scale")
        p = spec["P"].get("par", 1.0) if spec["P"]["k"] == "scale" else 1.0
        rn0 = abs(p) * np.linalg.norm(b)
        ttol = max(rtol * rn0, atol)
        if rn0 <= ttol * (1 - 1e-6):
            return "return", 0
        if rn0 <= ttol * (1 + 1e-6) or ttol < 1e-11 * rn0:
            return None, None
        need = A["n"] if restart >= A["n"] else None
        if need is not None and max_it >= need:
            return "return", need
        return "raise", need
    a = operator(A)
    minv = precond(spec)
    rn0 = np.linalg.norm(minv @ b)
    ttol = max(rtol * rn0, atol)
    if rn0 == 0:
        return "return", 0
    if stop_at_once:  # counted as diverging before the first iteration
        if abs(rn0 - ttol) <= 1e-6 * ttol:
            return None, None
        return ("return", 0) if rn0 < ttol else ("raise", None)
    if ttol < 1e-10 * rn0:
        return None, None
    runs = []
    for k in range(len(VARIANTS)):
        runs.append(_verdict(a, minv, b, restart, max_it, ttol, rn0, k))
        verdict = runs[0][0]
        if runs[-1][0] != verdict:
            return None, None
    if not _settled(verdict, [h for _, h in runs], ttol):
        return None, None
    if verdict[0] == "raise" and np.linalg.cond(minv @ a) > 1e12:
        return None, None  # stagnation on a singular operator: see the known finding for C01
    return verdict


# noise relative to each vector, and whether vectors are orthogonalised once only
VARIANTS = [(0.0, False), (1e-15, True), (1e-14, False), (1e-16, False), (1e-13, True), (3e-16, True), (3e-15, False)]


def _verdict(a, minv, b, restart, max_it, ttol, rn0, k):
    """One reference run; k > 0 perturbs the vectors at round-off level, so that only
    decisions which do not hang on round-off (in long or ill-conditioned runs) are kept."""
    level, once = VARIANTS[k]
    hist, exhausted = gmres_history(a, minv, b, restart, max_it, 0.3 * ttol, once=once, noise=level, seed=1000 + k)
    noise = 1e-12 * rn0
    lo = np.nonzero(hist <= ttol * 0.97 - noise)[0]
    hi = np.nonzero(hist <= ttol * 1.03 + noise)[0]
    if len(lo) and len(hi) and lo[0] == hi[0] and lo[0] <= max_it:
        return ("return", int(lo[0])), hist
    if not len(hi) and not exhausted:
        return ("raise", None), hist
    return (None, None), hist


def _settled(verdict, hists, ttol):
    """Whether the verdict keeps a margin of the cube of what round-off makes of the residuals."""

    def clear(i, above):
        at = [max(h[i], 0.01 * ttol) for h in hists]
        margin = (max(at) / min(at)) ** 3
        return min(at) > ttol * margin if above else max(at) * margin < ttol

    dec, need = verdict
    if dec == "return":
        return (need == 0 or clear(need - 1, True)) and all(len(h) > need for h in hists) and clear(need, False)
    if dec == "raise":
        return clear(min(len(h) for h in hists) - 1, True)
    return False


def exhaustion(spec, opts):
    """Iterations after which the Krylov space is exhausted, or None if it is not."""
    _, _, max_it, restart = effective(spec, opts)
    hist, exhausted = gmres_history(operator(spec["A"]), precond(spec), rhs(spec), restart, max_it, -1.0)
    return len(hist) - 1 if exhausted else None
