"""Reference model of the stabilised slab-wise space-time discretisation.

Written from the method, independent of dxss and of UFL: exact time matrices from numpy
polynomials, spatial matrices from the basis tables of the mesh stand-in, both combined by
Kronecker products. Vectors are laid out by component (field, slab, time node), each a scalar
finite element function in the numbering of the scalar space.
"""
from __future__ import annotations

from functools import lru_cache

import numpy as np
import scipy.sparse as sp
from numpy.polynomial import Polynomial as P

FIELDS = ("u1", "u2", "z1", "z2")


@lru_cache(maxsize=None)
def basis(q):
    if q == 0:
        return [P([1.0])]
    xs = np.linspace(0, 1, q + 1)
    out = []
    for i in range(q + 1):
        p = P([1.0])
        for j in range(q + 1):
            if j != i:
                p = p * P([-xs[j], 1.0]) / (xs[i] - xs[j])
        out.append(p)
    return out


def _int(p):
    a = p.integ()
    return a(1.0) - a(0.0)


@lru_cache(maxsize=None)
def time_matrices(q, qs):
    phi, chi = basis(q), basis(qs)
    return {
        "Mqs": np.array([[_int(p * c) for p in phi] for c in chi]),
        "Dqs": np.array([[_int(p.deriv() * c) for p in phi] for c in chi]),
        "Mqq": np.array([[_int(p * c) for p in phi] for c in phi]),
        "Dqq": np.array([[_int(p.deriv() * c) for p in phi] for c in phi]),
        "DDqq": np.array([[_int(p.deriv() * c.deriv()) for p in phi] for c in phi]),
        "Mss": np.array([[_int(p * c) for p in chi] for c in chi]),
    }


class Space:
    """Spatial matrices on one mesh. Everything is integrated exactly (up to the given mask)."""

    def __init__(self, mesh, k, ks, mask):
        from dolfinx import _forms, fem

        self.mesh, self.k, self.ks = mesh, k, ks
        self._lay = {d: fem._layout(mesh, ("P", d)) for d in {k, ks}}
        self.n = {d: self._lay[d].n for d in self._lay}
        self._f = _forms
        self.deg = 2 * max(k, ks) + 3
        self.mask = mask
        self.cache = {}

    def coords(self, d):
        return self._lay[d].x

    def _ctx(self, kind):
        return self._f.context(self.mesh, kind, self.deg)

    def _asm(self, dt, du, parts):
        """Sum of (test table, trial table, weight, test cells, trial cells)."""
        A = sp.csr_matrix((self.n[dt], self.n[du]))
        for tt, tu, w, ct, cu in parts:
            blk = np.einsum("eq,eqi,eqj->eij", w, tt, tu)
            r = self._lay[dt].dofs[ct][:, :, None]
            c = self._lay[du].dofs[cu][:, None, :]
            A = A + sp.coo_matrix((blk.ravel(), (np.broadcast_to(r, blk.shape).ravel(),
                                                 np.broadcast_to(c, blk.shape).ravel())), shape=A.shape).tocsr()
        return A

    def get(self, name, dt, du):
        key = (name, dt, du)
        if key not in self.cache:
            self.cache[key] = self._build(name, dt, du)
        return self.cache[key]

    def _build(self, name, dt, du):
        g = self.mesh.geometry.dim
        cells = np.arange(len(self.mesh.cells))
        ctx, w = self._ctx("cell")
        h = self.mesh.h[:, None]
        T = lambda d, *a: ctx.table(d, a, "+")  # noqa: E731
        lap = lambda d: sum(T(d, a, a) for a in range(g))  # noqa: E731
        one = lambda tt, tu, ww: self._asm(dt, du, [(tt, tu, ww, cells, cells)])  # noqa: E731
        if name == "M":
            return one(T(dt), T(du), w)
        if name == "K":
            return self._asm(dt, du, [(T(dt, a), T(du, a), w, cells, cells) for a in range(g)])
        if name == "ind":
            return one(T(dt), T(du), w * self.mask[:, None])
        if name == "h2M":
            return one(T(dt), T(du), w * h**2)
        if name == "h2LL":
            return one(lap(dt), lap(du), w * h**2)
        if name == "h2ML":  # (u, lap test)
            return one(lap(dt), T(du), w * h**2)
        if name == "h2LM":  # (lap u, test)
            return one(T(dt), lap(du), w * h**2)
        if name in ("bnd", "flux"):
            c, wb = self._ctx("exterior_facet")
            fc = c.sides["+"][0]
            if name == "bnd":
                return self._asm(dt, du, [(c.table(dt, (), "+"), c.table(du, (), "+"), wb / self.mesh.h[fc][:, None],
                                           fc, fc)])
            return self._asm(dt, du, [(c.table(dt, (), "+"), c.table(du, (a,), "+"), wb * c.normal[:, None, a], fc, fc)
                                      for a in range(g)])
        if name == "jump":
            c, wi = self._ctx("interior_facet")
            if c is None:
                return sp.csr_matrix((self.n[dt], self.n[du]))
            cp, cm = c.sides["+"][0], c.sides["-"][0]
            hh = 0.5 * (self.mesh.h[cp] + self.mesh.h[cm])[:, None]
            parts = []
            for st, ct, ft in (("+", cp, 1), ("-", cm, -1)):
                for su, cu, fu in (("+", cp, 1), ("-", cm, -1)):
                    for a in range(g):
                        parts.append((c.table(dt, (a,), st), c.table(du, (a,), su), wi * hh * ft * fu, ct, cu))
            return self._asm(dt, du, parts)
        raise KeyError(name)

    def load(self, d, fvals):
        """(f, test) with f given as values at the cell quadrature points."""
        ctx, w = self._ctx("cell")
        be = np.einsum("eq,eqi->ei", w * fvals, ctx.table(d, (), "+"))
        b = np.zeros(self.n[d])
        np.add.at(b, self._lay[d].dofs, be)
        return b

    def points(self):
        ctx, _ = self._ctx("cell")
        return ctx.x

    def weights(self):
        return self._ctx("cell")[1]

    def values(self, d, coef, deriv=()):
        ctx, _ = self._ctx("cell")
        return np.einsum("eqi,ei->eq", ctx.table(d, deriv, "+"), coef[self._lay[d].dofs])


class Ref:
    def __init__(self, space, q, qs, N, T, stabs, jumps=False, well_posed=False):
        self.s, self.q, self.qs, self.N, self.dt = space, q, qs, N, T / N
        self.T = T
        self.k, self.ks = space.k, space.ks
        self.gd, self.gs, self.gp, self.gj = (stabs[n] for n in ("data", "dual", "primal", "primal-jump"))
        self.jumps, self.well_posed = jumps, well_posed
        self.tm = time_matrices(q, qs)
        self.lam = 5 * self.k**2

    # --- layout
    def per(self, f):
        return (self.q if f in ("u1", "u2") else self.qs) + 1

    def deg(self, f):
        return self.k if f in ("u1", "u2") else self.ks

    def comps(self, N):
        return [(f, n, ell) for f in FIELDS for n in range(N) for ell in range(self.per(f))]

    def offsets(self, N):
        off, o = {}, 0
        for c in self.comps(N):
            off[c] = o
            o += self.s.n[self.deg(c[0])]
        return off, o

    # --- assembly of block sums
    def _matrix(self, N, terms):
        off, size = self.offsets(N)
        rows, cols, vals = [], [], []
        for (rc, cc), by_name in terms.items():
            for name, v in by_name.items():
                if v == 0.0:
                    continue
                r, c, a = self._coo(name, self.deg(rc[0]), self.deg(cc[0]))
                rows.append(r + off[rc])
                cols.append(c + off[cc])
                vals.append(v * a)
        if not rows:
            return sp.csr_matrix((size, size))
        return sp.coo_matrix((np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))),
                             shape=(size, size)).tocsr()

    def _coo(self, name, a, b):
        cache = self.__dict__.setdefault("_coos", {})
        if (name, a, b) not in cache:
            m = self.s.get(name, a, b).tocoo()
            cache[name, a, b] = (m.row.astype(np.int32), m.col.astype(np.int32), m.data)
        return cache[name, a, b]

    @staticmethod
    def _add(terms, rc, cc, name, v):
        d = terms.setdefault((rc, cc), {})
        d[name] = d.get(name, 0.0) + v

    def interior(self, terms, n):
        add, tm, dt = self._add, self.tm, self.dt
        q, qs = self.q, self.qs
        # wave equation tested with y, and its transpose: w tested with z
        for j in range(q + 1):
            for k in range(qs + 1):
                D, M = tm["Dqs"][k, j], tm["Mqs"][k, j]
                u1, u2, y1, y2 = ("u1", n, j), ("u2", n, j), ("z1", n, k), ("z2", n, k)
                add(terms, y1, u2, "M", D)
                add(terms, y1, u1, "K", dt * M)
                add(terms, y1, u1, "flux", -dt * M)
                add(terms, y2, u1, "M", D)
                add(terms, y2, u2, "M", -dt * M)
                add(terms, u2, y1, "M", D)
                add(terms, u1, y1, "K", dt * M)
                terms.setdefault(("T", u1, y1), 0.0)
                terms["T", u1, y1] += -dt * M
                add(terms, u1, y2, "M", D)
                add(terms, u2, y2, "M", -dt * M)
        for j in range(qs + 1):
            for k in range(qs + 1):
                M = self.gs * dt * tm["Mss"][k, j]
                add(terms, ("z1", n, k), ("z1", n, j), "M", -M)
                add(terms, ("z1", n, k), ("z1", n, j), "K", -M)
                add(terms, ("z1", n, k), ("z1", n, j), "bnd", -M * self.lam)
                add(terms, ("z2", n, k), ("z2", n, j), "M", -M)
        for j in range(q + 1):
            for k in range(q + 1):
                u1, u2, w1, w2 = ("u1", n, j), ("u2", n, j), ("u1", n, k), ("u2", n, k)
                M, D, DT, DD = tm["Mqq"][k, j], tm["Dqq"][k, j], tm["Dqq"][j, k], tm["DDqq"][k, j]
                g = self.gp
                add(terms, w1, u1, "ind", self.gd * dt * M)
                add(terms, w1, u1, "bnd", g * dt * M * self.lam)
                add(terms, w1, u1, "jump", g * dt * M)
                # |u2 - dt u1|^2 and h^2 |dt u2 - lap u1|^2
                add(terms, w2, u2, "M", g * dt * M)
                add(terms, w1, u2, "M", -g * DT)
                add(terms, w2, u1, "M", -g * D)
                add(terms, w1, u1, "M", g / dt * DD)
                add(terms, w2, u2, "h2M", g / dt * DD)
                add(terms, w1, u2, "h2ML", -g * D)
                add(terms, w2, u1, "h2LM", -g * DT)
                add(terms, w1, u1, "h2LL", g * dt * M)

    def _node(self, terms, f, trial, test, scale=1.0):
        """gamma_jump times the (M/dt [+ dt K]) product of two nodal combinations."""
        for ct, vt in test:
            for cu, vu in trial:
                v = vt * vu * scale
                self._add(terms, (f, *ct), (f, *cu), "M", v * self.gj / self.dt)
                if f == "u1":
                    self._add(terms, (f, *ct), (f, *cu), "K", v * self.gj * self.dt)

    def _finish(self, N, terms):
        """Transposed boundary terms have their test and trial roles swapped."""
        extra = {k: terms.pop(k) for k in list(terms) if k[0] == "T"}
        A = self._matrix(N, terms)
        off, size = self.offsets(N)
        rows, cols, vals = [], [], []
        for (_, rc, cc), v in extra.items():
            if v == 0.0:
                continue
            B = (v * self.s.get("flux", self.deg(cc[0]), self.deg(rc[0]))).T.tocoo()
            rows.append(B.row + off[rc])
            cols.append(B.col + off[cc])
            vals.append(B.data)
        if rows:
            A = A + sp.coo_matrix((np.concatenate(vals), (np.concatenate(rows), np.concatenate(cols))),
                                  shape=(size, size)).tocsr()
        return A

    def full(self, precond=False):
        terms = {}
        q = self.q
        for n in range(self.N):
            self.interior(terms, n)
            if n == 0 and self.well_posed:
                for f in ("u1", "u2"):
                    self._node(terms, f, [((0, 0), 1.0)], [((0, 0), 1.0)])
            if n == 0:
                continue
            jump = [((n, 0), 1.0), ((n - 1, q), -1.0)]
            for f in ("u1", "u2"):
                self._node(terms, f, jump, jump[:1] if precond else jump)
            if self.jumps:
                for f in ("z1", "z2"):
                    self._add(terms, (f, n, 0), (f, n, 0), "M", -self.gs * self.dt)
                for u, z in (("u2", "z1"), ("u1", "z2")):
                    for c, v in jump:
                        self._add(terms, (u, *c), (z, n, 0), "M", v)
                        self._add(terms, (z, n, 0), (u, *c), "M", v)
        return self._finish(self.N, terms)

    def slab(self, with_jumps, initial_only=False):
        """System of one slab. initial_only: jump terms without those of the forward problem."""
        terms = {}
        self.interior(terms, 0)
        if with_jumps:
            for f in ("u1", "u2"):
                self._node(terms, f, [((0, 0), 1.0)], [((0, 0), 1.0)])
            if self.jumps and not initial_only:
                for f in ("z1", "z2"):
                    self._add(terms, (f, 0, 0), (f, 0, 0), "M", -self.gs * self.dt)
                self._add(terms, ("z1", 0, 0), ("u2", 0, 0), "M", 1.0)
                self._add(terms, ("z2", 0, 0), ("u1", 0, 0), "M", 1.0)
        return self._finish(1, terms)

    def first(self):
        """Acceptable first-slab systems."""
        if not self.well_posed:
            return [self.slab(False)]
        if not self.jumps:
            return [self.slab(True)]
        return [self.slab(True), self.slab(True, initial_only=True)]

    def coupling(self):
        """What the previous slab's solution adds to the right-hand side of a slab."""
        terms = {}
        q = self.q
        for f in ("u1", "u2"):
            self._node(terms, f, [((0, q), 1.0)], [((0, 0), 1.0)])
        if self.jumps:
            self._add(terms, ("z1", 0, 0), ("u2", 0, q), "M", 1.0)
            self._add(terms, ("z2", 0, 0), ("u1", 0, q), "M", 1.0)
        return self._finish(1, terms)

    # --- vectors
    def slab_part(self, x, n):
        """Component-wise selection of one slab of a full vector in reference layout."""
        off, _ = self.offsets(self.N)
        return np.concatenate([x[off[f, n, e]: off[f, n, e] + self.s.n[self.deg(f)]]
                               for f in FIELDS for e in range(self.per(f))])

    def put_slab(self, x, n, v):
        off, _ = self.offsets(self.N)
        o = 0
        for f in FIELDS:
            for e in range(self.per(f)):
                m = self.s.n[self.deg(f)]
                x[off[f, n, e]: off[f, n, e] + m] = v[o: o + m]
                o += m

    def march(self, b, solve_first, solve_slab):
        """Forward substitution through the slabs."""
        C = self.coupling()
        x = np.zeros_like(b)
        prev = None
        for n in range(self.N):
            r = self.slab_part(b, n)
            if n:
                r = r + C @ prev
            prev = (solve_first if n == 0 else solve_slab)(r)
            self.put_slab(x, n, prev)
        return x

    def rhs(self, sol, u1_0=None, u2_0=None):
        off, size = self.offsets(self.N)
        b = np.zeros(size)
        tq, tw = np.polynomial.legendre.leggauss(8)
        tq, tw = (tq + 1) / 2, tw / 2
        pts = self.s.points()
        xs = [pts[:, :, a] for a in range(pts.shape[2])]
        phi = basis(self.q)
        n1 = self.s.n[self.k]
        for n in range(self.N):
            for tau, w in zip(tq, tw):
                f = sol(n * self.dt + self.dt * tau, xs) * self.s.mask[:, None]
                ld = self.s.load(self.k, np.broadcast_to(f, pts.shape[:2]))
                for e in range(self.q + 1):
                    o = off["u1", n, e]
                    b[o: o + n1] += self.gd * self.dt * w * phi[e](tau) * ld
        if self.well_posed:
            M, K = self.s.get("M", self.k, self.k), self.s.get("K", self.k, self.k)
            if u1_0 is not None:
                o = off["u1", 0, 0]
                b[o: o + n1] += self.gj * (M @ u1_0 / self.dt + self.dt * (K @ u1_0))
            if u2_0 is not None:
                o = off["u2", 0, 0]
                b[o: o + n1] += self.gj / self.dt * (M @ u2_0)
        return b

    def rhs_scale(self, sol):
        """Size of the data term before positive and negative contributions cancel."""
        pts = self.s.points()
        xs = [pts[:, :, a] for a in range(pts.shape[2])]
        top = max(float(np.abs(sol(self.T * i / (4 * self.N), xs) * self.s.mask[:, None]).max())
                  for i in range(4 * self.N + 1))
        ld = np.abs(self.s.load(self.k, np.ones(pts.shape[:2]))).max()
        return self.gd * self.dt * top * ld

    def comp(self, x, f, n, e):
        off, _ = self.offsets(self.N)
        o = off[f, n, e]
        return x[o: o + self.s.n[self.deg(f)]]

    # --- error measures
    def recon(self, x, t, n, deriv=False):
        """Coefficients of the time-continuous reconstruction (or its derivative) in slab n."""
        tau = (t - n * self.dt) / self.dt
        phi = basis(self.q)
        val = lambda p: (p.deriv()(tau) / self.dt if deriv else p(tau))  # noqa: E731
        u = sum(val(phi[e]) * self.comp(x, "u1", n, e) for e in range(self.q + 1))
        if n > 0:
            jump = self.comp(x, "u1", n, 0) - self.comp(x, "u1", n - 1, self.q)
            s = 2 * tau - 1
            th = (s - 0.5) if deriv else s * (s - 1) / 2
            u = u - (2 / self.dt * th if deriv else th) * jump
        return u

    def l2(self, coef, f):
        pts = self.s.points()
        xs = [pts[:, :, a] for a in range(pts.shape[2])]
        v = self.s.values(self.k, coef) - f(xs)
        return float(np.sqrt(max(np.sum(v * v * self.s.weights()), 0.0)))

    def errors(self, x, sol, dsol, samples):
        out = {"L2-u1-T": self.l2(self.comp(x, "u1", self.N - 1, self.q), lambda xs: sol(self.T, xs))}
        lo, hi = [0.0, 0.0], [0.0, 0.0]
        for t in samples:
            pos = t / self.dt
            near = round(pos)
            if abs(pos - near) < 1e-9 and 0 < near < self.N:
                slabs = [near - 1, near]
            else:
                slabs = [min(int(pos), self.N - 1)]
            for i, (d, f) in enumerate(((False, sol), (True, dsol))):
                es = [self.l2(self.recon(x, t, n, d), lambda xs, f=f, t=t: f(t, xs)) for n in slabs]
                lo[i] = max(lo[i], min(es))
                hi[i] = max(hi[i], max(es))
        tq, tw = np.polynomial.legendre.leggauss(8)
        tot = 0.0
        for n in range(self.N):
            for a, w in zip((tq + 1) / 2, tw / 2):
                t = (n + a) * self.dt
                tot += w * self.dt * self.l2(self.recon(x, t, n, True), lambda xs, t=t: dsol(t, xs)) ** 2
        out["L2-L2-error-u_t"] = float(np.sqrt(tot))
        return out, lo, hi
