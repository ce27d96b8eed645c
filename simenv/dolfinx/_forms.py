"""Evaluation of UFL forms on affine meshes, in numpy.

An integrand is a sum of terms, each linear in at most one derivative of one component of the
test function and of the trial function. ev() returns {(test, trial): coefficient}, where test
and trial are None or (component, derivatives, side) and coefficient is a scalar or an array of
shape (entities, quadrature points).
"""
from __future__ import annotations

import math

import numpy as np
import simkernel as sk
import ufl
from ufl import classes as uc
from ufl.core.multiindex import FixedIndex

from . import _elements as el

ONE = (None, None)
_MATH = {uc.Sqrt: np.sqrt, uc.Exp: np.exp, uc.Ln: np.log, uc.Cos: np.cos, uc.Sin: np.sin, uc.Tan: np.tan,
         uc.Cosh: np.cosh, uc.Sinh: np.sinh, uc.Tanh: np.tanh, uc.Acos: np.arccos, uc.Asin: np.arcsin,
         uc.Atan: np.arctan, uc.Erf: np.vectorize(math.erf)}
_DMATH = {uc.Sqrt: lambda x: 0.5 / np.sqrt(x), uc.Exp: np.exp, uc.Ln: lambda x: 1 / x,
          uc.Cos: lambda x: -np.sin(x), uc.Sin: np.cos, uc.Tan: lambda x: 1 / np.cos(x) ** 2,
          uc.Cosh: np.sinh, uc.Sinh: np.cosh, uc.Tanh: lambda x: 1 / np.cosh(x) ** 2}


class Context:
    """Where the integrand is evaluated: cells, reference points per side, normals."""

    def __init__(self, mesh, sides, normal=None):
        self.mesh = mesh
        self.sides = sides  # {side: (cells (ne,), X (ne, nq, tdim))}
        self.normal = normal  # outward normal of the '+' side, (ne, gdim)
        self.memo = {}
        self.tables = {}
        side = next(iter(sides))
        cells, X = sides[side]
        self.x = mesh.x0[cells][:, None, :] + np.einsum("egr,eqr->eqg", mesh.J[cells], X)
        self.default = side if len(sides) == 1 else None

    def table(self, degree, derivs, side):
        """Physical derivative of the basis functions at the points, (ne, nq, nd)."""
        key = (degree, derivs, side)
        if key not in self.tables:
            cells, X = self.sides[side]
            K = self.mesh.K[cells]  # (ne, tdim, gdim)
            tdim = K.shape[1]
            if not derivs:
                out = el.tabulate(self.mesh.cell_name, degree, X)
            else:
                out = 0.0
                for combo in np.ndindex(*(tdim,) * len(derivs)):
                    f = np.ones(len(cells))
                    for r, a in zip(combo, derivs):
                        f = f * K[:, r, a]
                    out = out + f[:, None, None] * el.tabulate(self.mesh.cell_name, degree, X, tuple(sorted(combo)))
            self.tables[key] = out
        return self.tables[key]

    def side(self, s):
        if s is None:
            s = self.default
        if s is None:
            raise RuntimeError("Discontinuous type must be restricted.")
        return s if s in self.sides else self.default


def _mul(a, b):
    out = {}
    for (t1, u1), c1 in a.items():
        for (t2, u2), c2 in b.items():
            if (t1 is not None and t2 is not None) or (u1 is not None and u2 is not None):
                raise RuntimeError("Adding or multiplying arguments: form is not linear in its arguments")
            k = (t1 if t1 is not None else t2, u1 if u1 is not None else u2)
            v = c1 * c2
            out[k] = out[k] + v if k in out else v
    return out


def _add(a, b, f=1.0):
    out = dict(a)
    for k, c in b.items():
        c = c if f == 1.0 else f * c
        out[k] = out[k] + c if k in out else c
    return out


def _value(d, what):
    """The value of an expression that must not contain arguments."""
    if any(k != ONE for k in d):
        raise RuntimeError(f"{what} must not depend on the arguments of a form")
    return d.get(ONE, 0.0)


def ev(e, comp, env, derivs, side, ctx):
    h = _HANDLERS.get(type(e))
    if h is None:
        for c in type(e).__mro__:
            if c in _HANDLERS:
                h = _HANDLERS[c]
                break
        else:
            raise sk.SimUnsupported(f"UFL node {type(e).__name__}")
        _HANDLERS[type(e)] = h
    return h(e, comp, env, derivs, side, ctx)


def _index(ii, env):
    return tuple(int(i) if isinstance(i, FixedIndex) else env[i.count()] for i in ii.indices())


def _const(v, derivs):
    if derivs or (np.isscalar(v) and v == 0):
        return {}
    return {ONE: v}


def _zero(e, comp, env, derivs, side, ctx):
    return {}


def _scalar(e, comp, env, derivs, side, ctx):
    return _const(float(e), derivs)


def _x(e, comp, env, derivs, side, ctx):
    if len(derivs) > 1:
        return {}
    if derivs:
        return {ONE: 1.0} if derivs[0] == comp[0] else {}
    return {ONE: ctx.x[:, :, comp[0]]}


def _normal(e, comp, env, derivs, side, ctx):
    if ctx.normal is None:
        raise RuntimeError("Integral of type cell cannot contain a FacetNormal.")
    if derivs:
        return {}
    s = ctx.side(side)
    return {ONE: (-1.0 if s == "-" else 1.0) * ctx.normal[:, None, comp[0]]}


def _diameter(e, comp, env, derivs, side, ctx):
    if derivs:
        return {}
    return {ONE: ctx.mesh.h[ctx.sides[ctx.side(side)][0]][:, None]}


def _volume(e, comp, env, derivs, side, ctx):
    if derivs:
        return {}
    f = {"interval": 1, "triangle": 0.5, "tetrahedron": 1 / 6, "quadrilateral": 1, "hexahedron": 1}
    return {ONE: ctx.mesh.detJ[ctx.sides[ctx.side(side)][0]][:, None] * f[ctx.mesh.cell_name]}


def _flat(comp, shape):
    return int(np.ravel_multi_index(comp, shape)) if comp else 0


def _argument(e, comp, env, derivs, side, ctx):
    atom = (_flat(comp, e.ufl_shape), tuple(sorted(derivs)), ctx.side(side))
    return {(atom, None) if e.number() == 0 else (None, atom): 1.0}


def _coefficient(e, comp, env, derivs, side, ctx):
    V = e.function_space
    if V.mesh is not ctx.mesh:
        raise RuntimeError("Form: a coefficient is defined on another mesh than the integral")
    s = ctx.side(side)
    key = ("coef", id(e), comp, tuple(sorted(derivs)), s)
    if key not in ctx.memo:
        c = _flat(comp, e.ufl_shape)
        degree = V.comps[c][1]
        cells = ctx.sides[s][0]
        tab = ctx.table(degree, tuple(sorted(derivs)), s)
        ctx.memo[key] = np.einsum("eqi,ei->eq", tab, e._x.array[V.cell_dofs(c)[cells]])
    return {ONE: ctx.memo[key]}


def _constant(e, comp, env, derivs, side, ctx):
    return _const(float(np.asarray(e.value).reshape(-1)[_flat(comp, e.ufl_shape)]), derivs)


def _indexed(e, comp, env, derivs, side, ctx):
    a, ii = e.ufl_operands
    return ev(a, _index(ii, env), env, derivs, side, ctx)


def _list(e, comp, env, derivs, side, ctx):
    return ev(e.ufl_operands[comp[0]], comp[1:], env, derivs, side, ctx)


def _ctensor(e, comp, env, derivs, side, ctx):
    a, ii = e.ufl_operands
    env = dict(env)
    for i, c in zip(ii.indices(), comp):
        env[i.count()] = c
    return ev(a, (), env, derivs, side, ctx)


def _isum(e, comp, env, derivs, side, ctx):
    a, ii = e.ufl_operands
    (i,) = ii.indices()
    out = {}
    for c in range(e.dimension()):
        out = _add(out, ev(a, comp, {**env, i.count(): c}, derivs, side, ctx))
    return out


def _product(fa, fb, derivs):
    """Leibniz rule for the product of fa(derivs) and fb(derivs)."""
    if not derivs:
        a = fa(())
        return _mul(a, fb(())) if a else {}
    out = {}
    for pick in np.ndindex(*(2,) * len(derivs)):
        da = tuple(d for d, p in zip(derivs, pick) if p == 0)
        db = tuple(d for d, p in zip(derivs, pick) if p == 1)
        a = fa(da)
        if a:
            out = _add(out, _mul(a, fb(db)))
    return out


def _prod(e, comp, env, derivs, side, ctx):
    a, b = e.ufl_operands
    return _product(lambda d: ev(a, (), env, d, side, ctx), lambda d: ev(b, (), env, d, side, ctx), derivs)


def _inner(e, comp, env, derivs, side, ctx):
    a, b = e.ufl_operands
    out = {}
    for c in np.ndindex(*a.ufl_shape):
        out = _add(out, _product(lambda d, c=c: ev(a, c, env, d, side, ctx),
                                 lambda d, c=c: ev(b, c, env, d, side, ctx), derivs))
    return out


def _dot(e, comp, env, derivs, side, ctx):
    a, b = e.ufl_operands
    na = len(a.ufl_shape) - 1
    out = {}
    for i in range(a.ufl_shape[-1]):
        out = _add(out, _product(lambda d, i=i: ev(a, comp[:na] + (i,), env, d, side, ctx),
                                 lambda d, i=i: ev(b, (i,) + comp[na:], env, d, side, ctx), derivs))
    return out


def _grad(e, comp, env, derivs, side, ctx):
    return ev(e.ufl_operands[0], comp[:-1], env, (*derivs, comp[-1]), side, ctx)


def _div(e, comp, env, derivs, side, ctx):
    a = e.ufl_operands[0]
    out = {}
    for i in range(a.ufl_shape[-1]):
        out = _add(out, ev(a, (*comp, i), env, (*derivs, i), side, ctx))
    return out


def _sum(e, comp, env, derivs, side, ctx):
    a, b = e.ufl_operands
    return _add(ev(a, comp, env, derivs, side, ctx), ev(b, comp, env, derivs, side, ctx))


def _division(e, comp, env, derivs, side, ctx):
    a, b = e.ufl_operands
    num = ev(a, comp, env, (), side, ctx) if not derivs else None
    den = _value(ev(b, (), env, (), side, ctx), "a denominator")
    if not derivs:
        return {k: v / den for k, v in num.items()}
    if len(derivs) > 1:
        # only needed when the denominator is locally constant
        if any(_nonzero(ev(b, (), env, (d,), side, ctx)) for d in derivs):
            raise sk.SimUnsupported("second derivative of a quotient")
        return {k: v / den for k, v in ev(a, comp, env, derivs, side, ctx).items()}
    da = {k: v / den for k, v in ev(a, comp, env, derivs, side, ctx).items()}
    db = ev(b, (), env, derivs, side, ctx)
    if not db:
        return da
    f = -_value(db, "a denominator") / den**2
    return _add(da, {k: v * f for k, v in ev(a, comp, env, (), side, ctx).items()})


def _nonzero(d):
    return any(np.any(v != 0) for v in d.values())


def _chain(e, value, dvalue, arg, env, derivs, side, ctx):
    f = _value(ev(arg, (), env, (), side, ctx), type(e).__name__)
    if not derivs:
        return {ONE: value(f)}
    if len(derivs) > 1:
        if all(not _nonzero(ev(arg, (), env, (d,), side, ctx)) for d in derivs):
            return {}
        raise sk.SimUnsupported("second derivative of a function")
    df = _value(ev(arg, (), env, derivs, side, ctx), type(e).__name__)
    return {ONE: dvalue(f) * df}


def _power(e, comp, env, derivs, side, ctx):
    a, b = e.ufl_operands
    p = _value(ev(b, (), env, (), side, ctx), "an exponent")
    return _chain(e, lambda f: f**p, lambda f: p * f ** (p - 1), a, env, derivs, side, ctx)


def _math(e, comp, env, derivs, side, ctx):
    t = type(e)
    if t not in _MATH or (derivs and t not in _DMATH):
        raise sk.SimUnsupported(f"UFL function {t.__name__}")
    return _chain(e, _MATH[t], _DMATH.get(t), e.ufl_operands[0], env, derivs, side, ctx)


def _abs(e, comp, env, derivs, side, ctx):
    return _chain(e, np.abs, np.sign, e.ufl_operands[0], env, derivs, side, ctx)


def _same(e, comp, env, derivs, side, ctx):
    return ev(e.ufl_operands[0], comp, env, derivs, side, ctx)


def _imag(e, comp, env, derivs, side, ctx):
    return {}


def _restricted(e, comp, env, derivs, side, ctx):
    if len(ctx.sides) == 1:
        raise RuntimeError("Integral of this type cannot contain restrictions.")
    return ev(e.ufl_operands[0], comp, env, derivs, e.side(), ctx)


def _conditional(e, comp, env, derivs, side, ctx):
    c, a, b = e.ufl_operands
    m = np.asarray(_bool(c, env, side, ctx), dtype=float)
    out = {k: v * m for k, v in ev(a, comp, env, derivs, side, ctx).items()}
    return _add(out, {k: v * (1.0 - m) for k, v in ev(b, comp, env, derivs, side, ctx).items()})


def _bool(c, env, side, ctx):
    if isinstance(c, uc.NotCondition):
        return np.logical_not(_bool(c.ufl_operands[0], env, side, ctx))
    if isinstance(c, uc.AndCondition):
        return np.logical_and(*(_bool(o, env, side, ctx) for o in c.ufl_operands))
    if isinstance(c, uc.OrCondition):
        return np.logical_or(*(_bool(o, env, side, ctx) for o in c.ufl_operands))
    op = {uc.EQ: np.equal, uc.NE: np.not_equal, uc.LE: np.less_equal, uc.GE: np.greater_equal, uc.LT: np.less,
          uc.GT: np.greater}.get(type(c))
    if op is None:
        raise sk.SimUnsupported(f"UFL condition {type(c).__name__}")
    a, b = (_value(ev(o, (), env, (), side, ctx), "a condition") for o in c.ufl_operands)
    return op(a, b)


def _minmax(e, comp, env, derivs, side, ctx):
    a, b = (_value(ev(o, (), env, (), side, ctx), "min/max") for o in e.ufl_operands)
    if derivs:
        raise sk.SimUnsupported("derivative of min/max")
    return {ONE: (np.maximum if isinstance(e, uc.MaxValue) else np.minimum)(a, b)}


_HANDLERS = {
    uc.Zero: _zero, uc.ScalarValue: _scalar, uc.SpatialCoordinate: _x, uc.FacetNormal: _normal,
    uc.CellDiameter: _diameter, uc.CellVolume: _volume, uc.Argument: _argument, uc.Coefficient: _coefficient,
    uc.Constant: _constant, uc.Indexed: _indexed, uc.ListTensor: _list, uc.ComponentTensor: _ctensor,
    uc.IndexSum: _isum, uc.Product: _prod, uc.Inner: _inner, uc.Dot: _dot, uc.Grad: _grad, uc.Div: _div,
    uc.Sum: _sum, uc.Division: _division, uc.Power: _power, uc.MathFunction: _math, uc.Abs: _abs,
    uc.Conj: _same, uc.Real: _same, uc.Imag: _imag, uc.Restricted: _restricted, uc.Conditional: _conditional,
    uc.Variable: _same, uc.MinValue: _minmax, uc.MaxValue: _minmax,
}


def degree_estimate(e, mesh):
    """The quadrature degree the form compiler stand-in picks when none is given."""
    d = [1]
    for a in ufl.algorithms.extract_arguments(e):
        d.append(max(k for _, k in a.ufl_function_space().comps))
    n = sum(d)
    for c in ufl.algorithms.extract_coefficients(e):
        n += max(k for _, k in c.ufl_function_space().comps)
    return n + 2


def context(mesh, kind, degree):
    store = mesh.__dict__.setdefault("_contexts", {})
    if (kind, degree) in store:
        ctx, w = store[kind, degree]
        if ctx is None:
            return None, None
        c = Context.__new__(Context)
        c.__dict__.update(ctx.__dict__)
        c.memo = {}
        return c, w
    tdim = mesh.topology.dim
    name = mesh.cell_name
    if kind == "cell":
        X, w = el.quadrature(name, degree)
        n = len(mesh.cells)
        ctx = Context(mesh, {"+": (np.arange(n), np.broadcast_to(X, (n, *X.shape)))})
        w = mesh.detJ[:, None] * w[None, :]
    else:
        ext, inn = mesh.facets()
        items = ext if kind == "exterior_facet" else inn
        if not len(items):
            store[kind, degree] = (None, None)
            return None, None
        loc = el.facet_vertices(name)
        if tdim == 1:
            Xf, wf = np.zeros((1, 0)), np.ones(1)
        else:
            Xf, wf = el.quadrature(el.FACET_CELL[name], degree)
        ref_vertices = _reference_vertices(name)
        sides = {"+": [], "-": []}
        cells = {"+": [], "-": []}
        normals, weights = [], []
        for it in items:
            c, lf = it[0], it[1]
            fv = list(loc[lf])
            R = ref_vertices[fv]
            basis = np.stack([R[i] - R[0] for i in ([1] if len(fv) == 2 else [1, 2])], axis=-1) if tdim > 1 else np.zeros((tdim, 0))
            pts = R[0] + Xf @ basis.T
            phys = mesh.J[c] @ basis
            if tdim == 1:
                area = 1.0
            elif tdim == 2:
                area = np.linalg.norm(phys[:, 0])
            else:
                area = np.linalg.norm(np.cross(phys[:, 0], phys[:, 1]))
            # outward normal: minus the gradient direction pointing inside
            inside = ref_vertices.mean(axis=0) - R[0]
            if tdim == 1:
                nrm = np.array([1.0])
            elif tdim == 2:
                nrm = np.array([phys[1, 0], -phys[0, 0]])
            else:
                nrm = np.cross(phys[:, 0], phys[:, 1])
            nrm = nrm / np.linalg.norm(nrm)
            if nrm @ (mesh.J[c] @ inside) > 0:
                nrm = -nrm
            sides["+"].append(pts)
            cells["+"].append(c)
            normals.append(nrm)
            weights.append(area * wf)
            if kind == "interior_facet":
                c2 = it[2]
                xp = mesh.x0[c] + pts @ mesh.J[c].T
                sides["-"].append((xp - mesh.x0[c2]) @ mesh.K[c2].T)
                cells["-"].append(c2)
        d = {s: (np.array(cells[s]), np.array(sides[s])) for s in sides if sides[s]}
        ctx = Context(mesh, d, np.array(normals))
        w = np.array(weights)
    store[kind, degree] = (ctx, w)
    return context(mesh, kind, degree)


def _reference_vertices(name):
    return {
        "interval": np.array([[0.0], [1.0]]),
        "triangle": np.array([[0.0, 0], [1, 0], [0, 1]]),
        "tetrahedron": np.array([[0.0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]),
        "quadrilateral": np.array([[0.0, 0], [1, 0], [0, 1], [1, 1]]),
        "hexahedron": np.array([[a, b, c] for c in (0.0, 1) for b in (0.0, 1) for a in (0.0, 1)]),
    }[name]


def _gather(form):
    """Integrands by (kind, degree)."""
    groups = {}
    for integral in form.integrals():
        mesh = integral.ufl_domain().ufl_cargo()
        kind = integral.integral_type()
        if integral.subdomain_id() not in ("everywhere", ("everywhere",)):
            raise sk.SimUnsupported("subdomain integrals")
        md = integral.metadata() or {}
        deg = md.get("quadrature_degree")
        if deg is None or deg == -1:
            deg = degree_estimate(integral.integrand(), mesh)
        groups.setdefault((kind, int(deg)), (mesh, []))[1].append(integral.integrand())
    return groups


def terms(form):
    for (kind, degree), (mesh, integrands) in _gather(form).items():
        ctx, w = context(mesh, kind, degree)
        total = {}
        if ctx is None:
            continue
        for e in integrands:
            total = _add(total, ev(e, (), {}, (), None, ctx))
        yield ctx, w, total


def scalar(form):
    s = 0.0
    for _ctx, w, total in terms(form):
        s += float(np.sum(_value(total, "a functional") * w))
    return s


def vector(form, V, b):
    for ctx, w, total in terms(form):
        for (test, trial), c in total.items():
            if test is None or trial is not None:
                raise RuntimeError("Form is not linear in the test function")
            comp, derivs, side = test
            tab = ctx.table(V.comps[comp][1], derivs, side)
            be = np.einsum("eq,eqi->ei", np.broadcast_to(c * w, w.shape), tab)
            np.add.at(b, V.cell_dofs(comp)[ctx.sides[side][0]], be)


def matrix(form, V, U):
    rows, cols, vals = [], [], []
    for ctx, w, total in terms(form):
        # one element matrix per (test, trial) pair of components and sides
        blocks = {}
        for (test, trial), c in total.items():
            if test is None or trial is None:
                raise RuntimeError("Form is not bilinear")
            tt = ctx.table(V.comps[test[0]][1], test[1], test[2])
            tu = ctx.table(U.comps[trial[0]][1], trial[1], trial[2])
            key = (test[0], test[2], trial[0], trial[2])
            blk = np.einsum("eqi,eqj->eij", tt * np.broadcast_to(c * w, w.shape)[:, :, None], tu)
            blocks[key] = blocks[key] + blk if key in blocks else blk
        for (ct, st, cu, su), blk in blocks.items():
            dt = V.cell_dofs(ct)[ctx.sides[st][0]]
            du = U.cell_dofs(cu)[ctx.sides[su][0]]
            rows.append(np.broadcast_to(dt[:, :, None], blk.shape).ravel())
            cols.append(np.broadcast_to(du[:, None, :], blk.shape).ravel())
            vals.append(blk.ravel())
    if not rows:
        return np.zeros(0, int), np.zeros(0, int), np.zeros(0)
    return np.concatenate(rows), np.concatenate(cols), np.concatenate(vals)


def expression(e, mesh, X):
    """Values of an argument-free scalar expression at reference points X of every cell."""
    n = len(mesh.cells)
    ctx = Context(mesh, {"+": (np.arange(n), np.broadcast_to(X, (n, *X.shape)))})
    return np.broadcast_to(_value(ev(e, (), {}, (), None, ctx), "an expression"), (n, len(X)))



constants_exist = False  # set when a Constant is created


def _quick_constants(original):
    """UFL scans a form for constants at every addition of two forms; skip it while there are none."""

    def extract_constants(a):
        return original(a) if constants_exist else []

    return extract_constants


ufl.algorithms.analysis.extract_constants = _quick_constants(ufl.algorithms.analysis.extract_constants)


def _unsorted_integrals(integrals):
    """Integrals in the order in which they were added; sorting them at every addition is quadratic."""
    return tuple(integrals)


ufl.form._sorted_integrals = _unsorted_integrals
