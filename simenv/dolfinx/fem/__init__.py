"""Function spaces, functions and forms of the stand-in."""
from __future__ import annotations

import numpy as np
import simkernel as sk
import ufl
from petsc4py import PETSc

from .. import _elements as el
from .. import _forms

_FAMILIES = {"CG": "P", "Lagrange": "P", "P": "P", "Q": "P", "DG": "D", "Discontinuous Lagrange": "D", "DQ": "D"}


def _comps(e):
    """Tree of an element: ('leaf', (family, degree)) or ('node', [children])."""
    if isinstance(e, ufl.MixedElement):  # VectorElement included
        return ("node", [_comps(s) for s in e.sub_elements()])
    fam = _FAMILIES.get(e.family())
    if fam is None:
        raise sk.SimUnsupported(f"element family {e.family()}")
    return ("leaf", (fam, e.degree()))


def _leaves(t):
    return [t[1]] if t[0] == "leaf" else [x for c in t[1] for x in _leaves(c)]


class _Layout:
    """Numbering of the nodes of one scalar space of a mesh."""

    def __init__(self, mesh, family, degree):
        ref = el.nodes(mesh.cell_name, degree)
        ne, nd = len(mesh.cells), len(ref)
        pts = mesh.x0[:, None, :] + np.einsum("egr,qr->eqg", mesh.J, ref)
        if family == "D" or degree == 0:
            dofs = np.arange(ne * nd).reshape(ne, nd)
            x = pts.reshape(ne * nd, -1)
        else:
            key = {}
            dofs = np.empty((ne, nd), dtype=int)
            xs = []
            flat = np.round(pts, 9) + 0.0
            for e in range(ne):
                for i in range(nd):
                    k = tuple(flat[e, i])
                    if k not in key:
                        key[k] = len(xs)
                        xs.append(pts[e, i])
                    dofs[e, i] = key[k]
            x = np.array(xs)
        p = np.random.RandomState(sk.numbering + 17 * degree + 1).permutation(len(x))
        self.dofs = p[dofs]
        self.x = x[np.argsort(p)]
        self.n = len(x)


def _layout(mesh, spec):
    if spec not in mesh._spaces:
        mesh._spaces[spec] = _Layout(mesh, *spec)
    return mesh._spaces[spec]


class _Element:
    def __init__(self, space):
        self._space = space

    def interpolation_points(self):
        (spec,) = set(self._space.comps)
        return el.nodes(self._space.mesh.cell_name, spec[1])


class _DofMap:
    def __init__(self, space):
        self._space = space

    def cell_dofs(self, c):
        return np.concatenate([self._space.cell_dofs(i)[c] for i in range(len(self._space.comps))])

    class _IM:
        def __init__(self, n):
            self.size_local = self.size_global = n

    @property
    def index_map(self):
        return self._IM(self._space.dim)

    index_map_bs = 1


class FunctionSpace(ufl.FunctionSpace):
    def __init__(self, mesh, element, _sub=None):
        if _sub is None:
            sk.point("fem.FunctionSpace")
        if not isinstance(element, ufl.FiniteElement | ufl.MixedElement):
            shape = tuple(element)[2:] and tuple(element)[2]
            fam, deg = element[0], element[1]
            e = ufl.FiniteElement(fam, mesh.ufl_cell(), deg)
            element = ufl.VectorElement(e, dim=shape[0]) if shape else e
        domain = mesh.ufl_domain()
        if domain._ufl_cargo is None:
            domain._ufl_cargo = mesh
        super().__init__(domain, element)
        self.mesh = mesh
        tree = _comps(element)
        self.tree = tree
        self.comps = _leaves(tree)
        if _sub is None:
            sizes = [_layout(mesh, c).n for c in self.comps]
            self.dim = sum(sizes)
            if len(self.comps) == 1:  # one scalar component: the numbering of the scalar space
                perm = np.arange(self.dim)
            else:
                perm = np.random.RandomState(sk.numbering + 7 * len(self.comps)).permutation(self.dim)
            off = np.concatenate([[0], np.cumsum(sizes)])
            self.dofs = [perm[off[i] : off[i + 1]] for i in range(len(sizes))]
            self.parent = None
        else:
            self.parent, self.dofs = _sub
            self.dim = self.parent.dim
        self.element = _Element(self)
        self.dofmap = _DofMap(self)
        self._cell_dofs = {}

    def cell_dofs(self, c):
        if c not in self._cell_dofs:
            self._cell_dofs[c] = self.dofs[c][_layout(self.mesh, self.comps[c]).dofs]
        return self._cell_dofs[c]

    def sub(self, i):
        if self.tree[0] == "leaf":
            raise RuntimeError("Cannot extract subspace of a scalar space")
        children = self.tree[1]
        if not 0 <= i < len(children):
            raise RuntimeError(f"Cannot extract subspace {i} of {len(children)}")
        start = sum(len(_leaves(c)) for c in children[:i])
        n = len(_leaves(children[i]))
        e = self.ufl_element().sub_elements()[i]
        return FunctionSpace(self.mesh, e, _sub=(self, self.dofs[start : start + n]))

    @property
    def num_sub_spaces(self):
        return 0 if self.tree[0] == "leaf" else len(self.tree[1])

    def collapse(self):
        sk.point("fem.collapse")
        if self.parent is None:
            raise RuntimeError("Function space is not a subspace")
        new = FunctionSpace(self.mesh, self.ufl_element(), _sub=None)
        m = np.empty(new.dim, dtype=np.int32)
        for mine, theirs in zip(self.dofs, new.dofs):
            m[theirs] = mine
        return new, m

    def tabulate_dof_coordinates(self):
        if len(self.comps) != 1:
            raise RuntimeError("Cannot tabulate coordinates for a mixed space")
        out = np.zeros((self.dim, 3))
        x = _layout(self.mesh, self.comps[0]).x
        out[self.dofs[0], : x.shape[1]] = x
        return out

    def __eq__(self, other):
        return self is other

    def __ne__(self, other):
        return self is not other

    def __hash__(self):
        return id(self) >> 4

    def clone(self):
        return FunctionSpace(self.mesh, self.ufl_element())


def functionspace(mesh, element):
    return FunctionSpace(mesh, element)


def VectorFunctionSpace(mesh, element, dim=None):  # noqa: N802
    e = ufl.FiniteElement(element[0], mesh.ufl_cell(), element[1])
    return FunctionSpace(mesh, ufl.VectorElement(e, dim=dim or mesh.geometry.dim))


class _Array:
    def __init__(self, n):
        self.array = np.zeros(n)

    def __setattr__(self, k, v):
        if k == "array" and hasattr(self, "array"):
            raise AttributeError("can't set attribute 'array'")
        object.__setattr__(self, k, v)

    def scatter_forward(self):
        sk.point("fem.scatter_forward")

    def scatter_reverse(self, mode=None):
        sk.point("fem.scatter_reverse")


class Function(ufl.Coefficient):
    def __init__(self, V, x=None, name=None, dtype=None, _shared=None):
        if _shared is None:
            sk.point("fem.Function")
        super().__init__(V)
        self.function_space = V
        root = V
        while root.parent is not None:
            root = root.parent
        self._x = _shared if _shared is not None else _Array(root.dim)
        self.name = name or "f"
        self._vec = None

    @property
    def x(self):
        return self._x

    @property
    def vector(self):
        if self._vec is None:
            self._vec = PETSc.Vec().createWithArray(self._x.array, comm=PETSc.COMM_SELF)
        return self._vec

    def sub(self, i):
        return Function(self.function_space.sub(i), _shared=self._x)

    def split(self):
        sk.point("fem.split")
        n = self.function_space.num_sub_spaces
        if n == 0:
            raise RuntimeError("No subfunctions to extract")
        return tuple(self.sub(i) for i in range(n))

    def collapse(self):
        V, m = self.function_space.collapse()
        f = Function(V)
        f._x.array[:] = self._x.array[m]
        return f

    def copy(self):
        f = Function(self.function_space)
        f._x.array[:] = self._x.array
        return f

    def ufl_evaluate(self, x, component, derivatives):
        raise sk.SimUnsupported("ufl_evaluate")

    def interpolate(self, u, cells=None, nmm_interpolation_data=None):
        sk.point("fem.interpolate", function=self, u=u)
        V = self.function_space
        if len(V.comps) != 1:
            raise sk.SimUnsupported("interpolation into a mixed space")
        lay = _layout(V.mesh, V.comps[0])
        out = self._x.array
        where = np.arange(lay.n)
        if cells is not None:
            where = np.unique(lay.dofs[np.asarray(cells)])
        if isinstance(u, Function):
            U = u.function_space
            if len(U.comps) != 1:
                raise RuntimeError("Interpolation: elements have different value dimensions")
            values = _eval_at(u, lay.x, cells_of=(V, U))
        elif isinstance(u, Expression):
            vals = _forms.expression(u.ufl_expression, V.mesh, u.X)
            if len(u.X) != lay.dofs.shape[1]:
                raise RuntimeError("Function element interpolation points and Expression points do not match")
            values = np.zeros(lay.n)
            values[lay.dofs] = vals
        elif callable(u) and not isinstance(u, ufl.core.expr.Expr):
            x3 = np.zeros((3, lay.n))
            x3[: lay.x.shape[1]] = lay.x.T
            values = np.asarray(u(x3), dtype=float)
            if values.shape not in ((lay.n,), (1, lay.n)):
                raise RuntimeError(f"Interpolation data has the wrong shape/size: {values.shape}")
            values = values.reshape(-1)
        else:
            raise TypeError(f"interpolate(): incompatible argument {type(u).__name__}")
        out[V.dofs[0][where]] = values[where]

    def eval(self, x, cells):
        x = np.atleast_2d(np.asarray(x, dtype=float))
        V = self.function_space
        X = np.einsum("prg,pg->pr", V.mesh.K[cells], x[:, : V.mesh.geometry.dim] - V.mesh.x0[cells])
        tab = el.tabulate(V.mesh.cell_name, V.comps[0][1], X)
        return np.einsum("pi,pi->p", tab, self._x.array[V.cell_dofs(0)[cells]])[:, None]

    def __str__(self):
        return self.name


def _eval_at(u, pts, cells_of=None):
    U = u.function_space
    if cells_of is not None and cells_of[0].mesh is U.mesh:
        V = cells_of[0]
        # same mesh: evaluate cell by cell (the last cell holding a node wins, as in DOLFINx)
        spec = V.comps[0]
        lay = _layout(U.mesh, spec)
        tab = el.tabulate(U.mesh.cell_name, U.comps[0][1], el.nodes(U.mesh.cell_name, spec[1]))
        vals = np.einsum("qi,ei->eq", tab, u._x.array[U.cell_dofs(0)])
        out = np.zeros(lay.n)
        out[lay.dofs] = vals
        return out
    cells, X = U.mesh.locate(pts)
    tab = el.tabulate(U.mesh.cell_name, U.comps[0][1], X)
    out = np.einsum("pi,pi->p", tab, u._x.array[U.cell_dofs(0)[cells]])
    out[cells < 0] = 0.0  # points outside the other mesh keep no value
    return out


class Expression:
    def __init__(self, e, X, *args, **kw):
        sk.point("fem.Expression")
        self.ufl_expression = ufl.as_ufl(e)
        if self.ufl_expression.ufl_shape != ():
            raise sk.SimUnsupported("tensor-valued Expression")
        self.X = np.asarray(X)


class Constant(ufl.Constant):
    def __init__(self, domain, c):
        c = np.asarray(c)
        _forms.constants_exist = True
        super().__init__(domain.ufl_domain() if hasattr(domain, "ufl_domain") else domain, c.shape)
        self.value = c


class Form:
    def __init__(self, f):
        self.ufl_form = f
        args = f.arguments()
        self.rank = len(args)
        self.spaces = [a.ufl_function_space() for a in args]
        self.function_spaces = self.spaces
        meshes = {id(d) for d in f.ufl_domains()}
        if len(meshes) > 1:
            raise RuntimeError("All integrals of a form must be defined over the same mesh")


def form(f, *args, **kw):
    sk.point("fem.form")
    if isinstance(f, ufl.Form):
        if not f.integrals():
            raise RuntimeError("Cannot create a form without integrals")
        for d in f.ufl_domains():
            if d.ufl_cargo() is None:
                raise RuntimeError("Form domain is not attached to a mesh")
        return Form(f)
    raise sk.SimUnsupported(f"form({type(f).__name__})")


def assemble_scalar(f):
    out = sk.point("fem.assemble_scalar", form=f)
    if f.rank != 0:
        raise RuntimeError("assemble_scalar needs a functional")
    return _forms.scalar(f.ufl_form) if out is None else out


def assemble_vector(f):
    raise sk.SimUnsupported("fem.assemble_vector")


def locate_dofs_topological(*a, **k):
    raise sk.SimUnsupported("locate_dofs_topological")


from . import petsc  # noqa: E402,F401


def __getattr__(name):
    raise sk.SimUnsupported(f"dolfinx.fem.{name}") if not name.startswith("__") else AttributeError(name)
