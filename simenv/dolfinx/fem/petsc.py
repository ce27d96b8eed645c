"""PETSc matrices and vectors of the stand-in: real PETSc objects on one process."""
from __future__ import annotations

import numpy as np
import scipy.sparse as sp
import simkernel as sk
from petsc4py import PETSc

from .. import _forms


class SimMat(PETSc.Mat):
    """A real PETSc matrix whose calls pass the simulation's fault points."""

    def assemble(self, *a, **k):
        sk.point("Mat.assemble", mat=self)
        return super().assemble(*a, **k)

    def createVecs(self, *a, **k):  # noqa: N802
        sk.point("Mat.createVecs", mat=self)
        return super().createVecs(*a, **k)

    def mult(self, x, y):
        out = sk.point("Mat.mult", mat=self)
        super().mult(x, y)
        if out is not None:
            out(y)


def _insert(A, form, bcs):
    if bcs:
        raise sk.SimUnsupported("boundary conditions")
    V, U = form.spaces
    r, c, v = _forms.matrix(form.ufl_form, V, U)
    # keep every coupled entry, also where values cancel, as the sparsity pattern does
    m = sp.coo_matrix((v, (r, c)), shape=(V.dim, U.dim)).tocsr()
    d = sp.coo_matrix((np.zeros(min(V.dim, U.dim)), (np.arange(min(V.dim, U.dim)),) * 2), shape=m.shape)
    m = (sp.coo_matrix((np.concatenate([v, d.data]), (np.concatenate([r, d.row]), np.concatenate([c, d.col]))),
                       shape=m.shape)).tocsr()
    m.sum_duplicates()
    return m


def create_matrix(form, mat_type=None):
    V, U = form.spaces
    return SimMat().createAIJ((V.dim, U.dim), comm=PETSc.COMM_SELF)


def assemble_matrix(form, bcs=(), diagonal=1.0, *args, **kw):
    sk.point("fem.assemble_matrix", form=form)
    if not hasattr(form, "rank"):
        raise TypeError("assemble_matrix(): incompatible arguments")
    if form.rank != 2:
        raise RuntimeError("assemble_matrix needs a bilinear form")
    m = _insert(None, form, bcs)
    A = SimMat().createAIJ(m.shape, nnz=np.diff(m.indptr).astype(PETSc.IntType), comm=PETSc.COMM_SELF)
    A.setUp()
    A.setValuesCSR(m.indptr.astype(PETSc.IntType), m.indices.astype(PETSc.IntType), m.data,
                   PETSc.InsertMode.ADD_VALUES)
    return A


def create_vector(form):
    sk.point("fem.create_vector", form=form)
    if form.rank != 1:
        raise RuntimeError("create_vector needs a linear form")
    return PETSc.Vec().createSeq(form.spaces[0].dim, comm=PETSc.COMM_SELF)


def assemble_vector(b, form=None, *args, **kw):
    """Add the assembled form to a vector, or return a new one when only a form is given."""
    if form is None:
        form, b = b, None
        b = create_vector(form)
    sk.point("fem.assemble_vector", form=form)
    if form.rank != 1:
        raise RuntimeError("assemble_vector needs a linear form")
    V = form.spaces[0]
    out = np.zeros(V.dim)
    _forms.vector(form.ufl_form, V, out)
    with b.localForm() as loc:
        loc.array[:] += out
    return b


def set_bc(*a, **k):
    raise sk.SimUnsupported("set_bc")


def __getattr__(name):
    raise sk.SimUnsupported(f"dolfinx.fem.petsc.{name}") if not name.startswith("__") else AttributeError(name)
