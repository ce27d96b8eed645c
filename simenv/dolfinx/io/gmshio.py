"""gmsh conversion of the stand-in."""
from __future__ import annotations

import numpy as np
import simkernel as sk
import ufl

_TYPES = {1: ("interval", 1, 2), 2: ("triangle", 1, 3), 3: ("quadrilateral", 1, 4), 4: ("tetrahedron", 1, 4),
          5: ("hexahedron", 1, 8), 9: ("triangle", 2, 6), 10: ("quadrilateral", 2, 9),
          21: ("triangle", 3, 10)}


def ufl_mesh(gmsh_cell, gdim):
    if gmsh_cell not in _TYPES:
        raise RuntimeError(f"Unknown gmsh cell type {gmsh_cell}")
    shape, degree, _ = _TYPES[gmsh_cell]
    cell = ufl.Cell(shape, geometric_dimension=gdim)
    return ufl.Mesh(ufl.VectorElement("Lagrange", cell, degree, dim=gdim))


def model_to_mesh(model, comm, rank, gdim=3, partitioner=None, dtype=None):
    """Every rank gets the mesh that the model holds on the given rank."""
    from dolfinx.mesh import Mesh, MeshTags

    data = None
    if comm.rank == rank:
        tags, x, _ = model.mesh.getNodes()
        if len(tags) == 0:
            raise RuntimeError("No nodes in the gmsh model")
        if not model.getPhysicalGroups():
            raise RuntimeError("No 'physical groups' in gmsh mesh.")
        x = np.asarray(x).reshape(-1, 3)
        index = np.full(int(max(tags)) + 1, -1)
        index[np.asarray(tags, dtype=int)] = np.arange(len(tags))
        cells, name = [], None
        for dim, tag in model.getPhysicalGroups(gdim):
            for ent in model.getEntitiesForPhysicalGroup(dim, tag):
                types, _, nodes = model.mesh.getElements(dim, ent)
                for t, n in zip(types, nodes):
                    name = _TYPES[int(t)][0]
                    cells.append(np.asarray(n, dtype=int).reshape(-1, _TYPES[int(t)][2]))
        if name is None:
            raise RuntimeError("No cells of the mesh dimension in the gmsh model")
        cells = index[np.concatenate(cells)]
        used = np.zeros(len(x), bool)
        used[cells.ravel()] = True
        data = (x[used][:, :gdim], (np.cumsum(used) - 1)[cells], name)
    got = sk.point("gmshio.model_to_mesh", collective=True, data=data, root=rank)
    x, cells, name = data if got is None else got
    mesh = Mesh(comm, x, cells, name, sk.numbering)
    return mesh, MeshTags(mesh, mesh.topology.dim, [], []), MeshTags(mesh, mesh.topology.dim - 1, [], [])


def __getattr__(name):
    raise sk.SimUnsupported(f"dolfinx.io.gmshio.{name}") if not name.startswith("__") else AttributeError(name)
