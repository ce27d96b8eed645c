"""Meshes of affine cells held by a single process."""
from __future__ import annotations

import enum
import itertools

import numpy as np
import simkernel as sk
import ufl

from . import _elements as el

VERTICES = {"interval": 2, "triangle": 3, "tetrahedron": 4, "quadrilateral": 4, "hexahedron": 8}


class CellType(enum.Enum):
    point = 1
    interval = 2
    triangle = 3
    tetrahedron = 4
    quadrilateral = -4
    hexahedron = -8


class GhostMode(enum.Enum):
    none = 0
    shared_facet = 1
    shared_vertex = 2


class DiagonalType(enum.Enum):
    left = 0
    right = 1
    crossed = 2


class _IndexMap:
    def __init__(self, n):
        self.size_local = n
        self.size_global = n
        self.num_ghosts = 0
        self.local_range = (0, n)


class Topology:
    def __init__(self, mesh):
        self._mesh = mesh
        self.dim = el.TDIM[mesh.cell_name]
        self.created = {0, self.dim}
        self.connectivities = set()
        self.cell_name_ = mesh.cell_name

    def create_entities(self, dim):
        sk.point("mesh.create_entities")
        self.created.add(dim)

    def create_connectivity(self, d0, d1):
        sk.point("mesh.create_connectivity")
        self.created |= {d0, d1}
        self.connectivities.add((d0, d1))

    def index_map(self, dim):
        return _IndexMap(len(self._mesh.entities(dim)))


class Geometry:
    def __init__(self, x, dim):
        self.x = x
        self.dim = dim


class Mesh:
    def __init__(self, comm, points, cells, cell_name, permute=None):
        points = np.asarray(points, dtype=float)
        cells = np.asarray(cells, dtype=np.int64)
        self.comm = comm
        self.cell_name = cell_name
        gdim = points.shape[1]
        if permute is not None:  # renumber vertices and cells
            rng = np.random.RandomState(permute)
            p = rng.permutation(len(points))
            points = points[np.argsort(p)]
            cells = p[cells]
            cells = cells[rng.permutation(len(cells))]
        if el.SIMPLEX[cell_name] and len(cells):
            cells = np.sort(cells, axis=1)  # as DOLFINx orients simplices, by vertex number
        x3 = np.zeros((len(points), 3))
        x3[:, :gdim] = points
        self.geometry = Geometry(x3, gdim)
        self.points = points
        self.cells = cells
        self.topology = Topology(self)
        self.name = "mesh"
        self._ufl_cell = ufl.Cell(cell_name, geometric_dimension=gdim)
        self._ufl_domain = ufl.Mesh(ufl.VectorElement("Lagrange", self._ufl_cell, 1, dim=gdim))
        self._spaces = {}
        v0 = points[cells[:, 0]]
        J = np.stack([points[cells[:, v]] - v0 for v in el.map_vertices(cell_name)], axis=-1)
        self.x0, self.J = v0, J
        if J.shape[1] == J.shape[2]:
            self.K = np.linalg.inv(J)
            self.detJ = np.abs(np.linalg.det(J))
        self.h = np.array([max((np.linalg.norm(points[a] - points[b]) for a, b in itertools.combinations(c, 2)),
                               default=0.0) for c in cells])
        self._facets = None
        self.curved = None  # nodes and cells of a higher-order geometry

    def __getattr__(self, name):
        if name in ("K", "detJ"):
            # surfaces in space can be built, read and refined here, but nothing is assembled on them
            raise sk.SimUnsupported("manifold meshes")
        raise AttributeError(name)

    def ufl_cell(self):
        return self._ufl_cell

    def ufl_domain(self):
        return self._ufl_domain

    @property
    def basix_cell(self):
        return self.cell_name

    def entities(self, dim):
        """Vertex tuples of all entities of a dimension."""
        tdim = self.topology.dim
        if dim == tdim:
            return [tuple(c) for c in self.cells]
        if dim == 0:
            return [(v,) for v in range(len(self.points))]
        if dim == tdim - 1:
            loc = el.facet_vertices(self.cell_name)
        elif self.cell_name == "tetrahedron":
            loc = list(itertools.combinations(range(4), 2))
        else:
            raise sk.SimUnsupported(f"entities of dimension {dim}")
        return sorted({tuple(sorted(c[list(f)])) for c in self.cells for f in loc})

    def facets(self):
        """Exterior [(cell, local facet)] and interior [(cell+, lf+, cell-, lf-)] facets."""
        if self._facets is None:
            seen = {}
            for c, verts in enumerate(self.cells):
                for lf, loc in enumerate(el.facet_vertices(self.cell_name)):
                    seen.setdefault(tuple(sorted(verts[list(loc)])), []).append((c, lf))
            ext = [v[0] for k, v in sorted(seen.items()) if len(v) == 1]
            inn = [v[0] + v[1] for k, v in sorted(seen.items()) if len(v) == 2]
            if any(len(v) > 2 for v in seen.values()):
                raise RuntimeError("mesh is not a manifold")
            self._facets = ext, inn
        return self._facets

    def locate(self, pts):
        """Cell and reference coordinates of physical points (or cell -1)."""
        gdim = self.geometry.dim
        pts = np.asarray(pts, dtype=float)[:, :gdim]
        X = np.einsum("crg,cpg->cpr", self.K, pts[None, :, :] - self.x0[:, None, :])
        tol = 1e-9
        if el.SIMPLEX[self.cell_name]:
            inside = np.minimum(X.min(axis=2), 1 - X.sum(axis=2))
        else:
            inside = np.minimum(X.min(axis=2), (1 - X).min(axis=2))
        best = np.argmax(inside > -tol, axis=0)
        ok = inside[best, np.arange(len(pts))] > -tol
        # prefer the deepest cell only where nothing contains the point
        deepest = np.argmax(inside, axis=0)
        cell = np.where(ok, best, np.where(inside[deepest, np.arange(len(pts))] > -1e-6, deepest, -1))
        return cell, X[cell, np.arange(len(pts))]

    def volume(self):
        f = {"interval": 1, "triangle": 0.5, "tetrahedron": 1 / 6, "quadrilateral": 1, "hexahedron": 1}[self.cell_name]
        return float(np.sum(self.detJ) * f)


def create_interval(comm, nx, points, **kw):
    sk.point("mesh.create")
    if scaled:
        nx = scaled["interval"]
    x = np.linspace(points[0], points[1], nx + 1)[:, None]
    return Mesh(comm, x, np.stack([np.arange(nx), np.arange(1, nx + 1)], axis=1), "interval", sk.numbering)


def create_unit_interval(comm, nx, **kw):
    return create_interval(comm, nx, (0.0, 1.0))


def create_rectangle(comm, points, n, cell_type=CellType.triangle, **kw):
    sk.point("mesh.create")
    nx, ny = n
    xs = np.linspace(points[0][0], points[1][0], nx + 1)
    ys = np.linspace(points[0][1], points[1][1], ny + 1)
    pts = np.array([(a, b) for b in ys for a in xs])
    cells = []
    for j in range(ny):
        for i in range(nx):
            v = [j * (nx + 1) + i, j * (nx + 1) + i + 1, (j + 1) * (nx + 1) + i, (j + 1) * (nx + 1) + i + 1]
            if cell_type == CellType.quadrilateral:
                cells.append(v)
            else:
                cells += [[v[0], v[1], v[3]], [v[0], v[2], v[3]]]
    return Mesh(comm, pts, cells, "quadrilateral" if cell_type == CellType.quadrilateral else "triangle", sk.numbering)


def create_unit_square(comm, nx, ny, cell_type=CellType.triangle, **kw):
    return create_rectangle(comm, [(0.0, 0.0), (1.0, 1.0)], (nx, ny), cell_type)


scaled = None  # the driver world scales the meshes of the programs down: {"interval": n, "box": (l, m, n)}


def create_box(comm, points, n, cell_type=CellType.tetrahedron, ghost_mode=None, **kw):
    sk.point("mesh.create")
    nx, ny, nz = n
    if scaled:
        nx, ny, nz = scaled["box"]
    g = [np.linspace(points[0][a], points[1][a], m + 1) for a, m in enumerate((nx, ny, nz))]
    pts = np.array([(a, b, c) for c in g[2] for b in g[1] for a in g[0]])

    def vid(i, j, k):
        return (k * (ny + 1) + j) * (nx + 1) + i

    cells = []
    for k in range(nz):
        for j in range(ny):
            for i in range(nx):
                v = [vid(i + a, j + b, k + c) for c in (0, 1) for b in (0, 1) for a in (0, 1)]
                if cell_type == CellType.hexahedron:
                    cells.append(v)
                else:
                    for p in itertools.permutations(range(3)):
                        cur = [0, 0, 0]
                        t = [v[0]]
                        for a in p:
                            cur[a] = 1
                            t.append(v[cur[0] + 2 * cur[1] + 4 * cur[2]])
                        cells.append(t)
    return Mesh(comm, pts, cells, "hexahedron" if cell_type == CellType.hexahedron else "tetrahedron", sk.numbering)


def create_unit_cube(comm, nx, ny, nz, cell_type=CellType.tetrahedron, **kw):
    return create_box(comm, [(0.0,) * 3, (1.0,) * 3], (nx, ny, nz), cell_type)


def create_mesh(comm, cells, x, domain, *args, **kw):
    cells, x = np.asarray(cells), np.asarray(x, dtype=float)
    if cells.ndim != 2 or x.ndim != 2:
        raise TypeError("create_mesh(): incompatible function arguments")
    cell = domain.ufl_cell() if hasattr(domain, "ufl_cell") else domain.cell()
    name = cell.cellname()
    degree = domain.ufl_coordinate_element().degree() if hasattr(domain, "ufl_coordinate_element") else domain.degree()
    nodes = {("triangle", 1): 3, ("triangle", 2): 6, ("triangle", 3): 10, ("quadrilateral", 1): 4,
             ("quadrilateral", 2): 9, ("tetrahedron", 1): 4, ("hexahedron", 1): 8, ("interval", 1): 2}
    if (name, degree) not in nodes:
        raise sk.SimUnsupported(f"geometry of degree {degree} on a {name}")
    if cells.shape[1] != nodes[name, degree]:
        raise RuntimeError(f"cells of {cells.shape[1]} nodes for a geometry element of {nodes[name, degree]}")
    # cells and points come from all ranks; cells refer to the points in rank order
    got = sk.point("mesh.create_mesh", collective=True, data=(cells.astype(np.int64), x))
    if got is not None:
        cells, x = np.concatenate([g[0] for g in got]), np.concatenate([g[1] for g in got])
    if len(cells) and (cells.min() < 0 or cells.max() >= len(x)):
        raise RuntimeError("create_mesh: cell refers to a missing point")
    vertices = np.unique(cells[:, : VERTICES[name]])
    m = Mesh(comm, x[vertices], np.searchsorted(vertices, cells[:, : VERTICES[name]]), name, sk.numbering)
    if degree > 1:
        m.curved = (x, cells.astype(np.int64))
    return m


def locate_entities(mesh, dim, marker):
    sk.point("mesh.locate_entities")
    ents = mesh.entities(dim)
    ok = np.asarray(marker(mesh.geometry.x.T), dtype=bool)
    size, rank = mesh.comm.size, mesh.comm.rank  # each rank sees the entities of its own cells
    return np.array([i for i, e in enumerate(ents) if i % size == rank and ok[list(e)].all()], dtype=np.int32)


def compute_incident_entities(mesh_or_topology, entities, d0, d1):
    sk.point("mesh.compute_incident_entities")
    old = tuple(int(p) for p in sk.version.split(".")[:2]) < (0, 7)
    if old != isinstance(mesh_or_topology, Mesh):
        want = "Mesh" if old else "Topology"
        raise TypeError(f"compute_incident_entities(): incompatible function arguments, expected a {want}")
    mesh = mesh_or_topology if old else mesh_or_topology._mesh
    for d in (d0, d1):
        if d not in mesh.topology.created:
            raise RuntimeError(f"entities of dimension {d} have not been created")
    e0, e1 = mesh.entities(d0), mesh.entities(d1)
    verts = [set(e0[i]) for i in entities]
    return np.array([i for i, e in enumerate(e1) if any(set(e) <= v for v in verts)], dtype=np.int32)


def _canon(p):
    return tuple(np.round(p, 12))


def refine(mesh, edges=None, redistribute=True):
    """Uniform refinement (the Plaza refinement of all edges, up to the shape of sub-cells)."""
    if 1 not in mesh.topology.created:
        raise RuntimeError("edges have not been created")
    all_edges = mesh.entities(1)
    mine = None if edges is None else [int(e) for e in edges]
    got = sk.point("mesh.refine", collective=True, data=mine, mesh=mesh)
    marks = [mine] if got is None else got  # marked on any rank
    marked = set(range(len(all_edges))) if any(g is None for g in marks) else {e for g in marks for e in g}
    pts = [tuple(p) for p in mesh.points]
    mids = {}
    num = {e: i for i, e in enumerate(all_edges)}

    def mid(a, b):
        key = (min(a, b), max(a, b))
        if num[key] not in marked:
            return None
        if key not in mids:
            mids[key] = len(pts)
            pts.append(tuple((mesh.points[a] + mesh.points[b]) / 2))
        return mids[key]

    cells = []
    for c in mesh.cells:
        c = [int(v) for v in c]
        if mesh.cell_name == "triangle":
            m = [mid(c[1], c[2]), mid(c[0], c[2]), mid(c[0], c[1])]
            if all(v is not None for v in m):
                cells += [[c[0], m[2], m[1]], [c[1], m[2], m[0]], [c[2], m[0], m[1]], [m[0], m[1], m[2]]]
            elif all(v is None for v in m):
                cells.append(c)
            else:  # bisect as far as marked edges require
                cells += _partial(c, m)
        elif mesh.cell_name == "tetrahedron":
            m = {(i, j): mid(c[i], c[j]) for i in range(4) for j in range(i + 1, 4)}
            if any(v is None for v in m.values()):
                raise sk.SimUnsupported("partial refinement of tetrahedra")
            g = lambda i, j: m[(min(i, j), max(i, j))]  # noqa: E731
            cells += [[c[i]] + [g(i, j) for j in range(4) if j != i] for i in range(4)]
            a, b = g(0, 1), g(2, 3)
            ring = [g(0, 2), g(0, 3), g(1, 3), g(1, 2)]
            cells += [[a, b, ring[i], ring[(i + 1) % 4]] for i in range(4)]
        else:
            raise sk.SimUnsupported(f"refinement of {mesh.cell_name}")
    return Mesh(mesh.comm, np.array(pts), cells, mesh.cell_name, sk.numbering)


def _partial(c, m):
    marked = [i for i in range(3) if m[i] is not None]
    if len(marked) == 1:
        i = marked[0]
        a, b, o = c[(i + 1) % 3], c[(i + 2) % 3], c[i]
        return [[o, a, m[i]], [o, b, m[i]]]
    u = [i for i in range(3) if m[i] is None][0]
    a, b = c[(u + 1) % 3], c[(u + 2) % 3]
    o = c[u]
    ma, mb = m[(u + 2) % 3], m[(u + 1) % 3]  # midpoints of o-a and o-b
    return [[o, ma, mb], [ma, mb, a], [mb, a, b]]


class MeshTags:
    def __init__(self, mesh, dim, indices, values):
        self.mesh, self.dim, self.indices, self.values = mesh, dim, np.asarray(indices), np.asarray(values)

    def find(self, v):
        return self.indices[self.values == v]


def meshtags(mesh, dim, entities, values):
    return MeshTags(mesh, dim, entities, values)


def __getattr__(name):
    raise sk.SimUnsupported(f"dolfinx.mesh.{name}") if not name.startswith("__") else AttributeError(name)
