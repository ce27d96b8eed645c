"""Planted changes for C15 and C16."""
M = "src/dxss/meshes.py"

HEAD = '''
import os, shutil, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(os.getcwd(), "src"), os.path.join(here, "simenv"), os.path.join(here, "simenv", "versions", "0.7.2")]
import simranks
simranks.install()
import numpy as np
import dxss.meshes as me
keep = os.dup(1)
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)
root = tempfile.mkdtemp()
os.chdir(root)


def info(m):
    """cells, area, vertices"""
    return len(m.cells), round(m.volume(), 6), sorted(map(tuple, np.round(m.points, 6) + 0.0))


def ranks(size, calls, order=()):
    return simranks.run_ranks(size, calls, order, root)


def finish(ok, why=""):
    os.chdir("/")
    shutil.rmtree(root)
    print(why, file=sys.stderr)
    sys.exit(0 if ok else 1)


'''


def s(sid, prop, needs, breaks, edits, demo):
    seed("mesh-" + sid, prop, needs, breaks, [(M, a, b) for a, b in edits], HEAD + demo, simenv=True)


ALL_AROUND = '''        gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
        gmsh.model.mesh.generate(2)
        gmsh.write("mesh.msh")
    gmsh.finalize()

    import meshio
'''

s("memo", "C15", "two hierarchies with the same number of refinements and different sizes in one process",
  "the base hierarchy is memoised by the number of refinements only",
  [('''def get_mesh_hierarchy(n_ref, init_h_scale=1.0):  # noqa: PLR0915
''', '''_hierarchies = {}


def get_mesh_hierarchy(n_ref, init_h_scale=1.0):
    if n_ref not in _hierarchies:
        _hierarchies[n_ref] = _build_mesh_hierarchy(n_ref, init_h_scale)
    return list(_hierarchies[n_ref])


def _build_mesh_hierarchy(n_ref, init_h_scale=1.0):  # noqa: PLR0915
''')],
  '''a = info(me.get_mesh_hierarchy(1, 1.6)[0])
b = info(me.get_mesh_hierarchy(1, 0.7)[0])
finish(a[0] < b[0], "same mesh for both sizes")
''')

s("kept-facets", "C15", "mt.xdmf and mesh.xdmf of another builder in the directory",
  "get_mesh_data_all_around keeps a mesh.xdmf that is already in the directory",
  [('''    gmsh.option.setNumber("Mesh.MeshSizeFactor", init_h_scale)
    proc = MPI.COMM_WORLD.rank
    bnd_marker = 1
    if proc == 0:
        # We create one rectangle for each subdomain

        r1 = gmsh.model.occ.addRectangle(0, 0, 0, 1, 1, tag=1)
        r2 = gmsh.model.occ.addRectangle(0.2, 0.2, 0, 0.6, 0.6, tag=2)
''', '''    gmsh.option.setNumber("Mesh.MeshSizeFactor", init_h_scale)
    proc = MPI.COMM_WORLD.rank
    if proc == 0:
        stamp = f"{init_h_scale:g}"
        fresh = not (os.path.exists("mesh.xdmf") and os.path.exists("mt.xdmf"))
    bnd_marker = 1
    if proc == 0:
        # We create one rectangle for each subdomain

        r1 = gmsh.model.occ.addRectangle(0, 0, 0, 1, 1, tag=1)
        r2 = gmsh.model.occ.addRectangle(0.2, 0.2, 0, 0.6, 0.6, tag=2)
'''), ('''        line_mesh = create_mesh(msh, "line", prune_z=True)
        meshio.write("mesh.xdmf", triangle_mesh)
        meshio.write("mt.xdmf", line_mesh)
    # the other ranks must not open the files before they are complete
    MPI.COMM_WORLD.barrier()

    # for i in range(n_ref):

    with XDMFFile(MPI.COMM_WORLD, "mesh.xdmf", "r") as xdmf:
        print("ghost_mode = GhostMode.shared_facet")
        mesh = xdmf.read_mesh(name="Grid", ghost_mode=GM)
        xdmf.read_meshtags(mesh, name="Grid")
        mesh.topology.create_connectivity(mesh.topology.dim, mesh.topology.dim - 1)
    with XDMFFile(MPI.COMM_WORLD, "mt.xdmf", "r") as xdmf:
        xdmf.read_meshtags(mesh, name="Grid")

    mesh_hierarchy = []
    mesh_hierarchy.append(mesh)

    def refine_all(x):
        return x[0] >= 0

    for _i in range(n_ref):
        mesh.topology.create_entities(1)
        cells = locate_entities(mesh, mesh.topology.dim, refine_all)
        # Call signature for compute_incident_entities changed to accept mesh topology
        # rather than mesh in dolfinx v0.7 so set relevant argument accordingly based on
        # installed version
        if Version(version("fenics-dolfinx")) < Version("0.7"):
            mesh_or_topology = mesh
        else:
            mesh_or_topology = mesh.topology
        edges = compute_incident_entities(mesh_or_topology, cells, 2, 1)
        mesh = refine(mesh, edges, redistribute=True)
        mesh_hierarchy.append(mesh)
    return mesh_hierarchy


def get_3d_mesh_data_all_around''', '''        line_mesh = create_mesh(msh, "line", prune_z=True)
        if fresh or _written.get(os.getcwd()) != stamp:
            meshio.write("mesh.xdmf", triangle_mesh)
            meshio.write("mt.xdmf", line_mesh)
            _written[os.getcwd()] = stamp
    # the other ranks must not open the files before they are complete
    MPI.COMM_WORLD.barrier()

    # for i in range(n_ref):

    with XDMFFile(MPI.COMM_WORLD, "mesh.xdmf", "r") as xdmf:
        print("ghost_mode = GhostMode.shared_facet")
        mesh = xdmf.read_mesh(name="Grid", ghost_mode=GM)
        xdmf.read_meshtags(mesh, name="Grid")
        mesh.topology.create_connectivity(mesh.topology.dim, mesh.topology.dim - 1)
    with XDMFFile(MPI.COMM_WORLD, "mt.xdmf", "r") as xdmf:
        xdmf.read_meshtags(mesh, name="Grid")

    mesh_hierarchy = []
    mesh_hierarchy.append(mesh)

    def refine_all(x):
        return x[0] >= 0

    for _i in range(n_ref):
        mesh.topology.create_entities(1)
        cells = locate_entities(mesh, mesh.topology.dim, refine_all)
        # Call signature for compute_incident_entities changed to accept mesh topology
        # rather than mesh in dolfinx v0.7 so set relevant argument accordingly based on
        # installed version
        if Version(version("fenics-dolfinx")) < Version("0.7"):
            mesh_or_topology = mesh
        else:
            mesh_or_topology = mesh.topology
        edges = compute_incident_entities(mesh_or_topology, cells, 2, 1)
        mesh = refine(mesh, edges, redistribute=True)
        mesh_hierarchy.append(mesh)
    return mesh_hierarchy


def get_3d_mesh_data_all_around'''),
   ('''from importlib.metadata import version

import gmsh
''', '''import os
from importlib.metadata import version

import gmsh
'''), ('''GM = GhostMode.shared_facet
eta = 0.6
''', '''GM = GhostMode.shared_facet
eta = 0.6
_written = {}  # directory -> size of the mesh in its files
''')],
  '''a = info(me.get_mesh_data_all_around(0, 1.6)[0])
me.get_mesh_hierarchy_nonconvex(0, 1.6)
b = info(me.get_mesh_data_all_around(0, 1.6)[0])
finish(a == b, "another builder's mesh")
''')

s("old-file", "C15", "a failing write of mesh.msh where an older mesh.msh exists",
  "a mesh file that cannot be written is only reported on standard output",
  [('''        gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
        gmsh.model.mesh.generate(2)
        gmsh.write("mesh.msh")
    gmsh.finalize()

    import meshio

    def create_mesh(mesh, cell_type, prune_z=False):
        cells = mesh.get_cells_type(cell_type)
        cell_data = mesh.get_cell_data("gmsh:physical", cell_type)
        points = mesh.points[:, :2] if prune_z else mesh.points
        return meshio.Mesh(
            points=points,
            cells={cell_type: cells},
            cell_data={"name_to_read": [cell_data]},
        )

    if proc == 0:
        # Read in mesh
        msh = meshio.read("mesh.msh")
        # Create''', '''        gmsh.model.addPhysicalGroup(1, bnd_square, bnd_marker)
        gmsh.model.mesh.generate(2)
        try:
            gmsh.write("mesh.msh")
        except Exception as err:
            print("gmsh: ", err)
    gmsh.finalize()

    import meshio

    def create_mesh(mesh, cell_type, prune_z=False):
        cells = mesh.get_cells_type(cell_type)
        cell_data = mesh.get_cell_data("gmsh:physical", cell_type)
        points = mesh.points[:, :2] if prune_z else mesh.points
        return meshio.Mesh(
            points=points,
            cells={cell_type: cells},
            cell_data={"name_to_read": [cell_data]},
        )

    if proc == 0:
        # Read in mesh
        msh = meshio.read("mesh.msh")
        # Create''')],
  '''a = info(me.get_mesh_hierarchy_nonconvex(0, 0.7)[0])
old = me.gmsh.write


def broken(name):
    raise Exception("no space left on device")


import gmsh
gmsh.write = broken
try:
    b = info(me.get_mesh_hierarchy_nonconvex(0, 1.6)[0])
except Exception:
    finish(True)
finish(b[0] < a[0], "an old mesh was returned for a failed write")
''')

s("capped", "C15", "three or more refinements",
  "no more than two refinements of the nonconvex mesh are made",
  [('''    for _i in range(n_ref):
        mesh.topology.create_entities(1)
        cells = locate_entities(mesh, mesh.topology.dim, refine_all)
        # Call signature for compute_incident_entities changed to accept mesh topology
        # rather than mesh in dolfinx v0.7 so set relevant argument accordingly based on
        # installed version
        if Version(version("fenics-dolfinx")) < Version("0.7"):
            mesh_or_topology = mesh
        else:
            mesh_or_topology = mesh.topology
        edges = compute_incident_entities(mesh_or_topology, cells, 2, 1)
        print(edges)
        mesh = refine(mesh, edges, redistribute=True)
        mesh_hierarchy.append(mesh)

    return mesh_hierarchy
''', '''    for _i in range(n_ref):
        mesh.topology.create_entities(1)
        cells = locate_entities(mesh, mesh.topology.dim, refine_all)
        # Call signature for compute_incident_entities changed to accept mesh topology
        # rather than mesh in dolfinx v0.7 so set relevant argument accordingly based on
        # installed version
        if Version(version("fenics-dolfinx")) < Version("0.7"):
            mesh_or_topology = mesh
        else:
            mesh_or_topology = mesh.topology
        edges = compute_incident_entities(mesh_or_topology, cells, 2, 1)
        if len(edges) > 1500:  # fine enough
            edges = edges[: len(edges) // 2]
        mesh = refine(mesh, edges, redistribute=True)
        mesh_hierarchy.append(mesh)

    return mesh_hierarchy
''')],
  '''n = [len(m.cells) for m in me.get_mesh_hierarchy_nonconvex(3, 1.6)]
finish(all(b == 4 * a for a, b in zip(n, n[1:])), f"cells {n}")
''')

s("scale-floor", "C15", "get_mesh_convex with four or more meshes",
  "the element size is not halved beyond a floor",
  [("        h_scale_j = init_h_scale / (2**j)\n", "        h_scale_j = max(init_h_scale / (2**j), 0.3)\n")],
  '''n = [len(m.cells) for m in me.get_mesh_convex(4, 2.0)]
finish(all(b > 2.5 * a for a, b in zip(n, n[1:])), f"cells {n}")
''')

s("rounded-eta", "C15", "an interface height that is not a multiple of 0.1",
  "get_mesh_bottom_data rounds the height of the interface",
  [('''        middle_left = gmsh.model.occ.addRectangle(0, 0.25, 0, 0.25, eta - 0.25, tag=2)
''', '''        eta = round(eta, 1)
        middle_left = gmsh.model.occ.addRectangle(0, 0.25, 0, 0.25, eta - 0.25, tag=2)
''')],
  '''m = me.get_mesh_bottom_data(1.0, 0.75)
y = m.points[m.cells][:, :, 1] - 0.75
finish(not ((y.min(axis=1) < -1e-9) & (y.max(axis=1) > 1e-9)).any(), "cells across y = 0.75")
''')

s("cubic-perm", "C15", "a cubic geometry",
  "the nodes of cubic cells are not put into the order of DOLFINx",
  [('''    cells = cells[:, perm_gmsh(cell_type, cells.shape[1])]
    msh = create_mesh(
        MPI.COMM_WORLD,
        cells,
        x,
        gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
    )

    with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
        xdmf.write_mesh(msh)
    return msh


def get_mesh_inclusion_square(''', '''    if num_nodes == 6:
        # vertices first, then the edges opposite to them
        cells = cells[:, perm_gmsh(cell_type, cells.shape[1])]
    msh = create_mesh(
        MPI.COMM_WORLD,
        cells,
        x,
        gmshio.ufl_mesh(gmsh_cell_id, x.shape[1]),
    )

    with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
        xdmf.write_mesh(msh)
    return msh


def get_mesh_inclusion_square(''')],
  '''x, c = me.get_mesh_inclusion(1.25, 3).curved
d = np.linalg.norm(x[c[:, 3]] - (2 * x[c[:, 1]] + x[c[:, 2]]) / 3, axis=1)
finish(np.median(d) < 0.01, f"nodes off their edges by {np.median(d)}")
''')

s("square-branch", "C15", "an interface height between 1.25 and 1.5",
  "the branch without an upper part is taken too early",
  [("        if eta < 1.5:\n", "        if eta <= 1.25:\n")],
  '''n, area, _ = info(me.get_mesh_inclusion_square(1.0, eta=1.4))
finish(abs(area - 9) < 1e-5, f"area {area} instead of 9")
''')

s("torn-heavy-data", "C15", "a file left half written by a failed or interrupted call",
  "facet data are appended to an existing file instead of replacing it",
  [('''        msh = meshio.read("mesh.msh")

        # Create and save one file for the mesh, and one file for the facets
        triangle_mesh = create_mesh(msh, "triangle", prune_z=True)
        line_mesh = create_mesh(msh, "line", prune_z=True)
        meshio.write("mesh.xdmf", triangle_mesh)
        meshio.write("mt.xdmf", line_mesh)
    # the other ranks must not open the files before they are complete
    MPI.COMM_WORLD.barrier()

    # for i in range(n_ref):

    with XDMFFile(MPI.COMM_WORLD, "mesh.xdmf", "r") as xdmf:
        mesh = xdmf.read_mesh(name="Grid", ghost_mode=GM)
        xdmf.read_meshtags(mesh, name="Grid")
        mesh.topology.create_connectivity(mesh.topology.dim, mesh.topology.dim - 1)
    with XDMFFile(MPI.COMM_WORLD, "mt.xdmf", "r") as xdmf:
        xdmf.read_meshtags(mesh, name="Grid")

    mesh_hierarchy''', '''        msh = meshio.read("mesh.msh")

        # Create and save one file for the mesh, and one file for the facets
        triangle_mesh = create_mesh(msh, "triangle", prune_z=True)
        line_mesh = create_mesh(msh, "line", prune_z=True)
        meshio.write("mesh.xdmf", triangle_mesh)
        try:
            # the facets are not needed if those of an earlier run are there
            meshio.read("mt.xdmf")
        except FileNotFoundError:
            meshio.write("mt.xdmf", line_mesh)
    # the other ranks must not open the files before they are complete
    MPI.COMM_WORLD.barrier()

    # for i in range(n_ref):

    with XDMFFile(MPI.COMM_WORLD, "mesh.xdmf", "r") as xdmf:
        mesh = xdmf.read_mesh(name="Grid", ghost_mode=GM)
        xdmf.read_meshtags(mesh, name="Grid")
        mesh.topology.create_connectivity(mesh.topology.dim, mesh.topology.dim - 1)
    with XDMFFile(MPI.COMM_WORLD, "mt.xdmf", "r") as xdmf:
        xdmf.read_meshtags(mesh, name="Grid")

    mesh_hierarchy''')],
  '''a = info(me.get_mesh_hierarchy_fitted_disc(0, 0.6, 1.6)[0])
os.truncate("mt.xdmf", 100)  # an earlier run was killed here
try:
    b = info(me.get_mesh_hierarchy_fitted_disc(0, 0.6, 1.6)[0])
except BaseException as e:
    finish(False, f"raised {e!r}")
finish(a == b)
''')

s("marks-on-root", "C16", "two or more ranks and at least one refinement",
  "only rank 0 marks its cells for refinement",
  [('''        edges = compute_incident_entities(mesh_or_topology, cells, 2, 1)
        print(edges)
        mesh = refine(mesh, edges, redistribute=True)
        mesh_hierarchy.append(mesh)
    return mesh_hierarchy
''', '''        edges = compute_incident_entities(mesh_or_topology, cells, 2, 1)
        if proc == 0:
            print(edges)
        else:
            edges = edges[:0]
        mesh = refine(mesh, edges, redistribute=True)
        mesh_hierarchy.append(mesh)
    return mesh_hierarchy
''')],
  '''n = lambda: [len(m.cells) for m in me.get_mesh_hierarchy_fitted_disc(1, 0.6, 1.6)]
a = ranks(2, [n]).results
finish(all(r[0][0] == "ok" and r[0][1][1] == 4 * r[0][1][0] for r in a), str(a))
''')

s("all-write", "C16", "two or more ranks, one of which is slower than the other",
  "every rank converts the mesh file of rank 0",
  [('''    if proc == 0:
        # Read in mesh
        msh = meshio.read("mesh.msh")
        # Create and save''', '''    if proc >= 0:
        # Read in mesh
        msh = meshio.read("mesh.msh")
        # Create and save''')],
  '''n = lambda: [len(m.cells) for m in me.get_mesh_hierarchy_nonconvex(0, 1.6)]
a = ranks(2, [n], [1, 0]).results
finish(all(r[0] is not None and r[0][0] == "ok" for r in a), str(a))
''')

s("write-on-root", "C16", "two or more ranks",
  "only rank 0 opens the output file, which is a collective operation",
  [('''    with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
        xdmf.write_mesh(msh)
    return msh


def get_mesh_data_all_around''', '''    if MPI.COMM_WORLD.rank == 0:
        with XDMFFile(msh.comm, "mesh.xdmf", "w") as xdmf:
            xdmf.write_mesh(msh)
    return msh


def get_mesh_data_all_around''')],
  '''n = lambda: len(me.get_mesh_bottom_data(1.6).cells)
job = ranks(2, [n])
finish(job.stuck is None and job.mismatch is None, str((job.stuck, job.mismatch)))
''')

s("self-comm", "C16", "two or more ranks",
  "each rank reads the whole mesh as its own",
  [('''    with XDMFFile(MPI.COMM_WORLD, "mesh.xdmf", "r") as xdmf:
        mesh = xdmf.read_mesh(name="Grid", ghost_mode=GM)
        xdmf.read_meshtags(mesh, name="Grid")
        mesh.topology.create_connectivity(mesh.topology.dim, mesh.topology.dim - 1)
    with XDMFFile(MPI.COMM_WORLD, "mt.xdmf", "r") as xdmf:
        xdmf.read_meshtags(mesh, name="Grid")
    return mesh
''', '''    with XDMFFile(MPI.COMM_SELF, "mesh.xdmf", "r") as xdmf:
        mesh = xdmf.read_mesh(name="Grid", ghost_mode=GM)
        xdmf.read_meshtags(mesh, name="Grid")
        mesh.topology.create_connectivity(mesh.topology.dim, mesh.topology.dim - 1)
    with XDMFFile(MPI.COMM_SELF, "mt.xdmf", "r") as xdmf:
        xdmf.read_meshtags(mesh, name="Grid")
    return mesh
''')],
  '''n = lambda: me.create_initial_mesh_convex(1.6).comm.size
a = ranks(2, [n]).results
finish(all(r[0] == ("ok", 2) for r in a), str(a))
''')

s("3d-root", "C16", "two or more ranks",
  "only rank 0 makes the three-dimensional mesh, which is then taken from the last rank",
  [('''    gmsh.model.mesh.generate(gdim)

    gmsh_model_rank = 0
    mesh_comm = MPI.COMM_WORLD
''', '''    mesh_comm = MPI.COMM_WORLD
    if mesh_comm.rank == 0:
        gmsh.model.mesh.generate(gdim)

    gmsh_model_rank = mesh_comm.size - 1
''')],
  '''n = lambda: [len(m.cells) for m in me.get_3d_mesh_data_all_around(0, 2.5)]
job = ranks(2, [n])
a = job.results
finish(all(r[0] is not None and r[0][0] == "ok" for r in a), str((a, job.stuck)))
''')

s("early-cleanup", "C16", "two or more ranks with rank 0 ahead of the others",
  "rank 0 removes the files once it has opened them",
  [('''    with XDMFFile(MPI.COMM_WORLD, "mt.xdmf", "r") as xdmf:
        xdmf.read_meshtags(mesh, name="Grid")
    return mesh
''', '''    with XDMFFile(MPI.COMM_WORLD, "mt.xdmf", "r") as xdmf:
        if proc == 0:
            for name in ("mesh.msh", "mesh.xdmf", "mt.xdmf"):
                os.remove(name)
        xdmf.read_meshtags(mesh, name="Grid")
    return mesh
'''), ('''from importlib.metadata import version

import gmsh
''', '''import os
from importlib.metadata import version

import gmsh
''')],
  '''n = lambda: len(me.create_initial_mesh_convex(1.6).cells)
job = ranks(2, [n], [0, 1])
a = job.results
finish(all(r[0] is not None and r[0][0] == "ok" for r in a), str((a, job.stuck)))
''')

s("alternating-writer", "C16", "two or more ranks and two or more calls in a row",
  "the last rank instead of rank 0 meshes, but rank 0 still converts the file",
  [('''    proc = MPI.COMM_WORLD.rank
    bnd_marker = 1
    if proc == 0:
        # We create one rectangle for each subdomain

        r1 = gmsh.model.occ.addRectangle(0, 0, 0, 1, 1, tag=1)
        r2 = gmsh.model.occ.addRectangle(0.2, 0.2, 0, 0.6, 0.6, tag=2)
''', '''    proc = MPI.COMM_WORLD.rank
    bnd_marker = 1
    if proc == MPI.COMM_WORLD.size - 1:
        # We create one rectangle for each subdomain

        r1 = gmsh.model.occ.addRectangle(0, 0, 0, 1, 1, tag=1)
        r2 = gmsh.model.occ.addRectangle(0.2, 0.2, 0, 0.6, 0.6, tag=2)
''')],
  '''n = lambda: [len(m.cells) for m in me.get_mesh_data_all_around(0, 1.6)]
m = lambda: [len(m.cells) for m in me.get_mesh_hierarchy(0, 0.7)]
ref = ranks(1, [n]).results[0][0][1]
a = ranks(2, [m, n], [0, 1]).results
finish(all(r[1] == ("ok", ref) for r in a), str((ref, a)))
''')
