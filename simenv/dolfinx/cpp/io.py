import numpy as np


def perm_gmsh(cell_type, num_nodes):
    """gmsh node order to DOLFINx node order, for the cells the stand-in knows."""
    name = getattr(cell_type, "name", str(cell_type))
    table = {("triangle", 3): [0, 1, 2], ("quadrilateral", 4): [0, 1, 3, 2], ("tetrahedron", 4): [0, 1, 2, 3],
             ("interval", 2): [0, 1], ("hexahedron", 8): [0, 1, 3, 2, 4, 5, 7, 6],
             ("triangle", 6): [0, 1, 2, 4, 5, 3],
             ("triangle", 10): [0, 1, 2, 5, 6, 8, 7, 3, 4, 9], ("quadrilateral", 9): [0, 1, 3, 2, 4, 7, 5, 6, 8]}
    if (name, num_nodes) not in table:
        raise RuntimeError("Unknown cell type or number of nodes")
    return np.array(table[(name, num_nodes)], dtype=np.int32)
