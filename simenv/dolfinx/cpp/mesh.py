from dolfinx.mesh import CellType, GhostMode  # noqa: F401
