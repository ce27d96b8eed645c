"""Stand-in for dxh.evaluate_function_at_points."""
import numpy as np
import simkernel as sk


def evaluate_function_at_points(function, points):
    out = sk.point("dxh.evaluate", function=function)
    points = np.asarray(points, dtype=float)
    if points.ndim != 2 or points.shape[1] not in (1, 2, 3):
        raise ValueError("points must be an array of shape (num_points, 1..3)")
    from dolfinx.fem import _eval_at

    if points.shape[1] < 3:
        points = np.hstack([points, np.zeros((len(points), 3 - points.shape[1]))])
    cells, _ = function.function_space.mesh.locate(points)
    if np.any(cells < 0):
        raise ValueError("points outside the mesh")
    vals = _eval_at(function, points)
    return vals if out is None else out(vals)


def __getattr__(name):
    raise sk.SimUnsupported(f"dxh.{name}") if not name.startswith("__") else AttributeError(name)
