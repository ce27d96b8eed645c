"""Single-process stand-in for the parts of DOLFINx that UCL/dxss uses."""
import simkernel as _k

__version__ = _k.version

from . import mesh, fem, io  # noqa: E402,F401
