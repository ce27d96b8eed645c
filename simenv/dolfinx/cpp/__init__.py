from . import io, mesh  # noqa: F401
