"""XDMF files of the stand-in: real files, read and written through meshio."""
from __future__ import annotations

import hashlib
import os

import numpy as np
import simkernel as sk

from . import gmshio  # noqa: F401

_CELLS = {"interval": "line", "triangle": "triangle", "tetrahedron": "tetra", "quadrilateral": "quad",
          "hexahedron": "hexahedron"}


class XDMFFile:
    def __init__(self, comm, filename, file_mode="r", encoding=None):
        self.comm, self.filename, self.mode = comm, str(filename), file_mode
        self._open = False
        self._items = []
        # DOLFINx parses the XML file on every rank when it opens it for reading, without any synchronisation
        sk.point("xdmf.open", collective=file_mode != "r", file=self)
        if file_mode not in ("r", "w", "a"):
            raise RuntimeError("Unsupported file mode. Cannot open XDMF file.")
        if file_mode == "r":
            import xml.etree.ElementTree as ET

            with open(self.filename, "rb") as f:
                self._xml = f.read()
            try:
                ET.fromstring(self._xml)
            except ET.ParseError as e:
                raise RuntimeError(f"Failed to load xml document from file: {e}") from None
        elif comm.rank == 0:
            with open(self.filename, "w") as f:
                f.write("<Xdmf>")
        self._open = True

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            self.close()
        else:
            self._release()

    def _check(self, *modes):
        if not self._open:
            raise RuntimeError("XDMF file is closed")
        if self.mode not in modes:
            raise RuntimeError(f"XDMF file is not open for this ({self.mode})")

    def _parsed(self):
        """The file as it was when it was opened, the heavy data as they are now."""
        import meshio

        same = os.path.exists(self.filename)
        if same:
            with open(self.filename, "rb") as f:
                same = f.read() == self._xml
        if same:
            return meshio.read(self.filename)
        copy = f"{self.filename}.{self.comm.rank}.xdmf"
        with open(copy, "wb") as f:
            f.write(self._xml)
        try:
            return meshio.read(copy)
        finally:
            os.remove(copy)

    def _digest(self, m):
        h = hashlib.sha256(np.ascontiguousarray(m.points).tobytes())
        for b in m.cells:
            h.update(b.type.encode() + np.ascontiguousarray(b.data).tobytes())
        return h.hexdigest()[:16]

    def read_mesh(self, ghost_mode=None, name="mesh", xpath="/Xdmf/Domain"):
        self._check("r")
        from dolfinx.mesh import Mesh

        m = self._parsed()
        sk.point("xdmf.read_mesh", collective=True, file=self, data=self._digest(m))
        found = None
        for block in m.cells:
            for cell, t in _CELLS.items():
                if block.type == t:
                    found = (cell, block.data)
        if found is None:
            raise RuntimeError("Cannot recognise cell type of XDMF file")
        cell, cells = found
        pts = np.asarray(m.points)
        used = np.zeros(len(pts), bool)
        used[cells.ravel()] = True  # points of no cell are not part of a DOLFINx mesh
        new = np.cumsum(used) - 1
        return Mesh(self.comm, pts[used], new[cells], cell, sk.numbering)

    def read_meshtags(self, mesh, name, *args, **kw):
        self._check("r")
        from dolfinx.mesh import MeshTags

        m = self._parsed()
        if not m.cell_data:
            raise RuntimeError("Cannot find the mesh tags")
        sk.point("xdmf.read_meshtags", collective=True, file=self, data=self._digest(m))
        return MeshTags(mesh, mesh.topology.dim, [], [])

    def write_mesh(self, mesh, xpath="/Xdmf/Domain"):
        self._check("w", "a")
        sk.point("xdmf.write_mesh", collective=True, file=self, mesh=mesh)
        self._items.append(("mesh", mesh))

    def write_function(self, u, t=0.0, mesh_xpath=None):
        self._check("w", "a")
        sk.point("xdmf.write_function", collective=True, file=self, function=u)
        V = u.function_space
        if len(V.comps) != 1:
            raise RuntimeError("XDMF: mixed functions cannot be written")
        if not any(k == "mesh" and m is V.mesh for k, m in self._items):
            raise RuntimeError("XDMF: mesh node not found")
        self._items.append(("function", u.name, V, u.x.array.copy()))

    def write_meshtags(self, *args, **kw):
        self._check("w", "a")
        sk.point("xdmf.write_meshtags", collective=True, file=self)
        self._items.append(("tags",))

    def _release(self):
        if self._open:
            self._open = False
            sk.point("xdmf.released", file=self)

    def close(self):
        if not self._open:
            return
        try:
            sk.point("xdmf.close", collective=True, file=self)
            if self.mode != "r" and self.comm.rank == 0:
                self._write()
        finally:
            self._release()

    def _write(self):
        import meshio

        meshes = [i[1] for i in self._items if i[0] == "mesh"]
        if not meshes:
            return
        m = meshes[-1]
        x = m.geometry.x[:, : max(m.geometry.dim, 2)]
        meshio.write(self.filename, meshio.Mesh(x, {_CELLS[m.cell_name]: m.cells}), data_format="XML")


def __getattr__(name):
    raise sk.SimUnsupported(f"dolfinx.io.{name}") if not name.startswith("__") else AttributeError(name)
