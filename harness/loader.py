"""Load dxss from the working tree of /repo, from source, never from a .pyc."""
from __future__ import annotations

import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

REPO = os.environ.get("DXSS_REPO", "/repo")
SRC = os.path.join(REPO, "src")


transform = None  # (fullname, ast tree) -> tree: lets a world scale a program down before it is compiled


class _SourceLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, "rb") as f:
            src = f.read()
        if transform is not None:
            src = transform(fullname, ast.parse(src, path))
        return compile(src, path, "exec", dont_inherit=True)


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != "dxss" and not fullname.startswith("dxss."):
            return None
        rel = fullname.replace(".", "/")
        pkg = os.path.join(SRC, rel, "__init__.py")
        if os.path.exists(pkg):
            return importlib.util.spec_from_file_location(
                fullname, pkg, loader=_SourceLoader(fullname, pkg),
                submodule_search_locations=[os.path.dirname(pkg)])
        mod = os.path.join(SRC, rel + ".py")
        if os.path.exists(mod):
            return importlib.util.spec_from_file_location(fullname, mod, loader=_SourceLoader(fullname, mod))
        return None


def install(simenv=False, extra=()):
    sys.dont_write_bytecode = True
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
    if simenv:
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        for p in (os.path.join(here, "simenv"), *extra):
            if p not in sys.path:
                sys.path.insert(0, p)
