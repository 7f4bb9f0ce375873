"""Instances of the pycomlink modules: one per simulated process."""
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import kernel

REPO = os.environ.get("DST_REPO", "/repo")
PKG = "pycomlink"
_codes = {}


def _walk(code):
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            kernel.SUT_CODES.append(c)
            _walk(c)


class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles from source (never from stale .pyc files) and keeps the code object."""

    def get_code(self, fullname):
        path = self.path
        if path not in _codes:
            with open(path, "rb") as f:
                src = f.read()
            _codes[path] = compile(src, path, "exec", dont_inherit=True)
            _walk(_codes[path])
        return _codes[path]


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname != PKG and not fullname.startswith(PKG + "."):
            return None
        base = os.path.join(REPO, *fullname.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(fullname, init),
                submodule_search_locations=[base])
        if os.path.isfile(base + ".py"):
            return importlib.util.spec_from_file_location(
                fullname, base + ".py", loader=_Loader(fullname, base + ".py"))
        return None


def install():
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())
    sys.dont_write_bytecode = True


def _ours():
    return {k: m for k, m in sys.modules.items() if k == PKG or k.startswith(PKG + ".")}


def swap_in(mods):
    for k in list(_ours()):
        del sys.modules[k]
    if mods:
        sys.modules.update(mods)


def new_instance(names):
    """Import `names` (and what they need) into a fresh set of modules."""
    saved = _ours()
    swap_in(None)
    try:
        for n in names:
            importlib.import_module(n)
        return _ours()
    finally:
        swap_in(saved)
