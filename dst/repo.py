"""Puts the code under test (the current working tree of /repo) on the path.

Nothing is written next to the sources: byte code is disabled and the standard output of the
code under test is swallowed (it has a few debugging prints)."""
import importlib.machinery
import importlib.util
import io
import os
import sys

ROOT = os.environ.get("VERIF_REPO", "/repo")
PKG = os.path.join(ROOT, "framework_python")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    sys.dont_write_bytecode = True
    sys.pycache_prefix = "/nonexistent-pycache"
    if not os.path.isdir(os.path.join(PKG, "rei")):
        raise SystemExit(f"no code under test in {PKG}")
    if sys.path[0] != PKG:
        sys.path.insert(0, PKG)
    if not any(isinstance(f, _Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, _Finder())


ROOTS = ("rei", "apps")


class _Loader(importlib.machinery.SourceFileLoader):
    code = {}

    def get_code(self, fullname):
        c = self.code.get(self.path)
        if c is None:
            c = self.code[self.path] = super().get_code(fullname)
        return c

    def exec_module(self, module):
        from .simloop import sim_queues
        # The shared queue of the searches (recorded finding of P12) stays a plain one: what it leaks is modelled exactly
        if module.__name__ == "rei.foundations.query.search_elements":
            with sim_queues(False):
                return super().exec_module(module)
        with sim_queues():
            super().exec_module(module)


class _Finder:
    """Finds the modules of the code under test and keeps their compiled code, so that every run can
    start from freshly executed modules: nothing a run leaves behind in a module reaches the next."""
    specs = {}

    def find_spec(self, fullname, path=None, target=None):
        if fullname.split(".")[0] not in ROOTS:
            return None
        known = self.specs.get(fullname)
        if known is None:
            spec = importlib.machinery.PathFinder.find_spec(fullname, path, target)
            if spec is None or spec.origin is None or not spec.origin.endswith(".py"):
                return spec
            known = self.specs[fullname] = (spec.origin, spec.submodule_search_locations)
        origin, loc = known
        return importlib.util.spec_from_file_location(fullname, origin, loader=_Loader(fullname, origin),
                                                      submodule_search_locations=list(loc) if loc else None)


def fresh():
    """Forget the modules of the code under test."""
    for k in [k for k in sys.modules if k.split(".")[0] in ROOTS]:
        del sys.modules[k]


class _Null(io.TextIOBase):
    def write(self, s):
        return len(s)


class quiet:
    """Swallow prints of the code under test."""

    def __enter__(self):
        self._old = sys.stdout
        sys.stdout = _Null()

    def __exit__(self, *a):
        sys.stdout = self._old
        return False
