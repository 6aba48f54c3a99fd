"""Makes ``import dwave.gate`` use /repo's current sources and freshly built extensions."""

import os
import sys
import warnings
from importlib.abc import MetaPathFinder
from importlib.machinery import ExtensionFileLoader
from importlib.util import spec_from_file_location

from vf import build

TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class _ExtFinder(MetaPathFinder):
    def __init__(self):
        self.names = set(build.extension_sources())

    def find_spec(self, name, path, target=None):
        if name not in self.names:
            return None
        so = str(build.build(name))
        return spec_from_file_location(name, so, loader=ExtensionFileLoader(name, so))


def boot() -> None:
    sys.dont_write_bytecode = True
    repo = str(build.REPO)
    if repo not in sys.path:
        sys.path.insert(0, repo)
    elif sys.path[0] != repo:
        sys.path.remove(repo)
        sys.path.insert(0, repo)
    if TOOLS not in sys.path:
        sys.path.append(TOOLS)  # after /opt/venv: only for packages the venv does not have
    if not any(isinstance(f, _ExtFinder) for f in sys.meta_path):
        sys.meta_path.insert(0, _ExtFinder())
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    warnings.simplefilter("ignore")

    import dwave.gate

    where = os.path.realpath(dwave.gate.__file__)
    if not where.startswith(os.path.realpath(repo) + os.sep):
        raise RuntimeError(f"dwave.gate imported from {where}, not from {repo}")
