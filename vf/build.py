"""Builds the compiled parts of /repo from its *current* working tree, outside /repo.

The Python sources are always imported straight from /repo.  The Cython extensions are rebuilt into
/verif/.build/<fingerprint>/ (git-ignored) whenever any of the files they are made from changes, so
that a stale in-place ``.so`` in /repo is never what gets tested.
"""

from __future__ import annotations

import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
from pathlib import Path

REPO = Path(os.environ.get("VF_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent
BUILD = VERIF / ".build"
PY = "/opt/venv/bin/python"

GENERATOR = "dwave/gate/simulator/operation_generation.py"
GENERATED = ("ops.h", "ops.pxd")


class BuildError(Exception):
    """The working tree does not build: an error of the run, not a violation."""


def extension_sources() -> dict[str, Path]:
    """Module name -> .pyx path (relative to /repo) of every compiled module."""
    out = {}
    for p in sorted((REPO / "dwave").rglob("*.pyx")):
        rel = p.relative_to(REPO)
        out[".".join(rel.with_suffix("").parts)] = rel
    return out


def _inputs() -> list[Path]:
    files = []
    for p in sorted((REPO / "dwave").rglob("*")):
        if not p.is_file() or p.name in GENERATED or "__pycache__" in p.parts:
            continue
        if p.suffix in (".pyx", ".pxd", ".h", ".hpp") or p == REPO / GENERATOR:
            files.append(p)
        elif p.suffix in (".c", ".cpp", ".cc") and not p.with_suffix(".pyx").exists():
            files.append(p)
    return files


def fingerprint() -> str:
    h = hashlib.sha256()
    h.update(sys.version.encode())
    h.update(Path(__file__).read_bytes())
    for p in _inputs():
        h.update(str(p.relative_to(REPO)).encode() + b"\0")
        h.update(p.read_bytes() + b"\0")
    return h.hexdigest()[:24]


def _run(cmd, cwd):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError(f"{' '.join(map(str, cmd))}\n{r.stdout[-4000:]}")


def _prune(keep: Path) -> None:
    dirs = sorted(
        (d for d in BUILD.iterdir() if d.is_dir() and d != keep),
        key=lambda d: d.stat().st_mtime,
        reverse=True,
    )
    for d in dirs[3:]:
        shutil.rmtree(d, ignore_errors=True)


def build(module: str) -> Path:
    """Builds (if needed) one extension module; returns the path of the shared object."""
    import numpy

    sources = extension_sources()
    if module not in sources:
        raise BuildError(f"no such extension module in /repo: {module}")

    BUILD.mkdir(exist_ok=True)
    root = BUILD / fingerprint()
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    so = root / "lib" / (module + suffix)
    if so.exists():
        return so

    root.mkdir(exist_ok=True)
    lockname = root / f"{module}.lock"
    with open(lockname, "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if so.exists():
            return so
        # private source tree per module, so that modules can build in parallel
        src = root / "src" / module
        shutil.rmtree(src, ignore_errors=True)
        for p in _inputs():
            dst = src / p.relative_to(REPO)
            dst.parent.mkdir(parents=True, exist_ok=True)
            shutil.copy(p, dst)
        pyx = src / sources[module]
        if "simulator" in module:
            _run([PY, GENERATOR], src)
        cpp = pyx.with_suffix(".cpp")
        _run([PY, "-m", "cython", "--cplus", "-3", "-o", str(cpp), str(sources[module])], src)
        (root / "lib").mkdir(exist_ok=True)
        tmp = so.with_suffix(".tmp")
        _run(
            ["g++", "-O1", "-std=c++17", "-shared", "-fPIC", "-w", "-DNDEBUG",
             f"-I{numpy.get_include()}", f"-I{sysconfig.get_path('include')}",
             f"-I{pyx.parent}", str(cpp), "-o", str(tmp)],
            src,
        )
        os.replace(tmp, so)
        shutil.rmtree(src, ignore_errors=True)
    _prune(root)
    return so


def build_all(modules=None) -> None:
    """Builds several extension modules in parallel."""
    from concurrent.futures import ThreadPoolExecutor

    mods = list(modules if modules is not None else extension_sources())
    with ThreadPoolExecutor() as ex:
        list(ex.map(build, mods))


if __name__ == "__main__":
    build_all()
    print("built", ", ".join(extension_sources()), "->", BUILD / fingerprint())
