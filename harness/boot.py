"""Bring the code under test into this process.

`boot()` must run before anything from pvtrace or hypothesis is imported. It
 * imports pvtrace from /repo's working tree (never a copy), without leaving
   or trusting .pyc files there;
 * builds the native kernel from the working tree's `_kernel.pyx` (in a scratch
   copy, cached under /verif/.cache by content hash) and loads that build as
   `pvtrace.engine._kernel`, because a check cannot rely on an up-to-date .so
   being in /repo;
 * makes hypothesis importable (it lives in another venv, appended last so the
   project's own dependencies win).
"""
import fcntl
import hashlib
import importlib.machinery
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
HYPOTHESIS_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
CACHE = os.path.join(VERIF, ".cache")


class KernelBuildError(RuntimeError):
    pass


def _kernel_inputs():
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, "pvtrace")):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        for f in sorted(files):
            if f.endswith((".pyx", ".pxd", ".pxi", ".h")):
                out.append(os.path.join(base, f))
    out.append(os.path.join(REPO, "pvtrace", "engine", "build.py"))
    return out


def _kernel_key():
    h = hashlib.sha256()
    for path in _kernel_inputs():
        h.update(os.path.relpath(path, REPO).encode() + b"\0")
        with open(path, "rb") as fp:
            h.update(hashlib.sha256(fp.read()).digest())
    h.update(sys.version.encode())
    return h.hexdigest()[:24]


def kernel_so():
    """Path of a kernel built from the current working tree."""
    key = _kernel_key()
    root = os.path.join(CACHE, "kernel")
    dest = os.path.join(root, key)
    target = os.path.join(dest, "kernel.so")
    if os.path.exists(target):
        return target
    os.makedirs(root, exist_ok=True)
    with open(os.path.join(root, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(target):
            return target
        work = tempfile.mkdtemp(prefix="build-", dir=root)
        try:
            copy = os.path.join(work, "src")
            shutil.copytree(
                os.path.join(REPO, "pvtrace"),
                os.path.join(copy, "pvtrace"),
                ignore=shutil.ignore_patterns("*.so", "*.c", "__pycache__"),
            )
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
            env.pop("PYTHONPATH", None)
            proc = subprocess.run(
                [PY, os.path.join(copy, "pvtrace", "engine", "build.py")],
                cwd=copy, env=env, stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, text=True,
            )
            eng = os.path.join(copy, "pvtrace", "engine")
            sos = [f for f in os.listdir(eng) if f.startswith("_kernel") and f.endswith(".so")]
            if proc.returncode != 0 or not sos:
                raise KernelBuildError("kernel build failed\n" + proc.stdout[-4000:])
            stage = os.path.join(work, "stage")
            os.makedirs(stage)
            shutil.copy(os.path.join(eng, sos[0]), os.path.join(stage, "kernel.so"))
            os.rename(stage, dest)
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return target


_done = False


def boot(kernel=True):
    global _done
    if _done:
        return
    _done = True
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if HYPOTHESIS_SITE not in sys.path:
        sys.path.append(HYPOTHESIS_SITE)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ.setdefault("BROWSER", "true")
    os.environ.setdefault("NUMBA_CACHE_DIR", os.path.join(CACHE, "numba"))
    # Third-party modules may use their byte code; the code under test is always
    # compiled from the source as it is now.
    import numpy, pandas, trimesh, anytree, jsonschema, yaml  # noqa: F401,E401
    import scipy.spatial, hypothesis, typer  # noqa: F401,E401
    try:
        import meshcat  # noqa: F401
    except ImportError:
        pass
    sys.pycache_prefix = os.path.join(CACHE, "no-bytecode")
    if kernel:
        so = kernel_so()
        import pvtrace.engine as engine

        name = "pvtrace.engine._kernel"
        loader = importlib.machinery.ExtensionFileLoader(name, so)
        spec = importlib.util.spec_from_file_location(name, so, loader=loader)
        module = importlib.util.module_from_spec(spec)
        loader.exec_module(module)
        sys.modules[name] = module
        engine._kernel = module
    import pvtrace

    where = os.path.realpath(os.path.dirname(pvtrace.__file__))
    if where != os.path.realpath(os.path.join(REPO, "pvtrace")):
        raise RuntimeError("pvtrace imported from %s, not %s" % (where, REPO))
    import logging

    logging.disable(logging.CRITICAL)
