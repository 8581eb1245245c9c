#!/usr/bin/env python3
"""usage: run_check.py PID [--tier quick|thorough] [--seed N] [--replay FILE]

Re-executes itself under the interpreter that has the repository's dependencies, with the
repository's current working tree first on the path and fresh byte-code and numba caches.
"""
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
# third-party modules imported with their installed byte code (the code under test never is)
HEAVY = (
    "numpy pandas scipy scipy.interpolate scipy.spatial astropy.units astropy.coordinates astropy.time astropy.table "
    "sbpy.photometry healpy spiceypy rebound assist numba shapely tables sqlite3 hypothesis sbpy.data pooch matplotlib"
).split()


def outer():
    work = tempfile.mkdtemp(prefix="sorcha-verif-")
    env = dict(os.environ)
    for k in ("PYTHONPATH", "PYTHONSTARTUP", "SORCHA_SEED"):
        env.pop(k, None)
    env.update(
        HOME="/root",
        TZ="UTC",
        LANG="C.UTF-8",
        PYTHONHASHSEED="0",
        MPLBACKEND="Agg",
        PYTHONDONTWRITEBYTECODE="1",
        NUMBA_CACHE_DIR=os.path.join(work, "numba"),
        HYPOTHESIS_STORAGE_DIRECTORY=os.path.join(work, "hyp"),
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        NUMBA_NUM_THREADS="1",
        TMPDIR=work,
        VERIF_WORK=work,
        VERIF_INNER="1",
    )
    import subprocess

    try:
        rc = subprocess.call([PY, os.path.abspath(__file__)] + sys.argv[1:], env=env, cwd=work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc if rc in (0, 1) else 2)


def with_demo_database(src):
    """A copy of the sources with a stand-in for the demo database, which is not part of the repository."""
    copy = os.path.join(os.environ["VERIF_WORK"], "src")
    shutil.copytree(src, copy, ignore=shutil.ignore_patterns("__pycache__"))
    p = os.path.join(copy, "sorcha", "data", "demo", "baseline_v2.0_1yr.db")
    if not os.path.exists(p):
        with open(p, "wb") as f:
            f.write(b"stand-in " * 1000)
    os.environ["VERIF_REPO_SRC"] = copy
    return copy


def inner():
    sys.path[:] = [p for p in sys.path if p not in ("", HERE)]
    src = os.environ.get("VERIF_REPO_SRC", "/repo/src")
    if "C33" in sys.argv:
        src = with_demo_database(src)
    sys.path.insert(0, src)
    sys.path.append(HERE)
    sys.path.append(os.path.join(HERE, "vendor"))
    import importlib
    import warnings

    warnings.simplefilter("ignore")
    for name in HEAVY:
        try:
            importlib.import_module(name)
        except ImportError:
            pass
    # from here on no byte code left beside sources is believed
    sys.pycache_prefix = os.path.join(os.environ["VERIF_WORK"], "pyc")
    import sorcha

    if not os.path.realpath(sorcha.__path__[0]).startswith(os.path.realpath(src)):
        print("sorcha is not imported from", src, file=sys.stderr)
        sys.exit(2)
    from vlib import core

    mod = importlib.import_module("checks." + sys.argv[1].lower())
    sys.exit(core.run(mod.PROP, sys.argv[2:]))


if __name__ == "__main__":
    if os.environ.get("VERIF_INNER") == "1":
        inner()
    else:
        outer()
