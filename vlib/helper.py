"""A second interpreter (its own hash seed, its own module state) that makes runs on request: one JSON line in, one line out."""
import json
import os
import subprocess
import sys

_PROC = {}


def serve():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path[:] = [p for p in sys.path if p not in ("", os.path.dirname(os.path.abspath(__file__)))]
    sys.path.insert(0, os.environ.get("VERIF_REPO_SRC", "/repo/src"))
    sys.path += [here, os.path.join(here, "vendor")]
    import warnings

    warnings.simplefilter("ignore")
    sys.pycache_prefix = os.path.join(os.environ["VERIF_WORK"], "pyc")
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    from vlib import e2e

    for line in sys.stdin:
        try:
            e2e.run(json.loads(line))
            msg = "ok"
        except SystemExit as e:
            msg = f"exit {e.code}"
        except BaseException as e:
            msg = f"{type(e).__name__}: {e}"
        out.write(json.dumps(msg) + "\n")
        out.flush()


def run(args, hashseed):
    """Make the run in another interpreter started with the given hash seed (one per worker and seed); its answer."""
    key = (os.getpid(), hashseed)
    p = _PROC.get(key)
    if p is None or p.poll() is not None:
        env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
        p = _PROC[key] = subprocess.Popen(
            [sys.executable, os.path.abspath(__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True
        )
    p.stdin.write(json.dumps(args) + "\n")
    p.stdin.flush()
    line = p.stdout.readline()
    return json.loads(line) if line else "the interpreter died"


if __name__ == "__main__":
    serve()
