#!/usr/bin/env python3
"""Plants bugs in a scratch copy of /repo, confirms them and keeps them under seeded/ (run by hand).

usage: plant.py SPEC.py [id ...]   SPEC.py defines BUGS = [dict(id, property, file, edits=[(old,new)...], needs, breaks, demo)]
"""
import json, os, shutil, subprocess, sys, tempfile, textwrap
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}
exec(open(sys.argv[1]).read())
ENV = dict(os.environ, TZ="UTC", PYTHONHASHSEED="0", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
DEMO = """#!/bin/bash
# exit 0: the property holds; nonzero: it is broken
W=$(mktemp -d); trap '/bin/rm -r "$W"' EXIT
export PYTHONDONTWRITEBYTECODE=1 NUMBA_CACHE_DIR="$W/numba" DEMO_SCRATCH="$W"
cd "$W" || exit 3
/opt/venv/bin/python -W ignore "$D/demo.py"
"""


def demo(d, src):
    e = dict(ENV, PYTHONPATH=src + "/src")
    return subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=src, env=e, capture_output=True, text=True, timeout=280)


def one(b):
    d = os.path.join(HERE, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.py", "w") as f:
        f.write(textwrap.dedent(b["demo"]).lstrip())
    with open(d + "/demo.sh", "w") as f:
        f.write(DEMO.replace("W=$(mktemp", 'D=$(cd "$(dirname "$0")" && pwd)\nW=$(mktemp', 1))
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    tmp = tempfile.mkdtemp(prefix="plant_")
    src = tmp + "/repo"
    try:
        subprocess.run(["cp", "-a", "/repo", src], check=True)
        r0 = demo(d, src)
        if r0.returncode:
            return b["id"], "DEMO FAILS ON CLEAN: " + (r0.stdout + r0.stderr)[-600:]
        for fn, old, new in b["edits"]:
            p = os.path.join(src, "src/sorcha", fn)
            s = open(p).read()
            if s.count(old) != 1:
                return b["id"], f"PATTERN COUNT {s.count(old)} in {fn}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", src, "diff"], capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        # lines changed must be original ones
        r1 = demo(d, src)
        if r1.returncode == 0:
            return b["id"], "DEMO PASSES WITH BUG"
        t = subprocess.run(
            ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-W", "ignore", "--timeout=300", "--basetemp=" + tmp + "/pt"]
            + ["--ignore=tests/sorcha/test_demo_" + x + ".py" for x in ("chunking", "command_line", "end2end")]
            + ["--ignore=tests/sorcha/test_sorcha_copy_demo_files.py", "--ignore=tests/ephemeris/test_pixdict.py"]
            + ["--deselect", "tests/ephemeris/test_ephemeris_generation.py"][:0]
            + ["--maxfail=4"],
            cwd=src, env=dict(ENV, PYTHONPATH=src + "/src", NUMBA_CACHE_DIR=tmp + "/nb", PATH="/opt/venv/bin:" + ENV["PATH"]), capture_output=True, text=True)
        tail = [l for l in t.stdout.splitlines() if l.startswith("FAILED") or " passed" in l or l.startswith("ERROR")]
        bad = [l for l in tail if l.startswith(("FAILED", "ERROR")) and "test_ephemeris_end2end" not in l and "observatory_before_1962" not in l]
        if bad:
            return b["id"], "TESTS FAIL: " + "; ".join(bad)[:300]
        # checks
        r = subprocess.run(["python3", "run_check.py", b["property"], "--tier", "quick"], cwd=HERE, env=dict(ENV, VERIF_REPO_SRC=src + "/src", VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
        line = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        return b["id"], f"ok tests[{tail[-1] if tail else '?'}] check rc={r.returncode} {'CAUGHT' if r.returncode==1 and line else 'MISSED'}"
    finally:
        shutil.rmtree(tmp)


want = sys.argv[2:]
todo = [b for b in BUGS if not want or b["id"] in want]
with ThreadPoolExecutor(3) as ex:
    for i, m in ex.map(one, todo):
        print(i, m, flush=True)
