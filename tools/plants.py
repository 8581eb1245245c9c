#!/usr/bin/env python3
"""Checks that every planted bug applies to /repo's HEAD and changes lines of the original repository (run by hand)."""
import glob, os, re, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--reverse", "--grep=^fix:"], capture_output=True, text=True).stdout.split()[0] + "^"
for d in sorted(glob.glob(HERE + "/seeded/*/")):
    p = d + "patch.diff"
    name = os.path.basename(d[:-1])
    if subprocess.run(["git", "-C", "/repo", "apply", "--check", p], capture_output=True).returncode:
        print(name, "does not apply")
        continue
    fn, n, old, total = None, 0, 0, 0
    for l in open(p):
        if l.startswith("--- a/"):
            fn = l[6:].strip()
            blame = subprocess.run(["git", "-C", "/repo", "blame", "-s", "-l", BASE + "..HEAD", "--", fn], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            total += 1
            old += blame[n - 1].startswith("^")
            n += 1
        elif l.startswith(" "):
            n += 1
    if old < max(1, total):
        print(name, f"{old} of {total} removed lines are original")
