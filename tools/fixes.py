#!/usr/bin/env python3
"""Adds the fix: commits of /repo to known_findings.json (run by hand; the file is committed)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = json.load(open(os.path.join(HERE, "tools", "fixmap.json")))
path = os.path.join(HERE, "known_findings.json")
d = json.load(open(path))
out = [x for x in d["findings"] if x.get("status") != "fixed"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h\t%s", "cf2d531.."], capture_output=True, text=True).stdout.strip()
for line in log.splitlines():
    h, s = line.split("\t")
    if not s.startswith("fix:"):
        continue
    pid = next((p for k, p in MAP.items() if k in s), None)
    assert pid, s
    out.append({"property": pid, "id": "fix-" + h, "status": "fixed", "commit": h, "what": f"fixed: property={pid} {h} {s[5:]}"})
d["findings"] = out
json.dump(d, open(path, "w"), indent=1)
print(len(out))
