#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing; output is committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "src/sorcha/modules/"
R = "src/sorcha/readers/"
U = "src/sorcha/utilities/"
E = "src/sorcha/ephemeris/"
NOTE = (
    "Random structured search with shrinking against an independent oracle; no proof of absence. "
)

P = []


def prop(pid, title, statement, over, text, why, files, mech, note, technique):
    assert len(title) <= 80, (pid, len(title))
    P.append(
        dict(pid=pid, title=title, statement=" ".join(statement.split()), over=over.split(), text=text, why=why, files=files, mech=mech, note=note, technique=technique)
    )


exec(open(os.path.join(HERE, "tools", "props.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(
            json.dumps(
                {
                    "id": p["pid"],
                    "title": p["title"],
                    "statement": p["statement"],
                    "quantifier": {"over": p["over"], "text": p["text"]},
                    "why_tests_cant": p["why"],
                    "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
                }
            )
            + "\n"
        )

checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(HERE, "checks", p["pid"].lower() + ".py")):
        checks.append(
            {
                "property": p["pid"],
                "quick_cmd": f"python3 run_check.py {p['pid']} --tier quick",
                "thorough_cmd": f"python3 run_check.py {p['pid']} --tier thorough",
                "technique": p["technique"],
                "level": "exploration",
                "level_note": NOTE + p["note"],
            }
        )
    else:
        na.append({"property": p["pid"], "reason": "no check yet"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(
        {
            "version": 1,
            "setup_cmd": "true",
            "checks": checks,
            "not_applicable": na,
            "notes": "Everything the checks need is in /verif (hypothesis is vendored) or pre-installed; run_check.py imports the code under test from /repo/src with fresh byte-code and numba caches.",
        },
        f,
        indent=1,
    )
    f.write("\n")
print(len(checks), "checks;", len(na), "without")


# ---- DESIGN.md
import importlib
import sys

sys.path[:0] = [os.path.join(HERE, "vendor"), HERE]
sys.dont_write_bytecode = True
exec(open(os.path.join(HERE, "tools", "oracles.py")).read())
out = []
for p in P:
    pid = p["pid"]
    out.append(f"## {pid}: {p['title']}\n")
    out.append(p["statement"] + "\n")
    try:
        prop_ = importlib.import_module("checks." + pid.lower()).PROP
    except ModuleNotFoundError:
        out.append("*No check yet.*\n")
        continue
    out.append(f"* **Oracle.** {ORACLE[pid]}")
    out.append(f"* **Generated.** {prop_.rule}")
    out.append("* **Bounds and exclusions.** " + "; ".join(prop_.assumptions) + ".")
    out.append(f"* **What the tests do instead.** {p['why']}")
    out.append("* **Checks** (cases quick / thorough):")
    for k in prop_.checks:
        doc = " ".join((k.func.__doc__ or "").split())
        out.append(f"  * `{k.name}` ({k.quick} / {k.thorough}){': ' + doc if doc else ''}")
    try:
        ev = json.load(open(os.path.join(HERE, "tools", "cost.json")))[pid]
        out.append(f"* **Cost.** quick about {ev} s on 8 cores.")
    except (OSError, KeyError):
        pass
    out.append("")
rows = ["| change | property | needs | breaks | caught by |", "|---|---|---|---|---|"]
sd = os.path.join(HERE, "seeded")
try:
    caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
except OSError:
    caught = {}
for n in sorted(os.listdir(sd)):
    try:
        m = json.load(open(os.path.join(sd, n, "meta.json")))
    except OSError:
        continue
    rows.append(f"| {n} | {m['property']} | {m['needs']} | {m['what_it_breaks']} | {caught.get(n, m['property'])} |")
fx = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
fixes = [f"* {x['property']} {x['commit']}: {x['what'].split(' ', 3)[3]}" for x in fx if x.get("status") == "fixed"]
opened = [f"* {x['property']} {x['id']}: {x['what']}" for x in fx if x.get("status") != "fixed"]
text = open(os.path.join(HERE, "tools", "design_head.md")).read()
text = text.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDED@@", "\n".join(rows)).replace("@@FIXES@@", "\n".join(fixes)).replace("@@OPEN@@", "\n".join(opened) or "None.")
open(os.path.join(HERE, "DESIGN.md"), "w").write(text)
