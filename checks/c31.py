"""C31: the log check and the combined results database."""
import contextlib
import csv
import io
import os
import sqlite3
import sys

from hypothesis import strategies as st

from vlib.core import Property, require
from vlib.gen import fx, object_ids

PROP = Property(
    "C31",
    rule="Trees of 1-8 logs of completed, failed, interrupted, empty or garbled runs and of other files, with or without a report to write, one already there, --force; trees of 1-6 result databases with 0-6 rows in folders "
    "whose names hold blanks and pattern characters, with and without a stem, other databases, 1-3 input files of each kind, combined one to three times into an output inside or outside of the results. Non-trivial = "
    "both kinds of logs, or at least two databases with rows.",
    assumptions=[
        "result databases whose columns differ are to be refused, whatever is done with an old combined database",
        "input files are whitespace-separated (documented in the code) and those of one kind have the same columns",
        "identifiers as for C05",
    ],
)

DONE = "2026-01-02 10:11:12,345 sorcha.sorcha INFO     Sorcha process is completed. "
LINE = st.one_of(
    st.sampled_from(
        [
            DONE,
            "2026-01-02 10:11:12,345 sorcha.sorcha INFO     Post-processing begun. ",
            "2026-01-02 10:11:12,345 sorcha.sorcha ERROR    ERROR: no, \"quoted\", value, 'x' ",
            "Sorcha process is completed. And then it was not",
            "Sorcha process is complete",
            "    raise ValueError",
            "",
            "café 彗星",
        ]
    ),
    st.text("ab ,\"'#;:%\t", max_size=20),
)
LOG = st.fixed_dictionaries(
    {
        "dir": st.sampled_from(["", "a", "a/b", "run [1]", "x y", ".hidden"]),
        "name": st.sampled_from(["run", "out-2026", "r*", "sorcha"]),
        "lines": st.lists(LINE, max_size=4),
        "end": st.sampled_from(["done", "done", "done", "as is", "cut", "bytes", "no newline"]),
    }
)


def tree(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            with open(os.path.join(root, n), "rb") as f:
                out[os.path.relpath(os.path.join(root, n), d)] = f.read()
    return out


def command(*argv):
    """`sorcha outputs ...`: the text printed and the exit (None, or the code)."""
    from sorcha_cmdline import outputs

    old, out = sys.argv, io.StringIO()
    sys.argv = ["sorcha outputs", *argv]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            outputs.main()
        return out.getvalue(), None
    except SystemExit as e:
        return out.getvalue(), e.code if e.code is not None else 0
    finally:
        sys.argv = old


@PROP.check(
    st.fixed_dictionaries(
        {
            "logs": st.lists(LOG, max_size=8),
            "others": st.lists(st.sampled_from(["run.csv", "a/sorcha.err", "sorcha.log.txt", "a/notes-sorcha.log.bak"]), max_size=2, unique=True),
            "report": st.sampled_from([None, None, "report", "report.csv", "a/report.csv"]),
            "there": st.booleans(),
            "force": st.booleans(),
            "decoy": st.booleans(),
        }
    ),
    quick=900,
    thorough=15000,
)
def logs(c, ctx):
    d = ctx.scratch()
    top = os.path.join(d, "top")
    os.makedirs(os.path.join(top, "a"))
    os.makedirs(os.path.join(d, "a"))
    want = {}
    for i, g in enumerate(c["logs"]):
        p = os.path.join(top, g["dir"], f"{g['name']}-{i}-sorcha.log")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        lines = g["lines"] + ([DONE] if g["end"] == "done" else [])
        text = "".join(x + "\n" for x in lines).encode()
        if g["end"] == "cut":
            text = (text + DONE.encode())[: -7 - len(g["lines"])]
        if g["end"] == "no newline":
            text = text[:-1]
        if g["end"] == "bytes":
            text = text + b"half a character \xe5\xbd"
        with open(p, "wb") as f:
            f.write(text)
        last = text.decode(errors="replace").split("\n")
        last = last[-1] if last[-1] or len(last) == 1 else last[-2]
        want[p] = (last.endswith("Sorcha process is completed. "), last)
    for o in c["others"]:
        with open(os.path.join(top, o), "w") as f:
            f.write(DONE + "\n")
    argv = ["check-logs", "-f", top]
    rep = None
    if c["report"]:
        argv += ["-o", os.path.join(d, c["report"])]
        rep = os.path.join(d, c["report"] if c["report"].endswith(".csv") else c["report"] + ".csv")
        if c["decoy"] and not c["report"].endswith(".csv"):
            with open(os.path.join(d, c["report"]), "w") as f:
                f.write("mine")
        if c["there"]:
            with open(rep, "w") as f:
                f.write("old report")
        if c["force"]:
            argv.append("--force")
    before = tree(d)
    text, code = command(*argv)
    after = tree(d)
    key = os.path.relpath(rep, d) if rep else None
    changed = {k for k in set(before) | set(after) if before.get(k) != after.get(k)}
    require(changed <= {key}, "the log check changed other files than its report", changed=sorted(map(str, changed)))
    bad = {p: v for p, v in want.items() if not v[0]}
    ctx.nontrivial(0 < len(bad) < len(want))
    ctx.tag("no logs" if not want else "all good" if not bad else "failures", "report" if rep else "terminal")
    if rep and c["there"] and not c["force"]:
        require(not changed, "a report was overwritten unasked")
        require(key in text or rep in text, "the user is not told about the existing report", text=text)
        return
    if not want:
        require(code not in (None, 0), "no logs at all goes unnoticed", text=text)
        return
    require(code is None, "the log check ends with an error", code=code, text=text)
    if not bad:
        require("uccessful" in text and "unsuccessful" not in text, "all runs completed but this is not what is said", text=text)
        require(not rep or after.get(key) is None, "a report was written although all runs completed")
        return
    require(f"{len(bad)} unsuccessful" in text, "wrong number of failed runs", text=text, want=len(bad))
    if rep:
        require(key in after, "no report was written", text=text)
        with open(rep, newline="", encoding="utf-8") as f:
            rows = list(csv.DictReader(f))
        got = {r["log_filename"]: (r["run_successful"] == "True", r["log_lastline"]) for r in rows}
        require(len(rows) == len(got) and set(got) == set(want), "the report does not list each log once", got=sorted(got), want=sorted(want))
        for p, (good, last) in want.items():
            require(got[p][0] == good, "a run is reported wrongly", log=os.path.relpath(p, d), last=last, got=got[p])
            if not good:
                require(got[p][1].strip() == last.strip(), "wrong last line in the report", log=os.path.relpath(p, d), got=got[p][1], want=last)
    else:
        for p, (good, last) in want.items():
            require((p + "\n" in text) == (not good), "a failed run is not named, or a completed one is", log=os.path.relpath(p, d), text=text)
            require(good or last.strip() in text, "the last line of a failed run is not shown", last=last)


DB = st.fixed_dictionaries(
    {
        "dir": st.sampled_from(["", "", "n1", "n1/m", "set [1]", "a?b", "x y"]),
        "name": st.sampled_from(["run", "runs", "other", "run[a]", "my_run"]),
        "rows": st.lists(st.tuples(st.integers(0, 5), fx(59000, 62000, 6), st.sampled_from("ugrizy"), fx(15, 25, 3)), max_size=6),
    }
)
INPUT = st.fixed_dictionaries({"suffix": st.sampled_from([".txt", "_a.csv", "1", "_main.des"]), "ids": object_ids(1, 5), "v": st.lists(fx(-50, 50, 5), min_size=5, max_size=5), "index": st.booleans()})
HEAD = {"params": ["H_r", "GS"], "orbits": ["FORMAT", "q", "epochMJD_TDB"], "complex": ["amp"]}


@PROP.check(
    st.fixed_dictionaries(
        {
            "dbs": st.lists(DB, max_size=6),
            "ids": object_ids(6, 6),
            "top": st.sampled_from(["results", "results", "res [x]", "r*"]),
            "stem": st.sampled_from([None, None, None, "run", "run", "runs", "run[a]", "nothing"]),
            "where": st.sampled_from(["inside", "inside deep", "outside", "named like results"]),
            "inputs": st.fixed_dictionaries({k: st.one_of([st.lists(INPUT, min_size=n, max_size=3, unique_by=lambda x: x["suffix"]) for n in (1, 1, 1, 0)]) for k in HEAD}),
            "infolder": st.sampled_from(["inputs", "in [1]"]),
            "complex": st.booleans(),
            "times": st.integers(1, 3),
            "turn": st.one_of(st.just([0]), st.lists(st.integers(0, 3), min_size=1, max_size=4)),
            "link": st.sampled_from([None, None, None, "results", "output"]),
            "odd": st.sampled_from([None] * 6 + [(0, "more"), (0, "other"), (1, "more"), (1, "other")]),
            "columns": st.sampled_from([["ObjID", "fieldMJD_TAI", "optFilter", "trailedSourceMag"], ["ObjID", "fieldMJD_TAI", "optFilter", "H(1,1)"]]),
        }
    ),
    quick=900,
    thorough=15000,
)
def combined(c, ctx):
    d = ctx.scratch()
    top = os.path.join(d, c["top"])
    out = {"inside": os.path.join(top, "zz_all.db"), "inside deep": os.path.join(top, "n1", "zz_all.db"), "outside": os.path.join(d, "all.db"), "named like results": os.path.join(top, "run_all.db")}[c["where"]]
    os.makedirs(os.path.join(top, "n1"))
    cols = c["columns"]
    want, files, odd = [], 0, False
    for i, b in enumerate(c["dbs"]):
        p = os.path.join(top, b["dir"], f"{b['name']}_{i}.db")
        os.makedirs(os.path.dirname(p), exist_ok=True)
        con = sqlite3.connect(p)
        n = c["turn"][i % len(c["turn"])]  # the order of the columns is the order the user asked for in that run
        order = cols[n:] + cols[:n]
        kinds = dict(zip(cols, ["TEXT", "REAL", "TEXT", "REAL"]))
        con.execute("CREATE TABLE sorcha_results (" + ", ".join(f'"{x}" {kinds[x]}' for x in order) + ")")
        rows = [(c["ids"][k], t, f, m) for k, t, f, m in b["rows"]]
        con.executemany("INSERT INTO sorcha_results VALUES (?,?,?,?)", [r[n:] + r[:n] for r in rows])
        con.execute("CREATE INDEX ObjID ON sorcha_results (ObjID)")
        named = (b["name"] + f"_{i}").startswith(c["stem"] or "")
        if c["odd"] and c["odd"][0] == i:  # a run that was asked for another set of columns
            con.execute("ALTER TABLE sorcha_results ADD COLUMN SNR REAL" if c["odd"][1] == "more" else f'ALTER TABLE sorcha_results RENAME COLUMN "{cols[3]}" TO SNR')
            odd = named
        con.commit()
        con.close()
        if named:
            want += rows
            files += 1
    inp = os.path.join(d, c["infolder"])
    os.makedirs(inp)
    tables = {}
    for kind, fs in c["inputs"].items():
        rows = []
        idx = bool(fs) and fs[0]["index"]
        for f in fs:
            with open(os.path.join(inp, kind + f["suffix"]), "w") as h:
                h.write(" ".join(["ObjID"] + HEAD[kind] + (["INDEX"] if idx else [])) + "\n")
                for k, i in enumerate(f["ids"]):
                    v = ["COM" if n == "FORMAT" else f["v"][(k + m) % 5] for m, n in enumerate(HEAD[kind])]
                    h.write(" ".join(map(str, [i] + v + ([k + 7] if idx else []))) + "\n")
                    rows.append((i, *v, *([k + 7] if idx else [])))
        tables[kind] = (["ObjID"] + HEAD[kind] + (["orig_index"] if idx else []), rows)
    before = tree(d)
    given = {"r": top, "o": out}
    if c["link"]:  # one of the paths is given by way of a link to the folder
        os.symlink(d, d + "_link")
        k = c["link"][0]
        given[k] = os.path.join(d + "_link", os.path.relpath(given[k], d))
    argv = ["create-sqlite", "-o", given["o"], "-i", inp, "-r", given["r"]] + (["-s", c["stem"]] if c["stem"] else []) + (["-c"] if c["complex"] else [])
    kinds = ["params", "orbits"] + (["complex"] if c["complex"] else [])
    missing = [k for k in kinds if not c["inputs"][k]]
    ctx.nontrivial(len([1 for b in c["dbs"] if b["rows"]]) > 1 and not missing)
    ctx.tag(c["where"], "stem" if c["stem"] else "no stem", f"{c['times']} times", "refused" if missing or not files else "made")
    if odd and files == 1:
        return
    for _ in range(1 if odd else c["times"]):
        text, code = command(*argv)
        if odd:
            require(code not in (None, 0), "results with different columns are combined")
            continue
        if missing or not files:
            require(code not in (None, 0), "missing results or inputs go unnoticed", missing=missing, files=files)
            continue
        require(code is None, "combining ends with an error", code=code)
        con = sqlite3.connect(out)
        cur = con.execute("SELECT * FROM sorcha_results")
        names = [x[0] for x in cur.description]
        require(sorted(names) == sorted(cols), "wrong result columns", got=names)
        got = [tuple(r[names.index(x)] for x in cols) for r in cur.fetchall()]
        require(sorted(map(repr, got)) == sorted(map(repr, want)), "the combined database does not have every result once", got=sorted(map(repr, got))[:6], want=sorted(map(repr, want))[:6], n=(len(got), len(want)))
        for k in kinds:
            names, rows = tables[k]
            got = con.execute(f'SELECT {", ".join(chr(34) + n + chr(34) for n in names)} FROM {k}').fetchall()

            def norm(rs):
                return sorted(repr((str(r[0]) if isinstance(r[0], str) else ("not text", r[0]), *[float(x) if not isinstance(x, str) else x for x in r[1:]])) for r in rs)

            require(norm(got) == norm(rows), f"the table {k} does not have every input row once", got=norm(got)[:6], want=norm(rows)[:6])
        con.close()
    after = tree(d)
    lost = [k for k in before if after.get(k) != before[k]]
    require(not lost, "combining changed its inputs", files=lost)
    extra = sorted(set(after) - set(before) - {os.path.relpath(out, d)})
    if odd:
        return
    require(not extra, "combining left other files", files=extra)


@PROP.check(st.fixed_dictionaries({"n": st.lists(st.integers(900, 5000), min_size=1, max_size=3), "objects": st.integers(900, 4000), "digits": st.booleans()}), quick=16, thorough=200)
def many_rows(c, ctx):
    """Results and inputs of thousands of rows arrive complete."""
    d = ctx.scratch()
    out = os.path.join(d, "all.db")
    name = (lambda k: f"{k:07d}") if c["digits"] else (lambda k: f"S{k}a")
    want, inputs = [], []
    for i, n in enumerate(c["n"]):
        os.makedirs(os.path.join(d, "r", str(i)))
        rows = [(name(k % c["objects"]), 60000.0 + k / 8, "r", float(i)) for k in range(n)]
        con = sqlite3.connect(os.path.join(d, "r", str(i), "run.db"))
        con.execute("CREATE TABLE sorcha_results (ObjID TEXT, fieldMJD_TAI REAL, optFilter TEXT, trailedSourceMag REAL)")
        con.executemany("INSERT INTO sorcha_results VALUES (?,?,?,?)", rows)
        con.commit()
        con.close()
        want += rows
    os.makedirs(os.path.join(d, "in"))
    for kind in ("params", "orbits"):
        with open(os.path.join(d, "in", kind + ".txt"), "w") as f:
            f.write("ObjID " + " ".join(HEAD[kind]) + "\n")
            for k in range(c["objects"]):
                f.write(" ".join([name(k)] + ["COM" if h == "FORMAT" else repr(k + j / 4) for j, h in enumerate(HEAD[kind])]) + "\n")
                if kind == "params":
                    inputs.append((name(k), float(k), k + 0.25))
    text, code = command("create-sqlite", "-o", out, "-i", os.path.join(d, "in"), "-r", os.path.join(d, "r"))
    require(code is None, "combining ends with an error", code=code)
    con = sqlite3.connect(out)
    got = con.execute("SELECT ObjID, fieldMJD_TAI, optFilter, trailedSourceMag FROM sorcha_results").fetchall()
    require(sorted(got) == sorted(want), "the combined database does not have every result once", n=(len(got), len(want)))
    got = con.execute("SELECT ObjID, H_r, GS FROM params").fetchall()
    require(sorted(got) == sorted(inputs), "the table of parameters does not have every input row once", n=(len(got), len(inputs)))
    n = con.execute("SELECT count(distinct ObjID) FROM orbits").fetchone()[0]
    require(n == c["objects"], "the table of orbits does not have every object", n=n, want=c["objects"])
    con.close()
    ctx.nontrivial(True)
