"""C30: `sorcha run` from the command line: what it uses, what it refuses, what it replaces."""
import contextlib
import csv
import io
import logging
import os
import re
import shutil
import sys

from hypothesis import strategies as st

from checks import c32
from vlib import e2e, ephem, sky
from vlib.core import Property, require

PROP = Property(
    "C30",
    rule="`sorcha run` called with its arguments in every spelling, on small external-ephemeris surveys of both kinds (and generated ephemerides), in output folders that hold old outputs, files of similar names and other files, "
    "with stems and statistics names that hold dots, blanks and pattern characters, with and without --force; and the same calls with one argument missing, wrong or contradictory. Non-trivial = something was in the "
    "folder already, or a contradiction.",
    assumptions=[
        "a file named as the stem with any extension counts as an output of this name (that is what the program documents by its message and its tests)",
        "with --force old outputs may be gone although the run is refused for another reason",
        "log files may be written by refused runs",
    ],
)


@PROP.warmup
def _warm():
    import sorcha.des, sorcha.sorcha  # noqa: F401,E401

    e2e.register()
    ephem.warm()


NAMES = ["run", "SSPPOutput", "run.v2", "a b", "run[1]", "r*n", "run?", "Run"]
EXT = {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5"}
LONG = {"c": "--config", "o": "--outfile", "ob": "--orbits", "p": "--physical-parameters", "pd": "--pointing-db", "er": "--ephem-read", "ew": "--ephem-write", "ar": "--ar-data-path",
        "cp": "--complex-physical-parameters", "s": "--survey", "t": "--stem", "st": "--stats", "vd": "--visits-db"}
SHORT = {"c": "-c", "o": "-o", "ob": "--ob", "p": "-p", "pd": "--pd", "er": "--er", "ew": "--ew", "ar": "--ar", "cp": "--cp", "s": "-s", "t": "-t", "st": "--st", "vd": "--vd"}


def tree(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            with open(os.path.join(root, n), "rb") as f:
                out[os.path.relpath(os.path.join(root, n), d)] = f.read()
    return out


def argv(a, spell):
    out = []
    for i, (k, v) in enumerate(a.items()):
        name = (LONG if (spell >> (i % 8)) & 1 else SHORT)[k]
        out += [name, v]
    return out


def command(args, seed=None):
    """Runs `sorcha run`; None or the exit code."""
    from sorcha_cmdline import run

    root = logging.getLogger()
    before, level, old, env = list(root.handlers), root.level, sys.argv, os.environ.pop("SORCHA_SEED", None)
    if seed is not None:
        os.environ["SORCHA_SEED"] = str(seed)
    sys.argv = ["sorcha run", *args]
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            run.main()
        return None
    except SystemExit as e:
        return 0 if e.code is None else e.code
    finally:
        sys.argv = old
        os.environ.pop("SORCHA_SEED", None)
        if env is not None:
            os.environ["SORCHA_SEED"] = env
        for h in list(root.handlers):
            if h not in before:
                root.removeHandler(h)
                h.close()
        root.setLevel(level)


def options(w, a, stats=None, stem=None):
    """The command-line options for the argument dictionary of e2e.write."""
    o = {"c": a["configfile"], "o": a["outpath"], "ob": a["orbinfile"], "p": a["paramsinput"], "pd": a["pointing_database"], "er": a["input_ephemeris_file"]}
    if a.get("complex_physical_parameters"):
        o["cp"] = a["complex_physical_parameters"]
    if a["visits_database"]:
        o["vd"] = a["visits_database"]
    o["s"] = a["surveyname"]
    if stem != "SSPPOutput":
        o["t"] = stem
    if stats:
        o["st"] = stats
    return o


def similar(stem, ext, stats):
    """Names a folder may hold that are no outputs of a run with these names."""
    names = [stem + "2" + ext, stem + ".2" + ext, "x" + stem + ext, stem, stem[:-1] + ext, "notes.txt", stem + "-old" + ext, ext.lstrip("."), "run1.csv", "runX.csv", "ran.csv", stem.upper() + "_" + ext, "sorcha.log"]
    if stats:
        names += [stats + "2.csv", stats, stats + ".txt", stats + ".db", "x" + stats + ".csv"]
    return [n for n in dict.fromkeys(names) if n and os.path.splitext(n)[0] != stem and n != (stats or "") + ".csv"]


LOG = re.compile(r"-\d{4}-\d\d-\d\d-\d\d-\d\d-\d\d-p\d+-sorcha\.(log|err)$")


def results(t):
    return {k: v for k, v in t.items() if not LOG.search(k)}


def read(w, d, stem):
    return e2e.read_output(w, {"outpath": d, "outfilestem": stem})


def read_stats(path):
    if not os.path.exists(path):
        return None
    with open(path, newline="") as f:
        return sorted(map(repr, (dict(r) for r in csv.DictReader(f))))


SMALL = {"max_obj": 3, "plugins": True}


@PROP.check(
    st.fixed_dictionaries(
        {
            "w": st.one_of(e2e.world("lsst", **SMALL), e2e.world("lsst", **SMALL), e2e.world("des", **SMALL)),
            "stem": st.sampled_from(NAMES),
            "stats": st.sampled_from([None, "tally", "t*", "tally.v1", "run"]),
            "old": st.lists(st.sampled_from(["out", "other ext", "txt", "stats"]), max_size=2, unique=True),
            "near": st.lists(st.integers(0, 20), max_size=4),
            "force": st.booleans(),
            "spell": st.integers(0, 255),
            "survey": st.sampled_from(["lower", "lower", "upper"]),
            "folder": st.sampled_from(["out", "o [1]", "o*", "out/"]),
            "log": st.booleans(),
        }
    ),
    quick=260,
    thorough=8000,
)
def existing_files(c, ctx):
    w = dict(c["w"])
    stem, stats = c["stem"], c["stats"]
    if stats == stem:
        stats = None
    a = e2e.write(dict(w, stats=False), ctx.scratch())
    a["outpath"] = os.path.join(os.path.dirname(a["outpath"]), c["folder"])
    out = a["outpath"].rstrip("/")
    os.makedirs(out, exist_ok=True)
    ext = EXT[w["out"]]
    names = {"out": stem + ext, "other ext": stem + (".csv" if ext != ".csv" else ".db"), "txt": stem + ".txt", "stats": (stats or "none") + ".csv"}
    olds = [names[k] for k in c["old"] if k != "stats" or stats]
    near = similar(stem, ext, stats)
    if ext == ".csv":  # else the statistics may not be told from the detections
        near = [n for n in near if n != stem + ".csv"]
    nears = [near[i % len(near)] for i in c["near"]]
    for n in set(olds + nears):
        with open(os.path.join(out, n), "w") as f:
            f.write("old contents of " + n + "\n")
    before, base = tree(out), tree(os.path.dirname(a["configfile"]))
    o = options(w, a, stats, stem)
    if c["survey"] == "upper":
        o["s"] = o["s"].upper()
    code = command(argv(o, c["spell"]) + (["-f" if c["spell"] & 1 else "--force"] if c["force"] else []) + (["-l"] if c["log"] else []), seed=w["seed"])
    after = tree(out)
    ctx.nontrivial(bool(olds or nears))
    ctx.tag("old outputs" if olds else "only similar names" if nears else "empty folder", "force" if c["force"] else "no force", w["survey"])
    keep = {k: v for k, v in before.items() if k not in olds}
    for k, v in keep.items():
        require(after.get(k) == v, "a file that is no output of this run was touched", file=k, stem=stem, stats=stats, there=k in after)
    inputs = {k: v for k, v in tree(os.path.dirname(a["configfile"])).items() if k in base and not k.startswith(os.path.basename(out))}
    require(inputs == {k: v for k, v in base.items() if not k.startswith(os.path.basename(out))}, "the run changed its inputs")
    if olds and not c["force"]:
        require(code not in (None, 0), "old outputs go unnoticed", old=olds)
        require(results(after) == results(before), "a refused run wrote or changed files", changed=sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k) and not LOG.search(k)))
        return
    require(code is None, "the run ends with an error", code=code)
    new = {k for k in results(after) if k not in keep}
    require(new <= {stem + ext} | ({stats + ".csv"} if stats else set()), "unexpected files", files=sorted(new))
    # the reference: the same run without a command line, into an empty folder
    ref = os.path.join(ctx.scratch(), "ref")
    os.makedirs(ref)
    e2e.run(dict(a, outpath=ref, outfilestem="r", stats="s" if stats else None))
    want = read(w, ref, "r")
    got = read(w, out, stem)
    require(repr(got) == repr(want), "not the results of this run", got=str(got)[:300], want=str(want)[:300])
    require(not stats or read_stats(os.path.join(out, stats + ".csv")) == read_stats(os.path.join(ref, "s.csv")), "not the statistics of this run")
    logs = [k for k in after if LOG.search(k) and k.endswith(".log")]
    require(len(logs) == 1 and logs[0].startswith(stem + "-"), "not one log of this run", logs=logs)
    require(after[logs[0]].decode().rstrip("\n").endswith("Sorcha process is completed. "), "the log does not tell that the run completed", tail=after[logs[0]][-200:])


BAD = ["no config", "no orbits", "no parameters", "no pointing", "no folder", "no complex", "complex not given", "ephemeris not given", "no ephemeris", "visits database without visits footprint",
       "visits footprint without visits database", "future survey", "unknown survey", "two outputs in one file", "required option left out", "bad configuration", "input named like an output", "no visits database", "no auxiliary folder"]


@PROP.check(
    st.fixed_dictionaries(
        {
            "w": st.one_of(e2e.world("lsst", **SMALL), e2e.world("des", **SMALL)),
            "bad": st.sampled_from(BAD),
            "force": st.booleans(),
            "which": st.integers(0, 9),
            "spell": st.integers(0, 255),
            "files": st.lists(st.sampled_from(["run2.csv", "other.db", "xrun.csv"]), max_size=2, unique=True),
        }
    ),
    quick=360,
    thorough=8000,
)
def contradictions(c, ctx):
    bad, w = c["bad"], dict(c["w"], stats=False)
    if bad == "complex not given" or bad == "no complex":
        w["lc" if c["which"] % 2 else "ca"] = "verif_lc" if c["which"] % 2 else "verif_ca"
    if bad in ("visits footprint without visits database", "no visits database"):
        if not e2e.is_des(w):
            return
        w["cam"] = "visits_footprint"
    if bad == "visits database without visits footprint" and w["cam"] == "visits_footprint":
        w["cam"] = "none"
    if bad == "two outputs in one file":
        w["out"] = "csv"
    d = ctx.scratch()
    a = e2e.write(w, d)
    o = options(w, a, None, "run")
    missing = os.path.join(d, "no_such_file")
    key = {"no config": "c", "no orbits": "ob", "no parameters": "p", "no pointing": "pd", "no folder": "o", "no complex": "cp", "no ephemeris": "er", "no visits database": "vd", "no auxiliary folder": "ar"}.get(bad)
    if key:
        o[key] = missing
    elif bad == "complex not given":
        del o["cp"]
    elif bad == "ephemeris not given":
        del o["er"]
    elif bad == "visits database without visits footprint":
        o["vd"] = e2e.visits_db(dict(w, ccds=[[0]]), os.path.join(d, "vd.db")) if e2e.is_des(w) else o["pd"]
    elif bad == "visits footprint without visits database":
        del o["vd"]
    elif bad == "future survey":
        o["s"] = ["LSST", "lsst"][c["which"] % 2]
    elif bad == "unknown survey":
        o["s"] = ["ztf", "rubin", "Rubin_Sim2", "DES2"][c["which"] % 4]
    elif bad == "two outputs in one file":
        o["st"] = "run"
    elif bad == "required option left out":
        del o[["c", "o", "ob", "p", "pd"][c["which"] % 5]]
    elif bad == "bad configuration":
        e2e.write_ini(o["c"], dict(e2e.ini_sections(w), PHASECURVES={"phase_function": "nothing"}))
    elif bad == "input named like an output":
        k = ["c", "ob", "p", "er", "pd"][c["which"] % 5]
        new = os.path.join(a["outpath"], "run" + [".ini", ".csv", ".txt", ".h5", ".db"][c["which"] // 2])
        shutil.move(o[k], new)
        o[k] = new
    for n in c["files"]:
        with open(os.path.join(a["outpath"], n), "w") as f:
            f.write("mine")
    before = tree(d)
    code = command(argv(o, c["spell"]) + (["-f"] if c["force"] else []), seed=w["seed"])
    after = tree(d)
    ctx.nontrivial(True)
    ctx.tag(bad)
    require(code not in (None, 0), f"a run with '{bad}' is not refused", code=code)
    diff = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k) and not LOG.search(k))
    require(not diff, f"a run refused for '{bad}' wrote, changed or removed files", files=diff)


@PROP.check(
    st.fixed_dictionaries(
        {
            "c": c32.case(True),
            "stem": st.sampled_from(["run", "run[1]", "run.v2"]),
            "ew": st.sampled_from(["eph", "e*", "eph.v1", "run", None]),
            "st": st.sampled_from([None, "tally", "eph"]),
            "old": st.sampled_from([None, "same", "same", "similar", "txt", "stats", "stats", "out"]),
            "force": st.booleans(),
            "spell": st.integers(0, 255),
        }
    ),
    quick=60,
    thorough=1500,
)
def ephemeris_output(k, ctx):
    """The generated ephemeris file is protected and written like the other outputs."""
    c = k["c"]
    w = c32.Run(c)
    a = w.write(os.path.join(ctx.scratch(), "1"), "ar", c["chunk"], range(len(w.ids)))
    ext = ".h5" if c["eph"] == "hdf5" else ".csv"
    ew, stem = k["ew"], k["stem"]
    name = (ew or "eph") + ext
    stats = k["st"]
    old = {"same": name, "similar": (ew or "eph") + "2" + ext, "txt": (ew or "eph") + ".txt", "stats": (stats or "none") + ".csv", "out": stem + EXT[c["out"]], None: None}[k["old"]]
    if old:
        with open(os.path.join(a["outpath"], old), "w") as f:
            f.write("old ephemeris")
    o = {"c": a["configfile"], "o": a["outpath"], "ob": a["orbinfile"], "p": a["paramsinput"], "pd": a["pointing_database"], "ar": a["ar_data_path"], "s": a["surveyname"], "t": stem}
    if ew:
        o["ew"] = ew
    if stats:
        o["st"] = stats
    names = [n for n, used in ((stem + EXT[c["out"]], True), (name, ew), (f"{stats}.csv", stats)) if used]
    clash = len(set(names)) < len(names)
    taken = old is not None and (old in names or os.path.splitext(old)[0] == ew or os.path.splitext(old)[0] == stem)
    before = tree(a["outpath"])
    code = command(argv(o, k["spell"]) + (["-f"] if k["force"] else []), seed=c["seed"])
    after = tree(a["outpath"])
    ctx.nontrivial(taken or clash)
    ctx.tag("refused" if clash or (taken and not k["force"]) else "runs", "ephemeris asked for" if ew else "no ephemeris")
    if old and not taken:
        require(after.get(old) == b"old ephemeris", "a file that is no output of this run was touched", file=old)
    if clash or (taken and not k["force"]):
        require(code not in (None, 0), "a contradiction or an old ephemeris goes unnoticed", clash=clash, old=old)
        if not k["force"]:
            require(results(after) == results(before), "a refused run wrote or changed files")
        return
    require(code is None, "the run ends with an error", code=code)
    new = set(results(after)) - ({old} if not taken else set())
    require(new <= set(names), "unexpected files", files=sorted(new))
    ref = os.path.join(ctx.scratch(), "ref")
    os.makedirs(ref)
    e2e.run(dict(a, outpath=ref, outfilestem="r", output_ephemeris_file="e" if ew else None, stats="s" if stats else None))
    require(repr(read(c, a["outpath"], stem)) == repr(read(c, ref, "r")), "not the results of this run")
    require(not stats or read_stats(os.path.join(a["outpath"], stats + ".csv")) == read_stats(os.path.join(ref, "s.csv")), "not the statistics of this run")
    if ew:
        p, q = os.path.join(a["outpath"], name), os.path.join(ref, "e" + ext)
        require(os.path.exists(p) == os.path.exists(q), "an ephemeris file is missing or was left", there=os.path.exists(p))
        if ext == ".csv" and os.path.exists(p):
            require(open(p).read() == open(q).read(), "not the ephemeris of this run")


@PROP.check(
    st.fixed_dictionaries({"w": e2e.world("lsst", stochastic=True, plugins=False, max_obj=3), "seed": st.integers(0, 2**31 - 1), "bit": st.integers(0, 30)}),
    quick=60,
    thorough=1500,
)
def seed(c, ctx):
    """SORCHA_SEED decides every random number of a run."""
    w = dict(c["w"], random=True, fading=True, width=0.5, peak=0.8, linking=None, stats=False, out="csv")
    rows = []
    seeds = [c["seed"], c["seed"], c["seed"] ^ (1 << c["bit"])]
    for k, s in enumerate(seeds):
        d = os.path.join(ctx.scratch(), str(k))
        os.makedirs(d)
        a = e2e.write(w, d)
        code = command(argv(options(w, a, None, "run"), 0), seed=s)
        require(code is None, "the run ends with an error", code=code)
        rows.append(repr(read(w, a["outpath"], "run")))
    require(rows[0] == rows[1], "two runs with the same SORCHA_SEED differ")
    ctx.nontrivial(rows[0] != "None")
    if rows[0] == "None":
        return
    require(rows[0] != rows[2], "SORCHA_SEED has no effect", seeds=seeds[1:])
