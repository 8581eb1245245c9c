"""C07: orbit files are accepted or refused by the documented rules."""
import math
import os

from hypothesis import strategies as st

from vlib import e2e
from vlib.core import Property, require
from vlib.gen import fx, object_ids

PROP = Property(
    "C07",
    rule="Orbit files of 1-8 rows in the six formats, columns in any order, blanks around the names, text before the header, ordinary and unusual but physical elements (q of exactly 0, circles, angles of any "
    "convention, inclinations outside of 0-180, epochs far away), read whole, in blocks of every size and by object; and the same files with one rule broken at any row. Non-trivial = more than one row.",
    assumptions=[
        "a block or selection that leaves the broken row out may be read or refused (rows are validated when they are read)",
        "semi-major axes of exactly 0 are not judged",
        "identifiers as for C05",
    ],
)

COLS = {
    "KEP": ["a", "e", "inc", "node", "argPeri", "ma", "epochMJD_TDB"],
    "COM": ["q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB", "epochMJD_TDB"],
    "CART": ["x", "y", "z", "xdot", "ydot", "zdot", "epochMJD_TDB"],
}
FORMATS = ["KEP", "BKEP", "COM", "BCOM", "CART", "BCART"]
ANGLE = st.one_of(fx(0, 360, 3), fx(-180, 180, 3), st.sampled_from([0.0, 360.0, -180.0, 400.0, -0.0]))
VALUE = {
    "a": st.one_of(fx(0.5, 100, 4), fx(100, 5000, 1), st.just(0.01)),
    "q": st.one_of(fx(0.001, 50, 4), st.sampled_from([0.0, 1e-9, 3.0])),
    "inc": st.one_of(fx(0, 180, 3), st.sampled_from([0.0, 180.0, -3.0, 190.0])),
    "node": ANGLE,
    "argPeri": ANGLE,
    "ma": ANGLE,
    "t_p_MJD_TDB": st.one_of(fx(40000, 70000, 4), st.sampled_from([2460000.5, -10000.0])),
    "epochMJD_TDB": st.one_of(fx(50000, 65000, 4), st.just(54466.0)),
    **{k: fx(-60, 60, 6) for k in ("x", "y", "z")},
    **{k: fx(-0.02, 0.02, 8) for k in ("xdot", "ydot", "zdot")},
}
ECC = {"KEP": st.one_of(fx(0, 0.99, 4), st.sampled_from([0.0, 0.9999, 1e-9])), "COM": st.one_of(fx(0, 0.99, 4), fx(1, 3, 3), st.sampled_from([0.0, 1.0, 0.99999, 1.00001]))}


def core(fmt):
    return fmt[1:] if fmt[0] == "B" else fmt


@st.composite
def table(draw, max_rows=8):
    fmt = draw(st.sampled_from(FORMATS))
    ids = draw(object_ids(1, max_rows))
    k = core(fmt)
    rows = [{c: draw(ECC[k] if c == "e" else VALUE[c]) for c in COLS[k]} for _ in ids]
    names = ["FORMAT"] + COLS[k]
    return {
        "fmt": fmt,
        "ids": ids,
        "rows": rows,
        "names": ["ObjID"] + (list(draw(st.permutations(names))) if draw(st.booleans()) else names),
        "sep": draw(st.sampled_from(["csv", "whitespace", "comma"])),
        "blanks": draw(st.booleans()),
        "preamble": draw(st.integers(0, 2)),
        "size": draw(st.integers(1, 9)),
        "pick": draw(st.lists(st.integers(0, 7), max_size=5)),
    }


def write(t, path, formats=None, names=None, sep=None):
    sep = sep or t["sep"]
    names = names or t["names"]
    s = "," if sep != "whitespace" else ("  " if t["blanks"] else " ")
    with open(path, "w") as f:
        for i in range(t["preamble"]):
            f.write(f"# remark {i}\n")
        f.write(s.join([names[0]] + [(" " + c + " " if t["blanks"] and sep != "whitespace" else c) for c in names[1:]]) + "\n")
        for i, (k, r) in enumerate(zip(t["ids"], t["rows"])):
            full = dict(r, ObjID=k, FORMAT=(formats or [t["fmt"]] * len(t["ids"]))[i])
            f.write(s.join(repr(full[c]) if isinstance(full.get(c, 0.5), float) else str(full[c]) for c in [c for c in names] if c in full or full.setdefault(c, 0.5) is not None) + "\n")
    return path


def reader(t, path):
    from sorcha.readers.OrbitAuxReader import OrbitAuxReader

    return OrbitAuxReader(path, t["sep"])


def same(df, t, idx, what):
    require(sorted(df.columns) == sorted(t["names"]), f"{what}: wrong columns", got=list(df.columns), want=t["names"])
    require([str(x) for x in df["ObjID"]] == [t["ids"][i] for i in idx], f"{what}: wrong objects", got=list(df["ObjID"]), want=[t["ids"][i] for i in idx])
    require(all(x == t["fmt"] for x in df["FORMAT"]), f"{what}: wrong format", got=list(df["FORMAT"]))
    for c in COLS[core(t["fmt"])]:
        for got, i in zip(df[c], idx):
            want = t["rows"][i][c]
            require(math.isclose(float(got), want, rel_tol=1e-15, abs_tol=1e-300), f"{what}: {c} is not the value in the file", object=t["ids"][i], got=float(got), want=want)


@PROP.check(table(), quick=1500, thorough=20000)
def accepted(t, ctx):
    p = write(t, os.path.join(ctx.scratch(), "orbits.txt"))
    n = len(t["ids"])
    same(reader(t, p).read_rows(), t, range(n), "whole")
    r = reader(t, p)
    for a in range(0, n, t["size"]):
        same(r.read_rows(a, t["size"]), t, range(a, min(n, a + t["size"])), "block")
    pick = sorted({i % n for i in t["pick"]})
    if pick:
        same(r.read_objects([t["ids"][i] for i in pick]), t, pick, "objects")
    ctx.nontrivial(n > 1)
    ctx.tag(t["fmt"], t["sep"])


@st.composite
def broken(draw):
    t = draw(table())
    k = core(t["fmt"])
    kinds = ["no FORMAT", "missing column", "other column instead", "extra column", "unknown format", "columns of another format", "wrong separator", "no ObjID"]
    kinds += ["missing value"] * (1 if t["sep"] == "whitespace" else 3)
    if len(t["ids"]) > 1:
        kinds += ["mixed formats"] * 3
    if k == "KEP":
        kinds += ["e = 1", "e >= 1", "e < 0", "a < 0"] * 3
    if k == "COM":
        kinds += ["e < 0", "q < 0"] * 3
    return {"t": t, "kind": draw(st.sampled_from(kinds)), "row": draw(st.integers(0, 7)), "which": draw(st.integers(0, 6)), "value": draw(st.sampled_from([1, 1, 2, 2, 0.001, 30])), "other": draw(st.integers(0, 5))}


def break_it(c, path):
    """Writes the file with its rule broken; returns the row needed to notice it (None: any)."""
    t, kind, row = c["t"], c["kind"], c["row"] % len(c["t"]["ids"])
    k = core(t["fmt"])
    col = COLS[k][c["which"] % 7]
    t = dict(t, rows=[dict(r) for r in t["rows"]])
    if kind == "no FORMAT":
        write(t, path, names=[n for n in t["names"] if n != "FORMAT"])
    elif kind == "missing column":
        write(t, path, names=[n for n in t["names"] if n != col])
    elif kind == "other column instead":
        write(t, path, names=[n if n != col else "mass" for n in t["names"]])
    elif kind == "extra column":
        write(t, path, names=t["names"] + ["H_r"])
    elif kind == "unknown format":
        write(t, path, formats=[["XYZ", "COMET", t["fmt"].lower(), "K", "BB" + t["fmt"], "HKEP"][c["other"]]] * len(t["ids"]))
    elif kind == "columns of another format":
        write(t, path, formats=[[f for f in FORMATS if core(f) != k][c["other"] % 4]] * len(t["ids"]))
    elif kind == "wrong separator":
        write(dict(t, blanks=False), path, sep="csv" if t["sep"] == "whitespace" else "whitespace")
    elif kind == "no ObjID":
        write(t, path, names=t["names"])
        s = open(path).read()
        open(path, "w").write(s.replace("ObjID", "Name"))
    elif kind == "missing value":
        # an empty entry; written as NaN where columns are separated by blanks
        t["rows"][row][col] = float("nan")
        write(t, path)
        if t["sep"] != "whitespace" and c["other"] % 2:
            s = open(path).read()
            open(path, "w").write(s.replace("nan", ""))
    elif kind == "mixed formats":
        fs = [t["fmt"]] * len(t["ids"])
        fs[row] = [f for f in FORMATS if f != t["fmt"]][c["other"] % 5]
        write(t, path, formats=fs)
    else:
        name, op = kind.split()[0], kind.split()[1]
        t["rows"][row][name] = 1.0 if op == "=" else 1.0 + float(c["value"]) if op == ">=" else -float(c["value"])
        write(t, path)
    return t, row


@PROP.check(broken(), quick=3000, thorough=40000)
def refused(c, ctx):
    p = os.path.join(ctx.scratch(), "orbits.txt")
    t, row = break_it(c, p)
    n = len(t["ids"])
    ctx.nontrivial(n > 1)
    ctx.tag(c["kind"], "first row" if row == 0 else "later row")

    def exits(what, f):
        try:
            got = f()
        except SystemExit as e:
            require(e.code not in (0, None), f"{what}: ends without an error", code=e.code)
            return
        require(False, f"{what}: a file with '{c['kind']}' is accepted", got=got.to_dict("records")[:2])

    exits("whole", lambda: reader(t, p).read_rows())
    a = row - row % t["size"]
    if c["kind"] == "mixed formats" and min(n, a + t["size"]) - a < 2:
        return
    exits("block", lambda: reader(t, p).read_rows(a, t["size"]))
    if c["kind"] != "mixed formats":
        exits("object", lambda: reader(t, p).read_objects([t["ids"][row]]))


@PROP.check(st.fixed_dictionaries({"w": e2e.world("lsst", plugins=False, max_obj=4, min_obj=1), "c": broken()}), quick=120, thorough=3000)
def run_ends(case, ctx):
    """A run with such a file ends with an error and writes no detections."""
    w = dict(case["w"], chunk=100)
    c = case["c"]
    n = len(w["ids"])
    t = dict(c["t"], ids=w["ids"], rows=[c["t"]["rows"][i % len(c["t"]["rows"])] for i in range(n)], sep=w["aux"], preamble=0)
    c = dict(c, t=t)
    if c["kind"] == "mixed formats" and n < 2:
        return
    args = e2e.write(w, ctx.scratch())
    break_it(c, args["orbinfile"])
    ctx.nontrivial(n > 1)
    ctx.tag(c["kind"])
    try:
        e2e.run(args)
    except SystemExit as e:
        require(e.code not in (0, None), "the run ends without an error", code=e.code)
    else:
        require(False, f"a run with '{c['kind']}' in its orbit file goes through")
    left = [f for f in os.listdir(args["outpath"]) if not f.endswith(".log")]
    require(not left, "results of a refused run", files=left)
