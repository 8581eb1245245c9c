"""C05: input tables are read faithfully: whole, in blocks, by object, cached or not, in every format."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib.core import Property, require
from vlib.gen import fl, frames_equal, object_ids

PROP = Property(
    "C05",
    rule="tables of 1-14 rows over 1-6 identifiers (half of them number-like: 007, 1e5, 0x1A) and 1-3 float/integer/text "
    "columns (and large tables of 700-20000 rows), written as csv, csv with preamble, whitespace or HDF5 (in one or several appends, index restarting), read "
    "whole, in blocks of every size and by object subset, cached and uncached. Non-trivial = at least two rows and "
    "either a block boundary inside the table or an object subset that is neither empty nor everything.",
    assumptions=["identifiers hold no separators and no surrounding blanks and are not one of pandas' missing-value words (NA, nan, null, None ...)"],
)

VAL = {
    "float": st.one_of(fl(-1e6, 1e6), st.sampled_from([0.1, -0.0, 1e-12, 61234.123456789012, 1.0, 2.0])),
    "int": st.integers(-5, 10**6),
    "text": st.sampled_from(["KEP", "COM", "r", "abc", "x1"]),
}
SPECIAL = st.sampled_from(["Nan2", "1_000", "12345678901234567890", "0x1A", "1.10", "+5", "TRUE", "false"])


@st.composite
def tables(draw, unique=None):
    uniq = draw(st.booleans()) if unique is None else unique
    ids = draw(object_ids(1, 6))
    if draw(st.booleans()):
        s = draw(SPECIAL)
        ids = [s] + [i for i in ids if i != s]
    # every identifier tricky in a number-like way: the case that hides behind type inference
    if draw(st.integers(0, 3)) == 0:
        ids = [f"{k:0{draw(st.integers(1, 4))}d}" for k in range(1, len(ids) + 1)]
        ids = list(dict.fromkeys(ids))
    rows = list(ids) if uniq else draw(st.lists(st.sampled_from(ids), min_size=1, max_size=14))
    cols = draw(st.lists(st.tuples(st.sampled_from(["q", "H_r", "epochMJD_TDB", "GS", "note"]), st.sampled_from(["float", "int", "text"])), min_size=1, max_size=3, unique_by=lambda t: t[0]))
    data = [[draw(VAL[k]) for _ in rows] for _, k in cols]
    return {"ids": rows, "cols": [list(c) for c in cols], "data": data}


FORMATS = ["csv", "comma", "whitespace", "hdf5"]


def expected(t):
    import pandas as pd

    df = pd.DataFrame({"ObjID": pd.Series(t["ids"], dtype=object)})
    for (name, kind), vals in zip(t["cols"], t["data"]):
        df[name] = np.array(vals, dtype={"float": float, "int": np.int64}.get(kind, object))
    return df


def write(t, fmt, path, opts):
    df = expected(t)
    if fmt == "hdf5":
        p = path + ".h5"
        size = 40
        k = max(1, opts["pieces"])
        step = -(-len(df) // k)
        for i in range(0, len(df), step):
            piece = df.iloc[i : i + step]
            if opts["restart"]:
                piece = piece.reset_index(drop=True)
            piece.to_hdf(p, key="data", format="table", append=True, min_itemsize=size, mode="a")
        return p
    sep = {"csv": ",", "comma": ",", "whitespace": "  " if opts["wide"] else " "}[fmt]
    p = path + ".txt"
    with open(p, "w") as f:
        for i in range(opts["preamble"]):
            f.write(f"# remark {i}, ObjID comes later\n")
        pad = " " if (opts["wide"] and fmt != "whitespace") else ""
        f.write("ObjID" + sep + sep.join(pad + c for c, _ in t["cols"]) + "\n")
        for i, o in enumerate(t["ids"]):
            f.write(o + sep + sep.join(str(repr(d[i]) if isinstance(d[i], float) else d[i]) for d in t["data"]) + "\n")
        if not opts["eol"]:
            f.truncate(f.tell() - 1)
    return p


def reader(path, fmt, cache=False):
    from sorcha.readers.CSVReader import CSVDataReader
    from sorcha.readers.HDF5Reader import HDF5DataReader

    return HDF5DataReader(path, cache_table=cache) if fmt == "hdf5" else CSVDataReader(path, sep=fmt, cache_table=cache)


def same(got, want):
    got = got.reset_index(drop=True)
    if any(not isinstance(v, str) for v in got["ObjID"]):
        return f"identifiers are not text: {got['ObjID'].tolist()}"
    # pandas' CSV float parser is allowed its last-digit error
    return frames_equal(got, want.reset_index(drop=True), rtol=1e-13, atol=1e-300)


OPTS = st.fixed_dictionaries(
    {"pieces": st.integers(1, 4), "restart": st.booleans(), "wide": st.booleans(), "preamble": st.sampled_from([0, 0, 1, 5, 60]), "eol": st.booleans()}
)
CASE = st.fixed_dictionaries({"t": tables(), "fmt": st.sampled_from(FORMATS), "opts": OPTS, "size": st.integers(1, 6), "cache": st.booleans(), "pick": st.one_of(st.lists(st.integers(0, 20), min_size=1, max_size=3), st.lists(st.integers(0, 20), max_size=1)), "unknown": st.booleans()})


def go(case, ctx):
    d = ctx.scratch()
    want = expected(case["t"])
    path = write(case["t"], case["fmt"], os.path.join(d, "t"), case["opts"])
    ctx.tag(case["fmt"], "cached" if case["cache"] else "uncached")
    return path, want


@PROP.warmup
def _warm():
    import sorcha.readers.CSVReader, sorcha.readers.HDF5Reader, sorcha.readers.EphemerisReader  # noqa: F401,E401


@PROP.check(CASE, quick=1200, thorough=30000)
def rows_and_blocks(case, ctx):
    import pandas as pd

    path, want = go(case, ctx)
    fmt, n = case["fmt"], case["size"]
    ctx.nontrivial(len(want) > max(1, n))
    whole = reader(path, fmt, case["cache"]).read_rows()
    e = same(whole, want)
    require(e is None, "table read back differs from the file", format=fmt, what=e)
    r = reader(path, fmt, case["cache"])
    blocks = []
    for s in range(0, len(want), n):
        b = r.read_rows(s, n)
        require(len(b) == min(n, len(want) - s), "a block has the wrong number of rows", start=s, size=n, got=len(b))
        blocks.append(b)
    e = same(pd.concat(blocks), want)
    require(e is None, "blocks put together differ from the table", format=fmt, size=n, what=e)
    for s in {0, len(want) // 2}:
        if not (fmt == "hdf5" and s >= len(want)):
            e = same(r.read_rows(s), want.iloc[s:])
            require(e is None, "reading from a row onwards differs", start=s, what=e)


@PROP.check(CASE, quick=1200, thorough=30000)
def by_object(case, ctx):
    path, want = go(case, ctx)
    ids = list(dict.fromkeys(case["t"]["ids"]))
    pick = list(dict.fromkeys(ids[i % len(ids)] for i in case["pick"]))
    ask = pick + (["no_such_object"] if case["unknown"] else [])
    sub = want[want["ObjID"].isin(ask)]
    ctx.nontrivial(0 < len(sub) < len(want))
    r = reader(path, case["fmt"], case["cache"])
    for _ in range(2):
        got = r.read_objects(list(ask))
        if len(sub) == 0:
            require(len(got) == 0, "rows returned for objects that are not there")
        else:
            e = same(got, sub)
            require(e is None, "rows of an object subset differ from the table", format=case["fmt"], asked=ask, what=e)
    # a reader that has served objects still serves rows, and the other way round
    e = same(r.read_rows(), want)
    require(e is None, "reading by object disturbs reading rows", what=e)


LARGE = st.fixed_dictionaries(
    {"n": st.sampled_from([700, 1025, 4096, 20000]), "seed": st.integers(0, 10**6), "per": st.sampled_from([1, 1, 3, 40]), "numeric": st.booleans(), "fmt": st.sampled_from(FORMATS), "opts": OPTS, "cache": st.booleans(), "blocks": st.integers(2, 9), "asked": st.sampled_from([1, 40, 300, 5000])}
)


@PROP.check(LARGE, quick=60, thorough=1500)
def large_tables(case, ctx):
    """Tables of the size catalogues have: more rows, blocks and objects than any buffer or parameter list holds."""
    import pandas as pd

    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    k = max(1, n // case["per"])
    names = [f"{i}" if case["numeric"] and i < k * 9 // 10 else f"S{i:06d}a" for i in range(k)]
    rng.shuffle(names)
    ids = names if case["per"] == 1 else [names[i] for i in rng.integers(0, k, n)]
    # a column of whole numbers with a few others far down the file
    late = [int(v) if i < n * 0.98 else float(v) + 0.5 for i, v in enumerate(rng.integers(0, 100, len(ids)))]
    t = {"ids": ids, "cols": [["q", "float"], ["GS", "float"], ["H_r", "int"]], "data": [np.round(rng.uniform(-1e4, 1e4, len(ids)), 6).tolist(), late, rng.integers(0, 10**7, len(ids)).tolist()]}
    path, want = go({**case, "t": t}, ctx)
    r = reader(path, case["fmt"], case["cache"])
    cuts = np.unique(np.concatenate([[0], rng.integers(0, len(want), case["blocks"] - 1), [len(want)]])).tolist()
    parts = [r.read_rows(a, b - a) for a, b in zip(cuts, cuts[1:])]
    e = same(pd.concat(parts), want)
    require(e is None, "blocks put together differ from the table", format=case["fmt"], what=e, cuts=cuts)
    have = sorted(set(ids))
    ask = [have[i] for i in rng.permutation(len(have))[: case["asked"]]]
    sub = want[want["ObjID"].isin(set(ask))]
    for got in (r.read_objects(list(ask)), reader(path, case["fmt"], case["cache"]).read_objects(list(ask))):
        e = same(got, sub)
        require(e is None, "rows of an object subset differ from the table", format=case["fmt"], asked=len(ask), what=e)
    ctx.nontrivial(len(cuts) > 2 and len(sub) < len(want))


EPH = ["ObjID", "FieldID", "fieldMJD_TAI", "Range_LTC_km", "RangeRate_LTC_km_s", "RA_deg", "RARateCosDec_deg_day", "Dec_deg", "DecRate_deg_day",
       "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km", "Obj_Sun_vx_LTC_km_s", "Obj_Sun_vy_LTC_km_s", "Obj_Sun_vz_LTC_km_s",
       "Obs_Sun_x_km", "Obs_Sun_y_km", "Obs_Sun_z_km", "Obs_Sun_vx_km_s", "Obs_Sun_vy_km_s", "Obs_Sun_vz_km_s", "phase_deg"]


@PROP.check(
    st.fixed_dictionaries(
        {
            "ids": st.tuples(object_ids(1, 4), st.lists(st.integers(0, 3), min_size=1, max_size=10)),
            "order": st.permutations(EPH[1:]),
            "extra": st.lists(st.sampled_from(["V", "V(H=0)", "fieldJD_TDB"]), unique=True, max_size=3),
            "bad": st.one_of(st.none(), st.none(), st.sampled_from(["RA", "Mag", "ra_deg", "V(H=1)"])),
            "fmt": st.sampled_from(FORMATS),
            "size": st.integers(1, 5),
            "seed": st.integers(0, 1000),
        }
    ),
    quick=400,
    thorough=8000,
)
def ephemeris_tables(case, ctx):
    from sorcha.readers.EphemerisReader import EphemerisDataReader, read_full_ephemeris_table

    ids = [case["ids"][0][i % len(case["ids"][0])] for i in case["ids"][1]]
    names = list(case["order"])
    for i, x in enumerate(case["extra"]):
        names.insert((case["seed"] + 7 * i) % (len(names) + 1), x)
    if case["bad"]:
        names.append(case["bad"])
    rng = np.random.default_rng(case["seed"])
    data = [[f"F{int(v)}" for v in rng.integers(0, 99, len(ids))] if c == "FieldID" else [float(v) for v in rng.normal(0, 1e5, len(ids))] for c in names]
    t = {"ids": ids, "cols": [[c, "text" if c == "FieldID" else "float"] for c in names], "data": data}
    path = write(t, case["fmt"], os.path.join(ctx.scratch(), "e"), {"pieces": 2, "restart": True, "wide": False, "preamble": 0, "eol": True})
    if case["bad"]:
        ctx.tag("unknown column")
        try:
            EphemerisDataReader(path, case["fmt"]).read_rows()
        except SystemExit:
            return
        require(False, "an ephemeris with an unknown column is accepted", column=case["bad"])
    want = expected(t)[EPH]
    ctx.nontrivial(bool(case["extra"]) and len(want) > case["size"])
    e = same(read_full_ephemeris_table(path, case["fmt"]), want)
    require(e is None, "ephemeris table differs from the file", what=e)
    r = EphemerisDataReader(path, case["fmt"])
    import pandas as pd

    e = same(pd.concat([r.read_rows(s, case["size"]) for s in range(0, len(want), case["size"])]), want)
    require(e is None, "ephemeris blocks differ from the file", what=e)
    e = same(r.read_objects([ids[0]]), want[want["ObjID"] == ids[0]])
    require(e is None, "ephemeris rows of one object differ from the file", what=e)


@PROP.check(
    st.fixed_dictionaries(
        {
            "t": tables(),
            "fmt": st.sampled_from(["csv", "comma", "whitespace"]),
            "where": st.integers(0, 3),
            "decoy": st.sampled_from([None, "ObjID", "ObjIDs were found", "ObjID,a,b,c,d"]),
            "explicit": st.booleans(),
            "bad": st.sampled_from([None, None, "ObjIDs", "Name", "none", "alone", "other separator"]),
            "size": st.integers(1, 5),
        }
    ),
    quick=600,
    thorough=8000,
)
def header_lines(c, ctx):
    """The header may be the line asked for; a header without an ObjID column is refused."""
    t, fmt = c["t"], c["fmt"]
    want = expected(t)
    path = write(t, fmt, os.path.join(ctx.scratch(), "t"), {"pieces": 1, "restart": False, "wide": False, "preamble": 0, "eol": True})
    lines = open(path).read().split("\n")
    if c["bad"] in ("ObjIDs", "Name"):
        lines[0] = lines[0].replace("ObjID", c["bad"])
    elif c["bad"] == "alone":
        lines[0] = "ObjID"
    elif c["bad"] == "other separator":
        lines[0] = lines[0].replace(",", ";") if fmt != "whitespace" else lines[0].replace(" ", ",")
    elif c["bad"] == "none":
        lines[0] = lines[0].replace("ObjID", "x" + lines[1].split(",")[0].split(" ")[0])
    head = [f"remark {i}" for i in range(c["where"])]
    if c["explicit"] and c["decoy"] and head:  # only a reader told the line can know better
        head[-1] = c["decoy"]
    with open(path, "w") as f:
        f.write("\n".join(head + lines))
    from sorcha.readers.CSVReader import CSVDataReader

    ctx.nontrivial(bool(c["bad"]) or c["explicit"])
    ctx.tag("refused" if c["bad"] else "explicit header" if c["explicit"] else "found header")
    kw = {"header": c["where"]} if c["explicit"] else {}
    try:
        r = CSVDataReader(path, sep=fmt, **kw)
    except SystemExit:
        require(c["bad"] is not None, "a good header is refused", header=lines[0], where=c["where"])
        return
    require(c["bad"] is None, "a header without an ObjID column or with one column is accepted", header=lines[0])
    e = same(r.read_rows(), want)
    require(e is None, "table read back differs from the file", what=e)
    e = same(CSVDataReader(path, sep=fmt, **kw).read_rows(len(want) // 2, c["size"]), want.iloc[len(want) // 2 : len(want) // 2 + c["size"]])
    require(e is None, "a block differs from the file", what=e)
    ids = [t["ids"][0]]
    e = same(CSVDataReader(path, sep=fmt, **kw).read_objects(ids), want[want["ObjID"].isin(ids)])
    require(e is None, "rows of an object differ from the file", what=e)


@PROP.check(
    st.fixed_dictionaries(
        {
            "t": tables(),
            "fmt": st.sampled_from(["csv", "comma", "whitespace"]),
            "preamble": st.integers(0, 3),
            "blanks": st.lists(st.tuples(st.integers(0, 20), st.sampled_from(["", "", "  ", "\t"])), min_size=1, max_size=4),
            "size": st.integers(1, 6),
            "cache": st.booleans(),
        }
    ),
    quick=600,
    thorough=12000,
)
def blank_lines(c, ctx):
    """A table with blank lines is read as if they were not there, or refused; never with rows lost, repeated or moved."""
    t, fmt, n = c["t"], c["fmt"], c["size"]
    want = expected(t)
    path = write(t, fmt, os.path.join(ctx.scratch(), "t"), {"pieces": 1, "restart": False, "wide": False, "preamble": c["preamble"], "eol": True})
    lines = open(path).read().split("\n")[:-1]
    for at, text in c["blanks"]:
        lines.insert(at % (len(lines) + 1), text)
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    ctx.nontrivial(len(want) > n and any(not x.strip() for x in lines[:-1]))
    from sorcha.readers.CSVReader import CSVDataReader
    import pandas as pd

    def attempt(what, f, want):
        try:
            got = f()
        except SystemExit:
            ctx.tag("refused: " + what)
            return
        e = same(got, want)
        require(e is None, f"blank lines change {what}", what=e, lines=lines)
        ctx.tag("read: " + what)

    def r():
        return CSVDataReader(path, sep=fmt, cache_table=c["cache"])

    attempt("the whole table", lambda: r().read_rows(), want)
    k = r()
    attempt("the blocks", lambda: pd.concat([k.read_rows(s, n) for s in range(0, len(want), n)]), want)
    ids = [t["ids"][-1]]
    attempt("the rows of an object", lambda: r().read_objects(ids), want[want["ObjID"].isin(ids)])

    def listed():
        k = r()
        k._build_id_map()
        return pd.DataFrame({"ObjID": k.obj_id_table["ObjID"]})

    attempt("the list of objects", listed, want[["ObjID"]])


@PROP.check(
    st.fixed_dictionaries({"t": tables(), "size": st.integers(1, 6), "cache": st.booleans(), "pick": st.lists(st.integers(0, 20), min_size=1, max_size=3), "unknown": st.booleans()}),
    quick=250,
    thorough=6000,
)
def database_tables(c, ctx):
    """Tables of the intermediate database: the same rows, in the order of the identifiers."""
    import sqlite3

    import pandas as pd

    from sorcha.readers.DatabaseReader import DatabaseReader

    t, n = c["t"], c["size"]
    want = expected(t)
    path = os.path.join(ctx.scratch(), "t.db")
    con = sqlite3.connect(path)
    want.to_sql("interm", con, index=False)
    con.close()
    ctx.nontrivial(len(want) > n)

    def canon(df):
        return sorted(repr([x + 0.0 if isinstance(x, float) else x for x in r]) for r in df.reset_index(drop=True).itertuples(index=False, name=None))  # SQLite knows no -0.0

    def equal(got, want, what):
        require(all(isinstance(x, str) for x in got["ObjID"]), "identifiers are not text")
        require(list(got.columns) == list(want.columns) and canon(got) == canon(want), f"{what} differ from the database", got=got.to_dict("records")[:5], want=want.to_dict("records")[:5])

    r = DatabaseReader(path, cache_table=c["cache"])
    whole = r.read_rows()
    equal(whole, want, "rows")
    require(whole["ObjID"].tolist() == sorted(t["ids"]), "rows are not in the order of the identifiers", got=whole["ObjID"].tolist())
    blocks = [r.read_rows(s, n) for s in range(0, len(want), n)]
    require([len(b) for b in blocks[:-1]] == [n] * (len(blocks) - 1), "a block has the wrong number of rows", got=[len(b) for b in blocks])
    equal(pd.concat(blocks), want, "blocks put together")
    ids = list(dict.fromkeys(t["ids"]))
    ask = list(dict.fromkeys(ids[i % len(ids)] for i in c["pick"])) + (["no_such_object"] if c["unknown"] else [])
    equal(r.read_objects(ask), want[want["ObjID"].isin(ask)], "rows of an object subset")
    if not c["cache"]:
        try:
            r.read_rows(1)
        except SystemExit:
            return
        require(False, "an open-ended block of a database is not refused")
