"""C27: the detections file: every chunk's rows, once, in order, in the chosen format, columns and rounding."""
import csv
import math
import os
import sqlite3
from argparse import Namespace

import numpy as np
from hypothesis import strategies as st

from vlib.core import Property, require
from vlib.gen import config, fl, fx, object_ids

PROP = Property(
    "C27",
    rule="Sequences of 1-4 chunks of 1-6 generated observations written in each format with basic, all or listed columns, "
    "with and without rounding, then read back without sorcha; non-trivial = two or more chunks, or rounding, or listed columns.",
    assumptions=["column names in the output file are those of the documentation", "chunks of one run differ in types only as reading the input files chunk by chunk makes them differ"],
)
BASIC = [
    "ObjID", "fieldMJD_TAI", "fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "optFilter", "trailedSourceMag",
    "trailedSourceMagSigma", "fiveSigmaDepth_mag", "phase_deg", "Range_LTC_km", "RangeRate_LTC_km_s", "Obj_Sun_LTC_km",
]
POS = ["fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "RATrue_deg", "DecTrue_deg"]
MAG = ["PSFMag", "trailedSourceMag", "trailedSourceMagTrue", "PSFMagTrue", "PSFMagSigma", "trailedSourceMagSigma", "fieldFiveSigmaDepth_mag", "fiveSigmaDepth_mag"]
OTHER = ["phase_deg", "Range_LTC_km", "RangeRate_LTC_km_s", "fieldMJD_TAI", "SNR", "H_filter", "GS"]
XYZ = ["Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km"]
FLOATS = POS + MAG + OTHER + XYZ
ALL_COLS = ["ObjID", "FieldID", "optFilter", "object_linked"] + FLOATS + ["Obj_Sun_LTC_km"]


@st.composite
def cases(draw):
    ids = draw(object_ids(1, 6))
    nch = draw(st.integers(1, 4))
    chunks = []
    for _ in range(nch):
        n = draw(st.integers(1, 6))
        chunks.append(
            {
                "ids": [draw(st.sampled_from(ids)) for _ in range(n)],
                "filt": [draw(st.sampled_from("ugrizy")) for _ in range(n)],
                "linked": [draw(st.booleans()) for _ in range(n)],
                "seed": draw(st.integers(0, 10**6)),
                "round": draw(st.booleans()),
                "whole": draw(st.booleans()),
                "twins": draw(st.sampled_from([0, 0, 1, 2])),
            }
        )
    return {
        "chunks": chunks,
        "format": draw(st.sampled_from(["csv", "sqlite3", "hdf5"])),
        "columns": draw(st.one_of(st.just("basic"), st.just("all"), st.lists(st.sampled_from(["ObjID", "optFilter", "object_linked", "GS"]), min_size=2, max_size=3, unique=True), st.lists(st.sampled_from(ALL_COLS), min_size=2, max_size=8, unique=True))),
        "pos": draw(st.one_of(st.none(), st.integers(0, 12))),
        "mag": draw(st.one_of(st.none(), st.integers(0, 8))),
        "link": draw(st.sampled_from(["off", "drop", "keep"])),
        "cat": draw(st.booleans()),
        "stem": draw(st.sampled_from(["out", "my.run.v1", "run-3", "a b"])),
    }


def frame(case, ch):
    import pandas as pd

    r = np.random.default_rng(ch["seed"])
    n = len(ch["ids"])
    d = {"ObjID": list(ch["ids"]), "FieldID": r.integers(0, 10**7, n), "fieldMJD_TAI": 60000 + r.uniform(0, 3650, n)}
    for c in FLOATS:
        if c in d:
            continue
        if c in XYZ:
            d[c] = r.normal(0, 3e8, n)
        elif c in POS and "Dec" in c:
            d[c] = r.uniform(-90, 90, n)
        elif c == "astrometricSigma_deg" or c.endswith("Sigma"):
            d[c] = 10 ** r.uniform(-7, -1, n)
        elif c in POS:
            d[c] = r.uniform(0, 360, n)
        elif c in MAG:
            d[c] = r.uniform(14, 28, n)
        else:
            d[c] = r.normal(0, 100, n)
        if ch["round"]:
            d[c] = np.round(d[c], 3)
    if ch["twins"]:  # rows that look like the first one
        for c, v in d.items():
            if ch["twins"] == 2 or c not in ("ObjID", "FieldID"):
                for i in range(1, n, 2):
                    v[i] = v[0]
    if ch["whole"]:  # a physical parameter that is a whole number for every object of this chunk
        d["GS"] = r.integers(0, 2, n)
    d["optFilter"] = pd.Categorical(ch["filt"], categories=sorted("ugrizy")) if case["cat"] else list(ch["filt"])
    if case["link"] != "off":
        d["object_linked"] = list(ch["linked"])
    return pd.DataFrame(d)


def read_csv(path):
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    return rows[0], [dict(zip(rows[0], r)) for r in rows[1:]], {len(r) for r in rows}


def load(case, folder):
    """Column names and a list of dicts, without sorcha."""
    files = sorted(os.listdir(folder))
    ext = {"csv": ".csv", "sqlite3": ".db", "hdf5": ".h5"}[case["format"]]
    require(files == [case["stem"] + ext], "unexpected files in the output folder", files=files)
    p = os.path.join(folder, files[0])
    if case["format"] == "csv":
        cols, rows, widths = read_csv(p)
        require(widths == {len(cols)}, "ragged csv rows")
        return cols, rows
    if case["format"] == "sqlite3":
        with sqlite3.connect(p) as con:
            con.row_factory = sqlite3.Row
            tabs = [r[0] for r in con.execute("select name from sqlite_master where type='table'")]
            require(tabs == ["sorcha_results"], "unexpected tables", tables=tabs)
            rows = con.execute("select * from sorcha_results order by rowid").fetchall()
            cols = list(rows[0].keys())
            out = [dict(r) for r in rows]
        con.close()
        return cols, out
    import pandas as pd

    df = pd.read_hdf(p, key="sorcha_results")
    return list(df.columns), df.to_dict("records")


@PROP.check(cases(), quick=500, thorough=15000)
def detections_file(case, ctx):
    from sorcha.modules.PPOutput import PPIndexSQLDatabase, PPWriteOutput

    cols = case["columns"]
    listed = not isinstance(cols, str)
    if listed:
        if case["link"] == "off":
            cols = [c for c in cols if c != "object_linked"]
        if len(cols) < 2:
            cols = ["ObjID", "RA_deg"]
    cfg = config({"OUTPUT": {"output_format": case["format"], "output_columns": ", ".join(cols) if listed else cols, "position_decimals": case["pos"], "magnitude_decimals": case["mag"]}})
    cfg.linkingfilter.ssp_linking_on = case["link"] != "off"
    cfg.linkingfilter.drop_unlinked = case["link"] != "keep"
    folder = ctx.scratch()
    args = Namespace(outpath=folder, outfilestem=case["stem"], loglevel=False)
    chunks = [frame(case, c) for c in case["chunks"]]
    for f in chunks:
        PPWriteOutput(args, cfg, f.copy())
    if case["format"] == "sqlite3":
        PPIndexSQLDatabase(os.path.join(folder, case["stem"] + ".db"))
    got_cols, rows = load(case, folder)
    import pandas as pd

    want = pd.concat([f.astype({"optFilter": object}) for f in chunks], ignore_index=True)
    want["Obj_Sun_LTC_km"] = np.sqrt(sum(want[c] ** 2 for c in XYZ))
    if listed:
        exp = cols
    elif cols == "basic":
        exp = BASIC + (["object_linked"] if case["link"] == "keep" else [])
    else:
        exp = list(want.columns)
    require(list(got_cols) == list(exp) if cols != "all" else sorted(got_cols) == sorted(exp), "wrong columns in the output file", got=got_cols, want=exp)
    require(len(rows) == len(want), "rows lost or repeated", got=len(rows), want=len(want))
    for c in exp:
        dec = case["pos"] if c in POS else case["mag"] if c in MAG else None
        for i, r in enumerate(rows):
            g, w = r[c], want[c].iloc[i]
            if c in ("ObjID", "optFilter"):
                require(str(g) == str(w) and (case["format"] == "csv" or isinstance(g, str)), f"{c} changed", got=g, want=w, row=i)
            elif c == "object_linked":
                require(str(g) in ({"True", "1", "1.0"} if w else {"False", "0", "0.0"}), f"{c} changed", got=g, want=w)
            elif c == "FieldID":
                require(float(g) == float(w), "FieldID changed", got=g, want=w)
            else:
                g, w = float(g), float(w)
                if dec is None:
                    require(abs(g - w) <= 1e-15 * abs(w) if c != "Obj_Sun_LTC_km" else abs(g - w) <= 1e-12 * w, f"{c} changed", got=g, want=w, row=i)
                else:
                    eps = 4e-16 * abs(w)
                    require(abs(g - w) <= 0.5 * 10.0**-dec * (1 + 1e-9) + eps, f"{c} is not the value rounded to {dec} decimals", got=g, want=w)
                    m = g * 10.0**dec
                    require(abs(m - round(m)) <= 1e-9 + 1e-15 * abs(m), f"{c} has more than {dec} decimals", got=g, want=w)
    ctx.nontrivial(len(chunks) > 1 or listed or case["pos"] is not None or case["mag"] is not None)
    ctx.tag(case["format"])
    ctx.tag("listed" if listed else cols)


@PROP.check(st.fixed_dictionaries({"c": cases(), "seed": st.integers(0, 10**6), "rows": st.lists(st.sampled_from([1, 70, 1030, 3000]), min_size=1, max_size=6), "objs": st.sampled_from([1, 1200])}), quick=24, thorough=500)
def many_detections(case, ctx):
    """The same for chunks of many detections."""
    r = np.random.default_rng(case["seed"])
    ids = [f"{k}" if k % 2 else f"S{k:04d}" for k in range(case["objs"])]
    chunks = []
    for n in case["rows"]:
        chunks.append({"ids": [ids[int(i)] for i in r.integers(0, len(ids), n)], "filt": r.choice(list("ugrizy"), n).tolist(), "linked": (r.random(n) < 0.5).tolist(), "seed": int(r.integers(0, 10**6)), "round": bool(r.random() < 0.5), "whole": bool(r.random() < 0.5), "twins": int(r.integers(0, 3))})
    detections_file(dict(case["c"], chunks=chunks), ctx)


@PROP.check(
    st.fixed_dictionaries({"missing": st.sampled_from(["nope", "objid", "RA", "H_r"]), "have": st.sampled_from(["RA_deg", "PSFMag"]), "format": st.sampled_from(["csv", "sqlite3", "hdf5"])}),
    quick=40,
    thorough=200,
)
def unknown_column(case, ctx):
    """Asking for a column that does not exist ends the run with an error and writes nothing."""
    from sorcha.modules.PPOutput import PPWriteOutput

    cfg = config({"OUTPUT": {"output_format": case["format"], "output_columns": f"ObjID,{case['have']},{case['missing']}"}})
    folder = ctx.scratch()
    f = frame({"cat": False, "link": "off"}, {"ids": ["a"], "filt": ["r"], "linked": [True], "seed": 1, "round": False, "whole": False, "twins": 0})
    try:
        PPWriteOutput(Namespace(outpath=folder, outfilestem="o", loglevel=False), cfg, f)
    except SystemExit as e:
        require(e.code not in (0, None), "unknown column ends the run with success")
    else:
        require(False, "an output column that does not exist is accepted", case=case)
    require(os.listdir(folder) == [], "a file was written")
    ctx.nontrivial(True)
