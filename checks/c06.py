"""C06: every ephemeris row meets exactly its own object's orbit and parameters; mismatched inputs are refused."""
import os

import numpy as np
from hypothesis import strategies as st

from checks.c05 import EPH
from vlib import e2e
from vlib.core import Property, require
from vlib.gen import frames_equal, object_ids

PROP = Property(
    "C06",
    rule="1-6 objects (number-like identifiers included), orbit, physical and optional complex parameter files in "
    "independent row orders and formats, an ephemeris with 0-14 rows in any order, generated block sizes. Non-trivial = at "
    "least two objects, differently ordered files, and a block boundary inside the table. Mismatch cases: one "
    "identifier dropped, added, renamed, duplicated or re-spelled in one file, or repeated in every file; also in whole runs of both surveys.",
    assumptions=["identifiers are unique within an auxiliary file, except where repeated ones must be refused"],
)

ORB = ["FORMAT", "a", "e", "inc", "node", "argPeri", "ma", "epochMJD_TDB"]


@st.composite
def inputs(draw, min_obj=1):
    ids = draw(object_ids(min_obj, 6))
    n = len(ids)
    return {
        "ids": ids,
        "orders": [draw(st.permutations(range(n))) for _ in range(3)],
        "complex": draw(st.booleans()),
        "eph": draw(st.lists(st.integers(0, n - 1 + draw(st.integers(0, 1))), min_size=0, max_size=14)),
        "aux": draw(st.sampled_from(["csv", "whitespace"])),
        "efmt": draw(st.sampled_from(["csv", "whitespace", "hdf5"])),
        "size": draw(st.sampled_from([1, 1, 2, 2, 3, 5, 7])),
    }


def orb_row(k):
    return ["KEP", 2.0 + k * 0.125, 0.1 + (k % 50) / 64, 5.0 + k, 10.0 + k, 20.0 + k, 30.0 + k, 60000.0 + k]


def par_row(k):
    return [15.0 + k * 0.25, 0.5 + k / 32, 0.15 + k / 64]


def cpl_row(k):
    return [1.5 + k, 0.25 + k / 8]


def write_table(path, sep, header, rows):
    s = "," if sep != "whitespace" else " "
    with open(path, "w") as f:
        f.write(s.join(header) + "\n")
        for r in rows:
            f.write(s.join(str(x) for x in r) + "\n")
    return path


def files(case, d, mangle=None):
    """Write the auxiliary files; mangle(file_no, ids in that file's order) -> ids lets a test break one of them."""
    ids, out = case["ids"], []
    specs = [(ORB, orb_row), (["H_r", "g-r", "GS"], par_row), (["LCA", "Period"], cpl_row)][: 3 if case["complex"] else 2]
    for fno, (cols, row) in enumerate(specs):
        order = list(case["orders"][fno])
        names = [ids[k] for k in order]
        rows = [row(k) for k in order]
        if mangle:
            names, rows = mangle(fno, names, rows)
        out.append(write_table(os.path.join(d, f"aux{fno}.txt"), case["aux"], ["ObjID"] + cols, [[n] + r for n, r in zip(names, rows)]))
    return out


def ephemeris(case, d):
    import pandas as pd

    names = [case["ids"][k] if k < len(case["ids"]) else "not_in_orbits" for k in case["eph"]]
    n = len(names)
    df = pd.DataFrame({"ObjID": pd.Series(names, dtype=object), "FieldID": np.arange(n) + 100})
    for j, c in enumerate(EPH[2:]):
        df[c] = np.arange(n) * 1.5 + j * 100.25
    if case["efmt"] == "hdf5":
        p = os.path.join(d, "eph.h5")
        if n:
            df.to_hdf(p, key="data", format="table", min_itemsize=40)
        else:
            df["ObjID"] = df["ObjID"].astype(str)
            pd.DataFrame({"ObjID": ["pad"], **{c: [0.0] for c in EPH[1:]}}).to_hdf(p, key="data", format="table", min_itemsize=40)
    else:
        p = write_table(os.path.join(d, "eph.txt"), case["efmt"], list(df.columns), df.values.tolist())
    return p, df


def combined(case, paths, eph=None, primary=False):
    from sorcha.readers.CombinedDataReader import CombinedDataReader
    from sorcha.readers.CSVReader import CSVDataReader
    from sorcha.readers.EphemerisReader import EphemerisDataReader
    from sorcha.readers.OrbitAuxReader import OrbitAuxReader

    r = CombinedDataReader(ephem_primary=primary, verbose=True)
    if eph:
        r.add_ephem_reader(EphemerisDataReader(eph, case["efmt"]))
    r.add_aux_data_reader(OrbitAuxReader(paths[0], case["aux"]))
    for p in paths[1:]:
        r.add_aux_data_reader(CSVDataReader(p, case["aux"]))
    return r


def joined(case, eph_df):
    """The join, written out: for each ephemeris row of a known object, that object's values."""
    import pandas as pd

    rows = []
    number = {o: k for k, o in enumerate(case["ids"])}
    for rec in eph_df.to_dict("records"):
        if rec["ObjID"] in number:
            k = number[rec["ObjID"]]
            rec = dict(rec)
            rec.update(zip(ORB, orb_row(k)))
            rec.update(zip(["H_r", "g-r", "GS"], par_row(k)))
            if case["complex"]:
                rec.update(zip(["LCA", "Period"], cpl_row(k)))
            rows.append(rec)
    cols = list(eph_df.columns) + ORB + ["H_r", "g-r", "GS"] + (["LCA", "Period"] if case["complex"] else [])
    return pd.DataFrame(rows, columns=cols)


@PROP.warmup
def _warm():
    import sorcha.readers.CombinedDataReader, sorcha.readers.OrbitAuxReader, sorcha.readers.EphemerisReader  # noqa: F401,E401


@PROP.check(inputs(), quick=700, thorough=15000)
def join_by_object(case, ctx):
    import pandas as pd

    d = ctx.scratch()
    paths = files(case, d)
    ep, edf = ephemeris(case, d)
    n, size = len(case["ids"]), case["size"]
    ctx.nontrivial(n > max(1, size) and len(edf) > 1 and list(case["orders"][0]) != list(case["orders"][1]))
    ctx.tag(case["efmt"], case["aux"])
    r = combined(case, paths, ep)
    r.check_aux_object_ids()
    got = []
    for s in range(0, n, size):
        b = r.read_block(block_size=size)
        names = [case["ids"][k] for k in case["orders"][0][s : s + size]]
        w = joined(case, edf[edf["ObjID"].isin(names)])
        require(b is not None, "no data although objects are left")
        if len(w) == 0:
            require(len(b) == 0, "rows appear for objects without ephemeris", got=b["ObjID"].tolist())
            ctx.tag("block without ephemeris")
        else:
            e = frames_equal(b, w, rtol=1e-12)
            require(e is None, "combined block is not the join of its inputs", block=s, size=size, what=e)
        got.append(b)
    require(r.read_block(block_size=size) is None, "data left after the last object")
    whole = combined(case, paths, ep).read_block()
    w = joined(case, edf)
    if len(w):
        e = frames_equal(whole, w, rtol=1e-12)
        require(e is None, "reading everything at once is not the join", what=e)
    # ephemeris-driven blocks
    if len(edf) and len(w) == len(edf):
        r = combined(case, paths, ep, primary=True)
        parts = []
        while True:
            b = r.read_block(block_size=size)
            if b is None:
                break
            parts.append(b)
            require(len(parts) <= len(edf), "ephemeris blocks never end")
        e = frames_equal(pd.concat(parts), w, rtol=1e-12)
        require(e is None, "ephemeris-driven blocks are not the join", what=e)


@PROP.check(st.fixed_dictionaries({"seed": st.integers(0, 10**6), "n": st.sampled_from([150, 1030, 2500]), "rows": st.sampled_from([300, 2100, 6000]), "size": st.sampled_from([64, 100, 500, 999, 3000]), "c": inputs()}), quick=24, thorough=600)
def large_catalogue(case, ctx):
    """The same for catalogues of many objects in blocks of many."""
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    ids = [str(k * 7) if k % 3 == 0 else f"S{k:05d}" if k % 3 == 1 else f"{k:06d}" for k in range(n)]
    big = dict(case["c"], ids=ids, orders=[rng.permutation(n).tolist() for _ in range(3)], eph=rng.integers(0, n + 1, case["rows"]).tolist(), size=case["size"])
    join_by_object(big, ctx)
    auxiliary_blocks(big, ctx)


@PROP.check(inputs(), quick=500, thorough=10000)
def auxiliary_blocks(case, ctx):
    import pandas as pd

    d = ctx.scratch()
    paths = files(case, d)
    n, size = len(case["ids"]), case["size"]
    ctx.nontrivial(n > max(1, size) and list(case["orders"][0]) != list(case["orders"][1]))
    names = [case["ids"][k] for k in case["orders"][0]]
    w = joined(case, pd.DataFrame({"ObjID": names}))
    r = combined(case, paths)
    r.check_aux_object_ids()
    parts = []
    for s in range(0, n, size):
        b = r.read_aux_block(block_size=size)
        e = frames_equal(b, w.iloc[s : s + size], rtol=1e-12)
        require(e is None, "auxiliary block is not the join of its files", block=s, size=size, what=e)
        parts.append(b)
    require(r.read_aux_block(block_size=size) is None, "auxiliary data left after the last object")


@PROP.check(
    st.fixed_dictionaries(
        {"c": inputs(), "file": st.integers(0, 2), "how": st.sampled_from(["drop", "add", "rename", "respell", "duplicate", "swapdup", "duplicate everywhere", "duplicate everywhere"]), "who": st.integers(0, 5)}
    ),
    quick=500,
    thorough=8000,
)
def mismatch_refused(case, ctx):
    c = case["c"]
    fno = case["file"] % (3 if c["complex"] else 2)

    def mangle(i, names, rows):
        if case["how"] == "duplicate everywhere":  # the files agree, but an identifier is not unique
            j = names.index(c["ids"][case["who"] % len(names)])
            at = (case["who"] * 5 + i) % (len(names) + 1)
            names, rows = list(names), list(rows)
            name, row = names[j], rows[j]
            names.insert(at, name)
            rows.insert(at, row)
            return names, rows
        if i != fno:
            return names, rows
        names, rows = list(names), list(rows)
        k = case["who"] % len(names)
        if case["how"] == "drop":
            if len(names) == 1:
                return ["other"], rows
            del names[k], rows[k]
        elif case["how"] == "add":
            names.insert(k, "zz_extra")
            rows.insert(k, rows[0])
        elif case["how"] == "rename":
            names[k] = names[k] + "x"
        elif case["how"] == "respell":
            names[k] = "0" + names[k]
        elif case["how"] == "duplicate":
            names.append(names[k])
            rows.append(rows[k])
        else:
            # same length and, for two or more objects, the same number of distinct rows lost
            names[k] = names[(k + 1) % len(names)] if len(names) > 1 else "other"
        return names, rows

    ctx.nontrivial(len(c["ids"]) > 1)
    ctx.tag(case["how"], f"file {fno}")
    paths = files(c, ctx.scratch(), mangle)
    r = combined(c, paths)
    try:
        r.check_aux_object_ids()
    except SystemExit as e:
        require(e.code not in (0, None), "refused with a success status")
        return
    require(False, "auxiliary files with different or repeated objects are accepted", how=case["how"], file=fno, ids=c["ids"])


@PROP.check(
    st.fixed_dictionaries(
        {
            "w": st.sampled_from(["lsst", "des"]).flatmap(lambda k: e2e.world(k, max_obj=4, min_obj=1)),
            "file": st.integers(0, 2),
            "how": st.sampled_from(["drop", "add", "rename", "duplicate", "duplicate everywhere"]),
            "who": st.integers(0, 5),
        }
    ),
    quick=120,
    thorough=3000,
)
def run_refused(case, ctx):
    """A run on files with different or repeated objects ends with an error and writes no detections."""
    w = case["w"]
    args = e2e.write(w, ctx.scratch())
    files = ["orbits.txt", "params.txt"] + (["complex.txt"] if w["lc"] or w["ca"] else [])
    fno = case["file"] % len(files)
    d = os.path.dirname(args["orbinfile"])
    sep = "," if w["aux"] == "csv" else " "
    for i, name in enumerate(files):
        if i != fno and case["how"] != "duplicate everywhere":
            continue
        lines = open(os.path.join(d, name)).read().splitlines()
        j = 1 + case["who"] % len(w["ids"])
        if case["how"] == "duplicate everywhere":
            j = [x.split(sep)[0] for x in lines].index(w["ids"][j - 1])
        if case["how"] == "drop" and len(lines) > 2:
            del lines[j]
        elif case["how"] in ("add", "drop"):
            lines.insert(j, "zz_extra" + lines[1][len(lines[1].split(sep)[0]) :])
        elif case["how"] == "rename":
            lines[j] = "x" + lines[j]
        else:
            lines.insert(1 + (case["who"] + i) % len(lines), lines[j])
        with open(os.path.join(d, name), "w") as f:
            f.write("\n".join(lines) + "\n")
    ctx.nontrivial(len(w["ids"]) > 1)
    ctx.tag(w["survey"], case["how"])
    try:
        e2e.run(args)
    except SystemExit as e:
        require(e.code not in (0, None), "the run ends without an error", code=e.code)
    else:
        require(False, f"a run on mismatched files goes through ({case['how']}, {files[fno]})")
    left = [f for f in os.listdir(args["outpath"]) if not f.endswith(".log")]
    require(not left, "results of a refused run", files=left)
