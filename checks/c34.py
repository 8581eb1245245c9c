"""C34: physical parameters and ephemerides are used as the configuration asks, or the run is refused."""
import os

from hypothesis import assume
from hypothesis import strategies as st

from checks.c05 import EPH
from checks.c09 import PF
from vlib import e2e
from vlib.core import Property, require
from vlib.gen import DES, LSST

PROP = Property(
    "C34",
    rule="physical parameters of 1-4 objects for any filters, phase function and format, columns in any order among columns of the user's own (names holding 'H_' or looking like colours included). "
    "Refused: the column of the absolute magnitude, of a colour or of a phase curve parameter missing or in the wrong filter, the wrong separator, an object without one of these values, an ephemeris row without "
    "one of its values, an ephemeris without one of its columns or with an unknown one. Non-trivial = more than one object, filter or column of the user's own.",
    assumptions=["column names the simulation itself adds (H_filter, optFilter, ...) are not used for columns of the user's own"],
)

OWN = ["albedo", "EARTH_MOID", "MARS_MOID", "diameter_km", "spinH_a", "H", "VH_r", "V-R", "note", "GSmean"]


@PROP.warmup
def _warm():
    import sorcha.des, sorcha.sorcha  # noqa: F401,E401

    e2e.register()


@st.composite
def headers(draw):
    names = draw(st.sampled_from([LSST, DES]))
    filters = list(draw(st.permutations(names)))[: draw(st.integers(1, len(names)))]
    phase = draw(st.sampled_from(list(PF)))
    cols = ["H_" + filters[0]] + [f"{f}-{filters[0]}" for f in filters[1:]]
    for p in PF[phase]:
        cols += [p] if draw(st.booleans()) else [p + f for f in filters]
    others = [f"{f}-{filters[0]}" for f in names if f not in filters]
    own = draw(st.lists(st.sampled_from(OWN + others), unique=True, max_size=4))
    return {
        "filters": filters,
        "cols": draw(st.permutations(cols + own)),
        "own": len(own),
        "fmt": draw(st.sampled_from(["csv", "comma", "whitespace"])),
        "pad": draw(st.sampled_from(["", "", " ", "  "])),
        "end": draw(st.sampled_from(["\n", "\n", "\r\n", ""])),
        "lose": draw(st.one_of(st.none(), st.none(), st.integers(0, len(filters) - 1))),
        "lost": draw(st.sampled_from(["gone", "spelling", "other"])),
    }


@PROP.check(headers(), quick=1500, thorough=40000)
def columns_found(c, ctx):
    """The main filter and the colours are read from the header, wherever they stand and whatever stands beside them."""
    from sorcha.modules.PPGetMainFilterAndColourOffsets import PPGetMainFilterAndColourOffsets

    f = c["filters"]
    need = ["H_" + f[0]] + [f"{x}-{f[0]}" for x in f[1:]]
    cols = list(c["cols"])
    if c["lose"] is not None:
        k = cols.index(need[c["lose"]])
        new = {"gone": None, "spelling": cols[k].swapcase() if c["lose"] else "H" + f[0], "other": "H_q" if c["lose"] == 0 else cols[k][:-1] + "q"}[c["lost"]]
        if new is None:
            del cols[k]
        else:
            assume(new not in need)
            cols[k] = new
    sep = " " if c["fmt"] == "whitespace" else ","
    head = sep.join(["ObjID"] + [(c["pad"] + x + c["pad"][1:]) if sep == "," else x for x in cols])
    path = os.path.join(ctx.scratch(), "params.txt")
    with open(path, "w", newline="") as h:
        h.write(head + (c["end"] or "\n") + sep.join(["a"] + ["0.5"] * len(cols)) + c["end"])
    ctx.nontrivial(len(f) > 1 or c["own"] > 0)
    ctx.tag("lost: " + c["lost"] if c["lose"] is not None else "complete", "own columns" if c["own"] else "-")
    try:
        main, colours = PPGetMainFilterAndColourOffsets(path, list(f), c["fmt"])
    except SystemExit as e:
        require(c["lose"] is not None, "physical parameters with every column needed are refused", error=str(e), header=head, filters=f)
        require(e.code not in (0, None), "refused with a success status")
        return
    require(c["lose"] is None, "physical parameters without a column needed are accepted", header=head, filters=f)
    require(main == f[0], "the main filter is not the one of the absolute magnitude", got=main, want=f[0], header=head)
    require(list(colours or []) == need[1:], "the colours are not those of the filters observed", got=colours, want=need[1:], header=head)


def world(**kw):
    return st.sampled_from(["lsst", "lsst", "des"]).flatmap(lambda k: e2e.world(k, max_obj=4, **kw))


@PROP.check(
    st.fixed_dictionaries(
        {
            "w": world(),
            "own": st.lists(st.sampled_from(OWN), unique=True, min_size=1, max_size=3),
            "at": st.integers(0, 9),
            "blank": st.integers(0, 3),
            "word": st.sampled_from(["", "", "NaN", "nan"]),
        }
    ),
    quick=150,
    thorough=5000,
)
def run_accepted(c, ctx):
    """Columns of the user's own change nothing, even where they are empty."""
    w = c["w"]
    try:
        want = e2e.expected(w)
    except e2e.Unclear:
        ctx.tag("unclear")
        return
    args = e2e.write(w, ctx.scratch())
    t = Table(args["paramsinput"], w["aux"])
    for i, name in enumerate(c["own"]):
        if name in [x.strip() for x in t.rows[0]] + ["class"]:
            continue
        k = 1 + (c["at"] + i) % len(t.rows[0])
        for j, r in enumerate(t.rows):
            word = c["word"] or ("" if w["aux"] == "csv" else "NaN")
            r.insert(k, name if j == 0 else word if (i + j) % 4 == c["blank"] else "tno" if name == "note" else str(0.5 + j))
    t.write()
    ctx.nontrivial(bool(want))
    ctx.tag(w["survey"], "some left" if want else "none left")
    e2e.run(args)
    rows = e2e.read_output(w, args)
    require(rows is not None or not want, "no detections file although there are detections", n=len(want))
    e2e.compare(w, rows, want)


class Table:
    def __init__(self, path, fmt):
        self.path, self.sep = path, "," if fmt == "csv" else " "
        self.rows = [x.split(self.sep) for x in open(path).read().splitlines()]
        self.names = [x.strip() for x in self.rows[0]]

    def write(self):
        with open(self.path, "w") as f:
            f.write("".join(self.sep.join(r) + "\n" for r in self.rows))

    def drop(self, name):
        k = self.names.index(name)
        for r in self.rows:
            del r[k]

    def rename(self, old, new):
        k = self.names.index(old)
        self.rows[0][k] = self.rows[0][k].replace(old, new)

    def blank(self, name, j, word):
        self.rows[j][self.names.index(name)] = word


HOW = ["no H", "H elsewhere", "no colour", "colour of another filter", "no phase parameter", "no phase parameter", "separator", "H missing", "colour missing", "phase parameter missing", "ephemeris value", "ephemeris value", "ephemeris column", "ephemeris unknown column", "filters in another order"]


@PROP.check(st.fixed_dictionaries({"w": world(), "how": st.sampled_from(HOW), "which": st.integers(0, 99), "who": st.integers(0, 99), "word": st.sampled_from(["", "NaN", "nan"])}), quick=500, thorough=15000)
def run_refused(c, ctx):
    """A run without a value it needs ends with an error; what is missing altogether leaves no detections."""
    w, how = c["w"], c["how"]
    f = w["filters"]
    args = e2e.write(w, ctx.scratch())
    par = Table(args["paramsinput"], w["aux"])
    main, colours = "H_" + f[0], [f"{x}-{f[0]}" for x in f[1:]]
    phase = list(w["objs"][0]["p"])
    word = c["word"] or ("" if w["aux"] == "csv" else "NaN")
    if w["aux"] == "csv" and c["which"] % 3 == 0:
        word = " " + word
    who = 1 + c["who"] % (len(par.rows) - 1)
    pick = lambda l: l[c["which"] % len(l)]  # noqa: E731
    assume(("colour" not in how and how != "filters in another order") or colours)
    assume("phase" not in how or phase)
    if how in ("no phase parameter", "ephemeris value"):
        byid = {v["id"]: v["filter"] for v in e2e.visits(w)}
        seen = [r for r in e2e.eph_rows(w) if r["ObjID"] in w["ids"] and byid.get(r["FieldID"]) in f]
        assume(seen)
    if how == "no H":
        par.drop(main)
    elif how == "H elsewhere":
        other = [x for x in (DES if e2e.is_des(w) else LSST) if x not in f] + ["q"]
        par.rename(main, "H_" + pick(other))
    elif how == "no colour":
        par.drop(pick(colours))
    elif how == "colour of another filter":
        x = pick(colours)
        par.rename(x, "q" + x[1:])
    elif how == "no phase parameter":
        par.drop(pick(phase))
    elif how == "separator":
        par.sep = " " if par.sep == "," else ","
        par.rows = [[x.strip() for x in r] for r in par.rows]
    elif how == "H missing":
        par.blank(main, who, word)
    elif how == "colour missing":
        par.blank(pick(colours), who, word)
    elif how == "phase parameter missing":
        par.blank(pick(phase), who, word)
    elif how == "filters in another order":
        par.rename(main, "H_" + f[-1])
    par.write()
    if how.startswith("ephemeris"):
        assume(w["efmt"] != "hdf5" and any(r["ObjID"] in w["ids"] for r in e2e.eph_rows(w)))
        eph = Table(args["input_ephemeris_file"], w["efmt"])
        name = pick(EPH[1:])
        if how == "ephemeris column":
            eph.drop(name)
        elif how == "ephemeris unknown column":
            new = pick(["note", "field", "fieldRA_deg", "FieldMJD_TAI", "fieldMJD_TDB", "obsid", "RA", "Dec", "phase", "H", "_", "H_r"])
            for j, r in enumerate(eph.rows):
                r.append("1.5" if j else new)
        else:
            mine = [j for j, r in enumerate(eph.rows) if r[0] in w["ids"]]
            eph.blank(name, pick(mine), word if eph.sep == "," and w["aux"] == "csv" else "NaN")
        eph.write()
    ctx.nontrivial(len(w["ids"]) > 1 or len(f) > 1)
    ctx.tag(w["survey"], how)
    try:
        e2e.run(args)
    except SystemExit as e:
        require(e.code not in (0, None), "the run ends without an error", code=e.code)
    except Exception as e:  # noqa: BLE001
        ctx.tag(type(e).__name__)
    else:
        require(False, f"a run goes through although values it needs are not there ({how})", header=par.rows[0], filters=f, phase=w["fn"])
    if how in ("no H", "H elsewhere", "no colour", "colour of another filter", "separator", "filters in another order", "ephemeris column", "ephemeris unknown column"):
        left = [x for x in os.listdir(args["outpath"]) if not x.endswith(".log")]
        require(not left, "results of a refused run", files=left, how=how)


UNKNOWN = ["note", "field", "fieldRA_deg", "FieldMJD_TAI", "fieldMJD_TDB", "FIELDID", "objID", "RA", "Dec", "RA_deg_", "_Dec_deg", "phase", "phase_deg_2", "H", "H_r", "V(H)", "v", "FORMAT", "epochMJD_TDB", "optFilter", "Obs_Sun_x", "Obj_Sun_x_LTC_km.1"]


@PROP.check(
    st.fixed_dictionaries(
        {
            "order": st.permutations(range(len(EPH))),
            "extra": st.lists(st.sampled_from(["V", "V(H=0)", "fieldJD_TDB"]), unique=True, max_size=3),
            "wrong": st.sampled_from([None, "unknown", "lost", "value", "unknown", "twice"]),
            "which": st.integers(0, 999),
            "rows": st.integers(1, 9),
            "fmt": st.sampled_from(["csv", "comma", "whitespace", "hdf5"]),
            "block": st.sampled_from([None, 1, 3]),
            "objects": st.booleans(),
            "pad": st.sampled_from(["", " "]),
        }
    ),
    quick=500,
    thorough=15000,
)
def ephemeris_columns(c, ctx):
    """An ephemeris is read whole if it has exactly the columns and values documented, and is refused otherwise."""
    import numpy as np
    import pandas as pd
    from sorcha.readers.EphemerisReader import EphemerisDataReader

    wrong, k, n = c["wrong"], c["which"], c["rows"]
    cols = ["ObjID"] + [EPH[i] for i in c["order"] if EPH[i] != "ObjID"] + c["extra"]
    rows = [{x: f"o{i % 2}" if x == "ObjID" else i + 1 if x == "FieldID" else round(0.37 * i + 1.01 * j - 3, 9) for j, x in enumerate(cols)} for i in range(n)]
    bad = None
    if wrong == "unknown":
        new = UNKNOWN[k % len(UNKNOWN)]
        at = 1 + k % len(cols)
        cols = cols[:at] + [new] + cols[at:]
        rows = [dict(r, **{new: 1.5}) for r in rows]
    elif wrong == "lost":
        cols.remove([x for x in EPH if x != "ObjID"][k % (len(EPH) - 1)])
    elif wrong == "value":
        bad = k % n
        rows[bad][[x for x in EPH if x not in ("ObjID", "FieldID")][k % (len(EPH) - 2)]] = float("nan")
    path = os.path.join(ctx.scratch(), "eph.dat")
    if c["fmt"] == "hdf5":
        if wrong == "twice":
            wrong = None
        pd.DataFrame(rows, columns=cols).to_hdf(path, key="ephemeris", format="table")
    else:
        sep, pad = (" ", "") if c["fmt"] == "whitespace" else (",", c["pad"])
        head = list(cols)
        text = [[str(r[x]) for x in cols] for r in rows]
        if wrong == "twice":
            x = cols[k % len(EPH)]
            head.append(x)
            text = [t + [t[cols.index(x)]] for t in text]
        with open(path, "w") as f:
            f.write("".join(sep.join(pad + x if i else x for i, x in enumerate(line)) + "\n" for line in [head] + text))
    ctx.nontrivial(wrong is not None or bool(c["extra"]) or n > 1)
    ctx.tag(wrong or "as documented", c["fmt"])
    try:
        r = EphemerisDataReader(path, c["fmt"])
        if c["objects"]:
            got = [r.read_objects([o]) for o in ("o0", "o1")[: min(n, 2)]]
            want = [x for o in (0, 1) for i, x in enumerate(rows) if i % 2 == o]
        else:
            got = [r.read_rows(a, c["block"]) for a in range(0, n, c["block"] or n)]
            want = rows
    except SystemExit as e:
        require(wrong is not None, "an ephemeris with the columns documented is refused", error=str(e.code), columns=cols)
        require(e.code not in (0, None), "refused with a success status")
        return
    except Exception as e:  # noqa: BLE001
        require(wrong is not None, "an ephemeris with the columns documented cannot be read", error=repr(e), columns=cols)
        ctx.tag(type(e).__name__)
        return
    require(wrong is None, f"an ephemeris that is not as documented is read ({wrong})", columns=cols)
    got = pd.concat(got)
    require(sorted(got.columns) == sorted(EPH), "other columns than those of an ephemeris", got=list(got.columns))
    for x in EPH:
        a, b = got[x].tolist(), [w[x] for w in want]
        require(a == b if x in ("ObjID", "FieldID") else np.allclose(np.array(a, float), b, rtol=1e-12, atol=0), f"column {x} is not as in the file", got=a, want=b)
