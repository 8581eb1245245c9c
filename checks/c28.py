"""C28: the statistics file: counts, magnitude and phase ranges, linking of every object in every filter."""
import csv
import os
import statistics
from argparse import Namespace

import numpy as np
from hypothesis import strategies as st

from checks import c27
from vlib.core import Property, require
from vlib.gen import config, fx, object_ids

PROP = Property(
    "C28",
    rule="Sequences of 1-3 chunks of observations of distinct objects, linking off, on with unlinked objects dropped, or kept; the same after the chunk was written to the detections file; "
    "non-trivial = an object with observations in two filters, or objects in two chunks.",
    assumptions=["an object's observations are in one chunk, as the simulation guarantees"],
)


@st.composite
def cases(draw):
    ids = draw(object_ids(1, 6))
    nch = draw(st.integers(1, min(3, len(ids))))
    cut = sorted(draw(st.lists(st.integers(1, len(ids) - 1), min_size=nch - 1, max_size=nch - 1, unique=True))) if nch > 1 else []
    groups = [ids[a:b] for a, b in zip([0] + cut, cut + [len(ids)])]
    chunks = []
    for g in groups:
        rows = draw(
            st.lists(st.tuples(st.sampled_from(g), st.sampled_from("grizy"), st.one_of(fx(14, 27, 3), fx(-9, 45, 3)), fx(0, 180, 2)), min_size=1, max_size=12)
        )
        chunks.append(rows)
    return {
        "chunks": chunks,
        "linked": [draw(st.booleans()) for _ in ids],
        "ids": ids,
        "link": draw(st.sampled_from(["off", "drop", "keep"])),
        "cat": draw(st.sampled_from(["plain", "exact", "wide"])),
        "index": draw(st.booleans()),
        "ret": draw(st.booleans()),
    }


@PROP.check(cases(), quick=800, thorough=15000)
def tally(case, ctx):
    import pandas as pd

    from sorcha.modules.PPStats import stats

    cfg = config()
    cfg.linkingfilter.ssp_linking_on = case["link"] != "off"
    cfg.linkingfilter.drop_unlinked = case["link"] != "keep"
    linked = dict(zip(case["ids"], case["linked"]))
    if case["link"] == "drop":
        linked = {k: True for k in linked}
    date = {k: (60000 + i) if linked[k] else float("nan") for i, k in enumerate(case["ids"])}
    folder = ctx.scratch()
    want, returned = {}, []
    for rows in case["chunks"]:
        f = pd.DataFrame(rows, columns=["ObjID", "optFilter", "trailedSourceMag", "phase_deg"])
        f["PSFMag"] = f["trailedSourceMag"] + 1.5
        f["trailedSourceMagTrue"] = f["trailedSourceMag"] - 1.5
        if case["link"] != "off":
            f["object_linked"] = [linked[o] for o in f["ObjID"]]
            f["date_linked_MJD"] = [float(date[o]) for o in f["ObjID"]]
        if case["cat"] != "plain":
            f["optFilter"] = pd.Categorical(f["optFilter"], categories=sorted(set(f["optFilter"])) if case["cat"] == "exact" else sorted("ugrizy"))
        if case["index"]:
            f.index = [3 * i + 5 for i in range(len(f))][::-1]
        before = f.copy()
        for o, b, m, p in rows:
            want.setdefault((o, b), []).append((m, p))
        r = stats(f, "tally.v1", folder, cfg, return_only=case["ret"])
        require(f.equals(before), "the observations were changed")
        if case["ret"]:
            returned.append(r)
    if case["ret"]:
        require(os.listdir(folder) == [], "a file was written although only the result was asked for")
        pd.concat(returned).to_csv(os.path.join(folder, "tally.v1.csv"))
    require(os.listdir(folder) == ["tally.v1.csv"], "wrong statistics file", files=os.listdir(folder))
    with open(os.path.join(folder, "tally.v1.csv"), newline="") as fh:
        out = list(csv.reader(fh))
    cols = ["ObjID", "optFilter", "number_obs", "min_apparent_mag", "max_apparent_mag", "median_apparent_mag", "min_phase", "max_phase"]
    cols += {"off": [], "drop": ["date_linked_MJD"], "keep": ["object_linked", "date_linked_MJD"]}[case["link"]]
    require(out[0] == cols, "wrong columns in the statistics file", got=out[0], want=cols)
    got = {}
    for r in out[1:]:
        k = (r[0], r[1])
        require(k not in got, "an object appears twice for one filter", row=r)
        got[k] = dict(zip(cols, r))
    require(set(got) == set(want), "the statistics file lists the wrong objects and filters", got=sorted(got), want=sorted(want))
    for k, v in want.items():
        g = got[k]
        m, p = [x[0] for x in v], [x[1] for x in v]
        require(float(g["number_obs"]) == len(v), "wrong number of observations", key=k, got=g["number_obs"], want=len(v))
        for c, w in (("min_apparent_mag", min(m)), ("max_apparent_mag", max(m)), ("median_apparent_mag", statistics.median(m)), ("min_phase", min(p)), ("max_phase", max(p))):
            require(abs(float(g[c]) - w) < 1e-9, f"wrong {c}", key=k, got=g[c], want=w)
        if case["link"] == "keep":
            require(g["object_linked"] == str(linked[k[0]]), "wrong object_linked", key=k, got=g["object_linked"])
        if case["link"] != "off":
            require((g["date_linked_MJD"] == "") if np.isnan(date[k[0]]) else float(g["date_linked_MJD"] or "nan") == date[k[0]], "wrong linking date", key=k, got=g["date_linked_MJD"])
    ctx.nontrivial(len(case["chunks"]) > 1 or len(want) > len({k[0] for k in want}))
    ctx.tag(case["link"])


@PROP.check(st.fixed_dictionaries({"c": cases(), "seed": st.integers(0, 10**6), "objs": st.sampled_from([1, 40, 300]), "rows": st.sampled_from([150, 1100, 4000]), "chunks": st.integers(1, 4)}), quick=40, thorough=800)
def many_detections(case, ctx):
    """The same for many objects with many detections each."""
    r = np.random.default_rng(case["seed"])
    ids = [f"{k}" if k % 2 else f"S{k:04d}" for k in range(max(case["objs"], case["chunks"]))]
    chunks = []
    for c in range(case["chunks"]):
        mine = ids[c :: case["chunks"]]
        chunks.append([(mine[int(i)], str(f), round(float(m), 3), round(float(p), 2)) for i, f, m, p in zip(r.integers(0, len(mine), case["rows"]), r.choice(list("grizy"), case["rows"]), r.uniform(14, 27, case["rows"]), r.uniform(0, 180, case["rows"]))])
    tally(dict(case["c"], ids=ids, chunks=chunks, linked=(r.random(len(ids)) < 0.5).tolist()), ctx)


@PROP.check(c27.cases(), quick=200, thorough=4000)
def written_first(case, ctx):
    """Writing the detections file, rounded or not, in whatever columns, changes no statistic."""
    import pandas as pd

    from sorcha.modules.PPOutput import PPWriteOutput
    from sorcha.modules.PPStats import stats

    cols = case["columns"]
    listed = not isinstance(cols, str)
    if listed:
        cols = [c for c in cols if c != "object_linked" or case["link"] != "off"]
        if len(cols) < 2:
            cols = ["ObjID", "RA_deg"]
    cfg = config({"OUTPUT": {"output_format": case["format"], "output_columns": ", ".join(cols) if listed else cols, "position_decimals": case["pos"], "magnitude_decimals": case["mag"]}})
    cfg.linkingfilter.ssp_linking_on = case["link"] != "off"
    cfg.linkingfilter.drop_unlinked = case["link"] != "keep"
    folder, want = ctx.scratch(), []
    seen = set()
    for ch in case["chunks"]:
        f = c27.frame(case, dict(ch, ids=[str(len(seen)) + "_" + i for i in ch["ids"]]))
        seen.add(len(seen))
        if case["link"] != "off":
            linked = {o: l for o, l in zip(f["ObjID"], f["object_linked"])}
            f["object_linked"] = [linked[o] or case["link"] == "drop" for o in f["ObjID"]]
            f["date_linked_MJD"] = [60000.0 if l else float("nan") for l in f["object_linked"]]
        want.append(f.copy())
        PPWriteOutput(Namespace(outpath=folder, outfilestem="out", loglevel=False), cfg, f)
        stats(f, "tally", folder, cfg)
    got = pd.read_csv(os.path.join(folder, "tally.csv"), dtype={"ObjID": str})
    want = pd.concat([f.astype({"optFilter": str}) for f in want])
    groups = want.groupby(["ObjID", "optFilter"])
    require(len(got) == len(groups), "the statistics list the wrong objects and filters", got=len(got), want=len(groups))
    for _, g in got.iterrows():
        w = groups.get_group((g["ObjID"], g["optFilter"]))
        m, p = w["trailedSourceMag"], w["phase_deg"]
        require(g["number_obs"] == len(w), "wrong number of observations")
        for c, v in (("min_apparent_mag", m.min()), ("max_apparent_mag", m.max()), ("median_apparent_mag", m.median()), ("min_phase", p.min()), ("max_phase", p.max())):
            require(abs(g[c] - v) < 1e-9, f"{c} is not that of the observations", got=g[c], want=v, columns=cols, decimals=case["mag"])
    ctx.nontrivial(case["mag"] is not None or case["pos"] is not None)
    ctx.tag("listed" if listed else cols)
