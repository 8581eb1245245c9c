"""C08: pointing database: each observation meets exactly its own visit's data, in the requested filters only."""
import hashlib
import os
import re

import numpy as np
from hypothesis import strategies as st

from vlib.core import Property, require
from vlib.gen import DES_QUERY, BASE_INI, fx, make_db

PROP = Property(
    "C08",
    rule="pointing databases of 1-12 visits with generated identifiers, filters, times and depths, in any row order, a generated subset "
    "of observing filters, both surveys (for DES, with missing fading parameters in no, some or all visits), and 0-14 observations referring to visits inside and outside the database and "
    "filters. Non-trivial = the observations refer to a kept visit and to a dropped one, in an order unlike the database's.",
    assumptions=["visit identifiers are unique; the ephemeris times are the visit times"],
)

LSSTQ = BASE_INI["INPUT"]["pointing_sql_query"]

VISIT = st.fixed_dictionaries(
    {"filter": st.sampled_from([0, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6]), "mjd": fx(59000, 62000, 3), "vt": fx(30, 45, 1), "et": fx(15, 90, 1), "m5": fx(18, 25, 2), "ra": fx(0, 359, 2), "dec": fx(-80, 10, 2), "c": fx(0.5, 1, 2), "k": fx(2, 9, 2)}
)
CASE = st.fixed_dictionaries(
    {
        "survey": st.sampled_from(["rubin_sim", "RUBIN_SIM", "DES", "des"]),
        "ids": st.lists(st.one_of(st.integers(0, 40), st.integers(10**8, 10**8 + 50)), min_size=1, max_size=12, unique=True),
        "visits": st.lists(VISIT, min_size=12, max_size=12),
        "obs": st.lists(st.integers(0, 14), min_size=2, max_size=14),
        "filters": st.lists(st.sampled_from(["r", "g", "i", "z", "u", "y", "Y"]), min_size=2, max_size=6, unique=True),
        "name": st.sampled_from(["p.db", "my pointings (v2).db", "base_v2.0_10yrs.db", "run#2.db", "50%25.db", "what?.db"]),
        "fading": st.booleans(),
        "hole": st.sampled_from([None, None, None, "c", "k"]),
        "hole_rows": st.one_of(st.just(list(range(12))), st.lists(st.integers(0, 11), min_size=1, max_size=3)),
        "pre": st.booleans(),
    }
)

FILT = ["u", "g", "r", "i", "z", "y", "Y"]
L_COLS = ["observationId", "observationStartMJD", "visitTime", "visitExposureTime", "filter", "seeingFwhmGeom", "seeingFwhmEff", "fiveSigmaDepth", "fieldRA", "fieldDec", "rotSkyPos", "note"]
D_COLS = ["observationId", "observationMidpointMJD", "visitExposureTime", "filter", "fiveSigmaDepth", "fieldRA", "fieldDec", "c", "k"]


def is_des(case):
    return case["survey"].lower() == "des"


def holes(case, i):
    """which fading parameter visit i lacks, if any"""
    return case["hole"] if case["hole"] and i in [r % len(case["ids"]) for r in case["hole_rows"]] else None


def write(case, path):
    rows = []
    for i, (n, v) in enumerate(zip(case["ids"], case["visits"])):
        f = FILT[v["filter"]]
        hole = holes(case, i)
        if is_des(case):
            rows.append((n, v["mjd"], v["et"], f, v["m5"], v["ra"], v["dec"], None if hole == "c" else v["c"], None if hole == "k" else v["k"]))
        else:
            rows.append((n, v["mjd"], v["vt"], v["et"], f, 0.7 + v["c"], 0.8 + v["c"], v["m5"], v["ra"], v["dec"], v["k"] * 10, "x"))
    return make_db(path, "observations", D_COLS if is_des(case) else L_COLS, rows)


def read(case, path, filters=None, query=None):
    from sorcha.modules.PPReadPointingDatabase import PPReadPointingDatabase

    return PPReadPointingDatabase(path, filters or case["filters"], query or (DES_QUERY if is_des(case) else LSSTQ), case["survey"], fading_function_on=case["fading"])


@PROP.warmup
def _warm():
    import sorcha.modules.PPReadPointingDatabase, sorcha.modules.PPMatchPointingToObservations  # noqa: F401,E401


@PROP.check(CASE, quick=900, thorough=20000)
def visits_met(case, ctx):
    import pandas as pd

    from sorcha.modules.PPMatchPointingToObservations import PPMatchPointingToObservations

    d = ctx.scratch()
    path = write(case, os.path.join(d, case["name"]))
    before = hashlib.sha1(open(path, "rb").read()).digest()
    keep = [i for i, n in enumerate(case["ids"]) if FILT[case["visits"][i]["filter"]] in case["filters"]]
    gaps = [i for i in range(len(case["ids"])) if holes(case, i)] if is_des(case) and case["fading"] else []
    refuse = (not keep) or bool(set(gaps) & set(keep))
    may_refuse = refuse or bool(gaps)  # a gap in a visit that is not used may be refused, or ignored
    try:
        db = read(case, path)
    except SystemExit as e:
        require(may_refuse, "a good pointing database is refused", code=str(e.code))
        require(e.code not in (0, None), "refused with a success status")
        ctx.tag("refused")
        return
    require(not refuse, "a pointing database without usable visits (or without fading parameters) is accepted")
    require(hashlib.sha1(open(path, "rb").read()).digest() == before and os.listdir(d) == [case["name"]], "the pointing database was modified")
    order = sorted(keep, key=lambda i: case["ids"][i])
    require(list(db["FieldID"]) == [case["ids"][i] for i in order], "wrong visits read", got=list(db["FieldID"]))
    for (_, row), i in zip(db.iterrows(), order):
        v = case["visits"][i]
        want = {"optFilter": FILT[v["filter"]], "fieldFiveSigmaDepth_mag": v["m5"], "fieldRA_deg": v["ra"], "fieldDec_deg": v["dec"], "visitExposureTime": v["et"]}
        if is_des(case):
            want.update(observationMidpointMJD_TAI=v["mjd"], observationStartMJD_TAI=v["mjd"] - v["et"] / 2 / 86400)
            if not holes(case, i):
                want.update(c=v["c"], k=v["k"])
        else:
            want.update(observationStartMJD_TAI=v["mjd"], observationMidpointMJD_TAI=v["mjd"] + v["vt"] / 2 / 86400, visitTime=v["vt"],
                        seeingFwhmGeom_arcsec=0.7 + v["c"], seeingFwhmEff_arcsec=0.8 + v["c"], fieldRotSkyPos_deg=v["k"] * 10)
        for k, w in want.items():
            g = row[k]
            require(g == w if isinstance(w, str) else abs(g - w) < 1e-9, f"{k} of a visit is wrong", got=g, want=w)

    # observations in their own order, some for visits that are not in the database at all
    obs = []
    for j, o in enumerate(case["obs"]):
        i = o % (len(case["ids"]) + 2)
        if i < len(case["ids"]):
            v = case["visits"][i]
            t = v["mjd"] - (v["et"] / 2 / 86400 if is_des(case) else 0)
            obs.append({"ObjID": f"o{j}", "FieldID": case["ids"][i], "fieldMJD_TAI": t, "i": i})
        else:
            obs.append({"ObjID": f"o{j}", "FieldID": 7 * 10**8 + i, "fieldMJD_TAI": 60000.0, "i": -1})
    # a match drops nothing unless it drops everything: the code is only called with at least one observation
    if not obs:
        return
    o = pd.DataFrame(obs)
    want = o[o["i"].isin(keep)].reset_index(drop=True)
    ctx.nontrivial(0 < len(want) < len(o) and list(want["FieldID"]) != sorted(want["FieldID"]))
    ctx.tag(case["survey"])
    if case["pre"]:  # columns the ephemeris stage adds to the pointing table must not reach the observations
        for c in ["fieldJD_TDB", "pixels_begin", "pixels_end"] + [f"{n}_{a}" for n in ("visit_vector", "r_obs", "v_obs", "r_sun", "v_sun") for a in "xyz"]:
            db[c] = 1.0
    got = PPMatchPointingToObservations(o.copy(), db.copy())
    require(list(got["ObjID"]) == list(want["ObjID"]), "wrong observations matched (or order changed)", got=list(got["ObjID"]), want=list(want["ObjID"]))
    ref = db.set_index("FieldID", drop=False)
    for c in ["optFilter", "fieldFiveSigmaDepth_mag", "fieldRA_deg", "fieldDec_deg", "visitExposureTime"] + (["c", "k"] if is_des(case) else []) + ([] if is_des(case) else ["visitTime", "seeingFwhmGeom_arcsec", "seeingFwhmEff_arcsec", "fieldRotSkyPos_deg"]):
        require([str(x) for x in got[c]] == [str(ref.loc[f, c]) for f in want["FieldID"]], f"{c} of an observation is not its visit's")
    for c in o.columns:
        require([str(x) for x in got[c]] == [str(x) for x in want[c]], f"column {c} of observations changed")
    extra = {"fieldJD_TDB", "pixels_begin", "pixels_end", "r_obs_x", "v_sun_z"} & set(got.columns)
    require(not extra, "ephemeris helper columns leaked into the observations", extra=sorted(extra))


@PROP.check(st.fixed_dictionaries({"c": CASE, "seed": st.integers(0, 10**6), "n": st.sampled_from([300, 1100, 3000]), "obs": st.sampled_from([500, 2500])}), quick=24, thorough=600)
def many_visits(case, ctx):
    """The same for databases of many visits and many observations."""
    r = np.random.default_rng(case["seed"])
    n = case["n"]
    ids = (np.cumsum(r.integers(1, 4, n)) + int(r.choice([0, 10**6]))).tolist()
    r.shuffle(ids)
    visits = [{"filter": int(f), "mjd": round(59000 + 3000 * float(t), 4), "vt": 34.0, "et": round(15 + 75 * float(t), 1), "m5": round(18 + 7 * float(t), 3), "ra": round(359 * float(t), 3), "dec": -30.0, "c": round(0.5 + float(t) / 2, 4), "k": round(2 + 7 * float(t), 4)} for f, t in zip(r.integers(0, 7, n), r.uniform(0, 1, n))]
    visits_met(dict(case["c"], ids=ids, visits=visits, obs=r.integers(0, n + 2, case["obs"]).tolist(), hole=None), ctx)


@PROP.check(
    st.fixed_dictionaries({"c": CASE, "what": st.sampled_from(["time", "query", "column", "survey", "fading", "fading"]), "which": st.integers(0, 13), "dt": st.sampled_from([-365.0, -3.0, 2.0, 30.0])}),
    quick=300,
    thorough=5000,
)
def mismatch_refused(case, ctx):
    import pandas as pd

    from sorcha.modules.PPMatchPointingToObservations import PPMatchPointingToObservations
    from sorcha.modules.PPReadPointingDatabase import PPReadPointingDatabase

    c = dict(case["c"], hole=None)
    path = write(c, os.path.join(ctx.scratch(), c["name"]))
    ctx.nontrivial()
    ctx.tag(case["what"])
    try:
        if case["what"] == "query":
            read(c, path, query="SELECT observationId FROM nowhere", filters=FILT)
        elif case["what"] == "column":
            read(c, path, query="SELECT observationId, depth, filter FROM observations", filters=FILT)
        elif case["what"] == "fading":
            # a query that leaves out one or both of the efficiency parameters of DES visits
            c = dict(c, survey="DES" if case["which"] % 2 else "des", fading=True)
            path = write(c, os.path.join(ctx.scratch(), c["name"]))
            out = [["c"], ["k"], ["c", "k"]][case["which"] % 3]
            read(c, path, query=re.sub(r",\s*(%s)\b" % "|".join(out), "", DES_QUERY), filters=FILT)
        elif case["what"] == "survey":
            PPReadPointingDatabase(path, FILT, DES_QUERY if is_des(c) else LSSTQ, "ztf")
        else:
            db = read(c, path, filters=FILT)
            n = len(c["ids"])
            o = pd.DataFrame({"ObjID": ["a"] * n, "FieldID": list(db["FieldID"]), "fieldMJD_TAI": list(db["observationStartMJD_TAI"])})
            o.loc[case["which"] % n, "fieldMJD_TAI"] += case["dt"]
            PPMatchPointingToObservations(o, db)
    except SystemExit as e:
        require(e.code not in (0, None), "refused with a success status")
        return
    require(False, "a mismatch between the pointing database and the request is accepted", what=case["what"])
