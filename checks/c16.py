"""C16: per-visit footprint: an observation is kept exactly when it lies on one of its visit's CCDs."""
import os

import numpy as np
from hypothesis import strategies as st

from checks.c14 import builtin, inside
from vlib.core import Property, require
from vlib.gen import AR_SIM, DES, VISITS_QUERY, config, fl, make_db, rngs, spread

PROP = Property(
    "C16",
    rule="1-4 visits placed over the survey's declination range and around RA 0, each with a generated subset (0-61) of the "
    "DECam CCDs in any order and their own limiting magnitudes; 1-12 observations placed inside, just inside or outside the "
    "edges, in gaps and off camera. Non-trivial = the table holds rows kept and rows dropped.",
    assumptions=["CCD corners do not wrap within one visit (they run past 0 or 360), as the code documents", "positions within 1e-7 deg of an edge are not judged"],
)

VISIT = st.fixed_dictionaries(
    {
        "ra": st.one_of(st.sampled_from([0.0, 359.9, 0.1, 357.6, 1.9, 358.4, 2.4]), fl(0, 359.99)),
        "dec": st.one_of(st.sampled_from([0.0, -64.0, -60.0, 4.0]), fl(-66, 6), fl(-75, 75)),
        "ccds": st.one_of(st.just(list(range(61))), st.lists(st.integers(0, 60), max_size=8, unique=True), st.just([5])),
        "flip": st.booleans(),
    }
)
ROW = st.fixed_dictionaries(
    {
        "visit": st.integers(0, 4),
        "ccd": st.integers(0, 60),
        "how": st.sampled_from(["in", "in", "edge", "edge", "off"]),
        "s": fl(0.02, 0.98),
        "t": fl(0.02, 0.98),
        "side": st.integers(0, 3),
        "d": st.sampled_from([-1e-2, -1e-3, -1e-6, 1e-6, 1e-3, 1e-2]),
    }
)
CASE = st.fixed_dictionaries(
    {"visits": st.lists(VISIT, min_size=1, max_size=4), "rows": st.lists(ROW, min_size=1, max_size=12), "external": st.booleans(), "bulk": st.tuples(st.sampled_from([0] * 80 + [1100, 6000]), st.integers(0, 999))}
)

_ccds = None


def layout():
    """DECam CCD corners in degrees about the camera centre: lower left, lower right, upper right, upper left."""
    global _ccds
    if _ccds is None:
        out = []
        for c in builtin("des"):
            c = np.degrees(np.array(c))
            lo, hi = c.min(axis=0), c.max(axis=0)
            out.append([(lo[0], lo[1]), (hi[0], lo[1]), (hi[0], hi[1]), (lo[0], hi[1])])
        _ccds = out
    return _ccds


def corners(v, k):
    """Corners of CCD k of visit v in (ra, dec), continuous about the visit centre, slightly sheared as on the sky."""
    out = []
    for x, y in layout()[k]:
        d = v["dec"] + y
        out.append((v["ra"] + x / np.cos(np.radians(d)), d))
    return out


def write_visits(path, visits):
    rows = []
    for n, v in enumerate(visits):
        for j, k in enumerate(v["ccds"]):
            k = k % len(layout())
            c = corners(v, k)
            if v["flip"]:  # the same box walked the other way round
                c = [c[1], c[0], c[3], c[2]]
            cen = np.mean(c, axis=0)
            rows.append((700 + n, *[float(x) for p in c for x in p], float(cen[0]), float(cen[1]), 100 + k, 20.0 + n + j / 64))
    cols = "visitId,llcra,llcdec,lrcra,lrcdec,urcra,urcdec,ulcra,ulcdec,ra,dec,detectorID,magLim".split(",")
    return make_db(path, "observations", cols, rows)


def place(case, r):
    v = case["visits"][r["visit"] % len(case["visits"])]
    ks = v["ccds"] or [r["ccd"]]
    c = np.array(corners(v, ks[r["ccd"] % len(ks)] % len(layout())))
    cen = c.mean(axis=0)
    a, b = c[r["side"]], c[(r["side"] + 1) % 4]
    e = a + r["t"] * (b - a)
    if r["how"] == "in":
        p = cen + r["s"] * (e - cen)
    elif r["how"] == "edge":
        p = e + r["d"] * (e - cen)
    else:
        p = cen + (1.02 + 6 * r["s"] ** 3) * (e - cen)
    return v, (float(p[0]), float(p[1]))


@PROP.warmup
def _warm():
    import sorcha.modules.PPApplyFOVFilter  # noqa: F401


@PROP.check(CASE, quick=1200, thorough=30000)
def on_visit_ccd(case, ctx):
    import pandas as pd

    from sorcha.modules.PPApplyFOVFilter import PPApplyFOVFilter

    db = write_visits(os.path.join(ctx.scratch(), "visits.db"), case["visits"])
    recs, want = [], []
    for i, r in enumerate(case["rows"]):
        v, p = place(case, r)
        n = case["visits"].index(v)
        best, who = -np.inf, None
        for j, k in enumerate(v["ccds"]):
            k = k % len(layout())
            q = corners(v, k)
            s = inside(q, p)
            if s > best:
                best, who = s, (100 + k, 20.0 + n + j / 64)
        if abs(best) < 1e-7:
            continue
        recs.append({"ObjID": f"o{i}", "FieldID": 700 + n, "RA_deg": p[0] % 360.0, "Dec_deg": p[1], "fieldRA_deg": v["ra"], "fieldDec_deg": v["dec"], "mag": i * 0.5})
        want.append(who if best > 0 else None)
    if not recs:
        return
    picks = spread(len(recs), case["bulk"])
    recs, want = [dict(recs[k], ObjID=f"o{i}") for i, k in enumerate(picks)], [want[k] for k in picks]
    df = pd.DataFrame(recs)
    on = [i for i, w in enumerate(want) if w is not None]
    ctx.nontrivial(0 < len(on) < len(want))
    ctx.tag("external" if case["external"] else "ar")
    over = {"FILTERS": {"observing_filters": ",".join(DES)}, "FADINGFUNCTION": {"fading_function_on": "False"}, "LINKINGFILTER": {"des_discovery_on": "False"}, "FOV": {"camera_model": "visits_footprint", "visits_query": VISITS_QUERY}}
    if not case["external"]:
        over["INPUT"] = {"ephemerides_type": "ar"}
        over["SIMULATION"] = dict(AR_SIM, ar_ang_fov="1.3", ar_fov_buffer="0.2", ar_obs_code="W84")
    out = PPApplyFOVFilter(df.copy(), config(over, "des"), rngs(1), visits=db)
    require(list(out["ObjID"]) == [df["ObjID"].iloc[i] for i in on], "wrong observations kept (or order changed)",
            got=list(out["ObjID"]), want=[df["ObjID"].iloc[i] for i in on])
    require([int(x) for x in out["detectorID"]] == [want[i][0] for i in on], "wrong detector reported")
    require([float(x) for x in out["limMag_perChip"]] == [want[i][1] for i in on], "wrong per-chip limiting magnitude reported")
    for c in df.columns:
        require(list(out[c]) == [df[c].iloc[i] for i in on], f"column {c} of kept rows changed")
