"""C14: camera footprint: an observation is kept exactly when it falls on a sensor, with that sensor's number."""
import os

import numpy as np
from hypothesis import strategies as st

from vlib.core import Property, require
from vlib.gen import config, fl, rngs, spread

PROP = Property(
    "C14",
    rule="1-12 observations per table, each built backwards from a chosen focal-plane position (inside a sensor, just "
    "inside or outside one of its edges or of the edge margin, in a gap, off camera) of the built-in LSST, built-in DES or "
    "a generated footprint, rotated and de-projected to the sky around generated field centres (RA wrap, "
    "near poles). Non-trivial = the table holds a row on a sensor and a row off every sensor.",
    assumptions=["field centres at least 0.01 deg from a pole", "positions closer than 1e-8 rad (2 mas) to a deciding edge are not judged"],
)

ARC = np.pi / 180 / 3600


def builtin(survey):
    import csv
    import importlib.resources as ir

    import sorcha.modules

    f = {"rubin_sim": "LSST_detector_corners_100123.csv", "des": "DES_ccd_corners.csv"}[survey]
    path = os.path.join(os.path.dirname(sorcha.modules.__file__), "data", f)
    dets, order = {}, []
    unit = 1.0 if survey == "rubin_sim" else np.pi / 180  # DECam's corner table is in degrees (2.2 deg wide camera)
    with open(path) as fh:
        for row in csv.DictReader(fh):
            if row["detector"] not in dets:
                order.append(row["detector"])
            dets.setdefault(row["detector"], []).append((float(row["x"]) * unit, float(row["y"]) * unit))
    return [dets[k] for k in order]


def plane(corners):
    """Corners given as sky offsets from the camera centre (radians) -> tangent plane, counterclockwise."""
    pts = [(np.tan(a), np.tan(d) / np.cos(a)) for a, d in corners]
    cx, cy = np.mean([p[0] for p in pts]), np.mean([p[1] for p in pts])
    return sorted(pts, key=lambda p: np.arctan2(p[1] - cy, p[0] - cx))


def inside(poly, p):
    """Signed distance to the nearest side of a convex polygon: positive inside, negative outside."""
    m = np.inf
    n = len(poly)
    for i in range(n):
        (x0, y0), (x1, y1) = poly[i], poly[(i + 1) % n]
        L = np.hypot(x1 - x0, y1 - y0)
        m = min(m, ((x1 - x0) * (p[1] - y0) - (y1 - y0) * (p[0] - x0)) / L)
    return m


_cache = {}


def camera(cam, d):
    """(Footprint object, polygons) of a case's camera."""
    from sorcha.modules.PPFootprintFilter import Footprint

    if cam["kind"] in ("rubin_sim", "des"):
        if cam["kind"] not in _cache:
            _cache[cam["kind"]] = (Footprint(None, cam["kind"]), [plane(c) for c in builtin(cam["kind"])])
        return _cache[cam["kind"]]
    dets = []
    w, h, g = cam["w"] / 1000, cam["h"] / 1000, cam["gap"] / 1000
    for i in range(cam["nx"]):
        for j in range(cam["ny"]):
            x0, y0 = (i - cam["nx"] / 2) * (w + g), (j - cam["ny"] / 2) * (h + g)
            c = [(x0, y0), (x0 + w, y0), (x0 + w, y0 + h), (x0, y0 + h)]
            if cam["skew"]:
                c[2] = (x0 + w * 0.9, y0 + h * 0.95)
            if cam["tri"]:
                c = c[:3]
            dets.append(c)
    path = os.path.join(d, "corners.csv")
    order = cam["mix"]
    with open(path, "w") as f:
        f.write("detector,x,y\n")
        for k, c in enumerate(dets):
            for m in ([0, 2, 1, 3] if order else [0, 1, 2, 3]):
                if m < len(c):
                    f.write(f"{100 + 3 * k},{c[m][0]!r},{c[m][1]!r}\n")
    return Footprint(path, "rubin_sim"), [plane(c) for c in dets]


def sky(x, y, rot, ra0, dec0):
    """Focal-plane position -> (ra, dec) in degrees, for a camera rotated by rot degrees."""
    c, s = np.cos(np.radians(rot)), np.sin(np.radians(rot))
    xe, yn = x * c + y * s, -x * s + y * c
    a, d = np.radians(ra0), np.radians(dec0)
    n = np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)])
    e = np.array([-np.sin(a), np.cos(a), 0.0])
    u = np.array([-np.sin(d) * np.cos(a), -np.sin(d) * np.sin(a), np.cos(d)])
    v = n + xe * e + yn * u
    return float(np.degrees(np.arctan2(v[1], v[0])) % 360.0), float(np.degrees(np.arctan2(v[2], np.hypot(v[0], v[1]))))


CAM = st.one_of(
    st.just({"kind": "rubin_sim"}),
    st.just({"kind": "des"}),
    st.fixed_dictionaries(
        {"kind": st.just("own"), "nx": st.integers(1, 3), "ny": st.integers(1, 3), "w": st.integers(1, 20), "h": st.integers(1, 20), "gap": st.integers(1, 4), "skew": st.booleans(), "tri": st.booleans(), "mix": st.booleans()}
    ),
)
ROW = st.fixed_dictionaries(
    {
        "det": st.integers(0, 400),
        "how": st.sampled_from(["in", "in", "edge", "edge", "edge", "corner", "off"]),
        "s": fl(0.02, 0.98),
        "t": fl(0.02, 0.98),
        "d": st.sampled_from([-1e-3, -2e-5, -1e-6, -5e-8, 5e-8, 1e-6, 2e-5, 1e-3]),
        "ra": st.one_of(st.sampled_from([0.0, 359.99, 0.005, 180.0]), fl(0, 359.99)),
        "dec": st.one_of(st.sampled_from([0.0, -89.9, 89.9, -30.0]), fl(-89.9, 89.9)),
        "rot": st.one_of(st.sampled_from([0.0, 90.0, 180.0]), fl(-180, 360)),
    }
)
CASE = st.fixed_dictionaries(
    {"cam": CAM, "rows": st.lists(ROW, min_size=1, max_size=12), "edge": st.sampled_from([None, None, 2.0, 10.0, 40.0, 0.0]), "rot": st.booleans(), "gaps": st.booleans(), "bulk": st.tuples(st.sampled_from([0] * 80 + [1100, 6000]), st.integers(0, 999))}
)


def focal(r, polys, margin):
    """The focal-plane point a row asks for; `margin` is the edge threshold in radians."""
    p = polys[r["det"] % len(polys)]
    n = len(p)
    k = r["det"] % n
    c = np.mean(p, axis=0)
    a, b = np.array(p[k]), np.array(p[(k + 1) % n])
    if r["how"] == "in":
        return tuple(c + r["s"] * ((a + r["t"] * (b - a)) - c))
    if r["how"] == "off":
        return tuple(c + (1 + 3 * r["s"]) * ((a + r["t"] * (b - a)) - c) + (0.05 if r["t"] > 0.5 else 0.0))
    normal = np.array([-(b - a)[1], (b - a)[0]]) / np.hypot(*(b - a))
    if r["how"] == "edge":
        return tuple(a + r["t"] * (b - a) + (r["d"] + (margin if r["s"] > 0.5 else 0.0)) * normal)
    return tuple(a + r["d"] * (c - a) / np.hypot(*(c - a)))


@PROP.warmup
def _warm():
    import sorcha.modules.PPApplyFOVFilter  # noqa: F401

    for s in ("rubin_sim", "des"):
        camera({"kind": s}, None)


@PROP.check(CASE, quick=2400, thorough=60000)
def on_sensor(case, ctx):
    import pandas as pd

    from sorcha.modules.PPApplyFOVFilter import PPApplyFOVFilter

    fp, polys = camera(case["cam"], ctx.scratch())
    margin = (case["edge"] or 0.0) * ARC
    recs, want = [], []
    for i, r in enumerate(case["rows"]):
        x, y = focal(r, polys, margin)
        rot = r["rot"] if case["rot"] else 0.0
        ra, dec = sky(x, y, rot, r["ra"], r["dec"])
        dist = [inside(q, (x, y)) for q in polys]
        best = int(np.argmax(dist))
        if min(abs(dist[best]), abs(dist[best] - margin)) < 1e-8:
            ctx.tag("skipped: on an edge")
            continue
        recs.append({"ObjID": f"o{i}", "FieldID": i, "RA_deg": ra, "Dec_deg": dec, "fieldRA_deg": r["ra"], "fieldDec_deg": r["dec"], "fieldRotSkyPos_deg": rot, "mag": i * 0.5})
        want.append(best if dist[best] > margin else None)
    if not recs:
        return
    picks = spread(len(recs), case["bulk"])
    recs, want = [dict(recs[k], ObjID=f"o{i}", FieldID=i) for i, k in enumerate(picks)], [want[k] for k in picks]
    df = pd.DataFrame(recs)
    if not case["rot"]:
        df = df.drop(columns="fieldRotSkyPos_deg")
    if case["gaps"]:
        df.index = [5 * i + 3 for i in range(len(df))]
    on = [i for i, w in enumerate(want) if w is not None]
    ctx.nontrivial(0 < len(on) < len(want))
    ctx.tag(case["cam"]["kind"])
    over = {"FOV": {"camera_model": "footprint"}}
    cfg = config(over)
    cfg.fov.footprint_edge_threshold = case["edge"]
    out = PPApplyFOVFilter(df.copy(), cfg, rngs(1), footprint=fp)
    require(list(out["FieldID"]) == [int(df["FieldID"].iloc[i]) for i in on], "wrong observations kept (or order changed)",
            got=list(out["FieldID"]), want=[int(df["FieldID"].iloc[i]) for i in on])
    require([int(v) for v in out["detectorID"]] == [want[i] for i in on], "wrong detector reported", got=list(out["detectorID"]), want=[want[i] for i in on])
    for c in df.columns:
        require(list(out[c]) == [df[c].iloc[i] for i in on], f"column {c} of kept rows changed")
