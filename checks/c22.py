"""C22: the culling of faint objects removes exactly those that cannot be detected."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import ephem
from vlib.core import Property, require
from vlib.gen import fx

PROP = Property(
    "C22",
    rule="1-12 objects with perihelia from 0.5 to 80 au in the six orbit formats, 1-6 filters of which some may have no visit, main filter and colours, light-curve and activity models that add brightness; "
    "absolute magnitudes are placed around the limit of a chosen filter. Non-trivial = at least one object kept and one removed.",
    assumptions=[
        "objects within 1e-6 mag of the limit (0.05 mag for barycentric elements, whose heliocentric perihelion is only estimated) are not judged, nor perihelia within 1e-6 (0.02) au of 2 au",
        "light-curve and activity models have the method maxBrightness used by the community models",
    ],
)

FILTERS = list("ugrizy")
BRIGHTER = {"none": 0.0, "brighter": -3.0, "fainter": 0.7}


@PROP.warmup
def _warm():
    from sorcha.activity.base_activity import AbstractCometaryActivity
    from sorcha.activity.activity_registration import update_activity_subclasses
    from sorcha.lightcurves.base_lightcurve import AbstractLightCurve
    from sorcha.lightcurves.lightcurve_registration import update_lc_subclasses
    import sorcha.modules.PPFaintObjectCullingFilter  # noqa: F401

    def lc(name, off):
        class LC(AbstractLightCurve):
            def compute(self, df):
                return np.zeros(len(df))

            def maxBrightness(self, df):
                return off - df["amp"] if "amp" in df.columns else off

            @staticmethod
            def name_id():
                return name

        return LC

    def ca(name, off):
        class CA(AbstractCometaryActivity):
            def compute(self, df, observing_filters, rho, delta, alpha):
                return df

            def maxBrightness(self, df, observing_filters, rho, delta, alpha):
                assert len(observing_filters) == 1 and (df["optFilter"] == observing_filters[0]).all()
                assert np.allclose(np.asarray(rho) - np.asarray(delta), 1)
                return df["trailedSourceMagTrue"] + off + (0.25 if observing_filters[0] == "g" else 0.0)

            @staticmethod
            def name_id():
                return name

        return CA

    _KEEP.extend([lc("verif_" + k, v) for k, v in BRIGHTER.items()] + [ca("verif_" + k, v) for k, v in BRIGHTER.items()])
    update_lc_subclasses()
    update_activity_subclasses()


_KEEP = []

OBJ = st.fixed_dictionaries(
    {
        "q": st.one_of(fx(1.9, 2.1, 4), fx(2, 6, 3), fx(6, 80, 2), fx(0.5, 2, 3), st.just(2.0)),
        "e": st.one_of(fx(0, 0.9, 3), fx(0.9, 1.2, 3), st.just(0.0)),
        "inc": fx(0, 179, 2),
        "node": fx(0, 359, 2),
        "argp": fx(0, 359, 2),
        "dt": st.one_of(fx(-400, 400, 2), fx(-30000, 30000, 1)),
        "epoch": st.sampled_from([60000.0, 60000.0, 60123.5, 61000.0]),
        "limit": st.sampled_from(FILTERS),
        "margin": st.one_of(fx(-0.5, 0.5, 3), fx(-4, 4, 2), st.sampled_from([-0.01, 0.01, -1e-4, 1e-4, -2.0, 2.0])),
        "amp": fx(0, 1, 2),
    }
)
CASE = st.fixed_dictionaries(
    {
        "format": st.sampled_from(ephem.FORMATS),
        "objects": st.lists(OBJ, min_size=1, max_size=12),
        "filters": st.lists(st.sampled_from(FILTERS), min_size=1, max_size=6, unique=True),
        "colours": st.lists(fx(-1, 1, 2), min_size=6, max_size=6),
        "visits": st.lists(st.tuples(st.integers(0, 5), fx(20, 27, 2)), min_size=1, max_size=12),
        "lc": st.sampled_from([None, None] + ["verif_" + k for k in BRIGHTER]),
        "ca": st.sampled_from([None, None] + ["verif_" + k for k in BRIGHTER]),
        "amp": st.booleans(),
        "index": st.sampled_from(["default", "gaps"]),
        "categorical": st.booleans(),
    }
)


@PROP.check(CASE, quick=1200, thorough=40000)
def culling(case, ctx):
    from sorcha.modules.PPFaintObjectCullingFilter import PPFaintObjectCullingFilter

    fmt, filters = case["format"], case["filters"]
    main = filters[0]
    colour = dict(zip(filters, [0.0] + case["colours"]))
    pointing = pd.DataFrame([{"optFilter": filters[i % len(filters)], "fieldFiveSigmaDepth_mag": d} for i, d in case["visits"]])
    if case["categorical"]:
        pointing["optFilter"] = pd.Categorical(pointing["optFilter"], categories=FILTERS)
    depth = {}
    for i, d in case["visits"]:
        f = filters[i % len(filters)]
        depth[f] = max(depth.get(f, -99), d)
    add_lc = BRIGHTER[case["lc"][6:]] if case["lc"] else 0.0
    add_ca = BRIGHTER[case["ca"][6:]] if case["ca"] else 0.0
    rows, keep, unsure = [], [], []
    for k, o in enumerate(case["objects"]):
        row, _, _ = ephem.elements(o, fmt)
        q = o["q"]

        def bright(f):
            geo = 5 * math.log10(q) + 5 * math.log10(q - 1) if q > 1 else 0.0
            lc = add_lc - (o["amp"] if case["amp"] else 0.0) if case["lc"] else 0.0
            ca = add_ca + (0.25 if f == "g" else 0.0) if case["ca"] else 0.0
            return colour[f] + geo + lc + ca

        f = o["limit"] if o["limit"] in depth else sorted(depth)[0]
        h = round(depth[f] + 2 - bright(f) + o["margin"], 6)
        over = max(depth[g] + 2 - h - bright(g) for g in depth)  # > 0: bright enough in some filter
        b = fmt.startswith("B")
        # elements rounded in the conversion to other forms
        if abs(over) < (0.05 if b else 1e-5) or abs(q - 2) < (0.02 if b else 1e-6 if fmt != "COM" else 0):
            unsure.append(k)
        keep.append(q < 2 or over >= 0)
        r = {"ObjID": f"o{k}" if k % 2 else f"{k:04d}", **row, f"H_{main}": h, **{f"{g}-{main}": colour[g] for g in filters[1:]}}
        if case["amp"]:
            r["amp"] = o["amp"]
        rows.append(r)
    df = pd.DataFrame(rows, index=np.arange(len(rows)) * (1 if case["index"] == "default" else 5) + (0 if case["index"] == "default" else 3))
    before = df.copy()
    visits_before = pointing.copy()
    got = PPFaintObjectCullingFilter(df, pointing, main, filters, case["lc"], case["ca"])
    ids = got["ObjID"].tolist()
    want = [r["ObjID"] for r, x in zip(rows, keep) if x]
    sure = {r["ObjID"] for k, r in enumerate(rows) if k not in unsure}
    require([i for i in ids if i in sure] == [i for i in want if i in sure], "wrong objects kept", got=ids, want=want, unsure=[rows[k]["ObjID"] for k in unsure])
    require(set(ids) <= set(before["ObjID"]) and len(set(ids)) == len(ids), "objects made up or repeated", got=ids)
    base = before.set_index("ObjID")
    for c in base.columns:
        require(got.set_index("ObjID")[c].tolist() == base.loc[ids, c].tolist(), f"column {c} changed")
    pd.testing.assert_frame_equal(pointing, visits_before)
    ctx.nontrivial(0 < len(want) < len(rows))
    ctx.tag(fmt, "models" if case["lc"] or case["ca"] else "plain", "filter without visits" if len(depth) < len(filters) else "all filters")


@PROP.check(st.fixed_dictionaries({"c": CASE, "seed": st.integers(0, 10**6), "n": st.sampled_from([60, 250]), "visits": st.sampled_from([1, 300])}), quick=12, thorough=400)
def many_objects(case, ctx):
    """The same for a chunk of many objects and a survey of many visits."""
    r = np.random.default_rng(case["seed"])
    few, seen = case["c"]["objects"], case["c"]["visits"]
    objs = [dict(few[int(i)], margin=round(float(m), 3), amp=round(float(a), 2), limit=str(f)) for i, m, a, f in zip(r.integers(0, len(few), case["n"]), r.normal(0, 1.5, case["n"]), r.uniform(0, 1, case["n"]), r.choice(FILTERS, case["n"]))]
    visits = seen + [(int(i), round(float(d), 2)) for i, d in zip(r.integers(0, 6, case["visits"]), r.uniform(20, 27, case["visits"]))]
    culling(dict(case["c"], objects=objs, visits=visits), ctx)
