"""C23: every object in a visit's field is found, and nothing that is outside."""
import numpy as np
from hypothesis import strategies as st

from vlib import ephem
from vlib.core import Property, require
from vlib.gen import fx

PROP = Property(
    "C23",
    rule="1-5 objects (near-Earth to trans-Neptunian, unbound comets) in the six orbit formats, 1-12 visits in any time order with steps from seconds to 20 picket intervals, aimed at an object with an offset "
    "from 0 to beyond the field's edge; fields of 0.1-3 degrees, buffers of 0.05-1 degree, pickets of 0.25-3 days, HEALPix orders 4-10, 31-101 sub-intervals, six observatories. "
    "Non-trivial = an object that has to be found and was aimed at by a later visit than the first.",
    assumptions=[
        "real ASSIST and SPICE with a made-up Solar System",
        "objects too fast for the pickets are not judged (documented): quadratic interpolation off by more than 0.3 of the buffer, or motion between sub-intervals above 0.3 of a pixel",
        "between the edge of the field and the edge of its buffer an object may or may not be listed; 1e-4 degrees around the edges are not judged",
    ],
    warmup=ephem.warm,
)


def interpolation_error(b, jd, code, p):
    """The largest error at jd of a parabola through three pickets p apart, the central one at most p/2 away (degrees)."""
    u = b.unit(jd, code)
    worst = 0.0
    for phi in (-0.5, -0.25, 0.25, 0.5):
        x = -phi
        us = [b.unit(jd + (phi + k) * p, code) for k in (-1, 0, 1)]
        v = us[0] * x * (x - 1) / 2 + us[1] * (1 - x * x) + us[2] * x * (x + 1) / 2
        worst = max(worst, ephem.sep(u, v / np.linalg.norm(v)))
    return worst


CASE = st.fixed_dictionaries(
    {
        "objects": ephem.objects(["main belt", "main belt", "near Earth", "trans-Neptunian", "comet"], 5, epochs=fx(59900, 60200, 3)),
        "config": ephem.CONFIG,
        "start": fx(60000, 60100, 5),
        "walk": ephem.WALK,
        "visits": st.lists(ephem.VISIT, min_size=1, max_size=12),
    }
)


@PROP.check(CASE, quick=2000, thorough=20000)
def search(case, ctx):
    judge(ephem.World(case), case, ctx)


def judge(w, case, ctx):
    c = case["config"]
    got = w.run()
    pairs = list(zip(got["ObjID"].astype(str), got["FieldID"].astype(int)))
    require(len(set(pairs)) == len(pairs), "an observation is listed twice", got=pairs)
    found = set(pairs)
    pixel = 58.6 / 2 ** c["order"]
    for j, v in enumerate(w.visits):
        n = np.array([np.cos(np.radians(v["fieldRA_deg"])) * np.cos(np.radians(v["fieldDec_deg"])), np.sin(np.radians(v["fieldRA_deg"])) * np.cos(np.radians(v["fieldDec_deg"])), np.sin(np.radians(v["fieldDec_deg"]))])
        for k, b in zip(w.ids, w.bodies):
            u = b.unit(v["jd"], c["code"])
            d = ephem.sep(u, n)
            here = (k, j) in found
            if d > c["fov"] + c["buffer"] + 1e-4:
                require(not here, "an object outside of the field is listed", object=k, visit=j, separation=d)
                continue
            if d > c["fov"] - 1e-4:
                ctx.tag("in the buffer")
                continue
            err = interpolation_error(b, v["jd"], c["code"], c["picket"])
            move = ephem.sep(u, b.unit(v["jd"] + c["picket"] / (c["sub"] - 1), c["code"]))
            if err > 0.3 * c["buffer"] or err + move > 0.3 * pixel:
                ctx.tag("too fast")
                continue
            require(here, "an object in the field is missing", object=k, visit=j, separation=d, interpolation=err, step=move, times=[x["observationMidpointMJD_TAI"] for x in w.visits])
            ctx.tag("found", "found, order %d" % c["order"], "first" if j == 0 else "later visit, " + (case["walk"]))
            ctx.nontrivial(j > 0)
    known = {k for k, _ in pairs} <= set(w.ids) and {j for _, j in pairs} <= set(range(len(w.visits)))
    require(known, "unknown objects or visits", got=pairs)


CROWD = st.fixed_dictionaries(
    {
        "object": ephem.objects(["main belt", "main belt", "trans-Neptunian"], 1, epochs=fx(59900, 60200, 3)),
        "n": st.integers(20, 140),
        "spread": st.sampled_from([0.0, 1e-4, 1e-3, 1e-2]),  # of the perihelion distances
        "others": ephem.objects(["main belt", "near Earth"], 3, epochs=fx(59900, 60200, 3)),
        "config": ephem.CONFIG,
        "start": fx(60000, 60100, 5),
        "walk": ephem.WALK,
        "visits": st.lists(ephem.VISIT, min_size=1, max_size=3),
    }
)


@PROP.check(CROWD, quick=48, thorough=1500)
def crowded(case, ctx):
    """Very many objects on nearly the same orbit, all in one or a few pixels, among others."""
    o = case["object"]["list"][0]
    crowd = [{**o, "q": o["q"] * (1 + case["spread"] * i / case["n"])} for i in range(case["n"])]
    crowd[case["n"] // 2 : case["n"] // 2] = case["others"]["list"]
    aim = [{**v, "at": (0, case["n"] // 2, case["n"] - 1)[v["at"] % 3]} for v in case["visits"]]
    c = {**case, "objects": {"format": case["object"]["format"], "list": crowd}, "visits": aim}
    judge(ephem.World(c), c, ctx)
