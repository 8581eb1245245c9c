"""C02: a seed fixes the run; each random module has its own stream; nothing outside the run matters."""
import os
import random

import numpy as np
from hypothesis import strategies as st

from vlib import e2e
from vlib.core import Property, require
from vlib.gen import fx

PROP = Property(
    "C02",
    rule="Generated LSST and DES surveys with every random module on (measurement noise, fill factor, fading, linking below certainty), run again with "
    "the same seed after disturbing the global random state and running something else; with another seed; and with one random module switched off. "
    "Generated module names and base seeds for the generators. Non-trivial = at least two detections, and random draws decided something.",
    assumptions=["external ephemeris"],
)


@PROP.warmup
def _warm():
    import sorcha.des, sorcha.sorcha  # noqa: F401,E401

    e2e.register()


@st.composite
def cases(draw):
    w = draw(e2e.world(draw(st.sampled_from(["lsst", "lsst", "des"])), max_obj=4, stochastic=True))
    w["out"], w["efmt"], w["stats"] = "csv", "csv", True
    w["limit"] = w["bright"] = None
    w["fading"] = True
    w["cam"] = draw(st.sampled_from(["circle", "circle", "footprint"]))
    w["radius"], w["fill"] = 6.0, draw(fx(0.3, 0.9, 1))
    if w["survey"] == "des":
        w["transient"] = draw(fx(0.3, 0.9, 1))
        w["distance"] = w["motion"] = None
        w["discovery"] = False
    else:
        w["random"], w["peak"], w["snrcut"] = True, draw(fx(0.3, 0.9, 1)), False
        w["linking"] = draw(st.sampled_from([None, None, "keep", "drop"]))
        w["link"]["eff"] = draw(fx(0.3, 0.9, 1))
        w["link"]["ntrk"] = 1
        w["link"]["nobs"] = draw(st.integers(1, 2))
    for o in w["objs"]:  # bright: the fading probability is the peak efficiency whatever the noise
        o["H"] = o["H"] - 10
        o["seen"] = "all"
    return w


def lines(args):
    p = os.path.join(args["outpath"], "run.csv")
    out = open(p).read() if os.path.exists(p) else None
    p = os.path.join(args["outpath"], "tally.csv")
    return out, open(p).read() if os.path.exists(p) else None


@PROP.check(st.fixed_dictionaries({"w": cases(), "junk": st.integers(0, 10**6), "warm": st.booleans()}), quick=250, thorough=6000)
def same_seed(case, ctx):
    w = case["w"]
    a, b = e2e.write(w, ctx.scratch()), e2e.write(w, ctx.scratch())
    np.random.seed(case["junk"])
    random.seed(case["junk"])
    e2e.run(a)
    np.random.seed(case["junk"] + 1)
    random.seed(case["junk"] + 1)
    if case["warm"]:  # an unrelated run in between
        c = e2e.write(dict(w, seed=case["junk"]), ctx.scratch())
        e2e.run(c)
    e2e.run(b)
    one, two = lines(a), lines(b)
    ctx.nontrivial(one[0] is not None and one[0].count("\n") > 2)
    ctx.tag(w["survey"], "empty" if one[0] is None else "detections")
    require(one[0] == two[0], "two runs with the same seed report different detections", a=(one[0] or "")[:200], b=(two[0] or "")[:200])
    require(one[1] == two[1], "two runs with the same seed report different statistics")


@PROP.check(st.fixed_dictionaries({"w": cases(), "hash": st.sampled_from([1, 2])}), quick=120, thorough=3000)
def other_process(case, ctx):
    """The same run in another interpreter with another hash seed."""
    from vlib import helper

    w = case["w"]
    a, b = e2e.write(w, ctx.scratch()), e2e.write(w, ctx.scratch())
    try:
        e2e.run(a)
        mine = "ok"
    except SystemExit as e:
        mine = f"exit {e.code}"
    theirs = helper.run(b, case["hash"])
    one, two = lines(a), lines(b)
    ctx.nontrivial(one[0] is not None and one[0].count("\n") > 2)
    require(mine == theirs, "the same run ends differently in another process", a=mine, b=theirs)
    require(one[0] == two[0], "another process reports different detections", a=(one[0] or "")[:200], b=(two[0] or "")[:200])
    require(one[1] == two[1], "another process reports different statistics")


@PROP.check(cases(), quick=200, thorough=4000)
def other_seed(w, ctx):
    a, b = e2e.write(w, ctx.scratch()), e2e.write(dict(w, seed=w["seed"] + 1), ctx.scratch())
    e2e.run(a)
    e2e.run(b)
    ra, rb = e2e.index(w, e2e.read_output(w, a)), e2e.index(w, e2e.read_output(w, b))
    both = set(ra) & set(rb)
    ctx.nontrivial(len(both) > 1)
    if w["survey"] == "lsst" and both:
        for c in ("RA_deg", "Dec_deg", "trailedSourceMag", "PSFMag"):
            same = [k for k in both if float(ra[k][c]) == float(rb[k][c])]
            require(len(same) == 0 or (c.endswith("Mag") and float(ra[same[0]]["PSFMagSigma"]) < 1e-9), f"another seed gives the same measured {c}", key=same[:1])
    n = len([r for r in e2e.eph_rows(w) if r["ObjID"] in w["ids"]])
    # every row survives fading with probability <= 0.9: 3 runs in 10^9 would drop or keep the same 200 rows
    if w["cam"] == "circle" and min(len(ra), len(rb)) > 0 and n >= 400:
        require(set(ra) != set(rb), "another seed keeps exactly the same observations")


@PROP.check(st.fixed_dictionaries({"w": cases(), "off": st.sampled_from(["noise", "noise", "fading", "fill", "linking"])}), quick=300, thorough=8000)
def own_streams(case, ctx):
    """Switching one random module off leaves the draws of the others as they were."""
    w = case["w"]
    off = case["off"]
    if w["survey"] == "des" and off in ("noise", "linking"):
        off = "fading"
    if off == "fill" and w["cam"] != "circle":
        off = "fading"
    if off in ("noise", "fading", "fill"):
        w = dict(w, **({} if w["survey"] == "des" else {"linking": None}))
    if off == "linking" and w["linking"] is None:
        w = dict(w, linking="drop")
    if off == "noise" and w["cam"] == "footprint":
        w = dict(w, cam="circle")  # noise moves positions across sensor edges
    v = dict(w)
    if off == "noise":
        v["random"] = False
    elif off == "fading":
        v["fading"] = False
    elif off == "fill":
        v["fill"] = None
        w, v = dict(w, fading=False), dict(v, fading=False)
    else:
        v["linking"] = None
    a, b = e2e.write(w, ctx.scratch()), e2e.write(v, ctx.scratch())
    e2e.run(a)
    e2e.run(b)
    ra, rb = e2e.index(w, e2e.read_output(w, a)), e2e.index(v, e2e.read_output(v, b))
    ctx.nontrivial(len(ra) > 1)
    ctx.tag(w["survey"], off)
    if off == "noise":
        try:
            bright = all(float(r["PSFMagTrue"]) < float(r["fiveSigmaDepth_mag"]) - 2 for r in list(ra.values()) + list(rb.values()))
        except KeyError:
            bright = False
        if not bright:
            ctx.tag("faint")
            return
        require(set(ra) == set(rb), "switching the measurement noise off changes which observations the fill factor and fading keep",
                lost=sorted(set(ra) - set(rb))[:3], new=sorted(set(rb) - set(ra))[:3])
    else:
        require(set(ra) <= set(rb), f"observations appear only because the {off} filter is on", new=sorted(set(ra) - set(rb))[:3])
    for k in set(ra) & set(rb):
        cols = [c for c in ra[k] if c in rb[k] and c not in ("object_linked", "date_linked_MJD", "ObjID", "optFilter")]
        if off == "noise":
            cols = [c for c in cols if c not in ("RA_deg", "Dec_deg", "trailedSourceMag", "PSFMag")]
        for c in cols:
            x, y = ra[k][c], rb[k][c]
            require(str(x) == str(y), f"switching {off} off changes {c}", key=k, on=x, off=y)


@PROP.check(
    st.fixed_dictionaries(
        {"seed": st.integers(0, 2**32 - 1), "names": st.lists(st.one_of(st.sampled_from(["sorcha.modules.PPRandomizeMeasurements", "sorcha.modules.PPDropObservations", "a", "b", ""]), st.text(max_size=12)), min_size=2, max_size=5, unique=True), "first": st.integers(0, 4), "n": st.integers(1, 5)}
    ),
    quick=600,
    thorough=10000,
)
def generators(case, ctx):
    from vlib.gen import rngs

    ctx.nontrivial()
    a = rngs(case["seed"])
    draws = {n: a.getModuleRNG(n).random(case["n"] + 3) for n in case["names"]}
    b = rngs(case["seed"])
    k = case["first"] % len(case["names"])
    got = {}
    for n in case["names"][k:] + case["names"][:k]:
        got[n] = [b.getModuleRNG(n).random(case["n"])]
    for n in case["names"]:
        got[n].append(b.getModuleRNG(n).random(3))  # the stream goes on, it does not start again
        require(np.array_equal(np.concatenate(got[n]), draws[n]), "a module's stream depends on the other modules or does not go on", name=n)
    vals = [tuple(v) for v in draws.values()]
    require(len(set(vals)) == len(vals), "two modules share a stream")
    other = rngs(case["seed"] + 1)
    require(not np.array_equal(other.getModuleRNG(case["names"][0]).random(case["n"] + 3), draws[case["names"][0]]), "the seed does not matter")
