"""C04: a whole DES run reports exactly the detections the documented chain of filters lets through."""
from vlib import e2e
from vlib.core import Property, require

PROP = Property(
    "C04",
    rule="1-5 objects with an ephemeris over 1-10 nights (some spread over months), every deterministic module on or off at random (light curve, "
    "activity, DECam footprint, per-visit CCDs or circle, magnitude limit, an efficiency sharp enough to be certain, saturation, distance and motion "
    "cuts, discovery), every file format and chunk size. Non-trivial = some observations survive and some do not.",
    assumptions=["external ephemeris", "magnitudes within 0.04 mag of a limit in a fading run, and other values within rounding of a threshold, are not judged"],
)


@PROP.warmup
def _warm():
    import sorcha.des, sorcha.sorcha  # noqa: F401,E401

    e2e.register()


@PROP.check(e2e.world("des"), quick=1100, thorough=25000)
def whole_run(w, ctx):
    try:
        want = e2e.expected(w)
    except e2e.Unclear:
        ctx.tag("unclear")
        return
    n = len([r for r in e2e.eph_rows(w) if r["ObjID"] in w["ids"]])
    ctx.nontrivial(0 < len(want) < n)
    ctx.tag("none left" if not want else "some left", w["cam"], "discovery" if w["discovery"] else "no discovery")
    if w["discovery"] and want:
        ctx.tag("discovered")
    args = e2e.write(w, ctx.scratch())
    e2e.run(args)
    rows = e2e.read_output(w, args)
    require(rows is not None or not want, "no detections file although there are detections", n=len(want))
    e2e.compare(w, rows, want)
    e2e.compare_stats(w, args, want)


@PROP.check(e2e.world("des"), quick=200, thorough=6000)
def returned(w, ctx):
    """Asked to return its results, a run returns the same observations and statistics and writes neither."""
    try:
        want = e2e.expected(w)
    except e2e.Unclear:
        ctx.tag("unclear")
        return
    ctx.nontrivial(bool(want))
    ctx.tag("none left" if not want else "some left", "statistics" if w["stats"] else "-")
    args = e2e.write(w, ctx.scratch())
    e2e.compare_returned(w, args, want, e2e.run(args, return_only=True))
