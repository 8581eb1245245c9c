"""C01: without random elements the detections do not depend on chunking, file order or file format."""
import os

from hypothesis import strategies as st

from vlib import e2e
from vlib.core import Property, require

PROP = Property(
    "C01",
    rule="A generated survey (both surveys, every deterministic module on or off) is run twice: as it is and with another chunk size, other object "
    "orders in the auxiliary files, another ephemeris order, other input and output formats, and optionally with the objects split over two separate "
    "runs. Non-trivial = detections of at least two objects, and a chunk boundary between objects in exactly one of the runs.",
    assumptions=["external ephemeris", "random modules off or certain: magnitudes within 0.04 mag of a limit in a fading run, and values within rounding of a threshold, are not judged"],
)


@st.composite
def cases(draw):
    w = draw(e2e.world(draw(st.sampled_from(["lsst", "lsst", "des"])), max_obj=6, min_obj=2))
    n = len(w["ids"])
    w["chunk"] = draw(st.sampled_from([1, 2, 3, 100, 100]))
    if w["chunk"] < 100 and draw(st.booleans()):
        sizes = [n, n + 1, 100]
    else:
        sizes = [1, 2, 3, n - 1, n, 100]
    if draw(st.sampled_from([True, True, False])):
        # mild limits, so that most objects have detections to compare
        w["mag"], w["snr"], w["brights"] = 23.5, 3.0, [min(b, 14.0) for b in w["brights"]]
        unseen = draw(st.integers(0, 2 * n))  # one object at most has no ephemeris
        for i, o in enumerate(w["objs"]):
            o["off"][1] *= 0.5
            o["seen"] = "none" if i == unseen else "all" if o["seen"] in ("none", "stray") and i != unseen - n else o["seen"]
            if w["survey"] == "lsst":
                o["H"] = min(o["H"], 19.0)
        if w["survey"] == "lsst":
            w["link"].update(ntrk=1, win=15)
        else:
            w["discovery"] = False
    alt = {
        "chunk": draw(st.sampled_from(sizes)),
        "orders": [draw(st.permutations(range(n))) for _ in range(3)],
        "eph_order": draw(st.sampled_from(["object", "time", "mixed"])),
        "aux": draw(st.sampled_from(["csv", "whitespace"])),
        "efmt": draw(st.sampled_from(["csv"] * 3 + ["whitespace", "hdf5"])),
        "out": draw(st.sampled_from(["csv"] * 3 + ["sqlite3", "hdf5"])),
    }
    return {"w": w, "alt": alt, "split": draw(st.sampled_from([0, 0, 1])), "cut": draw(st.integers(1, max(1, n - 1)))}


@PROP.warmup
def _warm():
    import sorcha.des, sorcha.sorcha  # noqa: F401,E401

    e2e.register()


def cell(v):
    """A value as it is, or NaN for an empty cell; numbers compare as numbers whatever the file format."""
    if v is None or v == "" or v != v:
        return "nan"
    try:
        x = float(v)
        return "nan" if x != x else x
    except (TypeError, ValueError):
        return str(v)


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b))
    return str(a) in ("True", "1", "1.0") and str(b) in ("True", "1", "1.0") or str(a) in ("False", "0", "0.0") and str(b) in ("False", "0", "0.0") or a == b


def part(w, keep):
    """The same world with only some of its objects."""
    idx = [k for k in range(len(w["ids"])) if k in keep]
    new = {k: i for i, k in enumerate(idx)}
    return dict(w, ids=[w["ids"][k] for k in idx], objs=[w["objs"][k] for k in idx], orders=[[new[k] for k in o if k in new] for o in w["orders"]], keep=idx)


@PROP.check(cases(), quick=450, thorough=14000)
def invariant(case, ctx):
    w = case["w"]
    b = dict(w, **case["alt"])
    n = len(w["ids"])
    try:
        e2e.expected(w)
    except e2e.Unclear:  # e.g. a detection probability that is neither 0 nor 1
        ctx.tag("unclear")
        return
    args = e2e.write(w, ctx.scratch())
    e2e.run(args)
    base = e2e.index(w, e2e.read_output(w, args))
    runs = [b]
    if case["split"] and n > 1:
        keep = set(b["orders"][0][: case["cut"]])
        runs = [part(b, keep), part(b, set(range(n)) - keep)]
    other, stats = {}, []
    for r in runs:
        # positions and times of an object depend on its number in the world, so the split keeps the ephemeris of the whole
        a = e2e.write(b if len(runs) > 1 else r, ctx.scratch())
        if len(runs) > 1:
            d = os.path.dirname(a["orbinfile"])
            for name in ("orbits.txt", "params.txt", "complex.txt"):
                lines = open(os.path.join(d, name)).read().splitlines()
                sep = "," if b["aux"] == "csv" else " "
                lines = lines[:1] + [x for x in lines[1:] if x.split(sep)[0] in r["ids"]]
                open(os.path.join(d, name), "w").write("\n".join(lines) + "\n")
        e2e.run(a)
        got = e2e.index(b, e2e.read_output(b, a))
        require(not set(got) & set(other), "an object's detections appear in two runs that do not share it")
        other.update(got)
        stats += e2e.read_stats(a) or []
    det = {k[0] for k in base}
    ctx.nontrivial(len(det) > 1 and (min(w["chunk"], n) != min(b["chunk"], n) or len(runs) > 1))
    ctx.tag(w["survey"], "split" if len(runs) > 1 else "whole", "same chunks" if min(w["chunk"], n) == min(b["chunk"], n) else "other chunks", "empty" if not base else "detections")
    require(set(base) == set(other), "chunking or input order changes which observations are reported", lost=sorted(set(base) - set(other))[:4], new=sorted(set(other) - set(base))[:4])
    for k, r in base.items():
        o = other[k]
        require(set(r) == set(o), "chunking or formats change the reported columns", only=sorted(set(r) ^ set(o)))
        for c in r:
            if c == "ObjID":
                require(str(r[c]) == str(o[c]), "identifier changed")
                continue
            x, y = cell(r[c]), cell(o[c])
            require(same(x, y), f"chunking or input order changes {c}", key=k, a=x, b=y)
    s0 = {(r["ObjID"], r["optFilter"]): r for r in e2e.read_stats(args) or []}
    s1 = {(r["ObjID"], r["optFilter"]): r for r in stats}
    require(len(s1) == len(stats) and set(s0) == set(s1), "chunking or input order changes which statistics rows there are", a=sorted(s0)[:5], b=sorted(s1)[:5])
    for k in s0:
        for c in s0[k]:
            if c != "ObjID":
                require(same(cell(s0[k][c]), cell(s1[k][c])), f"chunking or input order changes the statistics' {c}", key=k, a=s0[k][c], b=s1[k][c])
