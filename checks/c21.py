"""C21: DES discovery: an object survives iff enough nights, or arc and triplet conditions, are met."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Property, require
from vlib.gen import AU_KM, fl

PROP = Property(
    "C21",
    rule="1-4 objects with 1-11 observing nights whose gaps sit around the 60/90-day triplet windows and whose arcs sit "
    "around half a year, 1-3 observations per night, distances around 50 au, shuffled rows. Non-trivial = an object "
    "with 7 or 8 nights (the arc and triplet conditions decide) or exactly 6 or 9.",
    assumptions=["observations of one night span less than 0.25 day; no gap exactly at a threshold"],
)

GAP = st.one_of(
    st.sampled_from([1, 2, 59, 61, 89, 91, 58, 62]), st.integers(1, 20), st.integers(50, 100), st.sampled_from([150, 182, 183, 300])
)
night = st.fixed_dictionaries({"gap": GAP, "obs": st.lists(st.integers(0, 24).map(lambda n: n / 100), min_size=1, max_size=3, unique=True)})
single = st.fixed_dictionaries({"gap": GAP, "obs": st.integers(0, 24).map(lambda n: [n / 100])})
obj = st.fixed_dictionaries(
    {
        "nights": st.one_of(st.lists(night, min_size=7, max_size=8), st.lists(single, min_size=7, max_size=8), st.lists(night, min_size=1, max_size=11)),
        "d": st.one_of(st.sampled_from([49.9999, 50.0001, 49.9, 50.1]), fl(20, 120), fl(0.3, 3000)),
        "dvar": st.sampled_from([0.0, 0.3, 3.0]),
        "axis": st.integers(0, 3),
    }
)
cases = st.fixed_dictionaries({"objs": st.lists(obj, min_size=1, max_size=4), "order": st.integers(0, 3), "gaps": st.booleans(), "start": st.integers(56000, 57000)})

DIRS = [(1, 0, 0), (0, -1, 0), (0.6, 0, 0.8), (-0.6, 0.64, -0.48)]


def name(k):
    return ["b", "a10", "\u02bba2", "c" * 9][k] if k < 4 else f"o{k}"


def build(case):
    import pandas as pd

    rows = []
    per = {}
    for k, o in enumerate(case["objs"]):
        t = case["start"]
        nights = []
        i = 0
        for n in o["nights"]:
            t += n["gap"]
            nights.append([t + x for x in sorted(n["obs"])])
            for x in nights[-1]:
                # the minimum over time is d itself, taken at observation 0
                d = (o["d"] + o["dvar"] * (i % 4)) * AU_KM
                i += 1
                ux, uy, uz = DIRS[o["axis"]]
                rows.append([name(k), x, d * ux, d * uy, d * uz])
        per[name(k)] = (nights, o["d"])
    for i, r in enumerate(rows):
        r.append(i)
    if case["order"] == 1:
        rows = rows[::-1]
    elif case["order"] == 2:
        rows = sorted(rows, key=lambda r: r[1])
    elif case["order"] == 3:
        rows = rows[1::3] + rows[2::3] + rows[0::3]
    df = pd.DataFrame(rows, columns=["ObjID", "fieldMJD_TAI", "Obj_Sun_x_LTC_km", "Obj_Sun_y_LTC_km", "Obj_Sun_z_LTC_km", "FieldID"])
    df["PSFMag"] = np.arange(len(df)) * 0.25
    if case["gaps"]:
        df.index = [3 * i + 5 for i in range(len(df))]
    return df, per


def discovered(nights, dist):
    n = len(nights)
    if n >= 9:
        return True, False
    if n < 7:
        return False, n == 6
    arcs = []
    for drop in range(n):
        ts = [t for j, x in enumerate(nights) for t in x if j != drop]
        arcs.append(max(ts) - min(ts))
    win = 90 if dist >= 50 else 60
    first = [x[0] for x in nights]
    last = [x[-1] for x in nights]
    trip = False
    for a in range(n):
        for b in range(a + 1, n):
            for c in range(b + 1, n):
                if first[b] - first[a] < win and first[c] - first[b] < win:
                    trip = True
    return min(arcs) > 0.5 * 365.25 and trip, True


def ambiguous(nights, dist):
    """A decision within an hour-scale convention: which time of the night stands for the night."""
    win = 90 if dist >= 50 else 60
    for a in range(len(nights)):
        for b in range(a + 1, len(nights)):
            lo, hi = nights[b][0] - nights[a][-1], nights[b][-1] - nights[a][0]
            if lo - 1e-9 <= win <= hi + 1e-9:
                return True
    for drop in range(len(nights)):
        ts = [t for j, x in enumerate(nights) for t in x if j != drop]
        if ts and abs(max(ts) - min(ts) - 182.625) < 1e-6:
            return True
    return False


@PROP.warmup
def _warm():
    import sorcha.modules.DESDiscoveryFilter  # noqa: F401


@PROP.check(cases, quick=2400, thorough=60000)
def discovery_set(case, ctx):
    from sorcha.modules.DESDiscoveryFilter import DESDiscoveryFilter

    df, per = build(case)
    if any(ambiguous(n, d) for n, d in per.values()):
        ctx.tag("ambiguous")
        return
    want = {}
    for k, (n, d) in per.items():
        want[k], edge = discovered(n, d)
        if edge or len(n) == 9:
            ctx.nontrivial()
            ctx.tag(f"{len(n)} nights {'found' if want[k] else 'lost'}")
    out = DESDiscoveryFilter(df.copy())
    keep = df[[want[o] for o in df["ObjID"]]]
    require(sorted(out["FieldID"]) == sorted(keep["FieldID"]), "wrong set of discovered observations",
            got=sorted(set(out["ObjID"])), want=[k for k in want if want[k]], nights=[(k, [x[0] for x in n], d) for k, (n, d) in per.items()])
    require(np.all(np.diff(out["fieldMJD_TAI"]) >= 0), "output not in time order")
    ref = df.set_index("FieldID", drop=False)
    for c in df.columns:
        require(list(out[c]) == list(ref.loc[out["FieldID"], c]), f"column {c} of surviving rows changed")


@PROP.check(st.fixed_dictionaries({"c": cases, "seed": st.integers(0, 10**6), "objs": st.sampled_from([1, 30, 150]), "nights": st.sampled_from([9, 30, 60]), "per": st.sampled_from([2, 8])}), quick=60, thorough=1500)
def many_nights(case, ctx):
    """The same for many objects, followed over many nights."""
    r = np.random.default_rng(case["seed"])
    objs = []
    for _ in range(case["objs"]):
        n = int(r.integers(1, case["nights"] + 1)) if r.random() < 0.4 else int(r.integers(6, 10))
        nights = [{"gap": int(r.choice([1, 2, 59, 61, 89, 91, 58, 62, 10, 75, 150, 183])), "obs": sorted(set((r.integers(0, 25, int(r.integers(1, case["per"] + 1))) / 100).tolist()))} for _ in range(n)]
        objs.append({"nights": nights, "d": float(r.choice([49.9, 50.1, 30.0, 400.0])), "dvar": float(r.choice([0.0, 0.3, 3.0])), "axis": int(r.integers(0, 4))})
    # leave out the objects for which the convention of the hour decides
    big = dict(case["c"], objs=objs)
    _, per = build(big)
    objs = [o for k, o in enumerate(objs) if not ambiguous(*per[name(k)])]
    if objs:
        discovery_set(dict(big, objs=objs), ctx)


@PROP.check(cases, quick=600, thorough=15000)
def object_independence(case, ctx):
    from sorcha.modules.DESDiscoveryFilter import DESDiscoveryFilter

    df, per = build(case)
    ctx.nontrivial(len(per) > 1)
    full = DESDiscoveryFilter(df.copy())
    rev = DESDiscoveryFilter(df.iloc[::-1].copy())
    require(set(full["FieldID"]) == set(rev["FieldID"]), "row order changes what is discovered")
    for k in per:
        alone = DESDiscoveryFilter(df[df["ObjID"] == k].copy())
        require(set(alone["FieldID"]) == set(full["FieldID"][full["ObjID"] == k]), "other objects change whether an object is discovered", obj=k)
