"""C19: linking: an object is linked exactly when its observations contain enough tracklets in a window."""
import math

import numpy as np
from hypothesis import strategies as st

from vlib.core import Property, require
from vlib.gen import fl, fx, sep_deg

PROP = Property(
    "C19",
    rule="1-4 objects, each with 0-8 observing nights of 1-5 spread or 4-11 close observations; per night the gaps are chosen around the "
    "maximum time and the motion around the minimum separation; generated tracklet/track parameters, local-noon "
    "time, row order and labels. Non-trivial = at least one object has a tracklet and some window is within one "
    "night or one tracklet of deciding the link. (selection statistics: 300-object tables, 6.5-sigma bounds)",
    assumptions=["observations are made at night (more than 0.1 day from local noon), as the code requires", "no ties in time or at a threshold"],
)


@st.composite
def cases(draw):
    p = {
        "nobs": draw(st.sampled_from([1, 2, 2, 2, 3, 4])),
        "ntrk": draw(st.sampled_from([1, 2, 3, 3, 4])),
        "win": draw(st.integers(1, 20)),
        "sep": draw(st.sampled_from([0.5, 1.0, 5.0])),
        "maxt": draw(st.sampled_from([0.0625, 0.02, 0.1, 0.0101, 0.0417])),
        "noon": draw(st.sampled_from([16.0, 0.0, 12.5, 23.9, 4.0, 16.95])),
    }
    start = draw(st.integers(59000, 62000))
    objs = []
    for k in range(draw(st.integers(1, 4))):
        nights = []
        n = start
        for _ in range(draw(st.integers(1, 8))):
            n += draw(st.one_of(st.just(1), st.integers(1, max(1, p["win"] // 2)), st.sampled_from([p["win"] - 1, p["win"], p["win"] + 1]).map(lambda x: max(1, x)), st.integers(1, 25)))
            obs = draw(
                st.one_of(
                    st.lists(
                        st.tuples(st.sampled_from([0.31, 0.52, 0.73, 0.93, 1.07, 1.6, 0.997, 1.003]), st.sampled_from([0.0, 0.31, 0.57, 0.93, 1.07, 3.1, -0.53, -1.03, 0.997, 1.003])),
                        min_size=0,
                        max_size=4,
                    ),
                    # many exposures of a night, none of them a tracklet with the next
                    st.lists(
                        st.tuples(st.sampled_from([0.07, 0.11, 0.17]), st.sampled_from([0.0, 0.13, 0.23, 0.29])),
                        min_size=3,
                        max_size=10,
                    ),
                )
            )
            nights.append({"night": n, "start": draw(fx(0.102, 0.23, 3)), "late": draw(st.booleans()), "steps": obs, "dir": draw(st.sampled_from(["ra", "dec", "both"]))})
        objs.append({"ra": draw(st.one_of(st.sampled_from([0.0, 359.9999]), fl(0, 359.99))), "dec": draw(st.one_of(fl(-70, 70), st.sampled_from([0.0, -85.0]))), "nights": nights})
    return {"p": p, "objs": objs, "order": draw(st.integers(0, 3)), "index": draw(st.sampled_from(["range", "gaps"])), "idlen": draw(st.sampled_from([False, True, True, "long", "abroad"]))}


def name(case, k):
    return {"long": "a survey of one part of the belt, number ", "abroad": "\u02bb" + "\u5c0f\u884c\u661f" * k, True: "x" * k, False: ""}[case["idlen"]] + f"obj{k}"


def build(case):
    """Rows (obj, mjd, ra, dec, FieldID) in the order the case asks for."""
    p = case["p"]
    rows = []
    for k, o in enumerate(case["objs"]):
        for nt in o["nights"]:
            # from early in the night on, or until the end of it
            t = nt["night"] + (0.897 - sum(x[0] for x in nt["steps"]) * p["maxt"] if nt.get("late") else nt["start"]) + p["noon"] / 24.0
            ra, dec = o["ra"], o["dec"]
            rows.append([name(case, k), t, ra, dec])
            for dt, step in nt["steps"]:
                t += dt * p["maxt"]
                s = step * p["sep"] / 3600.0
                if nt["dir"] == "dec":
                    dec += s
                elif nt["dir"] == "ra":
                    ra += s / math.cos(math.radians(dec))
                else:
                    dec += s / math.sqrt(2)
                    ra += s / math.sqrt(2) / math.cos(math.radians(dec))
                rows.append([name(case, k), t, ra % 360.0, dec])
    for i, r in enumerate(rows):
        r.append(1000 + i)
    if case["order"] == 1:
        rows = rows[::-1]
    elif case["order"] == 2:
        rows = sorted(rows, key=lambda r: r[1])
    elif case["order"] == 3:
        rows = rows[1::2] + rows[0::2]
    return rows


def frame(case, rows):
    import pandas as pd

    df = pd.DataFrame(rows, columns=["ObjID", "fieldMJD_TAI", "RA_deg", "Dec_deg", "FieldID"])
    df["optFilter"] = "r"
    df["mark"] = np.arange(len(df)) * 1.5
    if case["index"] == "gaps":
        df.index = [4 * i + 9 for i in range(len(df))]
    return df


def tracklet_nights(p, rows):
    """Nights with a tracklet, from the definition. None if a decision is within rounding of a threshold."""
    by = {}
    for r in rows:
        by.setdefault(math.floor(r[1] - p["noon"] / 24.0), []).append(r)
    out = []
    for n, rs in sorted(by.items()):
        rs = sorted(rs, key=lambda r: r[1])
        ok = p["nobs"] == 1
        for a in range(len(rs)):
            for b in range(a + 1, len(rs)):
                dt = rs[b][1] - rs[a][1]
                s = float(sep_deg(rs[a][2], rs[a][3], rs[b][2], rs[b][3])) * 3600
                if abs(dt - p["maxt"]) < 1e-8 or abs(s - p["sep"]) < 1e-4:
                    return None
                if dt < p["maxt"] and s > p["sep"] and b - a + 1 >= p["nobs"]:
                    ok = True
        if ok:
            out.append(n)
    return out


def link_date(p, trk):
    """First night at which the trailing window holds enough tracklet nights, or None."""
    for n in trk:
        if len([m for m in trk if n - p["win"] < m <= n]) >= p["ntrk"]:
            return n
    return None


def opportunities(p, trk):
    """Distinct runs of tracklet nights that satisfy the window as it slides."""
    if p["ntrk"] == 1:
        return len(trk)
    sets = []
    if trk:
        for n in range(trk[0], trk[-1] + p["win"] + 1):
            s = tuple(m for m in trk if n - p["win"] < m <= n)
            if len(s) >= p["ntrk"] and (not sets or sets[-1] != s):
                sets.append(s)
    return len(sets)


def call(df, p, eff=1.0, drop=True):
    from sorcha.modules.PPLinkingFilter import PPLinkingFilter

    return PPLinkingFilter(df, eff, p["nobs"], p["ntrk"], p["win"], p["sep"], p["maxt"], p["noon"], drop_unlinked=drop)


@PROP.warmup
def _warm():
    c = {"p": {"nobs": 2, "ntrk": 2, "win": 10, "sep": 0.5, "maxt": 0.0625, "noon": 16.0}, "order": 0, "index": "range", "idlen": False,
         "objs": [{"ra": 10.0, "dec": 0.0, "nights": [{"night": 60000 + i, "start": 0.4, "steps": [(0.5, 3.0)], "dir": "ra"} for i in range(3)]}]}
    call(frame(c, build(c)), c["p"])


@PROP.check(cases(), quick=1600, thorough=40000)
def linked_set(case, ctx):
    p = case["p"]
    rows = build(case)
    per = {}
    for r in rows:
        per.setdefault(r[0], []).append(r)
    trk = {k: tracklet_nights(p, v) for k, v in per.items()}
    if any(t is None for t in trk.values()):
        ctx.tag("tie")
        return
    want = {k: link_date(p, t) for k, t in trk.items()}
    near = any(t and (link_date(dict(p, win=p["win"] + 1), t) is not None or want[k] is not None) for k, t in trk.items())
    ctx.nontrivial(near)
    ctx.tag("some linked" if any(v is not None for v in want.values()) else "none linked")
    ctx.tag("some unlinked" if any(v is None for v in want.values()) else "all linked")
    o = frame(case, rows)
    keepall = call(o.copy(), p, drop=False)
    dropped = call(o.copy(), p, drop=True)

    require(sorted(keepall["FieldID"]) == sorted(o["FieldID"]), "keeping unlinked objects loses or repeats observations")
    lw = [r[4] for r in rows if want[r[0]] is not None]
    require(sorted(dropped["FieldID"]) == sorted(lw), "wrong observations survive linking", got=sorted(dropped["FieldID"]), want=sorted(lw), tracklets=trk)
    ref = o.set_index("FieldID", drop=False)
    for out in (keepall, dropped):
        require(np.all(np.diff(out["fieldMJD_TAI"]) >= 0), "linked observations are not in time order")
        for c in o.columns:
            require(list(out[c]) == list(ref.loc[out["FieldID"], c]), f"column {c} of surviving rows changed")
        for obj, lk, date in zip(out["ObjID"], out["object_linked"], out["date_linked_MJD"]):
            w = want[obj]
            require(bool(lk) == (w is not None), "object_linked flag wrong", obj=obj, flag=lk)
            if w is None:
                require(np.isnan(date), "an unlinked object has a linking date", obj=obj)
            else:
                require(date == w, "linking date is not the night the track completed", obj=obj, got=date, want=w, tracklets=trk[obj])


@PROP.check(st.fixed_dictionaries({"c": cases(), "seed": st.integers(0, 10**6), "objs": st.sampled_from([3, 40, 150]), "nights": st.sampled_from([8, 30, 90]), "span": st.sampled_from([60, 400, 3600])}), quick=32, thorough=1500)
def many_nights(case, ctx):
    """The same for many objects, followed over many nights and years."""
    r = np.random.default_rng(case["seed"])
    start = 59000 + int(r.integers(0, 3000))
    objs = []
    for _ in range(case["objs"]):
        n = min(int(r.integers(1, case["nights"] + 1)), case["span"])
        nights = []
        for night in sorted(r.choice(case["span"], n, replace=False).tolist()):
            k = int(r.choice([0, 0, 1, 1, 2, 3, 30], p=[0.25, 0.1, 0.25, 0.15, 0.13, 0.1, 0.02]))
            steps = [(float(r.choice([0.31, 0.52, 0.73, 0.93, 1.07, 1.6, 0.997, 1.003] if k < 5 else [0.003, 0.011])), float(r.choice([0.0, 0.31, 0.57, 0.93, 1.07, 3.1] if k < 5 else [0.0, 0.013, 0.031]))) for _ in range(k)]
            nights.append({"night": start + night, "start": round(float(r.uniform(0.11, 0.23)), 4), "steps": steps, "dir": str(r.choice(["ra", "dec", "both"]))})
        objs.append({"ra": float(r.uniform(0, 359.99)), "dec": float(r.uniform(-70, 70)), "nights": nights})
    linked_set(dict(case["c"], objs=objs, idlen=bool(case["seed"] % 2)), ctx)


@PROP.check(
    st.fixed_dictionaries({"c": cases(), "eff": fx(0.0, 1.0, 2)}), quick=500, thorough=10000
)
def per_object(case, ctx):
    """At any efficiency the outcome of an object depends on its own observations only, and is repeatable."""
    c, p = case["c"], case["c"]["p"]
    rows = build(c)
    o = frame(c, rows)
    out = call(o.copy(), p, eff=case["eff"], drop=False)
    got = dict(zip(out["ObjID"], zip(out["object_linked"], out["date_linked_MJD"].fillna(-1))))
    ctx.nontrivial(0 < case["eff"] < 1 and len(got) > 1)
    again = call(o.copy(), p, eff=case["eff"], drop=False)
    require(out.equals(again), "same observations, different linking outcome")
    full = call(o.copy(), p, eff=1.0, drop=False)
    fullset = set(full["ObjID"][full["object_linked"]])
    for k in got:
        alone = call(o[o["ObjID"] == k].copy(), p, eff=case["eff"], drop=False)
        require(bool(alone["object_linked"].iloc[0]) == bool(got[k][0]), "linking of an object depends on the other objects in the table", obj=k)
        require(alone["date_linked_MJD"].fillna(-1).iloc[0] == got[k][1], "linking date depends on the other objects", obj=k)
        require(not got[k][0] or k in fullset, "an object is linked at reduced efficiency but not at full efficiency")
        if case["eff"] == 0:
            require(not got[k][0], "an object is linked at zero efficiency")
    # shuffling the rows changes nothing
    sh = call(o.iloc[::-1].copy(), p, eff=case["eff"], drop=False)
    got2 = dict(zip(sh["ObjID"], zip(sh["object_linked"], sh["date_linked_MJD"].fillna(-1))))
    require(got == got2, "row order changes the linking outcome")


@PROP.check(
    st.fixed_dictionaries(
        {
            "eff": fx(0.05, 0.95, 2),
            "nights": st.lists(st.integers(1, 6), min_size=2, max_size=6),
            "ntrk": st.integers(1, 3),
            "win": st.integers(2, 12),
            "ra0": fl(0, 300),
        }
    ),
    quick=48,
    thorough=800,
)
def efficiency_statistics(case, ctx):
    """The fraction of linkable objects that is linked is 1-(1-efficiency)^opportunities."""
    import pandas as pd

    p = {"nobs": 2, "ntrk": case["ntrk"], "win": case["win"], "sep": 0.5, "maxt": 0.0625, "noon": 16.0}
    n = 300
    nights = np.cumsum(case["nights"]) + 60000
    k = opportunities(p, [int(x) for x in nights])
    rows = []
    for i in range(n):
        for j, nt in enumerate(nights):
            for s in range(2):
                rows.append((f"o{i:03d}", nt + 0.3 + 16 / 24 + 0.02 * s, case["ra0"] + i * 0.1 + j * 0.01 + s * 0.001, 5.0, len(rows)))
    df = pd.DataFrame(rows, columns=["ObjID", "fieldMJD_TAI", "RA_deg", "Dec_deg", "FieldID"])
    out = call(df, p, eff=case["eff"])
    f = out["ObjID"].nunique() / n
    w = 1 - (1 - case["eff"]) ** k
    ctx.nontrivial(k > 0)
    ctx.tag(f"opportunities={min(k, 5)}")
    require(abs(f - w) <= 6.5 * np.sqrt(max(w * (1 - w), 2.0 / n) / n), "fraction linked is not what the efficiency implies", got=f, want=w, opportunities=k)
