"""C20: DES distance cut (per object) and motion cut (per observation)."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Property, require
from vlib.gen import AU_KM, BULK, fl, fx, spread

PROP = Property(
    "C20",
    rule="Tables of 1-20 observations of 1-5 objects with generated heliocentric vectors and sky motions and generated "
    "limits; non-trivial = at least one observation kept and one dropped, or an object kept although one of its "
    "observations is outside the distance range.",
    assumptions=["values within 1e-9 (relative) of a limit are not judged"],
)


@st.composite
def cases(draw):
    lo = draw(st.one_of(fx(0, 60, 2), st.just(0.0)))
    hi = lo + draw(st.one_of(fx(0.5, 200, 2), fx(0.5, 5000, 1)))
    mlo = draw(st.one_of(fx(0, 0.5, 4), st.just(0.0)))
    mhi = mlo + draw(st.one_of(fx(0.01, 1, 3), fx(0.01, 100, 2)))
    nobj = draw(st.integers(1, 5))
    rows = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "o": st.integers(0, nobj - 1),
                    "dir": st.tuples(fl(-1, 1), fl(-1, 1), fx(0.1, 1, 2)),
                    "q": fx(0, 2, 2),
                    "side": st.sampled_from(["in", "lo", "hi"]),
                    "ang": fl(0, 6.28),
                    "mq": fx(0.02, 1.9, 2),
                    "mside": st.sampled_from(["in", "lo", "hi"]),
                }
            ),
            min_size=1,
            max_size=20,
        )
    )
    return {"lo": lo, "hi": hi, "mlo": mlo, "mhi": mhi, "rows": rows, "index": draw(st.sampled_from(["range", "gaps"])), "bulk": draw(BULK)}


def place(lo, hi, q, side):
    if side == "in":
        return lo + (hi - lo) * (0.02 + 0.96 * min(q / 2, 1))
    if side == "lo":
        return lo * (0.98 - 0.4 * min(q, 2) / 2) if lo > 0 else lo + (hi - lo) * 0.5
    return hi * (1.02 + q)


def frame(case):
    import pandas as pd

    R, M = [], []
    rows = [case["rows"][i] for i in spread(len(case["rows"]), case["bulk"])]
    for r in rows:
        d = place(case["lo"], case["hi"], r["q"], r["side"])
        u = np.array(r["dir"])
        R.append(u / np.linalg.norm(u) * d * AU_KM)
        m = place(case["mlo"], case["mhi"], r["mq"], r["mside"])
        M.append((m * np.cos(r["ang"]), m * np.sin(r["ang"])))
    R, M = np.array(R), np.array(M)
    n = len(R)
    return pd.DataFrame(
        {
            "n": np.arange(n),
            "ObjID": [f"obj{r['o']}" for r in rows],
            "Obj_Sun_x_LTC_km": R[:, 0],
            "Obj_Sun_y_LTC_km": R[:, 1],
            "Obj_Sun_z_LTC_km": R[:, 2],
            "RARateCosDec_deg_day": M[:, 0],
            "DecRate_deg_day": M[:, 1],
        },
        index=range(n) if case["index"] == "range" else [2 * i + 7 for i in range(n)],
    )


@PROP.check(cases(), quick=1500, thorough=30000)
def cuts(case, ctx):
    from sorcha.modules.PPDistanceandMotionCuts import distance_cut, motion_cut

    o = frame(case)
    dist = np.sqrt(o["Obj_Sun_x_LTC_km"] ** 2 + o["Obj_Sun_y_LTC_km"] ** 2 + o["Obj_Sun_z_LTC_km"] ** 2).values / AU_KM
    inside = (dist > case["lo"] * (1 + 1e-9)) & (dist < case["hi"] * (1 - 1e-9))
    out = distance_cut(o.copy(), case["hi"], case["lo"])
    good = set(o["ObjID"][inside])
    want = [n for n, i in zip(o["n"], o["ObjID"]) if i in good]
    require(list(out["n"]) == want, "distance cut keeps the wrong observations", got=list(out["n"]), want=want)
    mixed = any(i in good and not k for i, k in zip(o["ObjID"], inside))
    v = np.hypot(o["RARateCosDec_deg_day"], o["DecRate_deg_day"]).values
    ok = (v > case["mlo"]) & (v < case["mhi"])
    out2 = motion_cut(o.copy(), case["mhi"], case["mlo"])
    want2 = list(o["n"][ok])
    require(list(out2["n"]) == want2, "motion cut keeps the wrong observations", got=list(out2["n"]), want=want2)
    ctx.nontrivial(mixed or 0 < len(want) < len(o) or 0 < len(want2) < len(o))
    ctx.tag("mixed" if mixed else "-")
    for x, w in ((out, want), (out2, want2)):
        require(list(x.columns) == list(o.columns), "columns changed")
        require(x.reset_index(drop=True).equals(o.iloc[w].reset_index(drop=True)), "values of surviving rows changed")
