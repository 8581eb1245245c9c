"""C15: circular field of view and fill factor."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Property, require
from vlib.gen import BULK, config, fl, fx, offset_point, rngs, sep_deg, serial, spread

PROP = Property(
    "C15",
    rule="Tables of 1-14 observations placed at generated separations and bearings (poles and RA wrap included) from "
    "generated field centres, one circle radius, optional fill factor (a); tables of 400-30000 rows for the fill-factor "
    "fraction, judged with 6.5-sigma bounds (b). Non-trivial = at least one row inside and one outside the circle, or (b).",
    assumptions=["separations within 1e-7 deg of the radius are not judged"],
)

RA = st.one_of(st.sampled_from([0.0, 359.99999, 180.0]), fl(0, 359.9999))
DEC = st.one_of(st.sampled_from([0.0, 90.0, -90.0, 89.9]), fl(-90, 90))


@st.composite
def cases(draw):
    rad = draw(st.one_of(fx(0.05, 3, 3), fx(0.5, 30, 2)))
    rows = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "fra": RA,
                    "fdec": DEC,
                    "b": fl(0, 360),
                    "q": st.one_of(fx(0, 0.999, 3), fx(0.99, 1.01, 4), fx(1.001, 2.5, 3), st.just(0.0)),
                    "shift": st.sampled_from([0, 0, 0, 360, -360]),
                }
            ),
            min_size=1,
            max_size=14,
        )
    )
    return {"rad": rad, "rows": rows, "fill": draw(st.sampled_from([None, None, 1.0])), "seed": draw(st.integers(0, 10**6)), "bulk": draw(BULK), "index": draw(st.sampled_from(["range", "gaps"]))}


def frame(case):
    import pandas as pd

    pts = [offset_point(r["fra"], r["fdec"], r["b"], r["q"] * case["rad"]) for r in case["rows"]]
    picks = spread(len(pts), case["bulk"])
    pts = [pts[i] for i in picks]
    rows = [case["rows"][i] for i in picks]
    n = len(pts)
    return pd.DataFrame(
        {
            "ObjID": [f"o{i}" for i in range(n)],
            "RA_deg": [p[0] for p in pts],
            "Dec_deg": [p[1] for p in pts],
            "fieldRA_deg": [r["fra"] + r["shift"] for r in rows],
            "fieldDec_deg": [r["fdec"] for r in rows],
            "mag": np.arange(n) * 0.5,
        },
        index=None if case["index"] == "range" else [3 * i + 2 for i in range(n)],
    )


@PROP.check(cases(), quick=900, thorough=20000)
def circle(case, ctx):
    from sorcha.modules.PPApplyFOVFilter import PPApplyFOVFilter, PPCircleFootprint, PPGetSeparation

    df = frame(case)
    orig = df.copy()
    sep = sep_deg(df["RA_deg"].values, df["Dec_deg"].values, df["fieldRA_deg"].values, df["fieldDec_deg"].values)
    if case["fill"] is None:
        out = PPCircleFootprint(df, case["rad"])
        cfg = config({"FOV": {"camera_model": "circle", "circle_radius": case["rad"]}})
    else:
        cfg = config({"FOV": {"camera_model": "circle", "circle_radius": case["rad"], "fill_factor": case["fill"]}})
        out = None
    out2 = PPApplyFOVFilter(orig.copy(), cfg, rngs(case["seed"]))
    inside, outside = sep < case["rad"] - 1e-7, sep > case["rad"] + 1e-7
    ctx.nontrivial(inside.any() and outside.any())
    ctx.tag("polar" if np.any(np.abs(df["fieldDec_deg"]) > 89) else "nonpolar", f"fill={case['fill']}")
    for o in (out, out2):
        if o is None:
            continue
        ids = list(o["ObjID"])
        require(ids == sorted(ids, key=lambda s: int(s[1:])), "row order changed or rows repeated", ids=ids)
        require(list(o.columns) == list(orig.columns), "columns changed", got=list(o.columns))
        got = {int(s[1:]) for s in ids}
        for i in range(len(orig)):
            if inside[i]:
                require(i in got, "a source inside the circle was dropped", sep=sep[i], radius=case["rad"])
            if outside[i]:
                require(i not in got, "a source outside the circle was kept", sep=sep[i], radius=case["rad"])
        m = orig.set_index("ObjID").loc[ids]
        require(list(m["mag"]) == list(o["mag"]) and list(m["RA_deg"]) == list(o["RA_deg"]), "values of surviving rows changed")
    for i in range(min(3, len(orig))):
        r = orig.iloc[i]
        s = float(PPGetSeparation(r["RA_deg"], r["Dec_deg"], r["fieldRA_deg"], r["fieldDec_deg"]))
        require(abs(s - sep[i]) < 1e-7, "separation wrong", got=s, want=sep[i])


@PROP.check(
    st.fixed_dictionaries({"fill": st.one_of(fx(0.01, 0.99, 2), st.sampled_from([1.0, 0.5])), "seed": st.integers(0, 2**31), "direct": st.booleans(), "n": st.sampled_from([3000] * 6 + [400, 12000, 30000])}),
    quick=240,
    thorough=4000,
)
def fill_factor(case, ctx):
    import pandas as pd
    from sorcha.modules.PPApplyFOVFilter import PPApplyFOVFilter, PPSimpleSensorArea

    n = case["n"]
    df = pd.DataFrame({"ObjID": np.arange(n), "RA_deg": np.zeros(n), "Dec_deg": np.zeros(n), "fieldRA_deg": np.zeros(n), "fieldDec_deg": np.zeros(n), "FieldID": np.arange(n) // 100})
    cfg = config({"FOV": {"camera_model": "circle", "fill_factor": case["fill"]}})

    def run(rng):
        return PPSimpleSensorArea(df.copy(), rng, case["fill"]) if case["direct"] else PPApplyFOVFilter(df.copy(), cfg, rng)

    rng = rngs(case["seed"])
    a, b = run(rng), run(rng)
    again = run(rngs(case["seed"]))
    other = run(rngs(case["seed"] + 1))
    ctx.nontrivial(True)
    p = case["fill"]
    B = 6.5
    require(a.equals(again), "same seed, different selection")
    kept = []
    for o in (a, b, other):
        ids = o["ObjID"].values
        require(np.all(np.diff(ids) > 0), "rows reordered or repeated")
        k = np.zeros(n)
        k[ids] = 1
        kept.append(k)
        s = np.sqrt(p * (1 - p) / n)
        require(abs(k.mean() - p) <= B * s + 1e-12, "fraction kept is not the fill factor", kept=k.mean(), fill=p)
    if 0.05 < p < 0.95:
        z = [(k - p) / np.sqrt(p * (1 - p)) for k in kept]
        require(abs(np.mean(z[0][1:] * z[0][:-1])) < B / np.sqrt(n), "selection of neighbouring rows is correlated")
        far, lag = serial(z[0])
        require(far < 14, "selection of rows far apart is correlated", lag=lag, sigmas=far)
        require(abs(np.mean(z[0] * z[1])) < B / np.sqrt(n), "a second batch repeats the selection of the first")
        require(abs(np.mean(z[0] * z[2])) < B / np.sqrt(n), "different seeds give correlated selections")


@PROP.check(st.fixed_dictionaries({"rad": st.one_of(st.none(), fx(0.1, 3, 2)), "n": st.integers(1, 20), "seed": st.integers(0, 99)}), quick=80, thorough=500)
def zero_limits(case, ctx):
    """Zero fill factor (legal in the configuration) observes nothing."""
    import pandas as pd
    from sorcha.modules.PPApplyFOVFilter import PPApplyFOVFilter

    n = case["n"]
    df = pd.DataFrame({"ObjID": np.arange(n), "RA_deg": np.zeros(n), "Dec_deg": np.zeros(n), "fieldRA_deg": np.zeros(n), "fieldDec_deg": np.zeros(n)})
    fov = {"camera_model": "circle", "fill_factor": 0.0}
    if case["rad"] is not None:
        fov["circle_radius"] = case["rad"]
    out = PPApplyFOVFilter(df, config({"FOV": fov}), rngs(case["seed"]))
    ctx.nontrivial(True)
    require(len(out) == 0, "fill_factor = 0 keeps observations", kept=len(out))
    out = PPApplyFOVFilter(df, config({"FOV": {"camera_model": "circle", "circle_radius": 0.0}}), rngs(case["seed"]))
    require(len(out) == 0, "circle_radius = 0 keeps observations", kept=len(out))
