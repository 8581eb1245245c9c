"""C11: vignetting: the limiting depth at the source's place in the field of view."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Property, require
from vlib.gen import BULK, fl, fx, offset_point, sep_deg, spread

PROP = Property(
    "C11",
    rule="Tables of 1-10 observations placed at a generated separation and bearing from a generated field centre "
    "(poles, RA wrap, beyond the table included); non-trivial = at least one source where vignetting is non-zero.",
    assumptions=["the vignetting table shipped with the code (VignettingFunc v3.3) is the specification at its nodes"],
)
# VignettingFunc_v3.3: fraction of unvignetted rays every 0.02 degrees from the centre of the field
FRAC = [
    0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885,
    0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885,
    0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623885, 0.623822, 0.623759, 0.623632,
    0.623442, 0.623316, 0.623000, 0.622494, 0.622367, 0.621861, 0.621671, 0.621292, 0.621039, 0.620659, 0.620216, 0.619963,
    0.619394, 0.619204, 0.618635, 0.618319, 0.618066, 0.617496, 0.617117, 0.616737, 0.616168, 0.615535, 0.614840, 0.614207,
    0.613385, 0.612436, 0.611614, 0.610602, 0.609716, 0.608957, 0.608071, 0.606996, 0.605668, 0.604972, 0.603770, 0.602758,
    0.601177, 0.599595, 0.598140, 0.595673, 0.594282, 0.592447, 0.590613, 0.588526, 0.586312, 0.584287, 0.582137, 0.580113,
    0.578025, 0.576064, 0.573344, 0.570561, 0.563730, 0.545322, 0.521412, 0.492757, 0.460624, 0.429565, 0.404959, 0.383073,
    0.356190, 0.317161, 0.279777, 0.241824, 0.201974,
]
NODES = [(round(0.02 * i, 2), f) for i, f in enumerate(FRAC)]
EDGE_LOSS = -2.5 * np.log10(0.201974 / 0.623885)

rows = st.lists(
    st.fixed_dictionaries(
        {
            "fra": st.one_of(st.sampled_from([0.0, 359.999, 180.0]), fl(0, 359.99)),
            "fdec": st.one_of(st.sampled_from([0.0, 89.9, -89.9, 90.0, -90.0]), fl(-90, 90)),
            "b": fl(0, 360),
            "s": st.one_of(fl(0, 0.7), fl(0.6, 2.0), fl(1.6, 2.1), st.just(0.0), fl(2.0, 5.0), fl(5.0, 170.0)),
            "m5": fx(18, 27, 3),
        }
    ),
    min_size=1,
    max_size=10,
)


def frame(rs):
    import pandas as pd

    pts = [offset_point(r["fra"], r["fdec"], r["b"], r["s"]) for r in rs]
    return pd.DataFrame(
        {
            "FieldID": range(len(rs)),
            "RA_deg": [p[0] for p in pts],
            "Dec_deg": [p[1] for p in pts],
            "fieldRA_deg": [r["fra"] for r in rs],
            "fieldDec_deg": [r["fdec"] for r in rs],
            "fieldFiveSigmaDepth_mag": [r["m5"] for r in rs],
        }
    )


@PROP.check(st.tuples(rows, BULK), quick=1500, thorough=40000)
def depth(case, ctx):
    from sorcha.modules import PPVignetting

    case, bulk = case
    df = frame(case).iloc[spread(len(case), bulk)].reset_index(drop=True)
    got = np.asarray(PPVignetting.vignettingEffects(df), dtype=float)
    loss = df["fieldFiveSigmaDepth_mag"].values - got
    sep = sep_deg(df["RA_deg"].values, df["Dec_deg"].values, df["fieldRA_deg"].values, df["fieldDec_deg"].values)
    ctx.nontrivial(np.any(loss > 1e-3))
    ctx.tag(*(["beyond"] if np.any(sep > 2.0) else []), *(["polar"] if np.any(np.abs(df["fieldDec_deg"]) > 89) else []))
    require(len(got) == len(df), "row count changed")
    require(np.all(np.isfinite(got)), "depth not finite", got=got.tolist())
    require(np.all(loss >= -1e-9), "vignetting makes the field deeper than at its centre", loss=loss.tolist())
    require(np.all(loss <= EDGE_LOSS + 1e-6), "loss larger than at the edge of the field", loss=loss.tolist())
    # on the curve, up to how it is interpolated between its nodes (of the fractions or of the magnitudes)
    r = np.array([n[0] for n in NODES])
    f = np.array([n[1] for n in NODES]) / 0.623885
    a, b = -2.5 * np.log10(np.interp(sep, r, f)), np.interp(sep, r, -2.5 * np.log10(f))
    slack = 1e-6 + 0.02 * np.abs(np.interp(sep + 0.01, r, -2.5 * np.log10(f)) - np.interp(sep - 0.01, r, -2.5 * np.log10(f)))
    require(np.all(loss >= np.minimum(a, b) - slack) and np.all(loss <= np.maximum(a, b) + slack), "loss off the vignetting curve", sep=sep.tolist(), loss=loss.tolist(), want=a.tolist())
    # farther out is never deeper, whatever field, bearing or position on the sky
    order = np.argsort(sep)
    require(np.all(np.diff(loss[order]) >= -1e-6), "loss not monotone in the distance from the field centre", sep=sep[order].tolist(), loss=loss[order].tolist())


@PROP.check(
    st.fixed_dictionaries({"s": st.sampled_from([n[0] for n in NODES]), "fra": fl(0, 359), "fdec": fl(-90, 90), "b": fl(0, 360), "m5": fx(18, 27, 2)}),
    quick=500,
    thorough=8000,
)
def nodes(case, ctx):
    from sorcha.modules import PPVignetting

    df = frame([case])
    got = float(np.asarray(PPVignetting.vignettingEffects(df))[0])
    want = case["m5"] + 2.5 * np.log10(dict(NODES)[case["s"]] / 0.623885)
    ctx.nontrivial(case["s"] > 0.7)
    require(abs(got - want) < 2e-5, "depth at a tabulated radius is wrong", got=got, want=want)


@PROP.check(
    st.fixed_dictionaries({"ra1": fl(0, 359.99), "dec1": fl(-90, 90), "ra2": fl(0, 359.99), "dec2": fl(-90, 90)}), quick=800, thorough=15000
)
def separation(case, ctx):
    """The separation used is the great-circle distance (antipodal pairs excluded, as documented)."""
    from sorcha.modules import PPVignetting

    a = [np.radians(case[k]) for k in ("ra1", "dec1", "ra2", "dec2")]
    want = float(sep_deg(*[case[k] for k in ("ra1", "dec1", "ra2", "dec2")]))
    if want > 179.9:
        return
    got = float(np.degrees(PPVignetting.haversine(*a)))
    ctx.nontrivial(want > 1e-3)
    require(abs(got - want) < 1e-6, "great-circle distance wrong", got=got, want=want)
