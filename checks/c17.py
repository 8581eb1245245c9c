"""C17: the detection-efficiency (fading) function decides each observation with the documented probability."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Property, require
from vlib.gen import BULK, fl, fx, relclose, rngs, serial, spread

PROP = Property(
    "C17",
    rule="(a) generated magnitudes, depths, widths, peak efficiencies (LSST) or c, k, transient efficiency (DES): "
    "probability compared with the published formula; (b) tables of generated rows replicated to 600-30000, kept fraction "
    "per magnitude class judged with 6.5-sigma binomial bounds. Non-trivial = a probability strictly between 1% and 99%.",
    assumptions=["numpy's uniform generator is uniform"],
)

lsst_rows = st.lists(
    st.fixed_dictionaries({"dm": st.one_of(fl(-0.6, 0.6), fl(-10, 10), st.just(0.0)), "m5": fx(18, 27, 3), "chip": fx(-0.5, 0.5, 3)}), min_size=1, max_size=10
)


def lsst_frame(rs, chip):
    import pandas as pd

    df = pd.DataFrame(
        {
            "ObjID": [f"o{i}" for i in range(len(rs))],
            "PSFMag": [r["m5"] + r["dm"] for r in rs],
            "trailedSourceMag": [r["m5"] + r["dm"] - 0.7 for r in rs],
            "PSFMagTrue": [r["m5"] - 0.3 for r in rs],
            "fiveSigmaDepth_mag": [r["m5"] for r in rs],
            "fieldFiveSigmaDepth_mag": [r["m5"] + 0.4 for r in rs],
            "optFilter": ["r"] * len(rs),
        }
    )
    if chip:
        df["limMag_perChip"] = [r["m5"] + r["chip"] for r in rs]
    return df


def p_lsst(mag, lim, F, w):
    x = np.clip((mag - lim) / w, -700, 700)
    return F / (1 + np.exp(x))


WIDTH = fx(0.02, 0.5, 2)
PEAK = st.one_of(st.sampled_from([1.0, 0.5]), fx(0.05, 1.0, 2))


@PROP.check(
    st.fixed_dictionaries({"rows": lsst_rows, "bulk": BULK, "F": PEAK, "w": WIDTH, "chip": st.booleans()}), quick=1200, thorough=20000
)
def probability_lsst(case, ctx):
    from sorcha.modules.PPDetectionProbability import PPDetectionProbability, calcDetectionProbability

    few = case["rows"]
    rs = [few[i] for i in spread(len(few), case["bulk"])]
    df = lsst_frame(rs, case["chip"])
    got = np.asarray(PPDetectionProbability(df, fillFactor=case["F"], w=case["w"]))
    lim = df["limMag_perChip"] if case["chip"] else df["fiveSigmaDepth_mag"]
    want = p_lsst(df["PSFMag"].values, lim.values, case["F"], case["w"])
    ctx.nontrivial(np.any((want > 0.01) & (want < 0.99)))
    require(relclose(got, want, atol=1e-12), "detection probability wrong", got=got.tolist(), want=want.tolist())
    require(np.all((got >= 0) & (got <= case["F"])), "probability outside [0, peak]")
    for r in few:
        require(abs(calcDetectionProbability(r["m5"], r["m5"], case["F"], case["w"]) - case["F"] / 2) < 1e-12, "probability at the limit is not half the peak")
    tl = df.assign(dmagDetect=[abs(r["dm"]) for r in rs])
    got = np.asarray(PPDetectionProbability(tl, trailing_losses=True, fillFactor=case["F"], w=case["w"]))
    want = p_lsst(df["PSFMag"].values + np.abs([r["dm"] for r in rs]), lim.values, case["F"], case["w"])
    require(relclose(got, want, atol=1e-12), "probability with trailing losses wrong")


des_rows = st.lists(
    st.fixed_dictionaries({"dm": st.one_of(fl(-1, 1), fl(-8, 8), st.just(0.0)), "m5": fx(20, 25, 3), "c": fx(0.5, 1, 3), "k": fx(1, 12, 2)}), min_size=1, max_size=10
)


def des_frame(rs):
    import pandas as pd

    return pd.DataFrame(
        {
            "ObjID": [f"o{i}" for i in range(len(rs))],
            "PSFMag": [r["m5"] + r["dm"] for r in rs],
            "fiveSigmaDepth_mag": [r["m5"] for r in rs],
            "fieldFiveSigmaDepth_mag": [r["m5"] for r in rs],
            "limMag_perChip": [r["m5"] + 0.3 for r in rs],
            "c": [r["c"] for r in rs],
            "k": [r["k"] for r in rs],
            "optFilter": ["r"] * len(rs),
        }
    )


@PROP.check(st.fixed_dictionaries({"rows": des_rows, "bulk": BULK, "t": PEAK}), quick=800, thorough=20000)
def probability_des(case, ctx):
    from sorcha.modules.DESDetectionProbability import DESDetectionProbability

    rs = [case["rows"][i] for i in spread(len(case["rows"]), case["bulk"])]
    got = np.asarray(DESDetectionProbability(des_frame(rs), case["t"]))
    want = np.array([case["t"] * r["c"] / (1 + np.exp(r["k"] * ((r["m5"] + r["dm"]) - r["m5"]))) for r in rs])
    ctx.nontrivial(np.any((want > 0.01) & (want < 0.99)))
    require(relclose(got, want, atol=1e-12, rtol=1e-8), "DES detection probability wrong", got=got.tolist(), want=want.tolist())


@PROP.check(
    st.fixed_dictionaries(
        {
            "survey": st.sampled_from(["lsst", "des"]),
            "lrows": st.lists(st.fixed_dictionaries({"dm": st.one_of(fl(-0.3, 0.3), fl(-3, 3)), "m5": fx(18, 27, 3), "chip": fx(-0.2, 0.2, 3)}), min_size=1, max_size=6),
            "drows": st.lists(st.fixed_dictionaries({"dm": fl(-1, 1), "m5": fx(20, 25, 3), "c": fx(0.5, 1, 3), "k": fx(1, 12, 2)}), min_size=1, max_size=6),
            "F": PEAK,
            "w": WIDTH,
            "chip": st.booleans(),
            "n": st.sampled_from([2400] * 6 + [600, 12000, 30000]),
            "seed": st.integers(0, 2**31),
            "gap_index": st.booleans(),
        }
    ),
    quick=240,
    thorough=4000,
)
def selection(case, ctx):
    from sorcha.modules.DESFadingFunctionFilter import DESFadingFunctionFilter
    from sorcha.modules.PPFadingFunctionFilter import PPFadingFunctionFilter

    n = case["n"]
    lsst = case["survey"] == "lsst"
    tpl = case["lrows"] if lsst else case["drows"]
    rs = [tpl[i % len(tpl)] for i in range(n)]
    base = lsst_frame(rs, case["chip"]) if lsst else des_frame(rs)
    if case["gap_index"]:
        base.index = np.arange(n) * 2 + 5
    if lsst:
        lim = base["limMag_perChip"] if case["chip"] else base["fiveSigmaDepth_mag"]
        P = p_lsst(base["PSFMag"].values, lim.values, case["F"], case["w"])
    else:
        P = (case["F"] * base["c"] / (1 + np.exp(base["k"] * (base["PSFMag"] - base["fiveSigmaDepth_mag"])))).values

    def run(rng, F):
        if lsst:
            return PPFadingFunctionFilter(base.copy(), F, case["w"], rng)
        return DESFadingFunctionFilter(base.copy(), F, rng)

    rng = rngs(case["seed"])
    a, b = run(rng, case["F"]), run(rng, case["F"])
    again, other, half = run(rngs(case["seed"]), case["F"]), run(rngs(case["seed"] + 1), case["F"]), run(rngs(case["seed"]), case["F"] / 2)
    ctx.nontrivial(np.any((P > 0.01) & (P < 0.99)))
    ctx.tag(case["survey"], "chip" if lsst and case["chip"] else "-")
    require(a.equals(again), "same seed, different detections")
    require(list(a.columns) == list(base.columns), "columns changed", got=list(a.columns))
    B = 6.5
    ks = []
    for o in (a, b, other, half):
        ids = np.array([int(s[1:]) for s in o["ObjID"]], dtype=int)
        require(np.all(np.diff(ids) > 0), "rows reordered or repeated")
        require(np.array_equal(o["PSFMag"].values, base["PSFMag"].values[ids]), "values of surviving rows changed")
        k = np.zeros(n, dtype=bool)
        k[ids] = True
        ks.append(k)
    require(not np.any(ks[3] & ~ks[0]), "with the same seed a lower efficiency detects more")
    m = len(tpl)
    for j in range(m):
        p = P[j]
        cls = np.arange(n) % m == j
        cnt = cls.sum()
        for k in ks[:3]:
            require(
                abs(k[cls].mean() - p) <= B * np.sqrt(max(p * (1 - p), 2.0 / cnt) / cnt),
                "fraction detected is not the detection probability",
                got=k[cls].mean(),
                want=p,
                n=int(cnt),
            )
        require(abs(ks[3][cls].mean() - p / 2) <= B * np.sqrt(max(p / 2 * (1 - p / 2), 2.0 / cnt) / cnt), "fraction detected does not scale with the efficiency")
    s = np.sqrt(P * (1 - P))
    ok = s > 0.1
    if ok.sum() > 500:
        z = [np.where(ok, (k - P) / np.where(ok, s, 1), 0.0) for k in ks]
        v = np.sqrt(ok.sum())
        require(abs(np.sum(z[0] * z[1])) < 2 * B * v, "a second batch repeats the draws of the first")
        require(abs(np.sum(z[0] * z[2])) < 2 * B * v, "different seeds give correlated draws")
        require(abs(np.sum(z[0][1:] * z[0][:-1])) < 2 * B * v, "draws of neighbouring rows are correlated")
        mid = s > 0.29
        far, lag = serial(np.where(mid, (ks[0] - P) / np.where(mid, s, 1), 0.0))
        require(far < 14, "draws of rows far apart are correlated", lag=lag, sigmas=far)


@PROP.check(
    st.fixed_dictionaries({"p": st.one_of(fx(0.0, 1.0, 2), st.sampled_from([0.0, 1.0])), "n": st.integers(1, 60), "seed": st.integers(0, 2**31)}), quick=400, thorough=6000
)
def extremes_and_efficiency(case, ctx):
    """Probability 1 keeps every row, 0 none; the object-level efficiency behaves the same way."""
    import pandas as pd
    from sorcha.modules.PPDetectionEfficiency import PPDetectionEfficiency
    from sorcha.modules.PPDropObservations import PPDropObservations

    n, p = case["n"], case["p"]
    df = pd.DataFrame({"ObjID": np.arange(n), "detection probability": np.full(n, p), "q": np.full(n, 1 - p)})
    out = PPDropObservations(df.copy(), rngs(case["seed"]))
    alt = PPDropObservations(df.copy(), rngs(case["seed"]), probability="q")
    eff = PPDetectionEfficiency(df.copy(), p, rngs(case["seed"]))
    ctx.nontrivial(0 < p < 1)
    for o, pp in ((out, p), (eff, p), (alt, 1 - p)):
        if pp == 1:
            require(len(o) == n, "a certain detection was dropped")
        if pp == 0:
            require(len(o) == 0, "an impossible detection was kept")
        require(list(o["ObjID"]) == sorted(set(o["ObjID"])), "rows reordered or repeated")
