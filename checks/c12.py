"""C12: signal-to-noise, photometric and astrometric uncertainties follow the documented LSST model."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Property, require
from vlib.gen import BULK, config, fl, fx, relclose, rngs, spread

PROP = Property(
    "C12",
    rule="Tables of 1-10 observations with generated magnitudes, depths, seeing, motion, with trailing losses on and "
    "off; non-trivial = at least one source between 5 mag brighter and 2 mag fainter than the local depth.",
    assumptions=["LSST overview paper constants: gamma 0.039, systematic 10 mas, coefficient 0.60"],
)

rows = st.lists(
    st.fixed_dictionaries(
        {
            "dm": st.one_of(fl(-6, 2), fl(-12, 4), fl(-25, 9)),
            "m5": fx(19, 26, 3),
            "m5field": fx(0, 0.9, 3),
            "loss": fx(0, 1.5, 3),
            "geom": st.one_of(fl(0.4, 2.5), fl(0.05, 12)),
            "eff": fl(0.4, 2.5),
            "vra": st.one_of(st.just(0.0), fl(-10, 10), fl(-300, 300)),
            "vdec": st.one_of(st.just(0.0), fl(-10, 10), fl(-300, 300)),
            "texp": st.one_of(st.sampled_from([15.0, 30.0, 90.0]), fl(0.5, 1000)),
        }
    ),
    min_size=1,
    max_size=10,
)


def frame(rs):
    import pandas as pd

    return pd.DataFrame(
        {
            "ObjID": [f"o{i}" for i in range(len(rs))],
            "trailedSourceMagTrue": [r["m5"] + r["dm"] for r in rs],
            "PSFMagTrue": [r["m5"] + r["dm"] + r["loss"] for r in rs],
            "fiveSigmaDepth_mag": [r["m5"] for r in rs],
            "fieldFiveSigmaDepth_mag": [r["m5"] + r["m5field"] for r in rs],
            "seeingFwhmGeom_arcsec": [r["geom"] for r in rs],
            "seeingFwhmEff_arcsec": [r["eff"] for r in rs],
            "RARateCosDec_deg_day": [r["vra"] for r in rs],
            "DecRate_deg_day": [r["vdec"] for r in rs],
            "visitExposureTime": [r["texp"] for r in rs],
            "RA_deg": [10.0] * len(rs),
            "Dec_deg": [-10.0] * len(rs),
        }
    )


def snr(mag, m5):
    x = 10 ** (0.4 * (mag - m5))
    return 1 / np.sqrt(0.001 * x + 0.039 * x * x)


@PROP.check(st.fixed_dictionaries({"rows": rows, "bulk": BULK, "trail": st.booleans(), "seed": st.integers(0, 1000)}), quick=1500, thorough=30000)
def uncertainties(case, ctx):
    from sorcha.modules import PPAddUncertainties

    rs = case["rows"]
    rs = [rs[i] for i in spread(len(rs), case["bulk"])]
    df = frame(rs)
    orig = df.copy()
    cfg = config({"EXPERT": {"trailing_losses_on": case["trail"]}})
    out = PPAddUncertainties.addUncertainties(df, cfg, rngs(case["seed"]))
    ctx.nontrivial(any(-5 < r["dm"] < 2 for r in rs))
    ctx.tag("trailing" if case["trail"] else "no trailing")
    require(len(out) == len(rs) and list(out["ObjID"]) == list(orig["ObjID"]), "rows changed")
    require(out[list(orig.columns)].equals(orig), "input columns changed")
    v = np.hypot(orig["RARateCosDec_deg_day"], orig["DecRate_deg_day"]) / 24
    x = v * orig["visitExposureTime"] / orig["seeingFwhmGeom_arcsec"]
    dmag = 1.25 * np.log10(1 + 0.761 * x**2 / (1 + 1.162 * x)) if case["trail"] else 0.0
    s_t = snr(orig["trailedSourceMagTrue"] + dmag, orig["fiveSigmaDepth_mag"]).values
    s_p = snr(orig["PSFMagTrue"], orig["fiveSigmaDepth_mag"]).values
    require(relclose(out["SNRTrailedSourceMag"], s_t, atol=0), "trailed-source SNR wrong", got=out["SNRTrailedSourceMag"].tolist(), want=s_t.tolist())
    require(relclose(out["SNRPSFMag"], s_p, atol=0), "PSF SNR wrong", got=out["SNRPSFMag"].tolist(), want=s_p.tolist())
    require(relclose(out["trailedSourceMagSigma"], 2.5 * np.log10(1 + 1 / s_t), atol=0, rtol=1e-7), "trailed-source magnitude uncertainty wrong")
    require(relclose(out["PSFMagSigma"], 2.5 * np.log10(1 + 1 / s_p), atol=0, rtol=1e-7), "PSF magnitude uncertainty wrong")
    ast = np.sqrt(10.0**2 + (0.60 * orig["seeingFwhmGeom_arcsec"].values * 1000 / s_t) ** 2) / 3.6e6
    require(relclose(out["astrometricSigma_deg"], ast, atol=0), "astrometric uncertainty wrong", got=out["astrometricSigma_deg"].tolist(), want=ast.tolist())
    require(np.all(out["astrometricSigma_deg"] >= 10 / 3.6e6 * (1 - 1e-9)), "astrometric uncertainty below the systematic floor")


@PROP.check(
    st.fixed_dictionaries(
        {"mag": fl(0, 34), "m5": fl(18, 27), "fwhm": fl(300, 3000), "nv": st.sampled_from([1, 1, 2, 4, 10]), "units": st.sampled_from(["mas", "arcsec"]), "sys": fl(0, 50)}
    ),
    quick=1000,
    thorough=20000,
)
def scalar_model(case, ctx):
    """The error model on scalars: 5 sigma at the depth, sqrt(N) scaling, floor, units, monotone."""
    from sorcha.modules.PPAddUncertainties import calcAstrometricUncertainty, calcPhotometricUncertainty

    kw = dict(nvisit=case["nv"], FWHMeff=case["fwhm"], error_sys=case["sys"], output_units=case["units"])
    tot, s, rand = calcAstrometricUncertainty(case["mag"], case["m5"], **kw)
    f = 1000.0 if case["units"] == "arcsec" else 1.0
    ctx.nontrivial(abs(case["mag"] - case["m5"]) < 6)
    w = snr(case["mag"], case["m5"])
    require(relclose(s, w, atol=0), "SNR wrong", got=s, want=w)
    require(relclose(rand * f, 0.6 * case["fwhm"] / w / np.sqrt(case["nv"]), atol=0), "random astrometric error wrong")
    require(relclose(tot * f, np.hypot(case["sys"], rand * f), atol=0), "total astrometric error wrong")
    require(relclose(calcPhotometricUncertainty(s), 2.5 * np.log10(1 + 1 / w), atol=0, rtol=1e-7), "photometric error wrong")
    require(abs(calcAstrometricUncertainty(case["m5"], case["m5"])[1] - 5.0) < 1e-9, "a source at the 5-sigma depth does not have SNR 5")
    require(calcAstrometricUncertainty(case["mag"] + 0.5, case["m5"], **kw)[1] < s, "a fainter source has a higher SNR")
    require(calcAstrometricUncertainty(case["mag"], case["m5"] + 0.5, **kw)[1] > s, "a deeper field gives a lower SNR")
