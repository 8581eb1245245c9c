"""C10: trailing losses follow Veres & Chesley (2017) and behave like a loss."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Property, require
from vlib.gen import BULK, fl, fx, relclose, spread

PROP = Property(
    "C10",
    rule="Tables of 1-12 observations with generated sky motion, seeing and exposure time, for both loss models; "
    "non-trivial = at least one observation whose trail is longer than a tenth of the seeing disk.",
    assumptions=["coefficients of Veres & Chesley 2017 as documented"],
)

rows = st.lists(
    st.fixed_dictionaries(
        {
            "vra": st.one_of(st.just(0.0), fl(-1e-3, 1e-3), fl(-1, 1), fl(-40, 40), fl(-600, 600)),
            "vdec": st.one_of(st.just(0.0), fl(-1e-3, 1e-3), fl(-1, 1), fl(-40, 40), fl(-600, 600)),
            "eff": st.one_of(fl(0.3, 3.5), fl(0.05, 12)),
            "geom": st.one_of(fl(0.3, 3.5), fl(0.05, 12)),
            "texp": st.one_of(st.sampled_from([15.0, 30.0, 90.0]), fl(1, 400), fl(0.01, 5000)),
            "dec": fl(-90, 90),
        }
    ),
    min_size=1,
    max_size=12,
)


def frame(rs):
    import pandas as pd

    return pd.DataFrame(
        {
            "RARateCosDec_deg_day": [r["vra"] for r in rs],
            "DecRate_deg_day": [r["vdec"] for r in rs],
            "Dec_deg": [r["dec"] for r in rs],
            "seeingFwhmEff_arcsec": [r["eff"] for r in rs],
            "seeingFwhmGeom_arcsec": [r["geom"] for r in rs],
            "visitExposureTime": [r["texp"] for r in rs],
        }
    )


def ref(model, vra, vdec, seeing, texp):
    a, b = (0.761, 1.162) if model == "trailedSource" else (0.420, 0.003)
    arcsec_per_s = np.hypot(vra, vdec) * 3600.0 / 86400.0
    x = arcsec_per_s * texp / seeing
    return 1.25 * np.log10(1 + a * x * x / (1 + b * x))


@PROP.check(st.fixed_dictionaries({"rows": rows, "bulk": BULK, "model": st.sampled_from(["circularPSF", "trailedSource"])}), quick=1500, thorough=40000)
def loss(case, ctx):
    from sorcha.modules.PPTrailingLoss import PPTrailingLoss, calcTrailingLoss

    rs, model = case["rows"], case["model"]
    few = rs
    rs = [rs[i] for i in spread(len(rs), case["bulk"])]
    df = frame(rs)
    keep = df.copy()
    got = np.asarray(PPTrailingLoss(df, model))
    want = [ref(model, r["vra"], r["vdec"], r["eff"], r["texp"]) for r in rs]
    ctx.nontrivial(any(np.hypot(r["vra"], r["vdec"]) / 24 * r["texp"] > 0.1 * r["eff"] for r in rs))
    ctx.tag(model)
    require(relclose(got, want), "trailing loss differs from the documented formula", got=got.tolist(), want=want)
    require(np.all(got >= 0), "trailing brightens a source", got=got.tolist())
    require(df.equals(keep), "computing the loss changed the observations")
    for r, g in list(zip(rs, got))[: len(few)]:
        if r["vra"] == 0 and r["vdec"] == 0:
            require(g == 0, "a stationary source loses flux to trailing")
        one = calcTrailingLoss(r["vra"], r["vdec"], r["eff"], texp=r["texp"], model=model)
        require(relclose(one, g), "scalar and table evaluation disagree")
        # direction of motion is irrelevant; longer trails lose more
        require(relclose(calcTrailingLoss(r["vdec"], -r["vra"], r["eff"], texp=r["texp"], model=model), g), "loss depends on the direction of motion")
        require(calcTrailingLoss(r["vra"] * 2, r["vdec"] * 2, r["eff"], texp=r["texp"], model=model) >= g - 1e-12, "faster motion loses less")
        require(calcTrailingLoss(r["vra"], r["vdec"], r["eff"] * 2, texp=r["texp"], model=model) <= g + 1e-12, "worse seeing trails more")


@PROP.check(rows, quick=300, thorough=6000)
def default_model_is_detection_loss(case, ctx):
    """Without a model the detection (circular PSF) loss is used, with the effective seeing."""
    from sorcha.modules.PPTrailingLoss import PPTrailingLoss, calcTrailingLoss

    rs = case
    got = np.asarray(PPTrailingLoss(frame(rs)))
    want = [ref("circularPSF", r["vra"], r["vdec"], r["eff"], r["texp"]) for r in rs]
    ctx.nontrivial(max(want) > 0.01)
    require(relclose(got, want), "default trailing loss is not the detection loss")
    g30 = [float(calcTrailingLoss(r["vra"], r["vdec"], r["eff"])) for r in rs]
    require(relclose(g30, [ref("circularPSF", r["vra"], r["vdec"], r["eff"], 30.0) for r in rs]), "default exposure time is not 30 s")
