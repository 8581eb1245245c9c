"""C18: magnitude, signal-to-noise and saturation limits keep exactly the rows they should."""
import numpy as np
from hypothesis import strategies as st

from vlib.core import Property, require
from vlib.gen import BULK, LSST, config, fx, spread

PROP = Property(
    "C18",
    rule="Tables of 1-25 observations with generated magnitudes, SNRs, filters and arbitrary row labels, limits drawn "
    "from the range of the data (including equal to a value for saturation lists); non-trivial = at least one row "
    "kept and one dropped.",
    assumptions=["magnitudes and signal-to-noise ratios exactly equal to their limit are not judged; what is as bright as the saturation limit stays (only what is brighter is removed)"],
)

MAG = st.one_of(fx(14, 26, 2), fx(14, 26, 2), fx(-6, 45, 2))
SNR = st.one_of(fx(0.01, 40, 2), fx(0.01, 40, 2), fx(0.01, 5000, 2))


@st.composite
def cases(draw):
    filters = draw(st.permutations(LSST))[: draw(st.integers(1, 6))]
    rows = draw(
        st.lists(
            st.fixed_dictionaries(
                {"f": st.sampled_from(filters), "psf": MAG, "tr": MAG, "snr": SNR, "snrt": SNR}
            ),
            min_size=1,
            max_size=25,
        )
    )
    if draw(st.integers(0, 2)) > 0:
        lim = draw(st.lists(MAG, min_size=len(filters), max_size=len(filters)))
    else:
        lim = draw(MAG)
    if draw(st.booleans()):  # as bright as the limit, and no brighter
        r = draw(st.sampled_from(rows))
        if isinstance(lim, list):
            lim[filters.index(r["f"])] = r["psf"]
        else:
            lim = r["psf"]
    index = draw(st.sampled_from(["range", "gaps", "reversed"]))
    return {"filters": list(filters), "rows": rows, "bright": lim, "snr": draw(SNR), "mag": draw(MAG), "index": index, "bulk": draw(BULK)}


def frame(case):
    import pandas as pd

    rs = [case["rows"][i] for i in spread(len(case["rows"]), case["bulk"])]
    n = len(rs)
    idx = {"range": range(n), "gaps": [5 * i + 3 for i in range(n)], "reversed": list(range(n))[::-1]}[case["index"]]
    return pd.DataFrame(
        {
            "ObjID": [f"o{i}" for i in range(n)],
            "optFilter": [r["f"] for r in rs],
            "PSFMag": [r["psf"] for r in rs],
            "trailedSourceMag": [r["tr"] for r in rs],
            "SNRPSFMag": [r["snr"] for r in rs],
            "SNRTrailedSourceMag": [r["snrt"] for r in rs],
            "PSFMagTrue": [40 - r["psf"] for r in rs],
            "trailedSourceMagTrue": [40 - r["tr"] for r in rs],
        },
        index=idx,
    )


def judge(orig, out, must_keep, must_drop, what):
    ids = list(out["ObjID"])
    k = set(ids)
    want_order = [i for i in orig["ObjID"] if i in k]
    require(ids == want_order, f"{what}: rows reordered or repeated", got=ids)
    for i, keep, drop in zip(orig["ObjID"], must_keep, must_drop):
        if keep:
            require(i in k, f"{what}: a row within the limit was dropped", row=i)
        if drop:
            require(i not in k, f"{what}: a row beyond the limit was kept", row=i)
    require(list(out.columns) == list(orig.columns), f"{what}: columns changed")
    require(out.reset_index(drop=True).equals(orig.set_index("ObjID", drop=False).loc[ids].reset_index(drop=True)) or not ids, f"{what}: values of surviving rows changed")


@PROP.check(cases(), quick=1500, thorough=30000)
def limits(case, ctx):
    from sorcha.modules.PPBrightLimit import PPBrightLimit
    from sorcha.modules.PPMagnitudeLimit import PPMagnitudeLimit
    from sorcha.modules.PPSNRLimit import PPSNRLimit

    o = frame(case)
    out = PPSNRLimit(o.copy(), case["snr"])
    judge(o, out, o["SNRPSFMag"] > case["snr"], o["SNRPSFMag"] < case["snr"], "SNR limit")
    n1 = len(out)
    out = PPMagnitudeLimit(o.copy(), case["mag"])
    judge(o, out, o["trailedSourceMag"] < case["mag"], o["trailedSourceMag"] > case["mag"], "magnitude limit")
    n2 = len(out)
    b = case["bright"]
    lim = dict(zip(case["filters"], b)) if isinstance(b, list) else {f: b for f in case["filters"]}
    l = o["optFilter"].map(lim)
    out = PPBrightLimit(o.copy(), list(case["filters"]), b)
    judge(o, out, o["PSFMag"] >= l, o["PSFMag"] < l, "saturation limit")
    ctx.nontrivial(any(0 < k < len(o) for k in (n1, n2, len(out))))
    ctx.tag("list" if isinstance(b, list) else "single", "index=" + case["index"])
    if n1 > 0:
        require(PPSNRLimit(PPSNRLimit(o.copy(), case["snr"]), case["snr"]).equals(PPSNRLimit(o.copy(), case["snr"])), "SNR limit not idempotent")


@PROP.check(cases(), quick=300, thorough=5000)
def limits_from_configuration(case, ctx):
    """The limits as the configuration parses them: order of filters, one value for all, list per filter."""
    from sorcha.modules.PPBrightLimit import PPBrightLimit

    b = case["bright"]
    text = ", ".join(str(x) for x in b) if isinstance(b, list) else str(b)
    cfg = config({"FILTERS": {"observing_filters": ",".join(case["filters"])}, "SATURATION": {"bright_limit": text}})
    require(cfg.saturation.bright_limit_on, "saturation limit not switched on")
    o = frame(case)
    out = PPBrightLimit(o.copy(), cfg.filters.observing_filters, cfg.saturation.bright_limit)
    lim = dict(zip(case["filters"], b)) if isinstance(b, list) else {f: b for f in case["filters"]}
    l = o["optFilter"].map(lim)
    judge(o, out, o["PSFMag"] >= l, o["PSFMag"] < l, "saturation limit")
    ctx.nontrivial(0 < len(out) < len(o))
