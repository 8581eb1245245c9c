"""C09: apparent magnitude = reduced magnitude in the observing filter + distance terms + plugins."""
import logging

import numpy as np
from hypothesis import strategies as st

from vlib.core import Property, require
from vlib.gen import AU_KM, BULK, LSST, fl, fx, relclose, spread

PROP = Property(
    "C09",
    rule="Tables of 1-10 observations of 1-4 objects over 1-6 filters with generated colours, phase-curve "
    "parameters (shared or per filter), distances and phase angles; non-trivial = at least two observations, and at "
    "least two different filters observed or a per-filter parameter or a plugin in use.",
    assumptions=[
        "sbpy's scalar HG1G2, HG12_Pen16 evaluations are trusted (HG and linear are recomputed independently)",
        "physical parameter values inside the ranges sbpy documents as valid",
    ],
)

PF = {"HG": ["GS"], "HG1G2": ["G1", "G2"], "HG12": ["G12"], "linear": ["S"], "none": []}
PRANGE = {
    "GS": fx(-0.2, 0.9, 3),
    "G1": fx(0.0, 0.9, 3),
    "G2": fx(0.0, 0.1, 3),
    "G12": fx(0.0, 0.9, 3),
    "S": fx(0.0, 0.12, 4),
}


@st.composite
def cases(draw):
    nf = draw(st.integers(1, 6))
    filters = draw(st.permutations(LSST))[:nf]
    main = draw(st.sampled_from(filters))
    fn = draw(st.sampled_from(list(PF)))
    perfilt = draw(st.booleans())
    objs = []
    for _ in range(draw(st.integers(1, 4))):
        o = {"H": draw(fx(2, 26, 3)), "col": {f: draw(fx(-2, 3, 3)) for f in filters if f != main}, "p": {}}
        for p in PF[fn]:
            if perfilt:
                for f in filters:
                    o["p"][p + f] = draw(PRANGE[p])
            else:
                o["p"][p] = draw(PRANGE[p])
        objs.append(o)
    obs = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "o": st.integers(0, len(objs) - 1),
                    "f": st.sampled_from(filters),
                    "delta": st.one_of(fl(0.01, 5), fl(5, 900)),
                    "sun": st.tuples(fl(-60, 60), fl(-60, 60), st.one_of(fl(0.2, 60), fl(-60, -0.2))),
                    "alpha": st.one_of(st.just(0.0), fl(0.001, 10), fl(10, 120), fl(120, 179)),
                    "t": fx(60000, 60010, 4),
                    "vary": fx(-1, 1, 2),
                }
            ),
            min_size=1,
            max_size=10,
        )
    )
    return {
        "filters": list(filters),
        "main": main,
        "fn": fn,
        "perfilt": perfilt,
        "objs": objs,
        "obs": obs,
        "lc": draw(st.sampled_from([None, None, "verif_lc"])),
        "ca": draw(st.sampled_from([None, None, "verif_ca"])),
        "sun_scalar": draw(st.booleans()),
        "extra": draw(st.booleans()),
        "bulk": draw(BULK),
    }


_SEEN = {}


def register():
    from sorcha.activity.activity_registration import CA_METHODS, update_activity_subclasses
    from sorcha.activity.base_activity import AbstractCometaryActivity
    from sorcha.lightcurves.base_lightcurve import AbstractLightCurve
    from sorcha.lightcurves.lightcurve_registration import LC_METHODS, update_lc_subclasses

    if "verif_lc" in LC_METHODS and "verif_ca" in CA_METHODS:
        return

    class VerifLC(AbstractLightCurve):
        def __init__(self, required_column_names=["fieldMJD_TAI", "vary"]):
            super().__init__(required_column_names)

        def compute(self, df):
            self._validate_column_names(df)
            return df["vary"].values * np.sin(df["fieldMJD_TAI"].values)

        def maxBrightness(self, df):
            return -1.0

        @staticmethod
        def name_id():
            return "verif_lc"

    class VerifCA(AbstractCometaryActivity):
        def __init__(self, required_column_names=["vary"]):
            super().__init__(required_column_names)

        def compute(self, df, observing_filters, rho, delta, alpha):
            _SEEN["ca"] = (list(observing_filters), np.array(rho), np.array(delta), np.array(alpha))
            _SEEN["mag_in"] = df["trailedSourceMagTrue"].values.copy()
            df["coma"] = df["vary"] * 0.5
            df["trailedSourceMagTrue"] = df["trailedSourceMagTrue"] - 0.25 * np.abs(df["vary"]) - 0.01 * np.asarray(rho)
            return df

        def maxBrightness(self, df, observing_filters, rho, delta, alpha):
            return df["trailedSourceMagTrue"]

        @staticmethod
        def name_id():
            return "verif_ca"

    register.keep = (VerifLC, VerifCA)
    update_lc_subclasses()
    update_activity_subclasses()
    require("verif_lc" in LC_METHODS and "verif_ca" in CA_METHODS, "a newly defined plugin subclass was not registered")


def hg_reduced(H, G, alpha_deg):
    """Bowell et al. 1989 with the full phase functions."""
    a = np.radians(alpha_deg)
    W = np.exp(-90.56 * np.tan(a / 2) ** 2)
    phis = []
    for A, B, C in ((3.332, 0.631, 0.986), (1.862, 1.218, 0.238)):
        ps = 1 - C * np.sin(a) / (0.119 + 1.341 * np.sin(a) - 0.754 * np.sin(a) ** 2)
        pl = np.exp(-A * np.tan(a / 2) ** B)
        phis.append(W * ps + (1 - W) * pl)
    return H - 2.5 * np.log10((1 - G) * phis[0] + G * phis[1])


def reduced(fn, H, p, alpha):
    import astropy.units as u
    from sbpy.photometry import HG1G2, HG12_Pen16

    if fn == "none":
        return H
    if fn == "linear":
        return H + p["S"] * alpha
    if fn == "HG":
        return hg_reduced(H, p["GS"], alpha)
    if fn == "HG1G2":
        return float(HG1G2(H=H * u.mag, G1=p["G1"], G2=p["G2"])(alpha * u.deg).value)
    return float(HG12_Pen16(H=H * u.mag, G12=p["G12"])(alpha * u.deg).value)


def build(case):
    import pandas as pd

    rows = []
    for r in case["obs"]:
        o = case["objs"][r["o"]]
        row = {
            "ObjID": f"o{r['o']}",
            "fieldMJD_TAI": r["t"],
            "Range_LTC_km": r["delta"] * AU_KM,
            "phase_deg": r["alpha"],
            "optFilter": r["f"],
            "vary": r["vary"],
        }
        if case["sun_scalar"]:
            row["Obj_Sun_LTC_km"] = float(np.linalg.norm(r["sun"])) * AU_KM
        else:
            for k, v in zip("xyz", r["sun"]):
                row[f"Obj_Sun_{k}_LTC_km"] = v * AU_KM
        row["H_" + case["main"]] = o["H"]
        for f, v in o["col"].items():
            row[f"{f}-{case['main']}"] = v
        row.update(o["p"])
        if case["extra"]:
            row["diameter_note"] = r["t"] * 2
        rows.append(row)
    return pd.DataFrame(rows)


@PROP.warmup
def _warm():
    register()
    reduced("HG1G2", 10.0, {"G1": 0.3, "G2": 0.1}, 10.0)
    reduced("HG12", 10.0, {"G12": 0.3}, 10.0)


@PROP.check(cases(), quick=900, thorough=20000)
def magnitude(case, ctx):
    from sorcha.modules.PPCalculateApparentMagnitude import PPCalculateApparentMagnitude

    register()
    picks = spread(len(case["obs"]), case["bulk"])
    df = build(case).iloc[picks].reset_index(drop=True)
    orig = df.copy()
    others = [f"{f}-{case['main']}" for f in case["filters"] if f != case["main"]] or None
    out = PPCalculateApparentMagnitude(
        df, case["fn"], case["main"], others, list(case["filters"]), case["ca"], lightcurve_choice=case["lc"]
    )
    used = {r["f"] for r in case["obs"]}
    ctx.nontrivial(len(case["obs"]) > 1 and (len(used) > 1 or case["perfilt"] or case["lc"] or case["ca"]))
    ctx.tag("fn=" + case["fn"], "perfilter" if case["perfilt"] else "shared", f"nfilters={len(case['filters'])}")
    require(len(out) == len(orig), "rows lost or invented by the magnitude calculation", n_in=len(orig), n_out=len(out))
    require(list(out["ObjID"]) == list(orig["ObjID"]), "row order changed")
    for c in ("fieldMJD_TAI", "Range_LTC_km", "phase_deg", "vary", "H_" + case["main"]):
        require(relclose(out[c], orig[c], rtol=0, atol=0), f"column {c} changed", got=out[c].tolist(), want=orig[c].tolist())
    if case["extra"]:
        require("diameter_note" in out.columns, "an unrelated column was dropped")
    Hf, mags, rhos, deltas, alphas = [], [], [], [], []
    for r in case["obs"]:
        o = case["objs"][r["o"]]
        h = o["H"] + (0.0 if r["f"] == case["main"] else o["col"][r["f"]])
        p = {k: o["p"].get(k + r["f"], o["p"].get(k)) for k in PF[case["fn"]]}
        rho = float(np.linalg.norm(r["sun"]))
        m = reduced(case["fn"], h, p, r["alpha"]) + 5 * np.log10(rho) + 5 * np.log10(r["delta"])
        Hf.append(h)
        mags.append(m)
        rhos.append(rho)
        deltas.append(r["delta"])
        alphas.append(r["alpha"])
    Hf, mags, rhos, deltas, alphas = (np.array(x)[picks] for x in (Hf, mags, rhos, deltas, alphas))
    require(relclose(out["H_filter"], Hf), "H in the observing filter is wrong", got=out["H_filter"].tolist(), want=Hf.tolist())
    want = np.array(mags)
    vary = orig["vary"].values
    if case["lc"]:
        dm = vary * np.sin(orig["fieldMJD_TAI"].values)
        require(relclose(out["Delta_m"], dm), "Delta_m is not the light-curve model's offset")
        want = want + dm
    if case["ca"]:
        f, rho, delta, alpha = _SEEN["ca"]
        require(relclose(rho, rhos) and relclose(delta, deltas), "activity model given wrong distances")
        require(relclose(alpha, alphas), "activity model given wrong phase angles")
        require(relclose(_SEEN["mag_in"], want, rtol=1e-7, atol=2e-6), "activity model given wrong nucleus magnitude")
        want = want - 0.25 * np.abs(vary) - 0.01 * np.array(rhos)
    require(
        relclose(out["trailedSourceMagTrue"], want, rtol=1e-7, atol=2e-6),
        "apparent magnitude is wrong",
        got=out["trailedSourceMagTrue"].tolist(),
        want=want.tolist(),
    )
    for p in PF[case["fn"]]:
        w = [case["objs"][r["o"]]["p"].get(p + r["f"], case["objs"][r["o"]]["p"].get(p)) for r in case["obs"]]
        require(relclose(out[p], np.array(w)[picks]), f"phase parameter {p} of the observing filter not selected")


@st.composite
def mono_cases(draw):
    c = draw(cases())
    c["lc"] = c["ca"] = None
    return {"c": c, "scale": draw(fx(1.01, 3, 2)), "dH": draw(fx(0.01, 5, 2))}


@PROP.check(mono_cases(), quick=200, thorough=4000)
def metamorphic(case, ctx):
    """Scaling both distances by k adds 10 log10 k; brightening H by d brightens every magnitude by d."""
    from sorcha.modules.PPCalculateApparentMagnitude import PPCalculateApparentMagnitude

    c = case["c"]
    others = [f"{f}-{c['main']}" for f in c["filters"] if f != c["main"]] or None

    def run(df):
        return PPCalculateApparentMagnitude(df, c["fn"], c["main"], others, list(c["filters"]))["trailedSourceMagTrue"].values

    base = run(build(c))
    df = build(c)
    for col in df.columns:
        if col.endswith("_km"):
            df[col] *= case["scale"]
    df["H_" + c["main"]] -= case["dH"]
    got = run(df)
    ctx.nontrivial(len(c["obs"]) > 1)
    lit = np.isfinite(base)  # a phase curve may leave no light at all
    require(relclose((got - base)[lit], np.full(int(lit.sum()), 10 * np.log10(case["scale"]) - case["dH"]), atol=1e-6), "distance/H scaling law broken")
    # an observation's magnitude does not depend on the other rows in the table
    for i in range(len(c["obs"])):
        one = dict(c, obs=[c["obs"][i]])
        require(relclose(run(build(one)), base[i : i + 1], rtol=1e-9), "magnitude depends on the other rows of the table")


@PROP.check(
    st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["lightcurve", "activity"]),
            "need": st.lists(st.sampled_from(["amp", "period", "k", "afrho1", "fieldMJD_TAI"]), min_size=1, max_size=4, unique=True),
            "gone": st.integers(0, 3),
            "lose": st.booleans(),
            "extra": st.lists(st.sampled_from(["zz", "Amp", "amp "]), max_size=2, unique=True),
            "rows": st.integers(0, 3),
        }
    ),
    quick=300,
    thorough=4000,
)
def required_columns(c, ctx):
    """A light-curve or activity model that checks its columns refuses a table without one of them, and only such a table."""
    import numpy as np
    import pandas as pd
    from sorcha.activity.base_activity import AbstractCometaryActivity
    from sorcha.lightcurves.base_lightcurve import AbstractLightCurve

    base = AbstractLightCurve if c["kind"] == "lightcurve" else AbstractCometaryActivity

    # not a direct subclass of the base: those are collected by the registration
    class Model:
        def __init__(self, need):
            base.__init__(self, need)

        __getattr__ = lambda self, n: getattr(base, n).__get__(self)  # noqa: E731

    m = Model(list(c["need"]))
    have = list(c["need"])
    lost = have.pop(c["gone"] % len(have)) if c["lose"] else None
    df = pd.DataFrame({k: np.ones(c["rows"]) for k in have + c["extra"]})
    ctx.nontrivial(c["lose"])
    try:
        m._validate_column_names(df)
    except Exception:
        require(lost is not None, "a complete table is refused", kind=c["kind"], need=c["need"])
        return
    require(lost is None, "a table without a required column is accepted", kind=c["kind"], lost=lost)
