"""C13: randomised astrometry and photometry scatter around the truth with the quoted uncertainties."""
import numpy as np
from hypothesis import strategies as st
from scipy.stats import binom

from vlib.core import Property, require
from vlib.gen import config, fl, fx, relclose, rngs, sep_deg, serial, unit

PROP = Property(
    "C13",
    rule="(a) tables of 1-15 observations with generated positions (poles, RA wrap), magnitudes, uncertainties and "
    "SNR around the default cut; (b) tables of 400-30000 rows replicated from a generated template for the statistical "
    "laws, judged with 6.5-sigma bounds; (c) conversions of generated directions. Non-trivial = (a) at least one "
    "surviving row with non-zero uncertainty, (b) always, (c) a direction off the axes.",
    assumptions=["numpy's generators draw what they claim"],
)

RA = st.one_of(st.sampled_from([0.0, 359.9999999, 180.0]), fl(0, 359.9999))
DEC = st.one_of(st.sampled_from([0.0, 90.0, -90.0, 89.99999, -89.99999]), fl(-90, 90))

rows = st.lists(
    st.fixed_dictionaries(
        {
            "ra": RA,
            "dec": DEC,
            "tm": st.one_of(fx(14, 27, 3), fx(-8, 40, 3)),
            "pl": fx(0, 2, 3),
            "ts": st.one_of(st.just(0.0), fx(0.001, 0.8, 3), fx(0.8, 9, 2)),
            "ps": st.one_of(st.just(0.0), fx(0.001, 0.8, 3), fx(0.8, 9, 2)),
            "as": st.one_of(st.just(0.0), fl(2.8e-6, 3e-3)),
            "snr": st.one_of(fx(0.1, 1.99, 2), fx(2.01, 6, 2), fx(5, 500, 1)),
        }
    ),
    min_size=1,
    max_size=15,
)


def frame(rs):
    import pandas as pd

    return pd.DataFrame(
        {
            "ObjID": [f"o{i}" for i in range(len(rs))],
            "RA_deg": [r["ra"] for r in rs],
            "Dec_deg": [r["dec"] for r in rs],
            "trailedSourceMagTrue": [r["tm"] for r in rs],
            "PSFMagTrue": [r["tm"] + r["pl"] for r in rs],
            "trailedSourceMagSigma": [r["ts"] for r in rs],
            "PSFMagSigma": [r["ps"] for r in rs],
            "astrometricSigma_deg": [r["as"] for r in rs],
            "SNRPSFMag": [r["snr"] for r in rs],
            "SNRTrailedSourceMag": [7.0 - min(6.5, r["snr"]) for r in rs],
            "optFilter": ["r"] * len(rs),
        }
    )


@PROP.check(
    st.fixed_dictionaries({"rows": rows, "cut": st.booleans(), "trail": st.booleans(), "seed": st.integers(0, 2**31)}), quick=1200, thorough=25000
)
def rows_and_truth(case, ctx):
    from sorcha.modules.PPRandomizeMeasurements import randomizeAstrometryAndPhotometry

    rs = case["rows"]
    cfg = config({"EXPERT": {"default_snr_cut": case["cut"], "trailing_losses_on": case["trail"], "randomization_on": True}})
    orig = frame(rs)
    out = randomizeAstrometryAndPhotometry(frame(rs), cfg, rngs(case["seed"]))
    again = randomizeAstrometryAndPhotometry(frame(rs), cfg, rngs(case["seed"]))
    keep = [i for i, r in enumerate(rs) if not case["cut"] or r["snr"] > 2]
    ctx.nontrivial(any(rs[i]["as"] > 0 and rs[i]["ts"] > 0 for i in keep))
    ctx.tag("cut" if case["cut"] else "nocut", "trail" if case["trail"] else "notrail")
    require(list(out["ObjID"]) == [f"o{i}" for i in keep], "wrong rows survive the default SNR cut", got=list(out["ObjID"]), want=keep)
    require(out.equals(again), "the same seed gives different measurements")
    want = orig.iloc[keep].reset_index(drop=True)
    for c in orig.columns:
        o = {"RA_deg": "RATrue_deg", "Dec_deg": "DecTrue_deg"}.get(c, c)
        require(list(out[o]) == list(want[c]), f"true value {c} not preserved", got=list(out[o]), want=list(want[c]))
    if not keep:
        return
    require(np.all((out["RA_deg"] >= 0) & (out["RA_deg"] < 360)) and np.all(np.abs(out["Dec_deg"]) <= 90), "position outside the sphere's ranges")
    d = sep_deg(out["RA_deg"].values, out["Dec_deg"].values, want["RA_deg"].values, want["Dec_deg"].values)
    require(np.all(d <= 9 * want["astrometricSigma_deg"].values + 1e-6), "position moved by more than 9 sigma", sep=d.tolist())
    for o, t, s in (("trailedSourceMag", "trailedSourceMagTrue", "trailedSourceMagSigma"), ("PSFMag", "PSFMagTrue", "PSFMagSigma")):
        if o == "PSFMag" and not case["trail"]:
            require(list(out[o]) == list(out["trailedSourceMag"]), "without trailing losses the two magnitudes must be one measurement")
            continue
        z = np.abs(out[o].values - want[t].values)
        require(np.all(z <= 8 * want[s].values + 1e-12), f"{o} is more than 8 sigma from the truth", z=z.tolist())
    # at the poles a shift of a few mas can be lost in rounding
    moved = (want["astrometricSigma_deg"].values > 0) & (np.abs(want["Dec_deg"].values) < 89.9)
    require(np.all(d[moved] > 0), "a position with non-zero uncertainty was not randomised")
    zz = want["trailedSourceMagSigma"].values > 0
    require(np.all(out["trailedSourceMag"].values[zz] != want["trailedSourceMagTrue"].values[zz]), "a magnitude with non-zero uncertainty was not randomised")


@PROP.check(
    st.fixed_dictionaries(
        {
            "tpl": st.lists(
                st.fixed_dictionaries({"ra": RA, "dec": st.one_of(DEC, fl(60, 90)), "as": fl(2.8e-6, 3e-4), "ts": fx(0.01, 0.5, 3), "ps": fx(0.01, 0.5, 3)}),
                min_size=1,
                max_size=5,
            ),
            "trail": st.booleans(),
            "seed": st.integers(0, 2**31),
            "n": st.sampled_from([2000] * 6 + [400, 12000, 30000]),
        }
    ),
    quick=160,
    thorough=3000,
)
def statistics(case, ctx):
    from sorcha.modules.PPRandomizeMeasurements import randomizeAstrometryAndPhotometry

    n = case["n"]
    tpl = [dict(t, tm=20.0, pl=0.5, snr=50.0) for t in case["tpl"]]
    rs = [tpl[i % len(tpl)] for i in range(n)]
    cfg = config({"EXPERT": {"trailing_losses_on": case["trail"], "randomization_on": True}})
    rng = rngs(case["seed"])
    out = randomizeAstrometryAndPhotometry(frame(rs), cfg, rng)
    out2 = randomizeAstrometryAndPhotometry(frame(rs), cfg, rng)
    other = randomizeAstrometryAndPhotometry(frame(rs), cfg, rngs(case["seed"] + 1))
    ctx.nontrivial(True)
    B = 6.5

    def resid(o):
        z = {"t": ((o["trailedSourceMag"] - o["trailedSourceMagTrue"]) / o["trailedSourceMagSigma"]).values}
        if case["trail"]:
            z["p"] = ((o["PSFMag"] - o["PSFMagTrue"]) / o["PSFMagSigma"]).values
        p, q = unit(o["RATrue_deg"].values, o["DecTrue_deg"].values), unit(o["RA_deg"].values, o["Dec_deg"].values)
        a, d = np.radians(o["RATrue_deg"].values), np.radians(o["DecTrue_deg"].values)
        east = np.array([-np.sin(a), np.cos(a), 0 * a])
        north = np.array([-np.sin(d) * np.cos(a), -np.sin(d) * np.sin(a), np.cos(d)])
        s = np.radians(o["astrometricSigma_deg"].values)
        z["e"] = np.sum((q - p) * east, axis=0) / s
        z["n"] = np.sum((q - p) * north, axis=0) / s
        return z

    z1, z2, z3 = resid(out), resid(out2), resid(other)
    for k, z in z1.items():
        require(abs(z.mean()) < B / np.sqrt(n), f"residuals biased ({k})", mean=z.mean())
        require(abs(z.var() - 1) < B * np.sqrt(2 / n) * 1.1, f"scatter differs from the quoted uncertainty ({k})", var=z.var())
        frac = np.mean(np.abs(z) < 0.6745)
        require(abs(frac - 0.5) < B * 0.5 / np.sqrt(n), f"residuals are not normal ({k})", frac=frac)
        for q, share in ((0.1, 0.0796557), (1.5, 0.8663856), (2.5, 0.9875807), (3.0, 0.9973002)):
            inside = int(np.sum(np.abs(z) < q))
            require(min(binom.cdf(inside, n, share), binom.sf(inside - 1, n, share)) > 1e-11, f"residuals are not normal ({k})", sigmas=q, inside=inside, of=n)
        require(min(binom.cdf(int(np.sum(z < 0)), n, 0.5), binom.sf(int(np.sum(z < 0)) - 1, n, 0.5)) > 1e-11, f"residuals lean to one side ({k})", below=int(np.sum(z < 0)), of=n)
        require(abs(np.mean(z[1:] * z[:-1])) < B / np.sqrt(n - 1), f"residuals of neighbouring rows are correlated ({k})")
        far, lag = serial(z)
        require(far < 10, f"residuals of rows far apart are correlated ({k})", lag=lag, sigmas=far)
        require(abs(np.mean(z * z2[k])) < B / np.sqrt(n), f"a second batch repeats the noise of the first ({k})")
        require(abs(np.mean(z * z3[k])) < B / np.sqrt(n), f"different seeds give correlated noise ({k})")
    ks = list(z1)
    for i in range(len(ks)):
        for j in range(i):
            require(abs(np.mean(z1[ks[i]] * z1[ks[j]])) < B / np.sqrt(n), f"noise of {ks[i]} and {ks[j]} is correlated")


@PROP.check(
    st.fixed_dictionaries({"pts": st.lists(st.tuples(RA, DEC), min_size=1, max_size=5), "deg": st.booleans(), "mag": fl(5, 30), "f0": fl(1, 5000), "r": fl(0.1, 50)}),
    quick=800,
    thorough=10000,
)
def conversions(case, ctx):
    from sorcha.modules.PPRandomizeMeasurements import flux2mag, icrf2radec, mag2flux, radec2icrf

    p = np.array(case["pts"], dtype=float)
    ra, dec = p[:, 0], p[:, 1]
    k = 1.0 if case["deg"] else np.pi / 180
    xyz = radec2icrf(ra * k, dec * k, deg=case["deg"])
    ctx.nontrivial(np.any(np.abs(dec) < 89))
    require(relclose(xyz, unit(ra, dec), atol=1e-12), "unit vector wrong")
    for scale in (1.0, case["r"]):
        r2, d2 = icrf2radec(*(xyz * scale), deg=case["deg"])
        r2, d2 = np.asarray(r2) / k, np.asarray(d2) / k
        require(np.all((r2 >= 0) & (r2 < 360 + 1e-9)), "right ascension outside [0, 360)", ra=r2.tolist())
        require(np.all(sep_deg(r2, d2, ra, dec) < 3e-6), "direction not recovered", got=[r2.tolist(), d2.tolist()])
    m = flux2mag(mag2flux(case["mag"], f0=case["f0"]), f0=case["f0"])
    require(abs(m - case["mag"]) < 1e-9, "magnitude-flux round trip broken")
    ratio = mag2flux(case["mag"], case["f0"]) / mag2flux(case["mag"] + 2.5, case["f0"])
    require(abs(ratio - 10) < 1e-9, "2.5 mag is not a factor of ten in flux")
    require(abs(mag2flux(0.0, case["f0"]) - case["f0"]) < 1e-9 * case["f0"], "zero magnitude is not the zero point flux")


@PROP.check(
    st.fixed_dictionaries({"rows": rows, "units": st.sampled_from(["deg", "rad", "mas"]), "sig": st.sampled_from(["deg", "rad", "mas"]), "seed": st.integers(0, 2**31)}),
    quick=300,
    thorough=6000,
)
def units(case, ctx):
    """The same scatter whatever the documented units of the positions and uncertainties."""
    from sorcha.modules.PPRandomizeMeasurements import randomizeAstrometry

    f = {"deg": 1.0, "rad": np.pi / 180, "mas": 3.6e6}
    base = randomizeAstrometry(frame(case["rows"]), rngs(case["seed"]), sigName="astrometricSigma_deg", sigUnits="deg")
    df = frame(case["rows"])
    ra0 = df["RA_deg"].copy() * f[case["units"]]
    df["RA_deg"] *= f[case["units"]]
    df["Dec_deg"] *= f[case["units"]]
    df["astrometricSigma_deg"] *= f[case["sig"]]
    got = randomizeAstrometry(df, rngs(case["seed"]), sigName="astrometricSigma_deg", sigUnits=case["sig"], radecUnits=case["units"])
    ctx.nontrivial(case["units"] != "deg" or case["sig"] != "deg")
    ctx.tag(case["units"])
    require(list(got["RATrue_deg"]) == list(ra0), "original position not kept in its own units")
    d = sep_deg(got["RA_deg"].values / f[case["units"]], got["Dec_deg"].values / f[case["units"]], base["RA_deg"].values, base["Dec_deg"].values)
    require(np.all(d < 1e-5), "randomised position not in the units of the input", sep=d.tolist())
