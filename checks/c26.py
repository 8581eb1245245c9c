"""C26: coordinates, time scales and the place of the observatory."""
import json
import math
import os
from types import SimpleNamespace

import healpy as hp
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vlib import sky
from vlib.core import Property, require
from vlib.gen import fl, fx

PROP = Property(
    "C26",
    rule="Directions over the whole sky (poles, RA 0/360, the equator), dates 2000-2029 (the span of the made-up kernels), the eight observatories of the made-up list and generated "
    "observatory files (zero coordinates, southern, spacecraft without position), search radii 0.1-6 degrees at HEALPix orders 2-8, kernel folders with paths up to 200 characters. "
    "Non-trivial = not at an origin of the coordinates.",
    assumptions=["real SPICE and ASSIST, reading kernel files of a made-up Solar System with known motion", "kernel paths have ASCII letters, digits and the usual separators"],
)

# before 1962 the orientation of Earth was not observed and a formula stands for it
PAST = st.one_of(fx(33300, 51500, 6), fx(33300, 37680, 6), fx(37690, 37800, 6))
MJD = st.one_of(fx(51550, 62350, 6), st.builds(lambda d, k: d + k / 86400, st.integers(51550, 62350), st.integers(0, 86399)), fl(60000, 61000))
RA = st.one_of(fl(0, 360), st.sampled_from([0.0, 90.0, 180.0, 270.0, 359.9999999]))
DEC = st.one_of(fl(-90, 90), st.sampled_from([-90.0, -45.0, 0.0, 1e-9, 89.9999, 90.0]))
CODE = st.sampled_from([c for c in sky.OBSERVATORIES if c != "250"])


def auxiliary():
    from sorcha.utilities.sorchaConfigs import auxiliaryConfigs

    return auxiliaryConfigs()


_W = {}


@PROP.warmup
def _warm():
    from sorcha.ephemeris import simulation_setup as s
    from sorcha.ephemeris.simulation_parsing import Observatory

    args = SimpleNamespace(ar_data_file_path=sky.folder(), pplogger=None, loglevel=False)
    s.furnish_spiceypy(args, auxiliary())
    import spiceypy as sp

    sp.kclear()


def furnish():
    """SPICE as sorcha sets it up (the pool is per process and other checks of the worker clear it)."""
    from sorcha.ephemeris.simulation_setup import furnish_spiceypy
    import spiceypy as sp

    if sp.ktotal("ALL") == 0:
        furnish_spiceypy(SimpleNamespace(ar_data_file_path=sky.folder()), auxiliary())


def unit(ra, dec):
    a, d = math.radians(ra), math.radians(dec)
    return np.array([math.cos(a) * math.cos(d), math.sin(a) * math.cos(d), math.sin(d)])


VEC = st.tuples(*[st.one_of(fl(-50, 50), fl(-1e-3, 1e-3), st.just(0.0))] * 3)


@PROP.check(st.fixed_dictionaries({"v": st.lists(VEC, min_size=1, max_size=4), "list": st.booleans()}), quick=2400, thorough=60000)
def ecliptic(case, ctx):
    from sorcha.ephemeris.simulation_geometry import ecliptic_to_equatorial, equatorial_to_ecliptic

    for v in case["v"]:
        v = list(v) if case["list"] else np.array(v)
        n = np.linalg.norm(v)
        eq = np.asarray(ecliptic_to_equatorial(v))
        ec = np.asarray(equatorial_to_ecliptic(v))
        require(np.allclose(eq, sky.ROT @ np.array(v), rtol=0, atol=1e-12 * n), "wrong equatorial vector", got=eq, want=sky.ROT @ np.array(v))
        require(np.allclose(ec, sky.ROT.T @ np.array(v), rtol=0, atol=1e-12 * n), "wrong ecliptic vector", got=ec, want=sky.ROT.T @ np.array(v))
        ctx.nontrivial(n > 0 and v[1] != 0 and v[2] != 0)


@PROP.check(st.fixed_dictionaries({"p": st.lists(st.tuples(RA, DEC), min_size=1, max_size=6)}), quick=2400, thorough=60000)
def directions(case, ctx):
    from sorcha.ephemeris.simulation_geometry import ra_dec2vec, vec2ra_dec

    ra, dec = np.array(case["p"], float).T
    vs = np.asarray(ra_dec2vec(ra, dec))
    require(vs.shape == (len(ra), 3), "one vector per direction expected", shape=vs.shape)
    ser = np.asarray(ra_dec2vec(pd.Series(ra, index=np.arange(len(ra)) + 5), pd.Series(dec, index=np.arange(len(ra)) + 5)))
    require(np.allclose(ser, vs, rtol=0, atol=1e-13), "columns and arrays give different vectors")
    for i, (a, d) in enumerate(case["p"]):
        w = unit(a, d)
        require(np.allclose(vs[i], w, rtol=0, atol=1e-13), "wrong direction", got=vs[i], want=w, at=(a, d))
        require(np.allclose(ra_dec2vec(a, d), w, rtol=0, atol=1e-13), "wrong direction (single)", got=ra_dec2vec(a, d), want=w, at=(a, d))
        hair = np.array([math.copysign(1.0, w[0]), math.copysign(10.0 ** -(12 + int(d) % 8), -w[1]), 0.0])  # a hair's breadth off the axis
        for v in (w, -w, hair):
            if abs(v[2]) > 1:
                continue
            r, e = vec2ra_dec(v)
            require(0 <= r < 360 and -90 <= e <= 90, "RA or Dec out of range", ra=r, dec=e)
            back = unit(r, e)
            # arcsin loses half of the digits at the poles
            tol = 1e-12 if abs(v[2]) < 0.99 else 1e-7
            require(np.linalg.norm(back - v) <= tol, "direction not recovered", ra=r, dec=e, want=v)
        ctx.nontrivial(abs(d) < 90 and d != 0 and a % 90 != 0)


@PROP.check(st.fixed_dictionaries({"t": st.lists(MJD, min_size=1, max_size=5)}), quick=800, thorough=20000)
def time_scale(case, ctx):
    from sorcha.ephemeris.simulation_parsing import mjd_tai_to_epoch

    furnish()
    for t in case["t"]:
        got, want = mjd_tai_to_epoch(t), sky.jd_tdb(t)
        require(abs(got - want) <= 2e-9, "wrong TDB", mjd_tai=t, got=got, want=want, seconds=(got - want) * 86400)
        ctx.nontrivial()


SITE = st.one_of(
    st.fixed_dictionaries(
        {
            "Longitude": st.one_of(fx(0, 360, 5), st.sampled_from([0.0, 180.0, 0, 359.99999])),
            "cos": st.one_of(fx(0, 1, 6), st.sampled_from([0.0, 1.0, 0])),
            "sin": st.one_of(fx(-1, 1, 6), st.sampled_from([0.0, -0.5, 0])),
            "Name": st.just("site"),
        }
    ),
    st.just({"Name": "spacecraft"}),
    st.just({"Longitude": 10.0, "Name": "incomplete"}),
)


@PROP.check(
    st.fixed_dictionaries({"sites": st.dictionaries(st.text("0123456789ABCXYZ", min_size=3, max_size=3), SITE, min_size=1, max_size=5), "t": st.one_of(MJD, MJD, PAST), "by": st.sampled_from(["file", "folder"])}),
    quick=600,
    thorough=15000,
)
def sites(case, ctx):
    from sorcha.ephemeris.simulation_geometry import barycentricObservatoryRates
    from sorcha.ephemeris.simulation_parsing import Observatory

    furnish()
    d = ctx.scratch()
    with open(os.path.join(d, "ObsCodes.json"), "w") as f:
        json.dump(case["sites"], f)
    if case["by"] == "file":
        o = Observatory(SimpleNamespace(ar_data_file_path=None), auxiliary(), oc_file=os.path.join(d, "ObsCodes.json"))
    else:
        o = Observatory(SimpleNamespace(ar_data_file_path=d), auxiliary())
    require(set(o.ObservatoryXYZ) == set(case["sites"]), "observatories missing", got=set(o.ObservatoryXYZ))
    jd = sky.jd_tdb(case["t"])
    et = (jd - sky.JD0) * 86400
    for code, s in case["sites"].items():
        got = o.ObservatoryXYZ[code]
        if "sin" not in s:
            require(tuple(got) == (None, None, None), "an observatory without position got one", got=got, site=s)
            continue
        lon = math.radians(s["Longitude"])
        want = np.array([s["cos"] * math.cos(lon), s["cos"] * math.sin(lon), s["sin"]])
        require(None not in tuple(got), "observatory has no position", site=s)
        require(np.allclose(np.array(got, float), want, rtol=0, atol=1e-13), "wrong position of the observatory", got=got, want=want, site=s)
        m = sky.itrf_to_j2000
        pos = sky.earth(et) + m(et) @ want * 6378.137
        p = o.barycentricObservatory(et, code)
        require(np.linalg.norm(p - pos) < 1e-3, "wrong barycentric position (km)", got=p, want=pos, site=s)
        p, v = barycentricObservatoryRates(et, code, o)
        vel = (sky.earth(et + 30) + m(et + 30) @ want * 6378.137 - sky.earth(et - 30) - m(et - 30) @ want * 6378.137) / 60
        require(np.linalg.norm(p - pos) < 1e-3, "wrong barycentric position (km)", got=p, want=pos, site=s)
        require(np.linalg.norm(v - vel) < 1e-5, "wrong barycentric velocity (km/s)", got=v, want=vel, site=s)
        ctx.nontrivial()
        ctx.tag("before 1962" if case["t"] < 37684 else "since 1962")
        ctx.tag("zero coordinate" if 0 in (s["Longitude"], s["cos"], s["sin"]) else "general")


@PROP.check(
    st.fixed_dictionaries(
        {"ra": RA, "dec": DEC, "r": st.one_of(fx(0.1, 3, 3), fx(3, 6, 2)), "order": st.integers(2, 8), "nested": st.booleans(), "pts": st.lists(st.tuples(fl(0, 1), fl(0, 360)), min_size=10, max_size=25)}
    ),
    quick=800,
    thorough=20000,
)
def pixels(case, ctx):
    from sorcha.ephemeris.simulation_geometry import get_hp_neighbors

    nside = 2 ** case["order"]
    got = np.asarray(get_hp_neighbors(case["ra"], case["dec"], case["r"], nside=nside, nested=case["nested"]))
    c = unit(case["ra"], case["dec"])
    u = np.cross(c, [0, 0, 1.0] if abs(c[2]) < 0.9 else [1.0, 0, 0])
    u /= np.linalg.norm(u)
    w = np.cross(c, u)
    have = set(got.tolist())
    for f, pa in case["pts"]:
        a, b = math.radians(case["r"] * f * 0.999999), math.radians(pa)
        p = c * math.cos(a) + (u * math.cos(b) + w * math.sin(b)) * math.sin(a)
        pix = int(hp.vec2pix(nside, *p, nest=case["nested"]))
        require(pix in have, "a pixel within the search radius is missing", at=math.degrees(a), pa=pa, pix=pix)
    v = np.array(hp.pix2vec(nside, got, nest=case["nested"])).T
    sep = np.degrees(np.arccos(np.clip(v @ c, -1, 1)))
    far = case["r"] + 3 * math.degrees(hp.max_pixrad(nside))
    require(np.all(sep <= far), "pixels far outside of the search radius", worst=sep.max(), allowed=far)
    require(len(have) == len(got), "pixels repeated")
    ctx.nontrivial(len(got) > 1)


@PROP.check(
    st.fixed_dictionaries(
        {
            "rows": st.lists(st.tuples(MJD, RA, DEC), min_size=1, max_size=6),
            "code": CODE,
            "order": st.integers(4, 7),
            "fov": st.sampled_from([1.1, 2.06]),
            "index": st.sampled_from(["default", "gaps", "reversed"]),
            "strings": st.booleans(),
        }
    ),
    quick=240,
    thorough=6000,
)
def pointings(case, ctx):
    from sorcha.ephemeris.simulation_setup import precompute_pointing_information

    n = len(case["rows"])
    t, ra, dec = np.array(case["rows"], float).T
    idx = {"default": np.arange(n), "gaps": 3 * np.arange(n) + 7, "reversed": np.arange(n)[::-1]}[case["index"]]
    df = pd.DataFrame({"FieldID": [f"f{i}" for i in range(n)], "observationMidpointMJD_TAI": t, "fieldRA_deg": ra, "fieldDec_deg": dec}, index=idx)
    before = df.copy()
    d = sky.folder()
    args = SimpleNamespace(ar_data_file_path=d, pplogger=None, loglevel=False)
    simc = SimpleNamespace(ar_obs_code=case["code"], ar_ang_fov=case["fov"], ar_fov_buffer=0.2, ar_healpix_order=case["order"])
    out = precompute_pointing_information(df, args, SimpleNamespace(auxiliary=auxiliary(), simulation=simc))
    require(len(out) == n and list(out.index) == list(idx), "rows changed", got=list(out.index))
    for c in before.columns:
        require(list(out[c]) == list(before[c]), f"column {c} changed")
    for i in range(n):
        r = out.iloc[i]
        jd = sky.jd_tdb(t[i])
        require(abs(r["fieldJD_TDB"] - jd) <= 2e-9, "wrong time", got=r["fieldJD_TDB"], want=jd)

        def vec(name):
            return np.array([r[f"{name}_{a}"] for a in "xyz"], float)

        rs, vs = sky.sun(jd)
        ro, vo = sky.observer(jd, case["code"])
        for name, want, tol in [("visit_vector", unit(ra[i], dec[i]), 1e-12), ("r_obs", ro, 1e-10), ("v_obs", vo, 1e-9), ("r_sun", rs, 1e-10), ("v_sun", vs, 1e-9)]:
            require(np.linalg.norm(vec(name) - want) <= tol, f"wrong {name}", got=vec(name), want=want, row=i)
    ctx.nontrivial(n > 1)
    ctx.tag(case["code"], case["index"])


SEG = st.text("abcdefghijklmnopqrstuvwxyzABC0123456789_-.", min_size=1, max_size=60).filter(lambda s: s.strip(".") != "")


@PROP.check(st.fixed_dictionaries({"length": st.one_of(st.integers(60, 205), st.sampled_from([78, 79, 80, 156, 157, 158, 159, 130, 131, 132, 133])), "segs": st.lists(SEG, min_size=1, max_size=3)}), quick=160, thorough=3000)
def kernel_paths(case, ctx):
    """The kernels load from a folder whose absolute path has the given length."""
    import spiceypy as sp
    from sorcha.ephemeris.simulation_setup import furnish_spiceypy

    base = ctx.scratch()
    want = max(case["length"], len(base) + 2)
    body, k = "", 0
    while len(base) + 1 + len(body) < want:
        body += case["segs"][k % len(case["segs"])] + "/"
        k += 1
    body = body[: want - len(base) - 1].rstrip("/.")
    body += "x" * (want - len(base) - 1 - len(body))
    path = os.path.join(base, body)
    assert len(path) == want, (len(path), want)
    os.makedirs(path)
    src = sky.folder()
    for name in os.listdir(src):
        if name != "meta_kernel.txt":
            os.symlink(os.path.join(src, name), os.path.join(path, name))
    sp.kclear()
    try:
        for again in (False, True):  # the second time with the file of the first
            furnish_spiceypy(SimpleNamespace(ar_data_file_path=path), auxiliary())
            names = [os.path.basename(sp.kdata(i, "ALL", 255, 20, 255)[0]) for i in range(sp.ktotal("ALL"))]
            require(sorted(n for n in names if n != "meta_kernel.txt") == sorted(auxiliary().ordered_kernel_files), "kernels not loaded", got=names)
            require(np.linalg.norm(sp.spkpos("EARTH", 1e8, "J2000", "NONE", "SSB")[0] - sky.earth(1e8)) < 1e-2, "wrong Earth")
            sp.kclear()
    finally:
        sp.kclear()
    ctx.nontrivial(want >= 79)
    ctx.tag("one piece" if want < 79 else "two" if want < 158 else "three")
