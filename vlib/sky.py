"""A small made-up Solar System in real kernel files, so that the real ASSIST and SPICE run without the network.

`build(folder)` writes the files the ephemeris generator wants to find in its cache: a planetary SPK (for ASSIST, with the
constants in its comments), an asteroid SPK, the SPICE SPK, three binary Earth orientation kernels, a text PCK, a leap-second
kernel and the observatory codes. Planets are on circular orbits; Earth turns uniformly about a slowly precessing pole.
"""
import json
import math
import os

import numpy as np

AU = 149597870.7
C_KM = 299792.458
OBL = math.radians(84381.448 / 3600)
GMS = 2.9591220828411956e-04
JD0 = 2451545.0
MJD0 = 51544.5
START, END, STEP = 51504, 62400, 16  # covered days (MJD TDB)
EARLY = 33280  # from here on the places of Earth and Sun are known to SPICE
EOP = 37684  # from here on (20 January 1962) the orientation of Earth is
GM = dict(GMS=GMS, GM1=4.9125e-11, GM2=7.2434e-10, GMB=8.9970e-10, GM4=9.5495e-11, GM5=2.8253e-07, GM6=8.4597e-08, GM7=1.29203e-08, GM8=1.52436e-08, GM9=2.1784e-12)
CONST = dict(AU=AU, EMRAT=81.3005682, CLIGHT=C_KM, RE=6378.1366, J2E=1.08262539e-3, J3E=-2.5324e-6, J4E=-1.6198e-6, J2SUN=2.1961e-7, ASUN=696000.0)
ASTEROIDS = [107, 1, 65, 511, 15, 31, 52, 10, 704, 7, 3, 2, 16, 87, 88, 4]
MA = {a: 1e-14 * (i + 1) for i, a in enumerate(ASTEROIDS)}
ROT = np.array([[1, 0, 0], [0, math.cos(OBL), -math.sin(OBL)], [0, math.sin(OBL), math.cos(OBL)]])  # ecliptic -> equatorial

OBSERVATORIES = {
    "X05": {"Longitude": 289.25058, "cos": 0.864981, "sin": -0.500958, "Name": "Simonyi Survey Telescope"},
    "I11": {"Longitude": 289.26345, "cos": 0.865020, "sin": -0.500901, "Name": "Gemini South"},
    "W84": {"Longitude": 289.19355, "cos": 0.864944, "sin": -0.501020, "Name": "DECam"},
    "000": {"Longitude": 0.0, "cos": 0.62411, "sin": 0.77873, "Name": "Greenwich"},
    "500": {"Longitude": 0.0, "cos": 0.0, "sin": 0.0, "Name": "Geocentric"},
    "V00": {"Longitude": 90.0, "cos": 1.0, "sin": 0.0, "Name": "on the equator"},
    "P00": {"Longitude": 10.0, "cos": 0.0, "sin": 0.99664, "Name": "at the pole"},
    "250": {"Name": "a spacecraft"},
}

LSK = r"""KPL/LSK
\begindata
DELTET/DELTA_T_A       =   32.184
DELTET/K               =    1.657D-3
DELTET/EB              =    1.671D-2
DELTET/M               = (  6.239996D0   1.99096871D-7 )
DELTET/DELTA_AT        = ( 10, @1972-JAN-1  11, @1972-JUL-1  12, @1973-JAN-1  13, @1974-JAN-1
                           14, @1975-JAN-1  15, @1976-JAN-1  16, @1977-JAN-1  17, @1978-JAN-1
                           18, @1979-JAN-1  19, @1980-JAN-1  20, @1981-JUL-1  21, @1982-JUL-1
                           22, @1983-JUL-1  23, @1985-JUL-1  24, @1988-JAN-1  25, @1990-JAN-1
                           26, @1991-JAN-1  27, @1992-JUL-1  28, @1993-JUL-1  29, @1994-JUL-1
                           30, @1996-JAN-1  31, @1997-JUL-1  32, @1999-JAN-1  33, @2006-JAN-1
                           34, @2009-JAN-1  35, @2012-JUL-1  36, @2015-JUL-1  37, @2017-JAN-1 )
\begintext
"""
PCK = r"""KPL/PCK
\begindata
BODY399_POLE_RA  = ( 0. -0.641 0. )
BODY399_POLE_DEC = ( 90. -0.557 0. )
BODY399_PM       = ( 190.147 360.9856235 0. )
BODY399_RADII    = ( 6378.1366 6378.1366 6356.7519 )
\begintext
"""


def _orb(a, per, ph, inc=0.02):
    """Position (km, J2000) on a circle at TDB seconds et."""
    w = 2 * np.pi / (per * 86400)

    def f(et):
        th = w * np.asarray(et) + ph
        v = np.array([a * np.cos(th), a * np.sin(th), a * inc * np.sin(th + 1)]) * AU
        return (ROT @ v).T

    return f


EMB = _orb(1.0, 365.256, 1.75, 0.0)
MOON = _orb(0.00257, 27.32, 0.5)
SUN = _orb(0.005, 4332, 0.3)
BODIES = [
    (10, 0, SUN), (1, 0, _orb(0.39, 88, 1)), (2, 0, _orb(0.72, 224.7, 2)), (3, 0, EMB),
    (301, 3, lambda et: MOON(et) * (81.3005682 / 82.3005682)), (399, 3, lambda et: MOON(et) / -82.3005682),
    (4, 0, _orb(1.52, 687, 3)), (5, 0, _orb(5.2, 4332, 0.6)), (6, 0, _orb(9.5, 10759, 5)), (7, 0, _orb(19.2, 30687, 1)), (8, 0, _orb(30.1, 60190, 6)), (9, 0, _orb(39.5, 90560, 5.2, 0.2)),
]


def earth(et):
    """Barycentric position of the geocentre, km."""
    return EMB(et) - MOON(et) / 82.3005682


def turn(et):
    """Euler angles (phi, delta, w) of ITRF93, radians."""
    et = np.asarray(et)
    return np.array([0.0 * et + 1e-3, 0.002 + 1e-12 * et, 1.75 + 2 * np.pi * 1.00273790935 * et / 86400]).T


def itrf_to_j2000(et):
    """The orientation of Earth; before it was observed, the one that the text kernel gives."""
    if et < (EOP - MJD0) * 86400:
        t = et / 86400 / 36525
        p, d, w = np.radians([90 - 0.641 * t, 0.557 * t, (190.147 + 360.9856235 * (et / 86400)) % 360])
    else:
        p, d, w = turn(et)

    def r3(a):
        return np.array([[math.cos(a), math.sin(a), 0], [-math.sin(a), math.cos(a), 0], [0, 0, 1]])

    r1 = np.array([[1, 0, 0], [0, math.cos(d), math.sin(d)], [0, -math.sin(d), math.cos(d)]])
    return (r3(w) @ r1 @ r3(p)).T


def _cheb(f, t0, t1, deg):
    from numpy.polynomial import chebyshev

    k = np.arange(deg + 1)
    x = np.cos(np.pi * (k + 0.5) / (deg + 1))
    return chebyshev.chebfit(x, np.asarray(f(0.5 * (t0 + t1) + 0.5 * (t1 - t0) * x)), deg).T.ravel()


def _spk(path, segs, comments=None, start=START):
    import spiceypy as sp

    et0, n, step, deg = (start - MJD0) * 86400.0, (END - start) // STEP, STEP * 86400.0, 11
    h = sp.spkopn(path, "verif", 20000 if comments else 0)
    for body, center, f in segs:
        cd = np.concatenate([_cheb(f, et0 + i * step, et0 + (i + 1) * step, deg) for i in range(n)])
        sp.spkw02(h, body, center, "J2000", et0, et0 + n * step, f"s{body}", step, n, deg, cd, et0)
    if comments:
        sp.dafac(h, comments)
    sp.spkcls(h)


def build(d):
    """Writes all files under the names sorcha's default configuration gives them; returns d."""
    import spiceypy as sp

    os.makedirs(d, exist_ok=True)
    com = ["Initial conditions and constants used for integration:", ""]
    com += [" %-8s %.18e" % kv for kv in list(GM.items()) + list(CONST.items()) + [("MA%04d" % a, m) for a, m in MA.items()]]
    _spk(os.path.join(d, "linux_p1550p2650.440"), BODIES, com)
    _spk(os.path.join(d, "sb441-n16.bsp"), [(2000000 + a, 10, _orb(2.3 + 0.08 * i, 1500 + i, 1.7 * i, 0.1)) for i, a in enumerate(ASTEROIDS)])
    _spk(os.path.join(d, "de440s.bsp"), [b for b in BODIES if b[0] in (10, 3, 301, 399)], start=EARLY)
    step, n = 16 * 86400.0, (END - EOP) // 16
    et0 = (EOP - MJD0) * 86400.0
    cd = np.concatenate([_cheb(turn, et0 + i * step, et0 + (i + 1) * step, 2) for i in range(n)])
    for name in ("earth_620120_250826.bpc", "earth_2025_250826_2125_predict.bpc", "earth_latest_high_prec.bpc"):
        h = sp.pckopn(os.path.join(d, name), "verif", 0)
        sp.pckw02(h, 3000, "J2000", et0, et0 + n * step, "e", step, n, 2, cd, et0)
        sp.pckcls(h)
    with open(os.path.join(d, "naif0012.tls"), "w") as f:
        f.write(LSK)
    with open(os.path.join(d, "pck00010.pck"), "w") as f:
        f.write(PCK)
    with open(os.path.join(d, "ObsCodes.json"), "w") as f:
        json.dump(OBSERVATORIES, f)
    with open(os.path.join(d, "ObsCodes.json.gz"), "wb") as f:
        f.write(b"")
    return d


_CACHE = {}


def folder():
    """The kernels of this run of the check (built once, before the workers start)."""
    if "d" not in _CACHE:
        _CACHE["d"] = build(os.path.join(os.environ["VERIF_WORK"], "sky"))
    return _CACHE["d"]


def tdb_minus_tt(et):
    """Seconds, the formula of the leap-second kernel."""
    m = 6.239996 + 1.99096871e-7 * et
    return 1.657e-3 * math.sin(m + 1.671e-2 * math.sin(m))


def jd_tdb(mjd_tai):
    tt = (mjd_tai + 2400000.5 - JD0) * 86400 + 32.184
    return JD0 + (tt + tdb_minus_tt(tt)) / 86400


def observer(jd, code):
    """Barycentric position (au) and velocity (au/day) of an observatory in equatorial J2000."""
    o = OBSERVATORIES[code]
    lon = math.radians(o["Longitude"])
    v = np.array([o["cos"] * math.cos(lon), o["cos"] * math.sin(lon), o["sin"]]) * 6378.137

    def pos(et):
        return earth(et) + itrf_to_j2000(et) @ v

    et = (jd - JD0) * 86400
    return pos(et) / AU, (pos(et + 20) - pos(et - 20)) / 40 * 86400 / AU


def sun(jd):
    et = (jd - JD0) * 86400
    return SUN(et) / AU, (SUN(et + 500) - SUN(et - 500)) / 1000 * 86400 / AU


GM_SUN = GMS
GM_TOTAL = sum(GM.values()) + sum(MA.values())
