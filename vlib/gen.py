"""Generators and builders shared by the checks (inputs that the code documents or every caller respects)."""
import json
import os
import sqlite3

from hypothesis import strategies as st

LSST = ["u", "g", "r", "i", "z", "y"]
DES = ["g", "r", "i", "z", "Y"]
AU_KM = 149597870.700


def fl(lo, hi):
    """Finite floats in [lo, hi], without subnormal noise."""
    return st.floats(min_value=lo, max_value=hi, allow_nan=False, allow_infinity=False, allow_subnormal=False)


def fx(lo, hi, decimals):
    """Decimal numbers with a fixed number of decimals: short to print, good for boundaries; at times with six more digits."""
    return st.one_of(_fx(lo, hi, decimals), _fx(lo, hi, decimals), _fx(lo, hi, decimals + 6))


def _fx(lo, hi, decimals):
    k = 10**decimals
    return st.integers(int(round(lo * k)), int(round(hi * k))).map(lambda n: n / k)


# object identifiers: what real catalogues contain, including ones that look like numbers
_ID_SHAPES = st.one_of(
    st.integers(0, 99).map(lambda n: f"S{n:06d}"),
    st.integers(0, 99).map(lambda n: f"obj_{n}"),
    st.integers(1, 60).map(lambda n: f"2010_TU{n}"),
    st.integers(1, 60).map(lambda n: f"(4321{n})"),
)
_ID_TRICKY = st.one_of(
    st.integers(1, 30).map(str),
    st.integers(1, 30).map(lambda n: f"{n:05d}"),
    st.integers(1, 9).map(lambda n: f"{n}e{n}"),
    st.integers(1, 9).map(lambda n: f"{n}.50"),
    st.sampled_from(["007", "1e5", "0", "00", "True", "inf", "-1", "1_000"]),
    st.sampled_from(["\u02bbOumuamua", "G\u01c3k\u00fan\u01c1", "\u010ciurlionis", "\u5c0f\u884c\u661f7"]),
)


def object_ids(min_size=1, max_size=6, tricky=True):
    shape = st.one_of(_ID_SHAPES, _ID_TRICKY) if tricky else _ID_SHAPES
    return st.lists(shape, min_size=min_size, max_size=max_size, unique=True)


def permutation(n):
    return st.permutations(list(range(n)))


BASE_INI = {
    "INPUT": {
        "ephemerides_type": "external",
        "eph_format": "csv",
        "size_serial_chunk": "10",
        "aux_format": "csv",
        "pointing_sql_query": (
            "SELECT observationId, observationStartMJD as observationStartMJD_TAI, visitTime, visitExposureTime, "
            "filter, seeingFwhmGeom as seeingFwhmGeom_arcsec, seeingFwhmEff as seeingFwhmEff_arcsec, "
            "fiveSigmaDepth as fieldFiveSigmaDepth_mag , fieldRA as fieldRA_deg, fieldDec as fieldDec_deg, "
            "rotSkyPos as fieldRotSkyPos_deg FROM observations order by observationId"
        ),
    },
    "SIMULATION": {},
    "FILTERS": {"observing_filters": "r,g,i,z,u,y"},
    "SATURATION": {},
    "PHASECURVES": {"phase_function": "HG"},
    "FOV": {"camera_model": "none"},
    "FADINGFUNCTION": {},
    "LINKINGFILTER": {},
    "OUTPUT": {"output_format": "csv", "output_columns": "all"},
    "LIGHTCURVE": {"lc_model": "none"},
    "ACTIVITY": {"comet_activity": "none"},
    "EXPERT": {},
}

DES_QUERY = (
    "SELECT observationId, observationMidpointMJD as observationMidpointMJD_TAI , visitExposureTime, filter, "
    "fiveSigmaDepth as fieldFiveSigmaDepth_mag , fieldRA as fieldRA_deg, fieldDec as fieldDec_deg, c, k "
    "FROM observations order by observationId"
)
VISITS_QUERY = (
    "SELECT llcra, llcdec, lrcra, lrcdec, urcra, urcdec, ulcra, ulcdec, ra as ra_centre, dec as dec_centre, "
    "detectorID, magLim as limMag_perChip  FROM observations WHERE visitId = ?"
)
AR_SIM = {
    "ar_ang_fov": "2.06",
    "ar_fov_buffer": "0.2",
    "ar_picket": "1",
    "ar_obs_code": "X05",
    "ar_healpix_order": "6",
}


def ini(overrides=None, base=None):
    """BASE_INI with overrides: {section: {key: value or None to delete}}; section None deletes it."""
    out = {s: dict(d) for s, d in (base or BASE_INI).items()}
    for sec, d in (overrides or {}).items():
        if d is None:
            out.pop(sec, None)
            continue
        tgt = out.setdefault(sec, {})
        for k, v in d.items():
            if v is None:
                tgt.pop(k, None)
            else:
                tgt[k] = str(v)
    return out


def write_ini(path, sections):
    with open(path, "w") as f:
        for sec, d in sections.items():
            f.write(f"[{sec}]\n")
            for k, v in d.items():
                f.write(f"{k} = {v}\n")
            f.write("\n")
    return path


def load_config(scratch, overrides=None, survey="rubin_sim", base=None, name="config.ini"):
    from sorcha.utilities.sorchaConfigs import sorchaConfigs

    path = write_ini(os.path.join(scratch, name), ini(overrides, base))
    return sorchaConfigs(path, survey)


_cfg_cache = {}


def config(overrides=None, survey="rubin_sim", base=None):
    """A loaded configuration (fresh copy of a cached one)."""
    import copy
    import tempfile

    key = json.dumps([overrides, survey, base], sort_keys=True)
    if key not in _cfg_cache:
        with tempfile.TemporaryDirectory() as d:
            c = load_config(d, overrides, survey, base)
            c.pplogger = None
        _cfg_cache[key] = c
    return copy.deepcopy(_cfg_cache[key])


def rngs(seed):
    from sorcha.utilities.sorchaModuleRNG import PerModuleRNG

    return PerModuleRNG(seed)


def relclose(a, b, rtol=1e-9, atol=1e-9):
    import numpy as np

    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)))


def unit(ra, dec):
    import numpy as np

    a, d = np.radians(ra), np.radians(dec)
    return np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)])


def sep_deg(ra1, dec1, ra2, dec2):
    """Angular separation by the vector (atan2) formula, in degrees."""
    import numpy as np

    u, v = unit(ra1, dec1), unit(ra2, dec2)
    c = np.linalg.norm(np.cross(u, v, axis=0), axis=0)
    return np.degrees(np.arctan2(c, np.sum(u * v, axis=0)))


def offset_point(ra, dec, bearing, dist):
    """Point at angular distance `dist` and bearing from (ra, dec), all degrees. Exact at poles."""
    import numpy as np

    a, d = np.radians(ra), np.radians(dec)
    b, s = np.radians(bearing), np.radians(dist)
    n = unit(ra, dec)
    east = np.array([-np.sin(a), np.cos(a), 0.0])
    north = np.array([-np.sin(d) * np.cos(a), -np.sin(d) * np.sin(a), np.cos(d)])
    p = np.cos(s) * n + np.sin(s) * (np.cos(b) * north + np.sin(b) * east)
    return float(np.degrees(np.arctan2(p[1], p[0])) % 360.0), float(np.degrees(np.arctan2(p[2], np.hypot(p[0], p[1]))))


def make_db(path, table, columns, rows):
    con = sqlite3.connect(path)
    con.execute(f"CREATE TABLE {table} ({', '.join(columns)})")
    con.executemany(f"INSERT INTO {table} VALUES ({','.join('?' * len(columns))})", rows)
    con.commit()
    con.close()
    return path


def frames_equal(a, b, rtol=0.0, atol=0.0):
    """None if the frames hold the same columns and values (row order matters, index ignored), else text."""
    import numpy as np
    import pandas as pd

    if list(a.columns) != list(b.columns):
        return f"columns differ: {list(a.columns)} vs {list(b.columns)}"
    if len(a) != len(b):
        return f"row counts differ: {len(a)} vs {len(b)}"
    for i, c in enumerate(a.columns):
        x, y = a.iloc[:, i].reset_index(drop=True), b.iloc[:, i].reset_index(drop=True)
        if pd.api.types.is_numeric_dtype(x) and pd.api.types.is_numeric_dtype(y):
            if not np.all(np.isclose(x.astype(float), y.astype(float), rtol=rtol, atol=atol, equal_nan=True)):
                return f"column {c} differs: {x.tolist()[:8]} vs {y.tolist()[:8]}"
        else:
            if [str(v) for v in x] != [str(v) for v in y]:
                return f"column {c} differs: {x.tolist()[:8]} vs {y.tolist()[:8]}"
    return None


def serial(z):
    """Largest correlation between standardised draws and the same draws any number of rows further on, in standard deviations."""
    import numpy as np

    z = np.asarray(z, float)
    n = len(z)
    f = np.fft.rfft(z, 2 * n)
    ac = np.fft.irfft(f * np.conj(f), 2 * n)[1:n]
    m = n - np.arange(1, n)
    ok = m >= min(n // 4, 1000) + 1
    t = np.abs(ac[ok]) / np.sqrt(m[ok])
    j = int(np.argmax(t))
    return float(t[j]), j + 1


# Mostly the table as generated; now and then a long table made of its rows (block sizes, caches, work arrays).
BULK = st.tuples(st.sampled_from([0] * 14 + [1100, 5000, 20000]), st.integers(0, 999))


def spread(n, bulk):
    """Row numbers (of n generated rows) of the table a BULK draw asks for."""
    import numpy as np

    return list(range(n)) if not bulk[0] or not n else np.random.default_rng(bulk[1]).integers(0, n, bulk[0]).tolist()
