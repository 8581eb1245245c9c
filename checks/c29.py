"""C29: configuration files: valid ones are taken exactly as written, invalid ones are refused before the run."""
import glob
import os

from hypothesis import strategies as st

from vlib.core import REPO_SRC, Property, require
from vlib.gen import DES_QUERY, VISITS_QUERY, BASE_INI, fl, fx, write_ini

PROP = Property(
    "C29",
    rule="Configuration files with generated values for every documented key (optional ones present or absent, sections dropped, "
    "key case varied) for each survey name, and the same files with one documented rule broken; non-trivial = a file that differs from the template in "
    "five or more keys, or a broken rule.",
    assumptions=["values are written in decimal notation as in the shipped files"],
)
LQ = BASE_INI["INPUT"]["pointing_sql_query"]
# the auxiliary files of the ephemeris generator
AUX = {
    "planet_ephemeris": "de440s.bsp", "earth_predict": "earth_2025_250826_2125_predict.bpc", "earth_historical": "earth_620120_250826.bpc", "earth_high_precision": "earth_latest_high_prec.bpc",
    "jpl_planets": "linux_p1550p2650.440", "jpl_small_bodies": "sb441-n16.bsp", "leap_seconds": "naif0012.tls", "meta_kernel": "meta_kernel.txt", "observatory_codes": "ObsCodes.json",
    "observatory_codes_compressed": "ObsCodes.json.gz", "orientation_constants": "pck00010.pck",
}  # fmt: skip
TRUE, FALSE = ["True", "true", "1", "yes", "y"], ["False", "false", "0", "no", "n"]


def maybe(draw, p=0.5):
    return draw(st.sampled_from([True, False])) if p == 0.5 else draw(fl(0, 1)) < p


@st.composite
def valid(draw):
    """(survey, ini sections, expected attributes)."""
    survey = draw(st.sampled_from(["rubin_sim", "RUBIN_SIM", "LSST", "lsst", "DES", "des"]))
    des = survey.lower() == "des"
    ini, exp = {}, {}

    def put(sec, key, text, val, attr=None):
        k = draw(st.sampled_from([key, key, key.upper()]))
        ini.setdefault(sec, {})[k] = draw(st.sampled_from(["", "", " "])) + text
        exp[f"{sec.lower()}.{attr or key}"] = val

    def num(sec, key, strat, cast=float):
        v = draw(strat)
        put(sec, key, repr(v), cast(v))
        return v

    def boolean(sec, key, v=None):
        v = draw(st.booleans()) if v is None else v
        put(sec, key, draw(st.sampled_from(TRUE if v else FALSE)), v)

    eph = draw(st.sampled_from(["ar", "external"]))
    put("INPUT", "ephemerides_type", eph, eph)
    v = draw(st.sampled_from(["csv", "whitespace", "hdf5"]))
    put("INPUT", "eph_format", v, v)
    num("INPUT", "size_serial_chunk", st.integers(1, 10**6), int)
    v = draw(st.sampled_from(["comma", "whitespace", "csv"]))
    put("INPUT", "aux_format", v, v)
    query = (DES_QUERY if des else LQ) + draw(st.sampled_from(["", "", "", " WHERE note NOT LIKE '%DD%'", " WHERE fieldDec % 2 < 1 AND filter <> 'u'"]))
    put("INPUT", "pointing_sql_query", query, query)
    ini["SIMULATION"] = {}
    if eph == "ar":
        num("SIMULATION", "ar_ang_fov", fx(0.1, 5, 2))
        num("SIMULATION", "ar_fov_buffer", fx(0, 2, 2))
        num("SIMULATION", "ar_picket", st.integers(1, 10), int)
        v = draw(st.sampled_from(["X05", "I11", "W84"]))
        put("SIMULATION", "ar_obs_code", v, v)
        num("SIMULATION", "ar_healpix_order", st.integers(1, 9), int)
        if maybe(draw):
            num("SIMULATION", "ar_n_sub_intervals", st.integers(3, 301), int)
        else:
            exp["simulation.ar_n_sub_intervals"] = 101
    filters = draw(st.lists(st.sampled_from("grizY" if des else "ugrizy"), min_size=1, max_size=5, unique=True))
    put("FILTERS", "observing_filters", draw(st.sampled_from([",", ", "])).join(filters), filters)
    n = len(filters)
    if maybe(draw):
        if maybe(draw):
            v = draw(fx(0, 20, 1))
            put("SATURATION", "bright_limit", repr(v), [v] * n)
        else:
            vs = draw(st.lists(fx(0, 20, 1), min_size=n, max_size=n))
            put("SATURATION", "bright_limit", ", ".join(map(repr, vs)), vs)
        exp["saturation.bright_limit_on"] = True
    else:
        exp["saturation.bright_limit_on"] = False
    v = draw(st.sampled_from(["HG", "HG1G2", "HG12", "linear", "none"]))
    put("PHASECURVES", "phase_function", v, v)
    cam = draw(st.sampled_from(["circle", "footprint", "none"] + (["visits_footprint"] * 2 if des else [])))
    put("FOV", "camera_model", cam, cam)
    if cam == "circle":
        which = draw(st.sampled_from(["both", "fill", "radius"]))
        if which != "radius":
            num("FOV", "fill_factor", st.one_of(fx(0, 1, 2), st.sampled_from([0.0, 1.0])))
        else:
            exp["fov.fill_factor"] = None
        if which != "fill":
            num("FOV", "circle_radius", st.one_of(fx(0, 4, 2), st.just(0.0)))
        else:
            exp["fov.circle_radius"] = None
    elif cam == "footprint":
        if maybe(draw):
            num("FOV", "footprint_edge_threshold", fx(0, 20, 1))
        else:
            exp["fov.footprint_edge_threshold"] = None
        if maybe(draw):
            put("FOV", "footprint_path", os.path.abspath(__file__), os.path.abspath(__file__))
        else:
            exp["fov.footprint_path"] = None
    elif cam == "visits_footprint":
        put("FOV", "visits_query", VISITS_QUERY, VISITS_QUERY)
    if des:
        on = draw(st.booleans())
        boolean("FADINGFUNCTION", "fading_function_on", on)
        if on:
            if maybe(draw):
                num("FADINGFUNCTION", "des_transient_efficency", fx(0, 1, 3))
            else:
                exp["fadingfunction.des_transient_efficency"] = 1
        if maybe(draw):
            boolean("LINKINGFILTER", "des_discovery_on")
        else:
            exp["linkingfilter.des_discovery_on"] = False
        for q, hi in (("distance", 500), ("motion", 2)):
            if maybe(draw):
                lo = num("LINKINGFILTER", f"{q}_cut_lower", fx(0, hi, 2))
                num("LINKINGFILTER", f"{q}_cut_upper", fx(int(lo) + 1, 2 * hi + 2, 2))
                exp[f"linkingfilter.{q}_cut_on"] = True
            else:
                exp[f"linkingfilter.{q}_cut_on"] = False
        exp["linkingfilter.ssp_linking_on"] = False
    else:
        if maybe(draw):
            num("FADINGFUNCTION", "fading_function_width", st.one_of(fx(0.01, 0.5, 2), st.just(0.5)))
            num("FADINGFUNCTION", "fading_function_peak_efficiency", st.one_of(fx(0, 1, 2), st.sampled_from([0.0, 1.0])))
            exp["fadingfunction.fading_function_on"] = True
        else:
            exp["fadingfunction.fading_function_on"] = False
        if maybe(draw):
            num("LINKINGFILTER", "ssp_detection_efficiency", st.one_of(fx(0, 1, 2), st.sampled_from([0.0, 1.0])))
            no = num("LINKINGFILTER", "ssp_number_observations", st.integers(1, 5), int)
            num("LINKINGFILTER", "ssp_separation_threshold", fx(0 if no == 1 else 0.01, 3, 2))
            num("LINKINGFILTER", "ssp_maximum_time", fx(0, 1, 4))
            num("LINKINGFILTER", "ssp_number_tracklets", st.integers(1, 5), int)
            num("LINKINGFILTER", "ssp_track_window", st.integers(1, 60), int)
            num("LINKINGFILTER", "ssp_night_start_utc", st.one_of(fx(0, 24, 1), st.sampled_from([0.0, 24.0])))
            exp["linkingfilter.ssp_linking_on"] = True
        else:
            exp["linkingfilter.ssp_linking_on"] = False
    if maybe(draw):
        boolean("LINKINGFILTER", "drop_unlinked")
    else:
        exp["linkingfilter.drop_unlinked"] = True
    v = draw(st.sampled_from(["csv", "sqlite3", "hdf5"]))
    put("OUTPUT", "output_format", v, v)
    if maybe(draw):
        v = draw(st.sampled_from(["basic", "all"]))
        put("OUTPUT", "output_columns", v, v)
    else:
        vs = draw(st.lists(st.sampled_from(["ObjID", "RA_deg", "PSFMag", "H_r", "phase_deg"]), min_size=2, max_size=5, unique=True))
        put("OUTPUT", "output_columns", draw(st.sampled_from([",", ", "])).join(vs), vs)
    for q in ("position_decimals", "magnitude_decimals"):
        if maybe(draw):
            num("OUTPUT", q, st.integers(0, 12), int)
        else:
            exp[f"output.{q}"] = None
    for sec, key in (("LIGHTCURVE", "lc_model"), ("ACTIVITY", "comet_activity")):
        v = draw(st.sampled_from(["none", "identity"]))
        put(sec, key, v, None if v == "none" else v)
    limit = draw(st.sampled_from(["none", "mag"] if des else ["none", "snr", "mag"]))
    exp["expert.snr_limit_on"], exp["expert.mag_limit_on"] = limit == "snr", limit == "mag"
    if limit != "none":
        num("EXPERT", f"{limit}_limit", fx(0, 25, 1))
    for q in ("default_snr_cut", "brute_force"):
        if maybe(draw):
            boolean("EXPERT", q)
        else:
            exp[f"expert.{q}"] = True
    for q in ("randomization_on", "vignetting_on", "trailing_losses_on"):
        if maybe(draw):
            boolean("EXPERT", q, False if des else None)
        else:
            exp[f"expert.{q}"] = not des
    ini["AUXILIARY"] = {}
    for key, plain in AUX.items():
        how = draw(st.sampled_from(["default"] * 4 + ["own", "own with address", "written out"]))
        single = key in ("meta_kernel", "observatory_codes")
        if how.startswith("own"):
            put("AUXILIARY", key, "my_" + plain, "my_" + plain)
        elif how == "written out":
            put("AUXILIARY", key, plain, plain)
        else:
            exp[f"auxiliary.{key}"] = plain
        if how == "own with address" and not single:
            url = f"https://example.org/a%20b/{key}?x=1"
            put("AUXILIARY", key + "_url", url, url)
        elif not single and how == "own":
            exp[f"auxiliary.{key}_url"] = None
    # sections without any setting may be left out altogether
    secs = [s for s in [*BASE_INI, "AUXILIARY"] if ini.get(s) or draw(st.booleans())]
    if draw(st.booleans()):
        secs = secs[:1] + secs[:0:-1]  # the order of sections and keys does not matter
    return {"survey": survey, "ini": {s: ini.get(s, {}) for s in secs}, "exp": exp}


def load(case, ini, folder):
    from sorcha.utilities.sorchaConfigs import sorchaConfigs

    return sorchaConfigs(write_ini(os.path.join(folder, "c.ini"), ini), case["survey"])


def attr(cfg, path):
    a, b = path.split(".")
    return getattr(getattr(cfg, a), b)


@PROP.check(valid(), quick=3000, thorough=25000)
def accepted(case, ctx):
    try:
        cfg = load(case, case["ini"], ctx.scratch())
    except SystemExit as e:
        require(False, "a valid configuration is refused", why=str(e), ini=case["ini"], survey=case["survey"])
    for k, w in case["exp"].items():
        g = attr(cfg, k)
        if w is False and k.endswith("_on"):
            require(not g, f"{k} is switched on", got=g)
        else:
            require(type(g) in (int, float) and g == w if type(w) in (int, float) else g == w, f"{k} not taken as written", got=g, want=w)
    ctx.nontrivial(len(case["ini"]) > 8)
    ctx.tag(case["survey"].lower())


# (section, key, bad value or None to delete, condition on (des, eph, cam))
ALWAYS = lambda des, eph, cam: True
BAD = [
    ("INPUT", "ephemerides_type", None, ALWAYS), ("INPUT", "ephemerides_type", "jpl", ALWAYS),
    ("INPUT", "eph_format", None, ALWAYS), ("INPUT", "eph_format", "parquet", ALWAYS),
    ("INPUT", "size_serial_chunk", None, ALWAYS), ("INPUT", "size_serial_chunk", "ten", ALWAYS), ("INPUT", "size_serial_chunk", "2.5", ALWAYS),
    ("INPUT", "size_serial_chunk", "0", ALWAYS), ("INPUT", "size_serial_chunk", "-5", ALWAYS),
    ("INPUT", "aux_format", None, ALWAYS), ("INPUT", "aux_format", "hdf", ALWAYS), ("INPUT", "pointing_sql_query", None, ALWAYS),
    ("SIMULATION", "ar_ang_fov", None, lambda d, e, c: e == "ar"), ("SIMULATION", "ar_ang_fov", "wide", lambda d, e, c: e == "ar"),
    ("SIMULATION", "ar_fov_buffer", None, lambda d, e, c: e == "ar"), ("SIMULATION", "ar_fov_buffer", "x", lambda d, e, c: e == "ar"),
    ("SIMULATION", "ar_picket", None, lambda d, e, c: e == "ar"), ("SIMULATION", "ar_picket", "1.5", lambda d, e, c: e == "ar"),
    ("SIMULATION", "ar_obs_code", None, lambda d, e, c: e == "ar"),
    ("SIMULATION", "ar_healpix_order", None, lambda d, e, c: e == "ar"), ("SIMULATION", "ar_healpix_order", "six", lambda d, e, c: e == "ar"),
    ("SIMULATION", "ar_n_sub_intervals", "many", lambda d, e, c: e == "ar"),
    ("SIMULATION", "ar_ang_fov", "2.06", lambda d, e, c: e == "external"), ("SIMULATION", "ar_picket", "1", lambda d, e, c: e == "external"),
    ("SIMULATION", "ar_obs_code", "X05", lambda d, e, c: e == "external"), ("SIMULATION", "ar_healpix_order", "6", lambda d, e, c: e == "external"),
    ("SIMULATION", "ar_fov_buffer", "0.2", lambda d, e, c: e == "external"),
    ("FILTERS", "observing_filters", None, ALWAYS), ("FILTERS", "observing_filters", "r,g,q", ALWAYS), ("FILTERS", "observing_filters", "Y", lambda d, e, c: not d),
    ("FILTERS", "observing_filters", "r,u", lambda d, e, c: d), ("FILTERS", "observing_filters", "y,r", lambda d, e, c: d),
    ("SATURATION", "bright_limit", "bright", ALWAYS), ("SATURATION", "bright_limit", "16,16,16,16,16,16,16,16", ALWAYS), ("SATURATION", "bright_limit", "16,x", ALWAYS),
    ("PHASECURVES", "phase_function", None, ALWAYS), ("PHASECURVES", "phase_function", "HG13", ALWAYS),
    ("FOV", "camera_model", None, ALWAYS), ("FOV", "camera_model", "square", ALWAYS), ("FOV", "camera_model", "visits_footprint", lambda d, e, c: not d),
    ("FOV", "footprint_path", "/nonexistent/corners.csv", lambda d, e, c: c == "footprint"), ("FOV", "footprint_edge_threshold", "near", lambda d, e, c: c == "footprint"),
    ("FOV", "fill_factor", "0.9", lambda d, e, c: c in ("footprint", "visits_footprint")), ("FOV", "circle_radius", "1.5", lambda d, e, c: c in ("footprint", "visits_footprint")),
    ("FOV", "visits_query", "SELECT 1", lambda d, e, c: c == "footprint"), ("FOV", "visits_query", None, lambda d, e, c: c == "visits_footprint"),
    ("FOV", "footprint_edge_threshold", "2.0", lambda d, e, c: c in ("circle", "visits_footprint")),
    ("FOV", "fill_factor", "1.01", lambda d, e, c: c == "circle"), ("FOV", "fill_factor", "-0.1", lambda d, e, c: c == "circle"), ("FOV", "fill_factor", "half", lambda d, e, c: c == "circle"),
    ("FOV", "circle_radius", "-0.5", lambda d, e, c: c == "circle"), ("FOV", "circle_radius", "wide", lambda d, e, c: c == "circle"),
    ("FADINGFUNCTION", "fading_function_width", "0.1", lambda d, e, c: d), ("FADINGFUNCTION", "fading_function_peak_efficiency", "1.0", lambda d, e, c: d),
    ("FADINGFUNCTION", "fading_function_on", None, lambda d, e, c: d), ("FADINGFUNCTION", "fading_function_on", "maybe", lambda d, e, c: d),
    ("LINKINGFILTER", "distance_cut_upper", "100.0", lambda d, e, c: not d), ("LINKINGFILTER", "motion_cut_lower", "0.1", lambda d, e, c: not d),
    ("LINKINGFILTER", "drop_unlinked", "maybe", ALWAYS), ("LINKINGFILTER", "des_discovery_on", "perhaps", lambda d, e, c: d),
    ("LINKINGFILTER", "ssp_maximum_time", "0.06", lambda d, e, c: d),
    ("OUTPUT", "output_format", None, ALWAYS), ("OUTPUT", "output_format", "fits", ALWAYS), ("OUTPUT", "output_columns", None, ALWAYS), ("OUTPUT", "output_columns", "some", ALWAYS),
    ("OUTPUT", "position_decimals", "-1", ALWAYS), ("OUTPUT", "magnitude_decimals", "-3", ALWAYS), ("OUTPUT", "magnitude_decimals", "two", ALWAYS), ("OUTPUT", "position_decimals", "1.5", ALWAYS),
    ("LIGHTCURVE", "lc_model", "what_model", ALWAYS), ("ACTIVITY", "comet_activity", "nothing", ALWAYS),
    ("EXPERT", "snr_limit", "-1.0", ALWAYS), ("EXPERT", "snr_limit", "low", ALWAYS), ("EXPERT", "mag_limit", "-22.0", ALWAYS), ("EXPERT", "mag_limit", "x", ALWAYS),
    ("EXPERT", "snr_limit", "5.0", lambda d, e, c: d), ("EXPERT", "default_snr_cut", "maybe", ALWAYS), ("EXPERT", "brute_force", "2", ALWAYS), ("EXPERT", "randomization_on", "sometimes", ALWAYS),
    ("AUXILIARY", "leap_seconds_url", "https://example.org/x.tls", ALWAYS), ("AUXILIARY", "jpl_planets_url", "https://example.org/x", ALWAYS),
    ("EXPERT", "randomization_on", "True", lambda d, e, c: d), ("EXPERT", "vignetting_on", "True", lambda d, e, c: d), ("EXPERT", "trailing_losses_on", "True", lambda d, e, c: d),
]
FADE = [("fading_function_width", x) for x in ("0.0", "-0.1", "0.51", "0.5001", "thin", None)] + [("fading_function_peak_efficiency", x) for x in ("-0.1", "1.01", "1.0001", "best", None)]
LINK = [
    ("ssp_detection_efficiency", "1.01"), ("ssp_detection_efficiency", "1.0001"), ("ssp_detection_efficiency", "-0.01"), ("ssp_detection_efficiency", "good"), ("ssp_number_observations", "0"), ("ssp_number_observations", "-2"),
    ("ssp_number_observations", "1.5"), ("ssp_separation_threshold", "0.0"), ("ssp_separation_threshold", "-0.5"), ("ssp_separation_threshold", "x"), ("ssp_maximum_time", "-0.1"),
    ("ssp_number_tracklets", "0"), ("ssp_number_tracklets", "-1"), ("ssp_number_tracklets", "2.5"), ("ssp_track_window", "0"), ("ssp_track_window", "-3"), ("ssp_track_window", "long"),
    ("ssp_night_start_utc", "-0.5"), ("ssp_night_start_utc", "24.5"), ("ssp_night_start_utc", "24.01"), ("ssp_night_start_utc", "noon"),
] + [(k, None) for k in ("ssp_detection_efficiency", "ssp_number_observations", "ssp_separation_threshold", "ssp_maximum_time", "ssp_number_tracklets", "ssp_track_window", "ssp_night_start_utc")]
GOODLINK = {"ssp_detection_efficiency": "0.95", "ssp_number_observations": "2", "ssp_separation_threshold": "0.5", "ssp_maximum_time": "0.0625", "ssp_number_tracklets": "3", "ssp_track_window": "15", "ssp_night_start_utc": "16.0"}


@st.composite
def invalid(draw):
    base = draw(valid())
    des = base["survey"].lower() == "des"
    eph, cam = base["exp"]["input.ephemerides_type"], base["exp"]["fov.camera_model"]
    ini = base["ini"]

    def strip(sec, key):
        ini[sec] = {k: v for k, v in ini.get(sec, {}).items() if k.lower() != key}

    def set_(sec, key, val):
        strip(sec, key)
        if val is not None:
            ini[sec][key] = val

    kind = draw(st.sampled_from(["table", "table", "fade", "link", "both_limits", "half_cut", "no_circle", "unknown", "nan"]))
    if kind in ("fade", "link") and des or kind == "half_cut" and not des or kind == "no_circle" and cam != "circle":
        kind = "table"
    what = kind
    if kind == "nan":
        nums = []
        for sec in sorted(ini):
            for k in sorted(ini[sec]):
                v = base["exp"].get(f"{sec.lower()}.{k.lower()}")
                if type(v) in (int, float) or isinstance(v, list) and v and isinstance(v[0], float):
                    nums.append((sec, k))
        sec, key = draw(st.sampled_from(nums))
        ini[sec][key] = draw(st.sampled_from(["nan", "NaN", "-nan"]))
        what = f"{sec}.{key}=nan"
    elif kind == "table":
        sec, key, val, _ = draw(st.sampled_from([b for b in BAD if b[3](des, eph, cam)]))
        set_(sec, key, val)
        if sec == "AUXILIARY" and key.endswith("_url"):
            strip(sec, key[: -len("_url")])
        what = f"{sec}.{key}={val}"
    elif kind == "fade":
        ini["FADINGFUNCTION"] = {"fading_function_width": "0.1", "fading_function_peak_efficiency": "1.0"}
        key, val = draw(st.sampled_from(FADE))
        set_("FADINGFUNCTION", key, val)
        what = f"{key}={val}"
    elif kind == "link":
        ini["LINKINGFILTER"] = dict(GOODLINK)
        key, val = draw(st.sampled_from(LINK))
        set_("LINKINGFILTER", key, val)
        what = f"{key}={val}"
    elif kind == "both_limits":
        set_("EXPERT", "snr_limit", "5.0")
        set_("EXPERT", "mag_limit", "22.0")
    elif kind == "half_cut":
        q = draw(st.sampled_from(["distance", "motion"]))
        e = draw(st.sampled_from(["upper", "lower"]))
        for x in ("upper", "lower"):
            set_("LINKINGFILTER", f"{q}_cut_{x}", "50.0" if x == e else None)
    elif kind == "no_circle":
        strip("FOV", "fill_factor")
        strip("FOV", "circle_radius")
    else:
        sec = draw(st.sampled_from(sorted(ini)))
        ini.setdefault(sec, {})[draw(st.sampled_from(["fooled_you", "survey", "bright_limits", "ar_fov"]))] = "1"
    return {"survey": base["survey"], "ini": ini, "what": what}


@PROP.check(invalid(), quick=6000, thorough=30000)
def refused(case, ctx):
    """Breaking one documented rule makes the configuration end the run with an error."""
    try:
        load(case, case["ini"], ctx.scratch())
    except SystemExit as e:
        require(e.code not in (0, None), "the run ends as if it had succeeded", what=case["what"])
    except TypeError:
        # how an unknown key is refused
        require(case["what"] == "unknown", "an invalid configuration is not reported but crashes", what=case["what"], survey=case["survey"])
    else:
        require(False, "an invalid configuration is accepted", what=case["what"], survey=case["survey"], ini=case["ini"].get(case["what"].split(".")[0]))
    ctx.nontrivial(True)
    ctx.tag(case["what"][:30])


@PROP.check(valid(), quick=120, thorough=2000)
def every_rule(base, ctx):
    """The rules broken one after the other, each of them, in one configuration."""
    des = base["survey"].lower() == "des"
    eph, cam = base["exp"]["input.ephemerides_type"], base["exp"]["fov.camera_model"]
    broken = [(sec, key, val, {}) for sec, key, val, when in BAD if when(des, eph, cam)]
    if not des:
        broken += [("FADINGFUNCTION", k, v, {"fading_function_width": "0.1", "fading_function_peak_efficiency": "1.0"}) for k, v in FADE]
        broken += [("LINKINGFILTER", k, v, GOODLINK) for k, v in LINK]
    folder = ctx.scratch()
    for sec, key, val, first in broken:
        ini = {s: dict(x) for s, x in base["ini"].items()}
        ini[sec] = {k: v for k, v in (first or ini.get(sec, {})).items() if k.lower() != key and not (key.endswith("_url") and k.lower() == key[:-4])}
        if val is not None:
            ini[sec][key] = val
        try:
            load(base, ini, folder)
        except SystemExit as e:
            require(e.code not in (0, None), "the run ends as if it had succeeded", section=sec, key=key, value=val)
        except TypeError:
            require(False, "an invalid configuration is not reported but crashes", section=sec, key=key, value=val, survey=base["survey"])
        else:
            require(False, "an invalid configuration is accepted", section=sec, key=key, value=val, survey=base["survey"], ini=ini[sec])
    ctx.nontrivial(True)
    ctx.tag("des" if des else "lsst", eph, cam)


@PROP.check(st.fixed_dictionaries({"n": st.integers(0, 30), "stripped": st.booleans()}), quick=60, thorough=300)
def shipped(case, ctx):
    """Every configuration shipped with the package loads for its survey and means what its text says."""
    import configparser

    from sorcha.utilities.sorchaConfigs import sorchaConfigs

    files = sorted(glob.glob(os.path.join(REPO_SRC, "sorcha", "data", "survey_setups", "*.ini")) + glob.glob(os.path.join(REPO_SRC, "sorcha", "data", "demo", "*.ini")))
    require(len(files) >= 4, "shipped configuration files are missing", files=files)
    f = files[case["n"] % len(files)]
    survey = "DES" if "DES" in os.path.basename(f) else "rubin_sim"
    try:
        cfg = sorchaConfigs(f, survey)
    except (SystemExit, TypeError) as e:
        require(False, "a shipped configuration file is refused", file=os.path.basename(f), why=str(e))
    raw = configparser.ConfigParser()
    raw.read(f)
    for sec in raw.sections():
        for k, v in raw[sec].items():
            g = getattr(getattr(cfg, sec.lower()), k)
            if isinstance(g, bool):
                require(g == (v in TRUE), "a boolean of a shipped file is not taken as written", key=k, got=g, want=v)
            elif isinstance(g, (int, float)):
                require(float(v) == g, "a number of a shipped file is not taken as written", key=k, got=g, want=v)
            elif isinstance(g, list):
                w = [x.strip() for x in v.split(",")]
                require([str(x) for x in g] == w or [float(x) for x in w] * (len(g) // len(w)) == g, "a list of a shipped file is not taken as written", key=k, got=g, want=v)
            else:
                require(g == v or (v == "none" and g is None), "a value of a shipped file is not taken as written", key=k, got=g, want=v)
    ctx.nontrivial(True)
    ctx.tag(os.path.basename(f))
