"""C35: the logs of a run: they reproduce it, state its configuration and tell success from failure."""
import copy
import glob
import logging
import os
import re

from hypothesis import assume
from hypothesis import strategies as st

from checks import c29, c30
from checks.c34 import Table
from vlib import e2e
from vlib.core import Property, require

PROP = Property(
    "C35",
    rule="`sorcha run` without a seed on small surveys with random elements, then again with the seed its log gives; every setting of generated configurations of both surveys changed, one at a time; "
    "complete runs and runs with inputs that do not fit. Non-trivial = detections with random values, a setting in use, or an input that does not fit.",
    assumptions=["the addresses auxiliary files are downloaded from and settings of parts not in use are not part of the log"],
)


@PROP.warmup
def _warm():
    import sorcha.des, sorcha.sorcha  # noqa: F401,E401

    e2e.register()


def logs(folder, ext):
    return "".join(open(p, errors="replace").read() for p in sorted(glob.glob(os.path.join(glob.escape(folder), f"*-sorcha.{ext}"))))


def outputs(folder):
    return {n: open(os.path.join(folder, n), "rb").read() for n in sorted(os.listdir(folder)) if not n.endswith(("-sorcha.log", "-sorcha.err"))}


@PROP.check(e2e.world("lsst", stochastic=True, plugins=False, max_obj=3), quick=60, thorough=2500)
def seed_in_log(w, ctx):
    """A run without a seed of its own can be repeated exactly with the seed its log tells."""
    w = dict(w, random=True, fading=w["fading"], width=0.1, peak=0.9, out="csv")
    d = ctx.scratch()
    a = e2e.write(w, d)
    runs = []
    for k in range(2):
        out = os.path.join(d, "free%d" % k)
        os.makedirs(out)
        code = c30.command(c30.argv(c30.options(w, dict(a, outpath=out), None, "run"), 0))
        require(code is None, "the run ends with an error", code=code, err=logs(out, "err")[-300:])
        runs.append((outputs(out), logs(out, "log")))
    res, log = runs[0]
    rows = e2e.read_output(w, {"outpath": os.path.join(d, "free0"), "outfilestem": "run"})
    noisy = [r for r in rows or [] if float(r.get("astrometricSigma_deg") or 0) > 1e-7]
    ctx.nontrivial(bool(noisy))
    ctx.tag("random values" if noisy else "-")
    if len(noisy) > 1:
        require(res != runs[1][0], "two runs without a seed draw the same random values")
    seeds = []
    for line in log.splitlines():
        if "seed" in line.lower():
            seeds += [int(x) for x in re.findall(r"(?<![\w.-])\d+(?![\w.-])", line)]
    seeds = [s for s in dict.fromkeys(seeds) if s < 2**32]
    require(seeds, "no seed in the log", log=log[:400])
    for i, s in enumerate(seeds[:8]):
        out = os.path.join(d, "again%d" % i)
        os.makedirs(out)
        code = c30.command(c30.argv(c30.options(w, dict(a, outpath=out), None, "run"), 0), seed=s)
        require(code is None, "the run with a seed ends with an error", code=code)
        if outputs(out) == res:
            return
    require(False, "no seed given in the log repeats the run", seeds=seeds)


# setting -> other values it may have
NUM = [7.625, 3.375, 0.40625]
OTHER = {
    "input.ephemerides_type": ["ar", "external"], "input.eph_format": ["csv", "whitespace", "hdf5"], "input.size_serial_chunk": [777123, 31], "input.aux_format": ["csv", "whitespace"],
    "input.pointing_sql_query": ["SELECT a FROM b", "SELECT a FROM c"], "phasecurves.phase_function": ["HG", "HG1G2", "HG12", "linear", "none"], "fov.camera_model": ["none", "circle", "footprint"],
    "output.output_format": ["csv", "sqlite3", "hdf5"], "output.output_columns": ["basic", "all", ["ObjID", "RA_deg"]], "output.position_decimals": [None, 0, 7, 9], "output.magnitude_decimals": [None, 0, 7, 9],
    "lightcurve.lc_model": [None, "identity", "other"], "activity.comet_activity": [None, "identity", "other"],
}
for _q in ("default_snr_cut", "randomization_on", "vignetting_on", "trailing_losses_on"):
    OTHER["expert." + _q] = [True, False]


def settings(cfg, survey):
    """(path, other values) of every setting in use."""
    out = [(k, v) for k, v in OTHER.items() if k != "fov.camera_model" or cfg.fov.camera_model != "visits_footprint"]
    f, l, s = cfg.fov, cfg.linkingfilter, cfg.simulation
    if f.camera_model == "circle":
        out += [("fov.fill_factor", [0.0, 0.40625, 1.0] + [None] * (f.circle_radius is not None)), ("fov.circle_radius", [0.0, 1.625, 3.5] + [None] * (f.fill_factor is not None))] * 2
    if f.camera_model == "footprint":
        out += [("fov.footprint_edge_threshold", [None, 0.0] + NUM), ("fov.footprint_path", [None, "/a/corners.csv", "/b/corners.csv"])]
    if f.camera_model == "visits_footprint":
        out += [("fov.visits_query", ["SELECT 1", "SELECT 2"])]
    des = survey.lower() == "des"
    if cfg.fadingfunction.fading_function_on:
        out += [("fadingfunction." + q, NUM) for q in (["des_transient_efficency"] if des else ["fading_function_width", "fading_function_peak_efficiency"])] * 2
    if l.ssp_linking_on:
        out += [("linkingfilter.drop_unlinked", [True, False])] * 2
        out += [("linkingfilter." + q, [3, 77]) for q in ("ssp_number_observations", "ssp_number_tracklets", "ssp_track_window")]
        out += [("linkingfilter." + q, NUM) for q in ("ssp_detection_efficiency", "ssp_separation_threshold", "ssp_maximum_time", "ssp_night_start_utc")]
    if des:
        out += [("linkingfilter.des_discovery_on", [True, False])] * 2
        for q in ("distance", "motion"):
            if getattr(l, q + "_cut_on"):
                out += [(f"linkingfilter.{q}_cut_{x}", NUM) for x in ("lower", "upper")]
    if cfg.expert.snr_limit_on:
        out += [("expert.snr_limit", NUM)]
    if cfg.expert.mag_limit_on:
        out += [("expert.mag_limit", NUM)]
    if cfg.saturation.bright_limit_on:
        n = len(cfg.filters.observing_filters)
        out += [("saturation.bright_limit", [[x] * n for x in NUM] + [[7.625] + [3.375] * (n - 1)])]
    if cfg.input.ephemerides_type == "ar":
        out += [("expert.brute_force", [True, False])] * 2
        out += [("simulation.ar_ang_fov", NUM), ("simulation.ar_fov_buffer", NUM), ("simulation.ar_picket", [3, 77]), ("simulation.ar_obs_code", ["X05", "I11"]), ("simulation.ar_healpix_order", [3, 77]), ("simulation.ar_n_sub_intervals", [301, 77])]
    out += [("auxiliary." + k, ["abc." + k, "def." + k]) for k in c29.AUX]
    return out


SWITCH = {"linkingfilter.des_discovery_on": None, "fadingfunction.fading_function_on": None}


class Capture(logging.Handler):
    def __init__(self):
        super().__init__(logging.INFO)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())


def logged(cfg, args):
    from sorcha.utilities.sorchaConfigs import PrintConfigsToLog

    h, log = Capture(), logging.getLogger("sorcha")
    level = log.level
    log.addHandler(h)
    log.setLevel(logging.INFO)
    try:
        PrintConfigsToLog(cfg, args)
    finally:
        log.removeHandler(h)
        log.setLevel(level)
    return h.lines


@PROP.check(st.fixed_dictionaries({"cfg": c29.valid(), "picks": st.lists(st.tuples(st.integers(0, 10**6), st.integers(0, 9)), min_size=6, max_size=12)}), quick=400, thorough=12000)
def settings_in_log(c, ctx):
    """The log states every setting in use: changing one changes what is logged, and numbers appear in it."""
    from sorcha.utilities.sorchaArguments import sorchaArguments

    case = c["cfg"]
    cfg = c29.load(case, case["ini"], ctx.scratch())
    f = cfg.filters.observing_filters
    cfg.filters.mainfilter, cfg.filters.othercolours = f[0], [f"{x}-{f[0]}" for x in f[1:]] or None
    args = sorchaArguments({"paramsinput": "p.txt", "orbinfile": "o.txt", "input_ephemeris_file": None, "configfile": "c.ini", "pointing_database": "d.db", "outpath": "./", "surveyname": case["survey"], "outfilestem": "x",
                            "loglevel": False, "seed": 1, "stats": None, "visits_database": "v.db"})  # fmt: skip
    base = logged(cfg, args)
    ctx.nontrivial(True)
    ctx.tag(case["survey"].lower())
    sets = settings(cfg, case["survey"])
    for i, j in c["picks"]:
        path, values = sets[i % len(sets)]
        sec, key = path.split(".")
        old = getattr(getattr(cfg, sec), key)
        new = values[j % len(values)]
        if bool(new) == bool(old) if isinstance(new, bool) else new == old and type(new) == type(old):
            continue
        other = copy.deepcopy(cfg)
        setattr(getattr(other, sec), key, new)
        if key == "camera_model":
            if new == "circle":
                other.fov.circle_radius = 1.5
        got = logged(other, args)
        ctx.tag(path)
        require(sorted(got) != sorted(base), f"the log is the same whatever {path} is", old=old, new=new, survey=case["survey"])
        if type(new) is float or type(new) is int and new > 3:
            fresh = [x for x in got if x not in base]
            require(any(re.search(rf"(?<![\d.]){re.escape(str(new))}(?![\d])", x) for x in fresh), f"the log does not tell the value of {path}", old=old, new=new, changed=fresh)


WRONG = ["orbit id", "parameter id", "no colour", "no H", "H missing", "ephemeris value", "bad setting", "filter", "no visits", "orbit missing", "ephemeris heading"]


@PROP.check(
    st.fixed_dictionaries({"w": st.sampled_from(["lsst", "des"]).flatmap(lambda k: e2e.world(k, max_obj=3)), "wrong": st.sampled_from([None, None] + WRONG), "which": st.integers(0, 99)}), quick=160, thorough=5000
)
def outcome_in_log(c, ctx):
    """The error log is empty after a complete run, and tells of the error after one that ends with it."""
    w, wrong = c["w"], c["wrong"]
    a = e2e.write(w, ctx.scratch())
    d = os.path.dirname(a["configfile"])
    ini = open(a["configfile"]).read()
    if wrong in ("orbit id", "parameter id", "no colour", "no H", "H missing", "orbit missing"):
        t = Table(a["orbinfile"] if "orbit" in wrong else a["paramsinput"], w["aux"])
        j = 1 + c["which"] % (len(t.rows) - 1)
        main = "H_" + w["filters"][0]
        if wrong.endswith("id"):
            t.rows[j][0] = "zz" + t.rows[j][0]
        elif wrong == "no colour":
            assume(len(w["filters"]) > 1)
            t.drop(f"{w['filters'][1]}-{w['filters'][0]}")
        elif wrong == "no H":
            t.drop(main)
        else:
            t.blank(main if wrong == "H missing" else ["a", "epochMJD_TDB", "ma"][c["which"] % 3], j, "NaN")
        t.write()
    elif wrong in ("ephemeris value", "ephemeris heading"):
        assume(w["efmt"] != "hdf5" and any(r["ObjID"] in w["ids"] for r in e2e.eph_rows(w)))
        t = Table(a["input_ephemeris_file"], w["efmt"])
        if wrong == "ephemeris value":
            mine = [j for j, r in enumerate(t.rows) if r[0] in w["ids"]]
            t.blank("RA_deg", mine[c["which"] % len(mine)], "NaN")
        else:
            t.rename("RA_deg", "RA_degrees")
        t.write()
    elif wrong in ("bad setting", "filter", "no visits"):
        x, y = {"bad setting": ("[PHASECURVES]\nphase_function = " + w["fn"], "[PHASECURVES]\nphase_function = HG13"), "filter": ("observing_filters = ", "observing_filters = Q,"), "no visits": ("FROM observations", "FROM observations WHERE observationId < 0")}[wrong]
        if x not in ini:
            ctx.tag("not in this configuration")
            return
        with open(a["configfile"], "w") as f:
            f.write(ini.replace(x, y, 1))
    out = os.path.join(d, "fresh")
    os.makedirs(out)
    code = c30.command(c30.argv(c30.options(w, dict(a, outpath=out), None, "run"), 0), seed=w["seed"])
    err, log = logs(out, "err"), logs(out, "log")
    ctx.nontrivial(wrong is not None)
    ctx.tag(w["survey"], wrong or "complete")
    if wrong is None:
        require(code is None, "a run ends with an error", code=code)
        require(err == "", "the error log of a complete run is not empty", err=err[:300])
        require("ERROR" not in log, "the log of a complete run tells of an error")
        return
    require(code not in (None, 0), "a run on inputs that do not fit goes through", wrong=wrong)
    require("ERROR" in err, "the error log does not tell of the error", wrong=wrong, code=code, err=err[:300])
    require(all(x in log for x in err.splitlines()), "an error is in the error log only", wrong=wrong)
