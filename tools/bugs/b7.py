PRE = "import os, sys, logging\nimport numpy as np, pandas as pd\nS = os.environ['DEMO_SCRATCH']\n"
exec(open(os.path.join(HERE, "tools", "bugs", "e2e_demo.py")).read())

BUGS = [
dict(id="c11-ra-difference", property="C11", needs="an object and a field centre close to a pole, or on the two sides of RA 0",
 breaks="the angle from the field centre is wrong where right ascensions differ a lot: magnitudes lose depth that they do not lose",
 edits=[("modules/PPVignetting.py", "sin((ra2 - ra1) / 2.0) ** 2", "sin(np.minimum(np.abs(ra2 - ra1), 0.5) / 2.0) ** 2")],
 demo=PRE + '''
from sorcha.modules.PPVignetting import calcVignettingLosses as f
a = f(np.array([359.9, 10.0]), np.array([0.0, 89.9]), np.array([0.1, 190.0]), np.array([0.0, 89.9]))
b = f(np.array([0.0]), np.array([0.2]), np.array([0.0]), np.array([0.0]))
assert np.allclose(a, b[0]), (a, b)
'''),
dict(id="c12-bright-floor", property="C12", needs="a detection much brighter than the limiting magnitude",
 breaks="the signal-to-noise ratio of very bright detections is cut off: their photometric uncertainty is too large",
 edits=[("modules/PPAddUncertainties.py", "xval = np.power(10, 0.4 * (mag - m5))", "xval = np.power(10, 0.4 * np.maximum(mag - m5, -8.0))")],
 demo=PRE + '''
from sorcha.modules.PPAddUncertainties import calcAstrometricUncertainty as f
snr = f(np.array([12.0, 16.0]), np.array([24.0, 24.0]))[1]
x = 10 ** (0.4 * np.array([-12.0, -8.0]))
assert np.allclose(snr, 1 / np.sqrt(0.001 * x + 0.039 * x * x), rtol=1e-9), snr
'''),
dict(id="c15-narrow-band", property="C15", needs="a field close to a pole and an object across it",
 breaks="objects whose right ascension differs by more than the radius are taken to be outside: close to the poles visible objects are lost",
 edits=[("modules/PPApplyFOVFilter.py", '    new_observations = observations[observations["object_separation"] < circle_radius]\n', '    d_ra = np.abs((observations["RA_deg"] - observations["fieldRA_deg"] + 180.0) % 360.0 - 180.0)\n    near = (observations["object_separation"] < circle_radius) & (d_ra < 90.0)\n    new_observations = observations[near]\n')],
 demo=PRE + '''
from sorcha.modules.PPApplyFOVFilter import PPCircleFootprint as f
d = pd.DataFrame({"RA_deg": [10.0], "Dec_deg": [-89.5], "fieldRA_deg": [190.0], "fieldDec_deg": [-89.5]})
assert len(f(d, 1.5)) == 1
'''),
dict(id="c18-first-empty", property="C18", needs="saturated observations in a filter that comes after one without any",
 breaks="the search for saturated observations stops at the first filter that has none",
 edits=[("modules/PPBrightLimit.py", "            drop_index.append(ind.tolist())\n", "            if drop_index and len(ind) == 0:\n                break\n            drop_index.append(ind.tolist())\n")],
 demo=PRE + '''
from sorcha.modules.PPBrightLimit import PPBrightLimit as f
d = pd.DataFrame({"optFilter": ["g", "r", "i"], "PSFMag": [15.0, 20.0, 15.0]})
assert list(f(d, ["g", "r", "i"], [16.0, 16.0, 16.0])["optFilter"]) == ["r"]
'''),
dict(id="c24-polar-rates", property="C24", needs="an object within six degrees of a celestial pole",
 breaks="the rates of objects close to a celestial pole are too small",
 edits=[("ephemeris/simulation_driver.py", "cosd = np.sqrt(1 - z * z)", "cosd = max(np.sqrt(1 - z * z), 0.1)")],
 demo=PRE + '''
from sorcha.ephemeris.simulation_driver import get_residual_vectors as f
v = np.array([0.02, 0.03, 0.0]); v[2] = np.sqrt(1 - v @ v)
A, D = f(v)
assert abs(A @ A - 1) < 1e-9 and abs(D @ D - 1) < 1e-9 and abs(D @ v) < 1e-9, (A, D)
'''),
dict(id="c25-hyperbolic-far", property="C25", needs="a hyperbolic orbit far from its perihelion",
 breaks="far from perihelion the series for hyperbolic orbits is used outside its range: positions and velocities are wrong",
 edits=[("ephemeris/orbit_conversion_utilities.py", "while np.abs(x) > xm:", "while x > xm or x < -30.0:")],
 demo=PRE + '''
from sorcha.ephemeris.orbit_conversion_utilities import universal_cartesian as c, universal_cometary as k
mu = 2.9591220828559115e-4
st = c(mu, 0.3, 3.5, 0.4, 0.4, 0.7, 55000.0, 60000.0)
el = k(mu, *st, 60000.0)
assert np.allclose(el, (0.3, 3.5, 0.4, 0.4, 0.7, 55000.0), rtol=1e-7), el
'''),
dict(id="c27-sql-same-rows", property="C27", needs="a list of output columns in which two detections have the same values, in an sqlite3 file",
 breaks="detections that look alike in the columns asked for are written once",
 edits=[("modules/PPOutput.py", 'pp_results = pp_results.drop("level_0", axis=1, errors="ignore")', 'pp_results = pp_results.drop("level_0", axis=1, errors="ignore").drop_duplicates()')],
 demo=PRE + '''
import sqlite3
from sorcha.modules.PPOutput import PPOutWriteSqlite3
p = os.path.join(S, "a.db")
PPOutWriteSqlite3(pd.DataFrame({"ObjID": ["a", "a"], "optFilter": ["r", "r"]}), p)
assert sqlite3.connect(p).execute("select count(*) from sorcha_results").fetchone()[0] == 2
'''),
dict(id="c28-same-magnitude", property="C28", needs="an object with two observations of exactly the same magnitude in one filter",
 breaks="observations of equal magnitude are counted once",
 edits=[("modules/PPStats.py", 'num_obs = group_by.agg("size").to_frame("number_obs")', 'num_obs = group_by["trailedSourceMag"].nunique().to_frame("number_obs")')],
 demo=PRE + '''
from types import SimpleNamespace as N
from sorcha.modules.PPStats import stats
c = N(linkingfilter=N(ssp_linking_on=False, drop_unlinked=True))
d = pd.DataFrame({"ObjID": ["a", "a", "b"], "optFilter": ["r", "r", "r"], "trailedSourceMag": [20.0, 20.0, 20.0], "phase_deg": [1.0, 2.0, 3.0]})
t = stats(d, "s", S, c, return_only=True)
assert list(t["number_obs"]) == [2, 1], t
'''),
dict(id="c29-peak-bound", property="C29", needs="a fading function with a peak efficiency above 1 and at most 100",
 breaks="a peak efficiency in per cent is accepted",
 edits=[("utilities/sorchaConfigs.py", "            if self.fading_function_peak_efficiency < 0.0 or self.fading_function_peak_efficiency > 1.0:", "            if self.fading_function_peak_efficiency < 0.0 or self.fading_function_peak_efficiency > 1.0 + self.fading_function_width:")],
 demo=PRE + '''
from sorcha.utilities.sorchaConfigs import fadingfunctionConfigs as F
try:
    F(fading_function_width=0.2, fading_function_peak_efficiency=1.1, survey_name="rubin_sim")
except SystemExit:
    sys.exit(0)
sys.exit("a peak efficiency of 1.1 was accepted")
'''),
dict(id="c32-rounded-ephemeris", property="C32", needs="objects whose positions need more than six decimals (an object at the edge of a detector or circle)",
 breaks="the ephemeris file keeps fewer digits than the run used",
 edits=[("ephemeris/simulation_driver.py", '        PPOutWriteCSV(ephemeris_df, ephemeris_csv_filename + ".csv", separator=" ")', '        PPOutWriteCSV(ephemeris_df.round({"RA_deg": 5, "Dec_deg": 5}), ephemeris_csv_filename + ".csv", separator=" ")')],
 demo=PRE + '''
from types import SimpleNamespace as N
from sorcha.ephemeris.simulation_driver import write_out_ephemeris_file as f
a = N(pplogger=logging.getLogger("x"), loglevel=False)
c = N(input=N(eph_format="whitespace"), output=N(output_format="csv"))
f(pd.DataFrame({"ObjID": ["a"], "RA_deg": [10.123456789], "Dec_deg": [-4.987654321]}), os.path.join(S, "e"), a, c)
d = pd.read_csv(os.path.join(S, "e.csv"), sep=" ")
assert d["RA_deg"][0] == 10.123456789 and d["Dec_deg"][0] == -4.987654321, d
'''),
dict(id="c33-blank-arguments", property="C33", needs="an argument with a blank in it (a folder name)",
 breaks="`sorcha VERB` splits arguments at blanks",
 edits=[("../sorcha_cmdline/main.py", "subprocess.run([utility] + args.args, check=True)", 'subprocess.run([utility] + " ".join(args.args).split(), check=True)')],
 demo=PRE + '''
import subprocess
p = os.path.join(S, "sorcha-show")
open(p, "w").write("#!/bin/sh\\nfor a; do echo \\"<$a>\\"; done > '%s/out'\\n" % S)
os.chmod(p, 0o755)
os.environ["PATH"] = S + ":" + os.environ["PATH"]
from sorcha_cmdline import main
sys.argv = ["sorcha", "show", "-o", "my folder"]
try:
    main.main()
except SystemExit as e:
    assert not e.code, e.code
assert open(os.path.join(S, "out")).read().split("\\n")[:2] == ["<-o>", "<my folder>"], open(os.path.join(S, "out")).read()
'''),
dict(id="c30-short-seed", property="C30", needs="SORCHA_SEED above 65535",
 breaks="of SORCHA_SEED only the last sixteen bits are used: different seeds give the same run",
 edits=[("../sorcha_cmdline/run.py", 'cmd_args["seed"] = int(os.environ["SORCHA_SEED"])', 'cmd_args["seed"] = int(os.environ["SORCHA_SEED"]) & 0xFFFF')],
 demo=PRE + '''
import re
from types import SimpleNamespace as N
import sorcha.modules, sorcha.sorcha, sorcha.utilities.sorchaConfigs, sorcha.utilities.sorchaCommandLineParser
from sorcha_cmdline import run
seen = []
sorcha.sorcha.runLSSTSimulation = lambda a, c: seen.append(a._rngs.getModuleRNG("m").random(3).tolist())
import sorcha.utilities.sorchaArguments as A
sorcha.sorcha.sorchaConfigs = lambda *x: N(input=N(ephemerides_type="external", eph_format="csv"), lightcurve=N(lc_model=None), activity=N(comet_activity=None), fov=N(camera_model="none", visits_query=None), output=N(output_format="csv"))
for n in ("p", "ob", "c", "pd", "er"):
    open(os.path.join(S, n), "w").write("x")
for seed in (70000, 70000 % 65536):
    os.environ["SORCHA_SEED"] = str(seed)
    args = N(p=S + "/p", ob=S + "/ob", c=S + "/c", o=S, pd=S + "/pd", er=S + "/er", ew=None, cp=None, ar=None, vd=None, f=False, s="rubin_sim", t="out", l=False, st=None)
    run.execute(args)
assert len(seen) == 2 and seen[0] != seen[1], seen
'''),
dict(id="c34-parameter-by-name", property="C34", needs="phase curve parameters given for each filter and an observation in a filter other than the first",
 breaks="slope parameters given for each filter are those of the first filter of the observations",
 edits=[("modules/PPApplyColourOffsets.py", 'observations["S"] = observations.apply(lambda row: row["S" + row["optFilter"]], axis=1)', 'observations["S"] = observations["S" + observations["optFilter"].iloc[0]]')],
 demo=PRE + '''
from sorcha.modules.PPApplyColourOffsets import PPApplyColourOffsets as f
d = pd.DataFrame({"optFilter": ["r", "g"], "H_r": [20.0, 20.0], "g-r": [0.5, 0.5], "Sr": [0.1, 0.1], "Sg": [0.3, 0.3]})
assert list(f(d, "linear", ["g-r"], ["r", "g"], "r")["S"]) == [0.1, 0.3]
'''),
dict(id="c34-ephemeris-extra", property="C34", needs="an external ephemeris with a misspelt column name",
 breaks="an ephemeris with unknown columns that lacks none but the phase angle is accepted",
 edits=[("readers/EphemerisReader.py", "                if column not in ephem_cols and column not in optional_cols:", "                if column.strip('_') not in ephem_cols and not column.startswith('field'):")],
 demo=PRE + '''
from sorcha.readers.EphemerisReader import EphemerisDataReader as R
cols = "ObjID FieldID fieldMJD_TAI Range_LTC_km RangeRate_LTC_km_s RA_deg RARateCosDec_deg_day Dec_deg DecRate_deg_day Obj_Sun_x_LTC_km Obj_Sun_y_LTC_km Obj_Sun_z_LTC_km Obj_Sun_vx_LTC_km_s Obj_Sun_vy_LTC_km_s Obj_Sun_vz_LTC_km_s Obs_Sun_x_km Obs_Sun_y_km Obs_Sun_z_km Obs_Sun_vx_km_s Obs_Sun_vy_km_s Obs_Sun_vz_km_s phase_deg".split()
p = os.path.join(S, "e.csv")
open(p, "w").write(",".join(cols + ["fieldDec"]) + "\\n" + ",".join(["a"] + ["1.0"] * len(cols)) + "\\n")
try:
    R(p, "csv").read_rows()
except SystemExit:
    sys.exit(0)
sys.exit("an ephemeris with an unknown column was accepted")
'''),
dict(id="c35-mismatch-warning", property="C35", needs="a run on orbits and physical parameters of different objects",
 breaks="the error log of a run refused because its inputs do not fit is empty",
 edits=[("readers/CombinedDataReader.py", """.obj_id_table["ObjID"].values
            ):
                pplogger.error(""", """.obj_id_table["ObjID"].values
            ):
                pplogger.warning(""")],
 demo=PRE + '''
from sorcha.utilities.sorchaGetLogger import sorchaGetLogger
from sorcha.readers.CombinedDataReader import CombinedDataReader
from sorcha.readers.CSVReader import CSVDataReader
sorchaGetLogger(S, "stem")
for n, ids in (("a.csv", "pq"), ("b.csv", "pr")):
    open(os.path.join(S, n), "w").write("ObjID,x\\n" + "".join(f"{i},1.0\\n" for i in ids))
r = CombinedDataReader()
r.add_aux_data_reader(CSVDataReader(os.path.join(S, "a.csv"), "csv"))
r.add_aux_data_reader(CSVDataReader(os.path.join(S, "b.csv"), "csv"))
try:
    r.check_aux_object_ids()
    sys.exit("not refused")
except SystemExit as e:
    assert "ERROR" in str(e.code), e
text = "".join(open(os.path.join(S, n)).read() for n in os.listdir(S) if n.endswith(".err"))
assert "mismatched" in text, text
'''),
dict(id="c35-seed-hidden", property="C35", needs="a run without a seed of its own that is to be repeated",
 breaks="the seed in the log is not the seed of the run",
 edits=[("utilities/sorchaArguments.py", '        seed = args.get("seed", int.from_bytes(urandom(4), "big"))\n        self._rngs = PerModuleRNG(seed, self.pplogger)\n', '        seed = args.get("seed")\n        if seed is None:\n            self.pplogger.info("no seed given")\n            self._rngs = PerModuleRNG(int.from_bytes(urandom(4), "big"))\n        else:\n            self._rngs = PerModuleRNG(seed, self.pplogger)\n')],
 demo=PRE + '''
from sorcha.utilities.sorchaArguments import sorchaArguments
lines = []
class H(logging.Handler):
    def emit(self, r): lines.append(r.getMessage())
log = logging.getLogger("sorcha"); log.addHandler(H()); log.setLevel(logging.INFO)
a = sorchaArguments(dict(paramsinput="", orbinfile="", configfile="", outpath="", outfilestem="", pointing_database="", loglevel=False, stats=None, visits_database=None, surveyname="rubin_sim"))
r = a._rngs.getModuleRNG("m").random(4).tolist()
import re
for s in {int(x) for l in lines for x in re.findall(r"\\d+", l)}:
    b = sorchaArguments(dict(paramsinput="", orbinfile="", configfile="", outpath="", outfilestem="", pointing_database="", loglevel=False, stats=None, visits_database=None, surveyname="rubin_sim", seed=s))
    if b._rngs.getModuleRNG("m").random(4).tolist() == r:
        sys.exit(0)
sys.exit("the log does not give the seed: %r" % lines)
'''),
]
