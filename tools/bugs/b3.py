PRE = "import os, sys, logging\nimport numpy as np, pandas as pd\nS = os.environ['DEMO_SCRATCH']\n"
PIX = PRE + '''
from sorcha.ephemeris import pixel_dict as m
class Fake(m.PixelDict):
    """objects move along circles at their own rates"""
    def get_observatory_position(self, t):
        return np.zeros(3)
    def get_object_unit_vectors(self, desigs, r_obs, t, lt0=0.01):
        out = {}
        for k in desigs:
            a = np.radians(10.0 + self.sim_dict[k] * (t - 2460000.5))
            out[k] = np.array([np.cos(a), np.sin(a), 0.0])
        return out
'''
BUGS = [
dict(id="c23-backward-pixels", property="C23", needs="visits that are not in order of time (more than half a picket back)",
 breaks="after a step back in time the list of objects per pixel is that of the later date: objects are missed",
 edits=[("ephemeris/pixel_dict.py", "        if abs(jd_tdb - self.t0) > 0.5 * self.picket_interval:\n", "        t_last = self.t0\n        if abs(jd_tdb - self.t0) > 0.5 * self.picket_interval:\n"),
        ("ephemeris/pixel_dict.py", "            self.compute_pixel_traversed()\n        else:\n", "            if not 0 < t_last - self.t0 <= self.picket_interval:\n                self.compute_pixel_traversed()\n        else:\n")],
 demo=PIX + '''
p = Fake(2460000.5, {"a": 3.0}, None, "X", None, nside=64)
for dt in (1.0, 2.0, 3.0, 2.0, 1.0, 0.0):
    got = p.get_designations(2460000.5 + dt, 10.0 + 3.0 * dt, 0.0, 0.5)
    assert "a" in got, dt
'''),
dict(id="c26-equator-pole", property="C26", needs="a search around a centre near the edge of pixels larger than the search radius",
 breaks="pixels that the search area overlaps without containing their centres are left out",
 edits=[("ephemeris/simulation_geometry.py", "    res = hp.query_disc(nside, vec, sr, nest=nested, inclusive=True)\n", "    res = hp.query_disc(nside, vec, max(sr, hp.nside2resol(nside)), nest=nested, inclusive=False)\n")],
 demo=PRE + '''
import healpy as hp
from sorcha.ephemeris.simulation_geometry import get_hp_neighbors
rng = np.random.default_rng(1)
for _ in range(300):
    ra, dec, r = rng.uniform(0, 360), rng.uniform(-85, 85), rng.uniform(1, 10)
    got = set(get_hp_neighbors(ra, dec, r, nside=32))
    for pa in np.linspace(0, 2 * np.pi, 90):
        d = 0.999 * np.radians(r)
        u = hp.ang2vec(np.radians(90 - dec), np.radians(ra))
        e = np.cross([0, 0, 1.0], u); e /= np.linalg.norm(e); n = np.cross(u, e)
        v = u * np.cos(d) + (n * np.cos(pa) + e * np.sin(pa)) * np.sin(d)
        assert hp.vec2pix(32, *v, nest=True) in got, (ra, dec, r)
'''),
dict(id="c28-rounded-stats", property="C28", needs="output_columns = all with magnitude_decimals set",
 breaks="the statistics are taken from the magnitudes rounded for the detections file",
 edits=[("modules/PPOutput.py", '''    elif sconfigs.output.output_columns == "all":
        observations = observations_in.copy()
''', '''    elif sconfigs.output.output_columns == "all":
        observations = observations_in
''')],
 demo=PRE + '''
from types import SimpleNamespace as N
from sorcha.modules.PPOutput import PPWriteOutput
d = pd.DataFrame({"ObjID": ["a"], "trailedSourceMag": [20.123456], "Obj_Sun_x_LTC_km": 1.0, "Obj_Sun_y_LTC_km": 1.0, "Obj_Sun_z_LTC_km": 1.0})
cfg = N(output=N(output_columns="all", output_format="csv", position_decimals=None, magnitude_decimals=2), linkingfilter=N(ssp_linking_on=False, drop_unlinked=True))
PPWriteOutput(N(outpath=S, outfilestem="o"), cfg, d)
assert d["trailedSourceMag"][0] == 20.123456
'''),
dict(id="c31-any-line", property="C31", needs="a log that holds the completion line of an earlier run and ends otherwise",
 breaks="a run that failed after the completion line of another one in the same log is reported as completed",
 edits=[("utilities/check_output_logs.py", "            if last_line[-29:] == \"Sorcha process is completed. \":\n", "            if any(line.endswith(\"Sorcha process is completed. \") for line in lines):\n")],
 demo=PRE + '''
from sorcha.utilities.check_output_logs import check_all_logs
p = os.path.join(S, "a-sorcha.log")
open(p, "w").write("x Sorcha process is completed. \\ny Sorcha Start (Main)\\nz ERROR: no\\n")
assert check_all_logs([p])[0] == [False]
'''),
dict(id="c31-distinct", property="C31", needs="two detections that agree in every stored column",
 breaks="rows that agree in all columns are stored once in the combined database",
 edits=[("utilities/createResultsSQLDatabase.py", '        for row in output:\n            cur_out', '        for row in dict.fromkeys(output):\n            cur_out')],
 demo=PRE + '''
import sqlite3
from sorcha.utilities.createResultsSQLDatabase import create_results_table
c = sqlite3.connect(os.path.join(S, "r1.db"))
pd.DataFrame({"ObjID": ["a", "a", "b"], "optFilter": ["r", "r", "g"]}).to_sql("sorcha_results", c, index=False); c.close()
os.mkdir(os.path.join(S, "out"))
o = sqlite3.connect(os.path.join(S, "out", "all.db"))
create_results_table(o, os.path.join(S, "out", "all.db"), S, "r")
assert len(o.execute("select * from sorcha_results").fetchall()) == 3
'''),
dict(id="c07-last-block", property="C07", needs="an orbits file of mixed quality, read in blocks: a later object has a negative perihelion with e above 1",
 breaks="cometary orbits with a negative perihelion are accepted when hyperbolic",
 edits=[("readers/OrbitAuxReader.py", '            filtered_df = input_table.loc[(input_table["q"] < 0), ["ObjID"]]\n', '            filtered_df = input_table.loc[(input_table["q"] < 0) & (input_table["e"] <= 1), ["ObjID"]]\n')],
 demo=PRE + '''
from sorcha.readers.OrbitAuxReader import OrbitAuxReader
p = os.path.join(S, "o.csv")
open(p, "w").write("ObjID,FORMAT,q,e,inc,node,argPeri,t_p_MJD_TDB,epochMJD_TDB\\na,COM,-1.0,1.2,1,1,1,60000,60000\\n")
try:
    OrbitAuxReader(p).read_rows()
except SystemExit:
    raise SystemExit(0)
raise SystemExit(1)
'''),
dict(id="c29-window-bound", property="C29", needs="a single-observation tracklet configuration (ssp_number_observations = 1) with zero separation",
 breaks="a valid configuration is refused",
 edits=[("utilities/sorchaConfigs.py", "            if self.ssp_number_observations > 1 and self.ssp_separation_threshold == 0.0:\n", "            if self.ssp_number_observations >= 1 and self.ssp_separation_threshold == 0.0:\n")],
 demo=PRE + '''
from sorcha.utilities.sorchaConfigs import linkingfilterConfigs as L
L(ssp_detection_efficiency="0.95", ssp_number_observations="1", ssp_separation_threshold="0.0", ssp_maximum_time="0.0625", ssp_number_tracklets="3", ssp_track_window="15", ssp_night_start_utc="16.0", survey_name="rubin_sim")
'''),
dict(id="c30-ephemeris-force", property="C30", needs="--ew and --st together with an old statistics file and no --force",
 breaks="the statistics of this run are added to those of an old one",
 edits=[("utilities/sorchaCommandLineParser.py", '    if cmd_args_dict["stats"] is not None:\n', '    if cmd_args_dict["stats"] is not None and not cmd_args_dict["output_ephemeris_file"]:\n')],
 demo=PRE + '''
from types import SimpleNamespace as N
from sorcha.utilities.sorchaCommandLineParser import sorchaCommandLineParser
f = os.path.join(S, "in.txt"); open(f, "w").write("x")
o = os.path.join(S, "out"); os.mkdir(o)
open(os.path.join(o, "tally.csv"), "w").write("old")
a = N(p=f, ob=f, c=f, o=o, pd=f, cp=None, er=None, ew="eph", vd=None, f=False, s="rubin_sim", t="run", l=True, st="tally", ar=None)
try:
    sorchaCommandLineParser(a)
except SystemExit:
    raise SystemExit(0)
raise SystemExit(1)
'''),
dict(id="c32-exists-elsewhere", property="C32", needs="identifiers that look like numbers, ephemeris generated and written",
 breaks="identifiers like 0012 or 1e3 change when the ephemeris is handed on",
 edits=[("ephemeris/simulation_driver.py", '    ephemeris_df["ObjID"] = ephemeris_df["ObjID"].astype("string")\n', '    ephemeris_df["ObjID"] = ephemeris_df["ObjID"].str.lstrip("0").astype("string")\n'),
        ("ephemeris/simulation_driver.py", '    orbits_df["ObjID"] = orbits_df["ObjID"].astype("string")\n', '    orbits_df["ObjID"] = orbits_df["ObjID"].str.lstrip("0").astype("string")\n')],
 demo=PRE + '''
import inspect
from sorcha.ephemeris import simulation_driver as m
from types import SimpleNamespace as N
class P:
    def __init__(self, *a, **k): pass
    def get_designations(self, *a): return []
    def interpolate_unit_vectors(self, *a): return {}
m.PixelDict = P
m.create_assist_ephemeris = lambda *a: (N(jd_ref=0.0), 1.0, 1.0)
m.furnish_spiceypy = lambda *a: None
m.generate_simulations = lambda *a: {}
m.Observatory = lambda *a: None
o = pd.DataFrame({"ObjID": ["0012", "12"], "q": [1.0, 2.0]})
pt = pd.DataFrame({"fieldJD_TDB": [1.0], "observationMidpointMJD_TAI": 1.0, "fieldRA_deg": 0.0, "fieldDec_deg": 0.0, **{f"{n}_{a}": 0.0 for n in ("visit_vector", "r_obs") for a in "xyz"}})
args = N(pplogger=logging.getLogger("x"), loglevel=False, output_ephemeris_file=None, outpath=S)
cfg = N(simulation=N(ar_ang_fov=1.0, ar_fov_buffer=0.1, ar_picket=1, ar_obs_code="X", ar_healpix_order=5, ar_n_sub_intervals=9), auxiliary=None)
m.create_ephemeris(o, pt, args, cfg)
assert list(o["ObjID"]) == ["0012", "12"], list(o["ObjID"])
'''),
]
