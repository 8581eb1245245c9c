PRE = "import os, sys, logging\nimport numpy as np, pandas as pd\nS = os.environ['DEMO_SCRATCH']\n"
exec(open(os.path.join(HERE, "tools", "bugs", "e2e_demo.py")).read())

BUGS = [
dict(id="c05-cached-label", property="C05", needs="a cached HDF5 table whose index does not count the rows",
 breaks="blocks of a cached table are taken by index label: rows go missing or come twice",
 edits=[("readers/ObjectDataReader.py", "return self._table.iloc[block_start:block_end]", "return self._table.loc[block_start : block_end - 1]")],
 demo=PRE + '''
from sorcha.readers.HDF5Reader import HDF5DataReader
p = os.path.join(S, "a.h5")
for k in range(2):
    pd.DataFrame({"ObjID": [f"o{3 * k + i}" for i in range(3)], "x": [float(i) for i in range(3)]}).to_hdf(p, key="d", format="table", append=True)
r = HDF5DataReader(p, cache_table=True)
got = [r.read_rows(a, 2)["ObjID"].tolist() for a in (0, 2, 4)]
assert got == [["o0", "o1"], ["o2", "o3"], ["o4", "o5"]], got
'''),
dict(id="c07-some-columns", property="C07", needs="a file of Cartesian orbits that lacks one of the coordinates (and has another column in its place)",
 breaks="Cartesian orbits that lack a coordinate are accepted",
 edits=[("readers/OrbitAuxReader.py", "if not all(column in input_table.columns for column in cartesian_elements):", "if not any(column in input_table.columns for column in cartesian_elements[4:7]):")],
 demo=PRE + '''
from sorcha.readers.OrbitAuxReader import OrbitAuxReader
p = os.path.join(S, "o.csv")
open(p, "w").write("ObjID,FORMAT,x,y,w,xdot,ydot,zdot,epochMJD_TDB\\no1,CART,1,0,0,0.001,0.01,0.002,60000\\n")
try:
    OrbitAuxReader(p, "csv").read_rows()
except SystemExit:
    sys.exit(0)
sys.exit("a file without z was accepted")
'''),
dict(id="c22-percentile", property="C22", needs="a filter with a few visits much deeper than the others",
 breaks="the deepest visits do not count when objects too faint to be seen are left out: detectable objects are lost",
 edits=[("modules/PPFaintObjectCullingFilter.py", '["fieldFiveSigmaDepth_mag"].max().to_dict()', '["fieldFiveSigmaDepth_mag"].quantile(0.99).to_dict()')],
 demo=PRE + '''
from sorcha.modules.PPFaintObjectCullingFilter import PPFaintObjectCullingFilter as f
v = pd.DataFrame({"optFilter": ["r"] * 50, "fieldFiveSigmaDepth_mag": [20.0] * 49 + [26.0]})
o = pd.DataFrame({"ObjID": ["a"], "FORMAT": ["COM"], "q": [3.0], "e": [0.1], "inc": [1.0], "node": [1.0], "argPeri": [1.0], "t_p_MJD_TDB": [60000.0], "epochMJD_TDB": [60000.0]})
o["H_r"] = 27.9 - 5 * np.log10(6.0)
assert len(f(o, v, "r", ["r"], None, None)) == 1
'''),
dict(id="c23-jump-short", property="C23", needs="two successive visits several pickets apart",
 breaks="after a gap in the visits the interpolation starts up to a picket early: objects are searched for at the wrong place",
 edits=[("ephemeris/pixel_dict.py", "n = round((jd_tdb - self.t0) / self.picket_interval)", "n = int((jd_tdb - self.t0) / self.picket_interval) - 1")],
 demo=PRE + '''
from sorcha.ephemeris.pixel_dict import PixelDict
class P(PixelDict):
    def __init__(self):
        self.picket_interval = 1.0; self.t0 = 0.0
    def get_observatory_position(self, t): return np.zeros(3)
    def get_all_object_unit_vectors(self, r, t, lt0=0.01): return {}
    def compute_pixel_traversed(self): pass
for t in (1.8, 3.4, -2.7, 10.6):
    p = P(); p.update_pickets(t)
    assert abs(t - p.t0) <= 0.5 + 1e-9, (t, p.t0)
'''),
dict(id="c02-last-part", property="C02", needs="two modules of the same name in different packages (a community plugin named like a Sorcha module)",
 breaks="the random streams are kept by the last part of the module's name: two modules of one name share their draws",
 edits=[("utilities/sorchaModuleRNG.py", "        if module_name in self._rngs:\n            return self._rngs[module_name]\n", "        short_name = module_name.rsplit(\".\", 1)[-1]\n        if short_name in self._rngs:\n            return self._rngs[short_name]\n"),
        ("utilities/sorchaModuleRNG.py", "        self._rngs[module_name] = new_rng\n", "        self._rngs[short_name] = new_rng\n")],
 demo=PRE + '''
from sorcha.utilities.sorchaModuleRNG import PerModuleRNG
r = PerModuleRNG(7)
a, b = r.getModuleRNG("sorcha.modules.fading"), r.getModuleRNG("survey.plugins.fading")
assert a is not b and a.random() != b.random()
'''),
dict(id="c10-long-trails", property="C10", needs="a trail more than a hundred times as long as the seeing",
 breaks="trailing losses level off for very fast objects",
 edits=[("modules/PPTrailingLoss.py", "x = vel * texp / seeing", "x = np.minimum(vel * texp / seeing, 100.0)")],
 demo=PRE + '''
from sorcha.modules.PPTrailingLoss import calcTrailingLoss as f
a = [float(f(v, 0.0, 0.7, model="circularPSF")) for v in (40.0, 80.0, 160.0)]
assert a[1] - a[0] > 0.5 and a[2] - a[1] > 0.5, a
'''),
dict(id="c17-half-width", property="C17", needs="a width of the fading function below 0.05",
 breaks="narrow fading functions are widened",
 edits=[("modules/PPDetectionProbability.py", "P = fillFactor / (1.0 + np.exp((mag - limmag) / w))", "P = fillFactor / (1.0 + np.exp((mag - limmag) / max(w, 0.05)))")],
 demo=PRE + '''
from sorcha.modules.PPDetectionProbability import calcDetectionProbability as f
assert abs(float(f(24.02, 24.0, 1.0, 0.01)) - 1 / (1 + np.exp(2.0))) < 1e-9
'''),
dict(id="c20-square-sum", property="C20", needs="an object that moves along both axes",
 breaks="the motion cut is applied to each component of the motion",
 edits=[("modules/PPDistanceandMotionCuts.py", 'motion_sq = observations["RARateCosDec_deg_day"] ** 2 + observations["DecRate_deg_day"] ** 2', 'motion_sq = np.maximum(observations["RARateCosDec_deg_day"] ** 2, observations["DecRate_deg_day"] ** 2)')]
 + [("modules/PPDistanceandMotionCuts.py", "import astropy.units as u\n", "import numpy as np\nimport astropy.units as u\n")],
 demo=PRE + '''
from sorcha.modules.PPDistanceandMotionCuts import motion_cut
f = pd.DataFrame({"RARateCosDec_deg_day": [0.8, 0.1], "DecRate_deg_day": [0.8, 0.1]})
assert motion_cut(f, 1.0, 0.01).index.tolist() == [1]
'''),
dict(id="c21-single-night-arc", property="C21", needs="an object with seven nights whose arc hinges on its first or last night",
 breaks="the arc of a DES object is its whole arc, also when all but one night lie within half a year",
 edits=[("modules/DESDiscoveryFilter.py", "arccut = min(t2 - t1a, t2a - t1)", "arccut = max(t2 - t1a, t2a - t1)")],
 demo=PRE + '''
from sorcha.modules.DESDiscoveryFilter import DESDiscoveryFilter
t = [60000.0, 60010.0, 60020.0, 60030.0, 60040.0, 60050.0, 60300.0]
f = pd.DataFrame({"ObjID": ["a"] * 7, "fieldMJD_TAI": t, "Obj_Sun_x_LTC_km": 6e9, "Obj_Sun_y_LTC_km": 0.0, "Obj_Sun_z_LTC_km": 0.0})
assert len(DESDiscoveryFilter(f)) == 0
'''),
dict(id="c26-one-sided", property="C26", needs="any observatory: the error is a tenth of a metre per second, and far larger when the step is long",
 breaks="the observatory's velocity is a one-sided difference over the step instead of a central one",
 edits=[("ephemeris/simulation_geometry.py", "(mVecp - mVecm) / (2 * delta_et)", "(mVecp - mVec) / delta_et")],
 demo=PRE + '''
import sorcha.ephemeris.simulation_geometry as g
from types import SimpleNamespace as N
w = 7.292115e-5
class F:
    def spkezr(self, *a): return np.zeros(6), 0
    def str2et(self, s): return -1e12
    def pxform(self, a, b, et):
        c, s = np.cos(w * et), np.sin(w * et)
        return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1.0]])
g.spice = F()
p, v = g.barycentricObservatoryRates(0.0, "X", N(ObservatoryXYZ={"X": (1.0, 0.0, 0.0)}))
assert abs(v[0]) < 1e-6 and abs(v[1] - w * np.linalg.norm(p)) < 1e-6, v
'''),
]
