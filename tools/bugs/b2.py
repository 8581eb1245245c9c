PRE = "import os, sys, logging\nimport numpy as np, pandas as pd\nS = os.environ['DEMO_SCRATCH']\n"
BUGS = [
dict(id="c02-shared-streams", property="C02", needs="two simulations of the same seed in one process (library use)",
 breaks="the second run continues the random streams of the first instead of starting from the seed",
 edits=[("utilities/sorchaModuleRNG.py", "class PerModuleRNG:\n", "class PerModuleRNG:\n    _streams = {}\n\n"),
        ("utilities/sorchaModuleRNG.py", "            self.pplogger = pplogger\n", "            self.pplogger = pplogger\n            self._rngs = self._streams.setdefault(base_seed, self._rngs)\n")],
 demo=PRE + '''
from sorcha.utilities.sorchaModuleRNG import PerModuleRNG
a = PerModuleRNG(7, logging.getLogger("x")).getModuleRNG("m").random(5)
b = PerModuleRNG(7, logging.getLogger("x")).getModuleRNG("m").random(5)
assert (a == b).all()
'''),
dict(id="c05-h5-appended", property="C05", needs="an HDF5 table written in several appends (index labels restart), read in blocks",
 breaks="blocks select rows by index label: rows are repeated or lost",
 edits=[("readers/HDF5Reader.py", """            res_df = pd.read_hdf(
                self.filename,
                start=block_start,
                stop=block_start + block_size,
            )
""", """            block_stop = block_start + block_size  # noqa: F841
            res_df = pd.read_hdf(self.filename, where="index >= block_start & index < block_stop")
""")],
 demo=PRE + '''
from sorcha.readers.HDF5Reader import HDF5DataReader
p = os.path.join(S, "f.h5")
with pd.HDFStore(p) as st:
    for k in (0, 5):
        st.append("d", pd.DataFrame({"ObjID": [f"o{i}" for i in range(k, k + 5)], "x": range(k, k + 5)}), format="t", data_columns=True)
r = HDF5DataReader(p)
got = []
for s in range(0, 10, 4):
    got += list(r.read_rows(s, 4)["x"])
assert got == list(range(10)), got
'''),
dict(id="c06-positional-join", property="C06", needs="auxiliary files listing the same objects in different row orders, ephemeris generated by Sorcha",
 breaks="the physical parameters of one object are attached to another one's orbit",
 edits=[("readers/CombinedDataReader.py", """                aux_data_df = aux_data_df.join(current_df.set_index("ObjID"), on="ObjID")
""", """                if len(current_df) == len(aux_data_df):
                    aux_data_df = pd.concat(
                        [aux_data_df.reset_index(drop=True), current_df.drop(columns="ObjID").reset_index(drop=True)], axis=1
                    )
                else:
                    aux_data_df = aux_data_df.join(current_df.set_index("ObjID"), on="ObjID")
""")],
 demo=PRE + '''
from sorcha.readers.CombinedDataReader import CombinedDataReader
from sorcha.readers.CSVReader import CSVDataReader
for n, rows in (("a", "o1,1\\no2,2\\no3,3\\n"), ("b", "o2,2\\no3,3\\no1,1\\n")):
    open(os.path.join(S, n), "w").write("ObjID,%s\\n" % n + rows)
r = CombinedDataReader()
for n in "ab":
    r.add_aux_data_reader(CSVDataReader(os.path.join(S, n), "csv"))
d = r.read_aux_block(10)
assert (d["a"] == d["b"]).all(), d
'''),
dict(id="c08-partial-ck", property="C08", needs="a DES pointing database in which only some of the visits lack the fading parameters",
 breaks="visits without fading parameters are accepted and all their detections silently dropped",
 edits=[("modules/PPReadPointingDatabase.py", 'dfo[["c", "k"]].isnull().any().any()', 'dfo[["c", "k"]].isnull().all().any()')],
 demo=PRE + '''
import sqlite3
from sorcha.modules.PPReadPointingDatabase import PPReadPointingDatabase
p = os.path.join(S, "p.db")
c = sqlite3.connect(p)
pd.DataFrame({"observationId": [1, 2], "observationMidpointMJD_TAI": [5e4, 5.1e4], "visitExposureTime": 90.0, "filter": "r", "c": [0.9, None], "k": 4.0}).to_sql("observations", c, index=False)
c.close()
try:
    PPReadPointingDatabase(p, ["r"], "select * from observations", "des", fading_function_on=True)
except SystemExit:
    raise SystemExit(0)
raise SystemExit(1)
'''),
dict(id="c10-first-exposure", property="C10", needs="a chunk of observations with more than one exposure time",
 breaks="the trailing loss of every observation is that of the first visit's exposure time",
 edits=[("modules/PPTrailingLoss.py", "        texp=eph_df[visit_time_name],\n", "        texp=eph_df[visit_time_name].iloc[0],\n")],
 demo=PRE + '''
from sorcha.modules.PPTrailingLoss import PPTrailingLoss
d = pd.DataFrame({"RARateCosDec_deg_day": 2.0, "DecRate_deg_day": 1.0, "Dec_deg": 0.0, "seeingFwhmEff_arcsec": 0.8, "visitExposureTime": [15.0, 30.0, 60.0]})
r = np.asarray(PPTrailingLoss(d))
assert r[0] < r[1] < r[2], r
'''),
dict(id="c12-field-depth", property="C12", needs="vignetting switched on (the depth at the source is not the field's)",
 breaks="the SNR of the PSF magnitude ignores vignetting",
 edits=[("modules/PPAddUncertainties.py", '''        detDF["PSFMagTrue"],
        detDF["fiveSigmaDepth_mag"],
''', '''        detDF["PSFMagTrue"],
        detDF["fieldFiveSigmaDepth_mag"] if "fieldFiveSigmaDepth_mag" in detDF else detDF["fiveSigmaDepth_mag"],
''')],
 demo=PRE + '''
from types import SimpleNamespace as N
from sorcha.modules.PPAddUncertainties import addUncertainties
d = pd.DataFrame({"fieldFiveSigmaDepth_mag": [24.5, 24.5], "fiveSigmaDepth_mag": [24.5, 24.0], "trailedSourceMagTrue": 22.0, "PSFMagTrue": 22.0, "seeingFwhmGeom_arcsec": 0.8})
o = addUncertainties(d, N(expert=N(trailing_losses_on=False)), None, verbose=False)
assert abs(o["SNRPSFMag"] - o["SNRTrailedSourceMag"]).max() < 1e-9
'''),
dict(id="c16-limits-order", property="C16", needs="a chunk whose rows are not grouped by visit, CCDs of different depth",
 breaks="the per-CCD limiting magnitudes are attached to other observations",
 edits=[("modules/PPVisitsFootprintFilter.py", "    lim_mag = [lim_mag_list[idx] for idx in detected_list]\n", "    lim_mag = list(lim_mag_list.values())\n")],
 demo=PRE + '''
import sqlite3
from sorcha.modules.PPVisitsFootprintFilter import PPVisitsFootprint
p = os.path.join(S, "v.db")
c = sqlite3.connect(p)
row = dict(llcra=9., llcdec=-1., lrcra=11., lrcdec=-1., urcra=11., urcdec=1., ulcra=9., ulcdec=1., ra_centre=10., dec_centre=0., detectorID=1)
pd.DataFrame([dict(row, visit=1, limMag_perChip=21.0), dict(row, visit=2, limMag_perChip=23.0)]).to_sql("observations", c, index=False)
c.close()
d = pd.DataFrame({"FieldID": [2, 1, 2, 1], "RA_deg": 10.1, "Dec_deg": 0.1, "fieldRA_deg": 10.0})
i, det, lim = PPVisitsFootprint(d, "select * from observations where visit = ?", p)
got = dict(zip(i, lim))
assert got == {0: 23.0, 1: 21.0, 2: 23.0, 3: 21.0}, got
'''),
dict(id="c20-distance-any", property="C20", needs="an object that is too near in some observations and too far in all the others",
 breaks="such an object passes the distance cut though it never is within the bounds",
 edits=[("modules/PPDistanceandMotionCuts.py", '''    objects_within_bounds = observations.loc[within_bounds, "ObjID"].unique()
''', '''    objects_within_bounds = np.intersect1d(
        observations.loc[distance_sq < distance_upper, "ObjID"].unique(),
        observations.loc[distance_sq > distance_lower, "ObjID"].unique(),
    )
'''), ("modules/PPDistanceandMotionCuts.py", "    within_bounds = (distance_sq < distance_upper) & (distance_sq > distance_lower)\n", "")],
 demo=PRE + '''
from sorcha.modules.PPDistanceandMotionCuts import distance_cut
au = 149597870.7
d = pd.DataFrame({"ObjID": ["a", "a", "b"], "Obj_Sun_x_LTC_km": np.array([29., 51., 40.]) * au, "Obj_Sun_y_LTC_km": 0., "Obj_Sun_z_LTC_km": 0.})
o = distance_cut(d, 50.0, 30.0)
assert list(o["ObjID"]) == ["b"], o
'''),
dict(id="c22-light-and-activity", property="C22", needs="both a light curve and a cometary activity model configured",
 breaks="the activity's brightening is left out of the estimate: active objects that would have been seen are culled",
 edits=[("modules/PPFaintObjectCullingFilter.py", "        if activity_choice:\n", "        elif activity_choice:\n")],
 demo=PRE + '''
from sorcha.modules import PPFaintObjectCullingFilter as m
class LC:
    def maxBrightness(self, df): return 0.0
class CA:
    def maxBrightness(self, df, f, r, d, a): return df["trailedSourceMagTrue"] - 10
m.LC_METHODS = {"lc": LC}; m.CA_METHODS = {"ca": CA}
aux = pd.DataFrame({"ObjID": ["a"], "FORMAT": "COM", "q": 5.0, "H_r": 24.0, "epochMJD_TDB": 60000.0})
pt = pd.DataFrame({"optFilter": ["r"], "fieldFiveSigmaDepth_mag": 24.0})
o = m.PPFaintObjectCullingFilter(aux, pt, "r", ["r"], "lc", "ca")
assert len(o) == 1
'''),
]
