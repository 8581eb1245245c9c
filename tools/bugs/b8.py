PRE = "import os, sys, logging\nimport numpy as np, pandas as pd\nS = os.environ['DEMO_SCRATCH']\n"
exec(open(os.path.join(HERE, "tools", "bugs", "e2e_demo.py")).read())

BUGS = [
dict(id="c36-capital-name", property="C36", needs="a cometary activity model whose name has a capital letter",
 breaks="the configuration takes the model, but its activity is never added to the magnitudes",
 edits=[("modules/PPCalculateSimpleCometaryMagnitude.py", "    if activity_choice and CA_METHODS.get(activity_choice, False):\n        ca_model = CA_METHODS.get(activity_choice)()", "    if activity_choice and CA_METHODS.get(activity_choice.lower(), False):\n        ca_model = CA_METHODS.get(activity_choice.lower())()")],
 demo=PRE + '''
from sorcha.activity.base_activity import AbstractCometaryActivity
from sorcha.activity.activity_registration import update_activity_subclasses
from sorcha.modules.PPCalculateSimpleCometaryMagnitude import PPCalculateSimpleCometaryMagnitude as f
class A(AbstractCometaryActivity):
    def compute(self, df, observing_filters, rho, delta, alpha):
        df["trailedSourceMagTrue"] -= 1.0
        return df
    @staticmethod
    def name_id():
        return "LSST_Comet"
update_activity_subclasses()
d = f(pd.DataFrame({"trailedSourceMagTrue": [20.0]}), ["r"], [1.0], [1.0], [0.0], activity_choice="LSST_Comet")
assert d["trailedSourceMagTrue"].iloc[0] == 19.0, d
'''),
dict(id="c01-skip-after-unseen", property="C01", needs="chunks of objects without any ephemeris followed by objects with one",
 breaks="for every chunk without ephemerides one object at the end of the list is not simulated",
 edits=[("sorcha.py", """                "WARNING: no ephemeris observations found for these objects. Skipping to next chunk..."
            )
            startChunk = startChunk + sconfigs.input.size_serial_chunk
""", """                "WARNING: no ephemeris observations found for these objects. Skipping to next chunk..."
            )
            startChunk = endChunk + 1
""")],
 demo=PRE + E2E + '''
objs = [("a", 10.0), ("b", 10.0), ("c", 10.0)]
eph = [("c", 1, 10.0, 0.0, 0.1, 2.0, 2.8)]
n = [len(simulate(objs, eph, [(1, 60001.0, "r", 24.0, 10.0, 0.0)], {}, chunk=c)) for c in (100, 1)]
assert n == [1, 1], n
'''),
dict(id="c03-trailed-from-psf", property="C03", needs="trailing losses on, randomisation off and a fast object",
 breaks="the reported trailed source magnitude, which the magnitude limit uses, holds the trailing loss that belongs to the PSF magnitude only",
 edits=[("sorcha.py", '            observations["trailedSourceMag"] = observations["trailedSourceMagTrue"].copy()', '            observations["trailedSourceMag"] = observations["PSFMagTrue"].copy()')],
 demo=PRE + E2E + '''
rows = simulate([("a", 10.0)], [("a", 1, 10.0, 0.0, 20.0, 2.0, 2.8)], [(1, 60001.0, "r", 24.0, 10.0, 0.0)], {"EXPERT": dict(trailing_losses_on=True)})
r = rows[0]
assert float(r["trailedSourceMag"]) == float(r["trailedSourceMagTrue"]) < float(r["PSFMag"]), r
'''),
dict(id="c04-motion-needs-distance", property="C04", needs="a DES run with a motion cut and no distance cut",
 breaks="the motion cut is made only where the distance cut is switched on as well",
 edits=[("des.py", "        if sconfigs.linkingfilter.motion_cut_on and len(observations.index) > 0:", "        if sconfigs.linkingfilter.motion_cut_on and sconfigs.linkingfilter.distance_cut_upper and len(observations.index) > 0:")],
 demo=PRE + E2E + '''
eph = [("a", 1, 10.0, 0.0, 20.0, 2.0, 2.8)]
rows = simulate([("a", 10.0)], eph, [(1, 57001.0, "r", 24.0, 10.0, 0.0)], {"LINKINGFILTER": dict(motion_cut_upper=0.1, motion_cut_lower=0.0, des_discovery_on=False)}, survey="des")
assert rows == [], rows
'''),
dict(id="c13-three-sigma", property="C13", needs="many draws: one in 370 is concerned",
 breaks="photometric errors larger than three sigma never happen",
 edits=[("modules/PPRandomizeMeasurements.py", "    s = normal(0, 1, len(df.index))", "    s = np.clip(normal(0, 1, len(df.index)), -3.0, 3.0)")],
 demo=PRE + '''
from sorcha.modules.PPRandomizeMeasurements import randomizePhotometry as f
from sorcha.utilities.sorchaModuleRNG import PerModuleRNG
d = pd.DataFrame({"m": np.full(200000, 20.0), "s": np.full(200000, 0.1)})
x = np.abs(np.asarray(f(d, PerModuleRNG(5), magRndName="r", magName="m", sigName="s")) - 20.0) / 0.1
assert 350 < (x > 3.0001).sum() < 750 and x.max() > 3.5, ((x > 3).sum(), x.max())
'''),
dict(id="c14-strict-corner", property="C14", needs="an edge threshold and an object beside the last edge of a detector",
 breaks="the distance to one of the edges of each detector is not looked at: objects too close to it are kept",
 edits=[("modules/PPFootprintFilter.py", "            for i in range(n):  # test each edge", "            for i in range(n - 1):  # test each edge")],
 demo=PRE + '''
from sorcha.modules.PPFootprintFilter import Detector
a = np.radians(0.1)
d = Detector(np.array([[-a, a, a, -a], [-a, -a, a, a]]))
e = np.radians(0.1 - 1 / 3600.0)
p = np.array([[e, -e, 0.0, 0.0, 0.0], [0.0, 0.0, e, -e, 0.0]])
assert list(d.ison(p, edge_thresh=2.0)) == [4], d.ison(p, edge_thresh=2.0)
'''),
dict(id="c19-whole-hours", property="C19", needs="a start of the night that is not at a full hour, and observations late in the night",
 breaks="the start of the night is taken at the full hour before it: observations late in the night fall outside of it",
 edits=[("modules/PPLinkingFilter.py", "        night_start_utc_days=night_start_utc / 24.0,", "        night_start_utc_days=int(night_start_utc) / 24.0,")],
 demo=PRE + '''
from sorcha.modules.PPLinkingFilter import PPLinkingFilter as f
# nights begin at 16.9 h: with 16 h instead, the time of these observations is too late in its night for the linking code
t = 60000.0 + (16.9 + 0.895 * 24) / 24.0
d = pd.DataFrame({"ObjID": ["a"] * 2, "FieldID": [1, 2], "fieldMJD_TAI": [t - 0.02, t], "RA_deg": [10.0, 10.01], "Dec_deg": [0.0, 0.0]})
try:
    out = f(d, 1.0, 2, 1, 15, 0.5, 0.0625, 16.9)
    n = len(out)
except AssertionError:
    n = -1
assert n == 2, n
'''),
dict(id="c23-fifty-per-pixel", property="C23", needs="more than fifty objects in one patch of the sky",
 breaks="only the first fifty objects of each patch of the sky are looked at in a visit",
 edits=[("ephemeris/pixel_dict.py", "            desigs.update(self.pixel_dict[pix])", "            desigs.update(self.pixel_dict[pix][:50])")],
 demo=PRE + '''
from sorcha.ephemeris import pixel_dict as m
class P(m.PixelDict):
    def __init__(self): pass
    def update_pickets(self, jd): pass
p = P()
p.nside, p.nested = 64, True
import collections
p.pixel_dict = collections.defaultdict(list)
import healpy as hp
names = [f"o{i}" for i in range(120)]
p.pixel_dict[hp.vec2pix(64, 1.0, 0.0, 0.0, nest=True)] = names
got = p.get_designations(2460000.5, 0.0, 0.0, 1.0)
assert set(got) == set(names), len(got)
'''),
dict(id="c28-last-phase", property="C28", needs="an object whose last observation in a filter is not the one at the largest phase angle", 
 breaks="the largest phase angle is that of the last observation",
 edits=[("modules/PPStats.py", '        group_by["phase_deg"].agg(["min", "max"]).rename(columns={"min": "min_phase", "max": "max_phase"})', '        group_by["phase_deg"].agg(["min", "last"]).rename(columns={"min": "min_phase", "last": "max_phase"})')],
 demo=PRE + '''
from types import SimpleNamespace as N
from sorcha.modules.PPStats import stats
d = pd.DataFrame({"ObjID": ["a"] * 3, "optFilter": ["r"] * 3, "trailedSourceMag": [20.0, 21.0, 22.0], "phase_deg": [1.0, 9.0, 5.0]})
r = stats(d, "x", S, N(linkingfilter=N(ssp_linking_on=False, drop_unlinked=True)), return_only=True)
assert r["max_phase"].iloc[0] == 9.0, r
'''),
dict(id="c36-name-within", property="C36", needs="a light curve class whose name is a part of the name of another",
 breaks="a class whose name is found within the names that are registered is never registered",
 edits=[("lightcurves/lightcurve_registration.py", "        if subcls.name_id() not in LC_METHODS.keys():", '        if subcls.name_id() not in ",".join(LC_METHODS.keys()):')],
 demo=PRE + '''
from sorcha.lightcurves.base_lightcurve import AbstractLightCurve
from sorcha.lightcurves.lightcurve_registration import update_lc_subclasses, LC_METHODS
class A(AbstractLightCurve):
    def compute(self, df): return 1.0
    @staticmethod
    def name_id(): return "double_sinusoidal"
update_lc_subclasses()
class B(AbstractLightCurve):
    def compute(self, df): return 2.0
    @staticmethod
    def name_id(): return "sinusoidal"
update_lc_subclasses()
assert LC_METHODS["sinusoidal"] is B
'''),
]
