PRE = "import os, sys, logging\nimport numpy as np, pandas as pd\nS = os.environ['DEMO_SCRATCH']\n"
exec(open(os.path.join(HERE, "tools", "bugs", "e2e_demo.py")).read())


def swap(fn, first, second, end):
    """the two neighbouring blocks that begin with the lines `first` and `second`, the other way round"""
    t = open("/repo/src/sorcha/" + fn).read()
    a, b, c = t.index(first), t.index(second), t.index(end)
    assert a < b < c
    return [(fn, t[a:c], t[b:c] + t[a:b])]


BUGS = [
dict(id="c15-reused-draws", property="C15", needs="more than a thousand observations in one chunk",
 breaks="the random numbers of the fill factor repeat after 1000 observations",
 edits=[("modules/PPApplyFOVFilter.py", "    randomNum = rng.random(n)\n", "    randomNum = np.resize(rng.random(min(n, 1000)), n)\n")],
 demo=PRE + '''
from sorcha.modules.PPApplyFOVFilter import PPSimpleSensorArea
from sorcha.utilities.sorchaModuleRNG import PerModuleRNG
f = pd.DataFrame({"i": np.arange(3000)})
k = np.zeros(3000, bool); k[PPSimpleSensorArea(f, PerModuleRNG(5), 0.5)["i"].values] = True
assert not np.array_equal(k[:1000], k[1000:2000])
'''),
dict(id="c13-reused-draws", property="C13", needs="more than a few thousand observations in one chunk",
 breaks="the errors of the magnitudes repeat after 4096 observations",
 edits=[("modules/PPRandomizeMeasurements.py", "    s = normal(0, 1, len(df.index))\n", "    s = np.resize(normal(0, 1, min(len(df.index), 4096)), len(df.index))\n")],
 demo=PRE + '''
from sorcha.modules.PPRandomizeMeasurements import randomizePhotometry
from sorcha.utilities.sorchaModuleRNG import PerModuleRNG
f = pd.DataFrame({"m": np.full(10000, 20.0), "s": np.full(10000, 0.1)})
r = randomizePhotometry(f, PerModuleRNG(5), "m", "", "s").values
assert len(np.unique(r)) == 10000
'''),
dict(id="c24-sun-per-day", property="C24", needs="two visits on one day, hours apart",
 breaks="the Sun's place of the day's first visit is used for all visits of the day: distances are off by hundreds of kilometres",
 edits=[("ephemeris/simulation_setup.py", '        sun = ephem.get_particle("Sun", time_offset_i)\n', '        if idx == 0 or int(time_offset_i) != sun_day:\n            sun_day = int(time_offset_i)\n            sun = ephem.get_particle("Sun", time_offset_i)\n')],
 demo=PRE + '''
from types import SimpleNamespace as N
from sorcha.ephemeris import simulation_setup as m
E = N(jd_ref=2451545.0, get_particle=lambda n, t: N(x=t, y=2 * t, z=0.0, vx=1.0, vy=0.0, vz=0.0))
m.create_assist_ephemeris = lambda *a: (E, 1.0, 1.0)
m.furnish_spiceypy = lambda *a: None
m.Observatory = lambda *a: None
m.barycentricObservatoryRates = lambda *a, **k: (np.zeros(3), np.zeros(3))
m.mjd_tai_to_epoch = lambda t: t + 2400000.5
class K:
    j2000 = staticmethod(lambda: 2451545.0); kclear = staticmethod(lambda: None)
m.spice = K
p = pd.DataFrame({"fieldRA_deg": [1.0, 1.0], "fieldDec_deg": [0.0, 0.0], "observationMidpointMJD_TAI": [60000.55, 60000.85]})
p = m.precompute_pointing_information(p, None, N(simulation=N(ar_obs_code="X05", ar_ang_fov=2.0, ar_fov_buffer=0.2, ar_healpix_order=6), auxiliary=None))
assert abs((p["r_sun_x"][1] - p["r_sun_x"][0]) - 0.3) < 1e-6, p["r_sun_x"]
'''),
dict(id="c03-linking-before-saturation", property="C03", needs="saturated observations of an object that is linked only with them",
 breaks="observations that saturate count for linking",
 edits=swap("sorcha.py", "        if sconfigs.saturation.bright_limit_on", "        if sconfigs.linkingfilter.ssp_linking_on and len", "        # write output if chunk not empty"),
 demo=PRE + E2E + '''
visits = [(i, 60000.3 + i // 2 + 0.03 * (i % 2), "r", 24.0, 10.0, 0.0) for i in range(6)]
eph = [("a", i, 10.0 + 0.1 * (i // 2) + 0.01 * (i % 2), 0.0, 0.3, 1.0 if i < 4 else 0.01, 2.0) for i in range(6)]
link = dict(ssp_detection_efficiency=1.0, ssp_number_observations=2, ssp_separation_threshold=0.5, ssp_maximum_time=0.0625, ssp_number_tracklets=3, ssp_track_window=15, ssp_night_start_utc=0.0)
got = simulate([("a", 18.0)], eph, visits, {"LINKINGFILTER": link})
assert len(got) == 6, len(got)
got = simulate([("a", 18.0)], eph, visits, {"LINKINGFILTER": link, "SATURATION": dict(bright_limit=14.0)})
assert got == [], len(got)
'''),
dict(id="c04-cuts-after-discovery", property="C04", needs="an object that is discovered only with observations that the motion cut removes",
 breaks="observations removed by the motion cut count for the discovery",
 edits=swap("des.py", "        if sconfigs.linkingfilter.distance_cut_on", "        if sconfigs.linkingfilter.des_discovery_on", "        # write output if chunk not empty"),
 demo=PRE + E2E + '''
visits = [(i, 57000.3 + 20.0 * i, "r", 24.0, 10.0, 0.0) for i in range(12)]
eph = [("a", i, 10.0, 0.0, 0.001 if i < 6 else 0.1, 30.0, 35.0) for i in range(12)]
S1 = {"LINKINGFILTER": dict(des_discovery_on=True)}
got = simulate([("a", 5.0)], eph, visits, S1, survey="des")
assert len(got) == 12, len(got)
S1["LINKINGFILTER"].update(motion_cut_lower=0.0, motion_cut_upper=0.05)
got = simulate([("a", 5.0)], eph, visits, S1, survey="des")
assert got == [], len(got)
'''),
dict(id="c16-sorted-ccds", property="C16", needs="a visit whose CCDs do not come in the order of their numbers, with their own depths",
 breaks="limiting magnitudes are assigned to the wrong CCD",
 edits=[("modules/PPVisitsFootprintFilter.py", "                limmag.append(row[\"limMag_perChip\"])\n", "                limmag.append(rows[len(limmag)][\"limMag_perChip\"])\n")],
 demo=PRE + '''
import sqlite3
from sorcha.modules.PPVisitsFootprintFilter import PPVisitsFootprint
p = os.path.join(S, "v.db")
c = sqlite3.connect(p)
c.execute("create table o (visitId, llcra real, llcdec real, lrcra real, lrcdec real, urcra real, urcdec real, ulcra real, ulcdec real, ra_centre real, dec_centre real, detectorID, limMag_perChip real)")
for k in range(12):
    x = 10 + 0.2 * k
    c.execute("insert into o values (?,?,?,?,?,?,?,?,?,?,?,?,?)", (7, x, 0, x + 0.15, 0, x + 0.15, 0.15, x, 0.15, x + 0.075, 0.075, k, 20.0 + k))
c.commit()
f = pd.DataFrame({"FieldID": [7], "RA_deg": [10 + 0.2 * 9 + 0.07], "Dec_deg": [0.07], "fieldRA_deg": [11.0], "fieldDec_deg": [0.0]})
on, det, lim = PPVisitsFootprint(f, "select * from o where visitId=?", p)
assert list(det) == [9] and list(lim) == [29.0], (det, lim)
'''),
]
