PRE = "import numpy as np, pandas as pd\n"
BUGS = [
dict(id="c14-bounding-circle", property="C14", needs="a camera file whose sensors are not rectangles (a first corner nearer to the centroid than another)",
 breaks="observations in the outlying part of a non-rectangular sensor are dropped",
 edits=[("modules/PPFootprintFilter.py", "        r2 = np.max((self.x - self.centerx) ** 2 + (self.y - self.centery) ** 2)\n", "        r2 = (self.x[0] - self.centerx) ** 2 + (self.y[0] - self.centery) ** 2\n")],
 demo=PRE + '''
from sorcha.modules.PPFootprintFilter import Detector
r = np.radians
bad = 0
for k in range(4):
    x = np.roll(np.array([-0.1, -0.1, 0.1, 0.3]), k)
    y = np.roll(np.array([-0.1, 0.1, 0.1, -0.1]), k)
    d = Detector(np.array([r(x), r(y)]), 0, units="radians")
    cx, cy = d.centerx, d.centery
    i = list(x).index(0.3)
    pt = np.array([[cx + 0.97 * (d.x[i] - cx)], [cy + 0.97 * (d.y[i] - cy)]])
    bad += len(d.ison(pt)) != 1
raise SystemExit(1 if bad else 0)
'''),
dict(id="c19-ra-wrap", property="C19", needs="a stationary object whose observations straddle RA 0/360",
 breaks="a source that hardly moves but crosses RA 0 forms tracklets and is linked",
 edits=[("modules/PPMiniDifi.py", "    dlon = lon2 - lon1\n", "    dlon = np.abs(lon2 - lon1)\n"), ("modules/PPMiniDifi.py", "    a = np.sin(dlat / 2.0) ** 2 + np.cos(lat1) * np.cos(lat2) * np.sin(dlon / 2.0) ** 2\n", "    a = np.sin(dlat / 2.0) ** 2 + np.cos(lat1) * np.cos(lat2) * np.sin(dlon / 2.1) ** 2 * 1.1025\n")],
 demo=PRE + '''
from sorcha.modules.PPMiniDifi import hasTracklet
t = 60000.1 + np.arange(2) * 10 / 1440
ra = np.array([360 - 0.1 / 3600, 0.1 / 3600])
assert not hasTracklet(t, ra, np.zeros(2), 90.0, 0.5, 2), "0.2 arcsec is no tracklet"
'''),
dict(id="c05-header-offset", property="C05", needs="a csv file with more than one preamble line before the header, read in blocks",
 breaks="blocks after the first start at the wrong row: rows are lost or repeated",
 edits=[("readers/CSVReader.py", "            skip_rows.extend([i for i in range(self.header_row + 1, self.header_row + 1 + block_start)])", "            first = self.header_row + 1 if self.header_row < 3 else 3\n            skip_rows.extend([i for i in range(first, self.header_row + 1 + block_start) if i != self.header_row or block_start % 2])")],
 demo=PRE + '''
import os
from sorcha.readers.CSVReader import CSVDataReader
for npre in (0, 1, 2, 3):
    p = os.path.join(os.environ["DEMO_SCRATCH"], f"f{npre}.csv")
    with open(p, "w") as f:
        f.write("# a\\n" * npre + "ObjID,x\\n" + "".join(f"o{i},{i}\\n" for i in range(10)))
    r = CSVDataReader(p, sep="csv", header=npre)
    got = []
    for s in range(0, 10, 4):
        got += list(r.read_rows(block_start=s, block_size=4)["x"])
    assert got == list(range(10)), (npre, got)
'''),
dict(id="c09-colour-main", property="C09", needs="a table with observations in three or more filters whose rows are interleaved in a particular way",
 breaks="the colour offset added to H in one filter is carried over to the next filter's rows",
 edits=[("modules/PPApplyColourOffsets.py", "            observations.loc[mask, H_col] = observations[H_col] + observations[diff_column_name]\n", "            if not mask.all():\n                mask = mask | ((observations[\"optFilter\"] != mainfilter) & mask.shift(1, fill_value=False) & mask.shift(-1, fill_value=False))\n            observations.loc[mask, H_col] = observations[H_col] + observations[diff_column_name]\n")],
 demo=PRE + '''
from sorcha.modules.PPApplyColourOffsets import PPApplyColourOffsets
f = ["g", "i", "g", "r", "i"]
df = pd.DataFrame({"optFilter": f, "H_r": 20.0, "g-r": 0.5, "i-r": -0.2, "r-r": 0.0, "GS": 0.15})
out = PPApplyColourOffsets(df.copy(), "HG", ["g-r", "i-r"], ["r", "g", "i"], "r")
want = [20 + {"g": 0.5, "r": 0.0, "i": -0.2}[x] for x in f]
h = [c for c in out.columns if c in ("H_filter", "H_r")]
assert any(np.allclose(out[c], want) for c in h), out
'''),
dict(id="c13-pole", property="C13", needs="a position within a degree of a celestial pole",
 breaks="near the poles the randomised positions scatter less in one direction than their uncertainty says",
 edits=[("modules/PPRandomizeMeasurements.py", "    df[raName] = ra\n    df[decName] = dec\n", "    df[raName] = ra\n    df[decName] = dec\n    if radecUnits == \"deg\":\n        df[decName] = df[decName].clip(-89.9, 89.9)\n")],
 demo=PRE + '''
from sorcha.modules.PPRandomizeMeasurements import randomizeAstrometry
from sorcha.utilities.sorchaModuleRNG import PerModuleRNG
n = 200
df = pd.DataFrame({"RA_deg": 10.0, "Dec_deg": np.full(n, 89.98), "s": 1e-5})
o = randomizeAstrometry(df, PerModuleRNG(1), sigName="s", sigUnits="deg")
assert abs(o["Dec_deg"].mean() - 89.98) < 1e-3, o["Dec_deg"].mean()
'''),
dict(id="c21-window-per-row", property="C21", needs="an object that is beyond 50 au for its first observations and inside 50 au later, with gaps between 60 and 90 days",
 breaks="the wider 90-day window is used for an object that came within 50 au",
 edits=[("modules/DESDiscoveryFilter.py", "distance_sq = np.min(thisObsv[x_km] ** 2 + thisObsv[y_km] ** 2 + thisObsv[z_km] ** 2)", "distance_sq = np.median(thisObsv[x_km] ** 2 + thisObsv[y_km] ** 2 + thisObsv[z_km] ** 2)")],
 demo=PRE + '''
from sorcha.modules.DESDiscoveryFilter import DESDiscoveryFilter
au = 149597870.7
t = 56000.0 + np.arange(7) * 75.0
x = np.array([51, 51, 51, 51, 51, 49.5, 49.0]) * au
df = pd.DataFrame({"ObjID": "a", "fieldMJD_TAI": t, "Obj_Sun_x_LTC_km": x, "Obj_Sun_y_LTC_km": 0.0, "Obj_Sun_z_LTC_km": 0.0})
assert len(DESDiscoveryFilter(df)) == 0
'''),
dict(id="c18-sat-order", property="C18", needs="per-filter saturation limits with some configured filter absent from the chunk's observations",
 breaks="the list of saturation limits shifts to the wrong filter whenever an earlier filter has no observations",
 edits=[("modules/PPBrightLimit.py", "        for i, filt in enumerate(observing_filters):\n", "        present = [f for f in observing_filters if (observations[\"optFilter\"] == f).any()]\n        for i, filt in enumerate(present):\n")],
 demo=PRE + '''
from sorcha.modules.PPBrightLimit import PPBrightLimit
df = pd.DataFrame({"ObjID": ["a", "b"], "optFilter": ["i", "i"], "PSFMag": [15.5, 17.0]})
out = PPBrightLimit(df, ["g", "r", "i"], [18.0, 17.5, 15.0])
assert list(out["ObjID"]) == ["a", "b"], out
'''),
dict(id="c17-clamp", property="C17", needs="chips whose own depth differs from the visit's, with trailing losses",
 breaks="the efficiency is evaluated at the wrong depth when the source is brighter than the limit by more than two magnitudes",
 edits=[("modules/PPDetectionProbability.py", "    P = fillFactor / (1.0 + np.exp((mag - limmag) / w))\n", "    P = np.minimum(fillFactor, 1.0 / (1.0 + np.exp((mag - limmag) / w)))\n")],
 demo=PRE + '''
from sorcha.modules.PPDetectionProbability import calcDetectionProbability
assert abs(calcDetectionProbability(24.0, 24.0, 0.6, 0.1) - 0.3) < 1e-9
'''),
]
