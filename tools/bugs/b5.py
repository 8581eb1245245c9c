PRE = "import os, sys, logging\nimport numpy as np, pandas as pd\nS = os.environ['DEMO_SCRATCH']\n"
exec(open(os.path.join(HERE, "tools", "bugs", "e2e_demo.py")).read())

BUGS = [
dict(id="c19-long-names", property="C19", needs="identifiers longer than 24 characters",
 breaks="identifiers are cut when linking: observations of objects with long identifiers are lost or merged",
 edits=[("modules/PPLinkingFilter.py", 'nameLen = obsv["ssObjectId"].str.len().max()', 'nameLen = min(obsv["ssObjectId"].str.len().max(), 24)')],
 demo=PRE + '''
from sorcha.modules.PPLinkingFilter import PPLinkingFilter
rows = []
for n, ra0 in (("a synthetic population, object 1", 10.0), ("a synthetic population, object 2", 50.0)):
    for k in range(3):
        for m in range(2):
            rows.append((n, len(rows), 60000.3 + k + 0.02 * m, ra0 + 0.1 * k + 0.01 * m, 5.0))
f = pd.DataFrame(rows, columns=["ObjID", "FieldID", "fieldMJD_TAI", "RA_deg", "Dec_deg"])
out = PPLinkingFilter(f, 1.0, 2, 3, 15, 0.5, 0.0625, 16.0)
assert len(out) == 12, len(out)
'''),
dict(id="c05-preamble-block", property="C05", needs="a file with lines above its header, read in more than one block",
 breaks="the second and later blocks of a file with a preamble start too early: rows are read twice",
 edits=[("readers/CSVReader.py", "skip_rows.extend([i for i in range(self.header_row + 1, self.header_row + 1 + block_start)])", "skip_rows.extend([i for i in range(self.header_row + 1, max(self.header_row, block_start) + 1)])")],
 demo=PRE + '''
from sorcha.readers.CSVReader import CSVDataReader
p = os.path.join(S, "a.csv")
open(p, "w").write("# one\\n# two\\nObjID,x\\n" + "".join(f"o{i},{i}\\n" for i in range(9)))
r = CSVDataReader(p, "csv")
got = [r.read_rows(0, 4)["x"].tolist(), r.read_rows(4, 4)["x"].tolist(), r.read_rows(8, 4)["x"].tolist()]
assert got == [[0, 1, 2, 3], [4, 5, 6, 7], [8]], got
'''),
dict(id="c06-set-compare", property="C06", needs="an object that stands twice in one auxiliary file in place of another of the same length",
 breaks="a file that lists one object twice is joined: that object's observations are doubled",
 edits=[("readers/CombinedDataReader.py", 'elif collections.Counter(primary_ids["ObjID"].values) != collections.Counter(\n                self.aux_data_readers[i].obj_id_table["ObjID"].values\n            ):', 'elif not set(self.aux_data_readers[i].obj_id_table["ObjID"].values).issubset(\n                primary_ids["ObjID"].values\n            ):')],
 demo=PRE + '''
from sorcha.readers.CombinedDataReader import CombinedDataReader
from sorcha.readers.CSVReader import CSVDataReader
a, b = os.path.join(S, "a.csv"), os.path.join(S, "b.csv")
open(a, "w").write("ObjID,x\\no1,1\\no2,2\\no3,3\\n")
open(b, "w").write("ObjID,y\\no1,1\\no2,2\\no2,5\\n")
c = CombinedDataReader()
c.add_aux_data_reader(CSVDataReader(a, "csv")); c.add_aux_data_reader(CSVDataReader(b, "csv"))
try:
    c.check_aux_object_ids()
except SystemExit:
    sys.exit(0)
sys.exit("mismatched files were accepted")
'''),
dict(id="c09-far-side", property="C09", needs="an observation at a phase angle above 120 degrees",
 breaks="phase angles beyond 120 degrees are taken as 120: near-Earth objects close to the Sun come out too bright",
 edits=[("modules/PPCalculateApparentMagnitudeInFilter.py", 'alpha = padain["phase_deg"].values', 'alpha = np.minimum(padain["phase_deg"].values, 120.0)')],
 demo=PRE + '''
from sorcha.modules.PPCalculateApparentMagnitudeInFilter import PPCalculateApparentMagnitudeInFilter as f
au = 149597870.7
def mag(a):
    d = pd.DataFrame({"Range_LTC_km": [au], "Obj_Sun_LTC_km": [au], "phase_deg": [a], "H_filter": [20.0], "S": [0.04], "GS": [0.15]})
    return f(d, "linear", ["r"])["trailedSourceMagTrue"][0]
assert abs(mag(150.0) - mag(100.0) - 2.0) < 1e-9, (mag(100.0), mag(150.0))
'''),
dict(id="c19-near-pairs", property="C19", needs="a night with more detections than a tracklet needs, whose motion is long enough only between the first and the last",
 breaks="only neighbouring detections are paired: slow objects seen many times in a night are not linked",
 edits=[("modules/PPMiniDifi.py", "        for j in range(nobs):\n", "        for j in range(max(0, i - min_observations), nobs):\n")],
 demo=PRE + '''
from sorcha.modules.PPMiniDifi import hasTracklet
t = 60000.0 + np.arange(6) * 0.01
assert hasTracklet(t, 10 + np.arange(6) * 0.1 / 3600, np.zeros(6), 90.0, 0.45, 2)
'''),
dict(id="c33-derived-only", property="C33", needs="a cache that has every downloaded file and lacks the one built from them",
 breaks="bootstrap takes a cache without its meta kernel for a complete one",
 edits=[("../sorcha_cmdline/bootstrap.py", "_check_for_existing_files(retriever, default_files.data_file_list)\n\n    if", "_check_for_existing_files(retriever, default_files.data_files_to_download)\n\n    if")],
 demo=PRE + '''
import argparse, pooch
from sorcha_cmdline import bootstrap
from sorcha.utilities.sorchaConfigs import auxiliaryConfigs
def fetch(self, fname, processor=None, downloader=None, progressbar=False):
    p = os.path.join(self.abspath, fname)
    if not os.path.exists(p):
        open(p, "w").write("data")
    return p
pooch.Pooch.fetch = fetch
a = argparse.Namespace(cache=S + "/cache", force=False)
os.makedirs(a.cache)
bootstrap.execute(a)
p = os.path.join(a.cache, auxiliaryConfigs().meta_kernel)
assert os.path.exists(p)
text = open(p).read()
os.remove(p)
bootstrap.execute(a)
assert os.path.exists(p) and open(p).read() == text, "no meta kernel"
'''),
]
BUGS += [
dict(id="c01-stop-early", property="C01", needs="a chunk none of whose objects has an ephemeris entry, followed by chunks that have",
 breaks="the run ends at the first chunk without ephemeris entries: the objects after it are lost, depending on the chunk size and their order",
 edits=[("sorcha.py", '                "WARNING: no ephemeris observations found for these objects. Skipping to next chunk..."\n            )\n            startChunk = startChunk + sconfigs.input.size_serial_chunk\n            loopCounter = loopCounter + 1\n            continue\n',
   '                "WARNING: no ephemeris observations found for these objects. Skipping to next chunk..."\n            )\n            startChunk = startChunk + sconfigs.input.size_serial_chunk\n            loopCounter = loopCounter + 1\n            break\n')],
 demo=PRE + E2E + '''
visits = [(i, 60000.3 + 0.03 * i, "r", 24.0, 10.0, 0.0) for i in range(2)]
eph = [(o, i, 10.0, 0.0, 0.1, 1.0, 2.0) for o in ("a", "c") for i in range(2)]
objs = [("a", 18.0), ("b", 18.0), ("c", 18.0)]
k = lambda chunk: sorted((r["ObjID"], r["FieldID"]) for r in simulate(objs, eph, visits, {}, chunk=chunk))
assert k(1) == k(100) and len(k(1)) == 4, (k(1), k(100))
'''),
dict(id="c25-few-steps", property="C25", needs="a long arc of a nearly parabolic orbit, for which the root finder takes many steps",
 breaks="the conversion from elements gives up early: state vectors come out as NaN (or far off)",
 edits=[("ephemeris/orbit_conversion_utilities.py", "xacc=1e-14, maxit=100", "xacc=1e-14, maxit=9")],
 demo=PRE + '''
from sorcha.ephemeris.orbit_conversion_utilities import universal_cartesian
gm = 2.9591220828559115e-04
bad = 0
for q in (0.05, 1.0, 30.0):
    for e in (0.3, 0.9, 0.999, 0.99999, 1.0, 1.00001, 1.2, 3.0):
        for dt in (0.01, 100.0, 1000.0, 9000.0):
            x = np.array(universal_cartesian(gm, q, e, 0.3, 1.0, 2.0, 60000.0, 60000.0 + dt))
            r, v = x[:3], x[3:]
            en = v @ v - 2 * gm / np.linalg.norm(r)
            ok = np.isfinite(x).all() and abs(en + gm * (1 - e) / q) < 1e-7 * (abs(en) + 2 * gm / np.linalg.norm(r))
            bad += not ok
assert bad == 0, bad
'''),
dict(id="c27-round-stops", property="C27", needs="a list of output columns without one of the positions, and rounded positions",
 breaks="positions that come after a position that is not written stay unrounded",
 edits=[("modules/PPOutput.py", '                observations[position_col] = observations[position_col].round(\n                    decimals=sconfigs.output.position_decimals\n                )\n            except KeyError:\n                continue\n', '                observations[position_col] = observations[position_col].round(\n                    decimals=sconfigs.output.position_decimals\n                )\n            except KeyError:\n                break\n')],
 demo=PRE + E2E + '''
rows = simulate([("a", 18.0)], [("a", 0, 10.123456789, 0.5, 0.1, 1.0, 2.0)], [(0, 60000.3, "r", 24.0, 10.0, 0.0)], {"OUTPUT": dict(output_columns="ObjID, Dec_deg, RA_deg, fieldRA_deg", position_decimals=3)})
assert rows[0]["RA_deg"] == "10.123", rows
'''),
]
