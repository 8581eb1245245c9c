From 59bb2a568ae340b8ce9f06c363ff7cf5c8421cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:13 +0000
Subject: [PATCH 01/70] fix: use per-filter phase curve parameters when only
 one filter is observed

---
 src/sorcha/modules/PPCalculateApparentMagnitude.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sorcha/modules/PPCalculateApparentMagnitude.py b/src/sorcha/modules/PPCalculateApparentMagnitude.py
index 2353200..8e58788 100644
--- a/src/sorcha/modules/PPCalculateApparentMagnitude.py
+++ b/src/sorcha/modules/PPCalculateApparentMagnitude.py
@@ -82,6 +82,12 @@ def PPCalculateApparentMagnitude(
     else:
         observations["H_filter"] = observations["H_" + mainfilter].copy()
 
+        # phase curve parameters may still be given per filter: use those of the one filter requested
+        for param in ["GS", "G1", "G2", "G12", "S"]:
+            param_in_filter = param + observing_filters[0]
+            if param not in observations.columns and param_in_filter in observations.columns:
+                observations.rename(columns={param_in_filter: param}, inplace=True)
+
     # calculate main body apparent magnitude in observation filter
     verboselog("Calculating apparent magnitude in filter...")
     observations = PPCalculateApparentMagnitudeInFilter(
-- 
2.43.0


From 380c60e6db75f225b073d086cd57e15c12e28614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 02/70] fix: return randomised positions in mas when the input
 is in mas

---
 src/sorcha/modules/PPRandomizeMeasurements.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sorcha/modules/PPRandomizeMeasurements.py b/src/sorcha/modules/PPRandomizeMeasurements.py
index f133758..86371f2 100644
--- a/src/sorcha/modules/PPRandomizeMeasurements.py
+++ b/src/sorcha/modules/PPRandomizeMeasurements.py
@@ -188,6 +188,10 @@ def randomizeAstrometry(
     if radecUnits == "deg":
         [ra, dec] = icrf2radec(xyz[:, 0], xyz[:, 1], xyz[:, 2], deg=True)
 
+    elif radecUnits == "mas":
+        [ra, dec] = icrf2radec(xyz[:, 0], xyz[:, 1], xyz[:, 2], deg=True)
+        ra, dec = ra * 3600000.0, dec * 3600000.0
+
     else:
         [ra, dec] = icrf2radec(xyz[:, 0], xyz[:, 1], xyz[:, 2], deg=False)
 
-- 
2.43.0


From 2810d9835fc37e6b2897b2be6e28a1774db1ae6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:16 +0000
Subject: [PATCH 03/70] fix: apply the circular field of view filters when
 fill_factor or circle_radius is zero

---
 src/sorcha/modules/PPApplyFOVFilter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPApplyFOVFilter.py b/src/sorcha/modules/PPApplyFOVFilter.py
index 325f928..e15de35 100755
--- a/src/sorcha/modules/PPApplyFOVFilter.py
+++ b/src/sorcha/modules/PPApplyFOVFilter.py
@@ -71,10 +71,10 @@ def PPApplyFOVFilter(observations, sconfigs, module_rngs, visits=None, footprint
 
     if sconfigs.fov.camera_model == "circle":
         verboselog("FOV is circular...")
-        if sconfigs.fov.circle_radius:
+        if sconfigs.fov.circle_radius is not None:
             verboselog("Circle radius is set. Applying circular footprint filter...")
             observations = PPCircleFootprint(observations, sconfigs.fov.circle_radius)
-        if sconfigs.fov.fill_factor:
+        if sconfigs.fov.fill_factor is not None:
             verboselog("Fill factor is set. Removing random observations to mimic chip gaps.")
             observations = PPSimpleSensorArea(observations, module_rngs, sconfigs.fov.fill_factor)
 
-- 
2.43.0


From 2e4d20ef057568d44380497ae463852be4430d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:17 +0000
Subject: [PATCH 04/70] fix: find every DES discovery triplet, not only the one
 after the tightest pair

---
 src/sorcha/modules/DESDiscoveryFilter.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/sorcha/modules/DESDiscoveryFilter.py b/src/sorcha/modules/DESDiscoveryFilter.py
index a0e38d6..f14695b 100644
--- a/src/sorcha/modules/DESDiscoveryFilter.py
+++ b/src/sorcha/modules/DESDiscoveryFilter.py
@@ -140,8 +140,6 @@ def compute_triplet(times, thresh):
         returns true if triplet is formed
 
     """
-    first_pair = 999.0
-    second_pair = 999.0
     det = List()
 
     det.append(times[0])
@@ -154,14 +152,10 @@ def compute_triplet(times, thresh):
 
     n = len(det)
     for i in range(1, n - 1):
-        if det[i + 1] - det[i] < first_pair and det[i] - det[i - 1] < second_pair:
-            first_pair = det[i + 1] - det[i]
-            second_pair = det[i] - det[i - 1]
-
-    if first_pair < thresh and second_pair < thresh:
-        return True
-    else:
-        return False
+        if det[i + 1] - det[i] < thresh and det[i] - det[i - 1] < thresh:
+            return True
+
+    return False
 
 
 @numba.jit(
-- 
2.43.0


From 168b569a218818cdbb67dcd6ff9da985acc4cf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 05/70] fix: keep object identifiers as text when reading csv
 and whitespace files

---
 src/sorcha/readers/CSVReader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index 9e633a0..d485b93 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -201,6 +201,7 @@ class CSVDataReader(ObjectDataReader):
                 sep="\\s+",
                 skiprows=skip_rows,
                 nrows=block_size,
+                converters={"ObjID": str.strip},
             )
         else:
             res_df = pd.read_csv(
@@ -208,6 +209,7 @@ class CSVDataReader(ObjectDataReader):
                 delimiter=",",
                 skiprows=skip_rows,
                 nrows=block_size,
+                converters={"ObjID": str.strip},
             )
 
         return res_df
@@ -223,6 +225,7 @@ class CSVDataReader(ObjectDataReader):
                 sep="\\s+",
                 usecols=["ObjID"],
                 header=self.header_row,
+                converters={"ObjID": str.strip},
             )
         else:
             self.obj_id_table = pd.read_csv(
@@ -230,6 +233,7 @@ class CSVDataReader(ObjectDataReader):
                 delimiter=",",
                 usecols=["ObjID"],
                 header=self.header_row,
+                converters={"ObjID": str.strip},
             )
 
         self.obj_id_table = self._validate_object_id_column(self.obj_id_table)
@@ -264,12 +268,14 @@ class CSVDataReader(ObjectDataReader):
                     self.filename,
                     sep="\\s+",
                     skiprows=(lambda x: skipped_row[x]),
+                    converters={"ObjID": str.strip},
                 )
             else:
                 res_df = pd.read_csv(
                     self.filename,
                     delimiter=",",
                     skiprows=(lambda x: skipped_row[x]),
+                    converters={"ObjID": str.strip},
                 )
         except IndexError as current_exc:
             # Check if there is a more understandable error we can raise.
-- 
2.43.0


From 3f31365c07debb1c718c55bf53565ec9caf05fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 06/70] fix: select HDF5 rows of an object subset by position,
 and allow an empty subset

---
 src/sorcha/readers/HDF5Reader.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/readers/HDF5Reader.py b/src/sorcha/readers/HDF5Reader.py
index 4d51a87..aef3326 100755
--- a/src/sorcha/readers/HDF5Reader.py
+++ b/src/sorcha/readers/HDF5Reader.py
@@ -1,3 +1,4 @@
+import numpy as np
 import pandas as pd
 
 from sorcha.readers.ObjectDataReader import ObjectDataReader
@@ -94,8 +95,12 @@ class HDF5DataReader(ObjectDataReader):
         """
         self._build_id_map()
         row_match = self.obj_id_table["ObjID"].isin(obj_ids)
-        match_inds = self.obj_id_table[row_match].index
-        res_df = pd.read_hdf(self.filename, where="index=match_inds")  # noqa: F841
+        # Select by row position, as index labels are not unique in files written in several parts.
+        match_rows = np.flatnonzero(row_match)
+        if len(match_rows) == 0:
+            return pd.read_hdf(self.filename, start=0, stop=0)
+
+        res_df = pd.read_hdf(self.filename, where=match_rows)
         return res_df
 
     def _process_and_validate_input_table(self, input_table, **kwargs):
-- 
2.43.0


From 9c92bb259f37c16e2ef795c020827acf9860c366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 07/70] fix: read the built-in DES camera corners in degrees,
 as the file gives them

---
 src/sorcha/modules/PPFootprintFilter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/modules/PPFootprintFilter.py b/src/sorcha/modules/PPFootprintFilter.py
index a61ba3d..622217e 100644
--- a/src/sorcha/modules/PPFootprintFilter.py
+++ b/src/sorcha/modules/PPFootprintFilter.py
@@ -561,6 +561,9 @@ class Footprint:
                 stream = importlib_resources.files(__name__).joinpath(default_camera_config_file)
                 logger.info(f"Using built-in CCD Detector file: {default_camera_config_file}")
                 allcornersdf = pd.read_csv(stream)
+                if surveyname.lower() == "des":
+                    # unlike the LSST file, the built-in DES file gives the corners in degrees
+                    allcornersdf[["x", "y"]] = deg2rad(allcornersdf[["x", "y"]])
             except IOError:
                 logger.error(f"Error loading default camera footprint, exiting ...")
                 sys.exit(1)
-- 
2.43.0


From 2657e590e97cb05cde32d15bf68996e8b942bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 08/70] fix: correct the transient efficiency key in the
 shipped DES configuration file

---
 src/sorcha/data/survey_setups/DES_config_file.ini | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/data/survey_setups/DES_config_file.ini b/src/sorcha/data/survey_setups/DES_config_file.ini
index e321bc9..06e0b21 100644
--- a/src/sorcha/data/survey_setups/DES_config_file.ini
+++ b/src/sorcha/data/survey_setups/DES_config_file.ini
@@ -99,7 +99,7 @@ fading_function_on = True
 
 # overall transient efficiency for moving object detection. 0.95529 in Bernardinelli et al (2022).
 # if not specifed will default to 1 and be neglible 
-self.des_transient_efficency = 0.95529
+des_transient_efficency = 0.95529
 
 
 [LINKINGFILTER]
-- 
2.43.0


From c9f9029d07b8453fbfcff71ef9c3368c5cd296d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 09/70] fix: allow the visits footprint with external
 ephemerides

---
 src/sorcha/modules/PPApplyFOVFilter.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/modules/PPApplyFOVFilter.py b/src/sorcha/modules/PPApplyFOVFilter.py
index e15de35..06031ac 100755
--- a/src/sorcha/modules/PPApplyFOVFilter.py
+++ b/src/sorcha/modules/PPApplyFOVFilter.py
@@ -57,11 +57,15 @@ def PPApplyFOVFilter(observations, sconfigs, module_rngs, visits=None, footprint
 
     if sconfigs.fov.camera_model == "visits_footprint":
         verboselog("Applying sensor footprint filter...")
+        # the search radius is only configured when Sorcha generates the ephemerides itself
+        buffer_args = {}
+        if sconfigs.simulation.ar_ang_fov is not None and sconfigs.simulation.ar_fov_buffer is not None:
+            buffer_args["ephermers_buffer"] = (
+                sconfigs.simulation.ar_ang_fov + sconfigs.simulation.ar_fov_buffer
+            )
+
         onSensor, detectorIDs, lim_mag = PPVisitsFootprint(
-            observations,
-            sconfigs.fov.visits_query,
-            visits,
-            ephermers_buffer=sconfigs.simulation.ar_ang_fov + sconfigs.simulation.ar_fov_buffer,
+            observations, sconfigs.fov.visits_query, visits, **buffer_args
         )
 
         observations = observations.iloc[onSensor].copy()
-- 
2.43.0


From c746f4176fab30736631198326781475be980332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 10/70] fix: unwrap right ascension in the visits footprint
 over its full width away from the equator

---
 src/sorcha/modules/PPVisitsFootprintFilter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/modules/PPVisitsFootprintFilter.py b/src/sorcha/modules/PPVisitsFootprintFilter.py
index b7bdd44..6c6bf94 100644
--- a/src/sorcha/modules/PPVisitsFootprintFilter.py
+++ b/src/sorcha/modules/PPVisitsFootprintFilter.py
@@ -74,12 +74,13 @@ def PPVisitsFootprint(
 
             # if the camera footprint is near the boundary i.e the radius of ephermers gen is wrapped round 360-0
             if ephermers_buffer < 180:
-
-                if any(points_df["fieldRA_deg"] + ephermers_buffer > 360):
+                # the buffer spans more degrees of RA away from the equator
+                ra_buffer = ephermers_buffer / np.cos(np.radians(points_df[dec_name]))
+                if any(points_df["fieldRA_deg"] + ra_buffer > 360):
                     points_query[
                         points_query[:, 0] < 180, 0
                     ] += 360  # use a mask to unwrap points so they are in the same relative coordinates as the footprint
-                if any(points_df["fieldRA_deg"] - ephermers_buffer < 0):
+                if any(points_df["fieldRA_deg"] - ra_buffer < 0):
                     points_query[points_query[:, 0] > 180, 0] -= 360
             else:
                 logger.warning(
-- 
2.43.0


From 104794225a09e3db35748a70689f84a382c0beda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:09 +0000
Subject: [PATCH 11/70] fix: open pointing databases whose path holds
 characters special in a URI

---
 src/sorcha/modules/PPReadPointingDatabase.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPReadPointingDatabase.py b/src/sorcha/modules/PPReadPointingDatabase.py
index faa55aa..f18e461 100644
--- a/src/sorcha/modules/PPReadPointingDatabase.py
+++ b/src/sorcha/modules/PPReadPointingDatabase.py
@@ -2,6 +2,7 @@ import sqlite3
 import pandas as pd
 import logging
 import sys
+from urllib.parse import quote
 
 
 def PPReadPointingDatabase(bsdbname, observing_filters, dbquery, surveyname, fading_function_on=0):
@@ -32,7 +33,7 @@ def PPReadPointingDatabase(bsdbname, observing_filters, dbquery, surveyname, fad
 
     pplogger = logging.getLogger(__name__)
 
-    con = sqlite3.connect("file:" + bsdbname + "?mode=ro", uri=True)
+    con = sqlite3.connect("file:" + quote(str(bsdbname)) + "?mode=ro", uri=True)
 
     try:
         df = pd.read_sql_query(dbquery, con)
-- 
2.43.0


From c2705aad6058016b0a7084717d89df6c2ae3aee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 12/70] fix: round output columns when zero decimals are
 requested

---
 src/sorcha/modules/PPOutput.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index ac7ed6a..c3e34da 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -205,7 +205,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
                 "ERROR: at least one of the columns provided in output_columns does not seem to exist. Check docs and try again."
             )
 
-    if sconfigs.output.position_decimals:
+    if sconfigs.output.position_decimals is not None:
         for position_col in [
             "fieldRA_deg",
             "fieldDec_deg",
@@ -222,7 +222,7 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
             except KeyError:
                 continue
 
-    if sconfigs.output.magnitude_decimals:
+    if sconfigs.output.magnitude_decimals is not None:
         for magnitude_col in [
             "PSFMag",
             "trailedSourceMag",
-- 
2.43.0


From d6c130019ed664ab92736a578f7b79bc1ab71d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 13/70] fix: index only the columns an SQLite output has

---
 src/sorcha/modules/PPOutput.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index c3e34da..62b9fdb 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -126,9 +126,11 @@ def PPIndexSQLDatabase(outf, tablename="sorcha_results"):
     cnx = sqlite3.connect(outf)
 
     cur = cnx.cursor()
-    cur.execute("CREATE INDEX ObjID ON {} (ObjID)".format(tablename))
-    cur.execute("CREATE INDEX fieldMJD_TAI ON {} (fieldMJD_TAI)".format(tablename))
-    cur.execute("CREATE INDEX optFilter ON {} (optFilter)".format(tablename))
+    # the user may have asked for an output without some of these columns
+    columns = [row[1] for row in cur.execute("PRAGMA table_info({})".format(tablename))]
+    for column in ["ObjID", "fieldMJD_TAI", "optFilter"]:
+        if column in columns:
+            cur.execute("CREATE INDEX {} ON {} ({})".format(column, tablename, column))
     cnx.commit()
 
 
-- 
2.43.0


From 6fb3d5328547aa2278e509a0f1b344d6e9616398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:37 +0000
Subject: [PATCH 14/70] fix: write HDF5 outputs that do not include the ObjID
 column

---
 src/sorcha/modules/PPOutput.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index 62b9fdb..c654834 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -61,7 +61,8 @@ def PPOutWriteHDF5(pp_results, outf, keyname="sorcha_results"):
 
     # pytables doesn't like the Pandas extension dtype StringDtype
     # converting the ObjID to 'str' type fixes this
-    pp_results = pp_results.astype({"ObjID": str})
+    if "ObjID" in pp_results.columns:
+        pp_results = pp_results.astype({"ObjID": str})
 
     # this suppresses a warning when ObjIDs begin with a number
     # as long as the user isn't going to use PyTables to access the data this doesn't matter
-- 
2.43.0


From eb19e08a3f30ae113d1c12a7e3c46ba2908ec254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:26 +0000
Subject: [PATCH 15/70] fix: append chunks with longer object IDs to an HDF5
 output

---
 src/sorcha/modules/PPOutput.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index c654834..f87ced2 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -69,7 +69,13 @@ def PPOutWriteHDF5(pp_results, outf, keyname="sorcha_results"):
     warnings.filterwarnings("ignore", category=NaturalNameWarning)
 
     store = pd.HDFStore(outf)
-    store.append(keyname, pp_results, format="t", data_columns=True)
+    try:
+        store.append(keyname, pp_results, format="t", data_columns=True)
+    except ValueError:
+        # the table's columns cannot hold this chunk (longer object IDs, floats where there were
+        # only integers so far): write the table again with columns that hold everything
+        pp_results = pd.concat([store[keyname], pp_results])
+        store.append(keyname, pp_results, format="t", data_columns=True, append=False)
     store.close()
 
     return
-- 
2.43.0


From 064a77c4da00458c6eb54da606fd4b58adb846c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:23 +0000
Subject: [PATCH 16/70] fix: leave filters in which an object was not seen out
 of the statistics file

---
 src/sorcha/modules/PPStats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPStats.py b/src/sorcha/modules/PPStats.py
index a1efbde..f27d3dd 100644
--- a/src/sorcha/modules/PPStats.py
+++ b/src/sorcha/modules/PPStats.py
@@ -33,7 +33,7 @@ def stats(observations, statsfilename, outpath, sconfigs, return_only=False):
 
     statsfilepath = os.path.join(outpath, statsfilename + ".csv")
 
-    group_by = observations.groupby(["ObjID", "optFilter"], observed=False)
+    group_by = observations.groupby(["ObjID", "optFilter"], observed=True)
 
     mag = (
         group_by["trailedSourceMag"]
-- 
2.43.0


From f59a4f6991e733c1d1ceaec54c7970f1c14618ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 17/70] fix: refuse a size_serial_chunk below one, with which a
 run never ends

---
 src/sorcha/utilities/sorchaConfigs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index de7ea22..ad466e1 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -56,6 +56,9 @@ class inputConfigs:
         check_value_in_list(self.eph_format, ["csv", "whitespace", "hdf5"], "eph_format")
         check_value_in_list(self.aux_format, ["comma", "whitespace", "csv"], "aux_format")
         self.size_serial_chunk = cast_as_int(self.size_serial_chunk, "size_serial_chunk")
+        if self.size_serial_chunk < 1:
+            logging.error("ERROR: size_serial_chunk is zero or negative.")
+            sys.exit("ERROR: size_serial_chunk is zero or negative.")
 
 
 @dataclass
-- 
2.43.0


From ad545fed5c35c6719778958a5c3f19b6a5903d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 18/70] fix: report unsupported DES and visits footprint
 settings instead of crashing

---
 src/sorcha/utilities/sorchaConfigs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index ad466e1..22574ff 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -944,7 +944,7 @@ class expertConfigs:
                 self.trailing_losses_on, "trailing_losses_on", False
             )
             if self.randomization_on == True or self.vignetting_on == True or self.trailing_losses_on == True:
-                logging.ERROR(
+                logging.error(
                     "ERROR: DES simulation does not support trailing losses, vignetting and randomization."
                 )
                 sys.exit(
@@ -956,7 +956,7 @@ class expertConfigs:
             )
             self.vignetting_on = cast_as_bool_or_set_default(self.vignetting_on, "vignetting_on", False)
             if self.vignetting_on == True:
-                logging.ERROR("ERROR: fov camera model 'visits_footprint' does not support vignetting.")
+                logging.error("ERROR: fov camera model 'visits_footprint' does not support vignetting.")
                 sys.exit("ERROR: fov camera model 'visits_footprint does not support vignetting.")
 
 
-- 
2.43.0


From db1164b5b979862666f327d0d25b24ff3d883d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:50 +0000
Subject: [PATCH 19/70] fix: a configuration without SIMULATION or SATURATION
 section takes their defaults

---
 src/sorcha/utilities/sorchaConfigs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 22574ff..9b1fd98 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1276,13 +1276,13 @@ class sorchaConfigs(basesorchaConfigs):
             ):
                 extra_args["survey_name"] = self.survey_name
 
-            if config_object.has_section(section):
-                if section == "SIMULATION":
-                    extra_args["_ephemerides_type"] = self.input.ephemerides_type
+            if section == "SIMULATION":
+                extra_args["_ephemerides_type"] = self.input.ephemerides_type
 
-                elif section == "SATURATION":
-                    extra_args["_observing_filters"] = self.filters.observing_filters
+            elif section == "SATURATION":
+                extra_args["_observing_filters"] = self.filters.observing_filters
 
+            if config_object.has_section(section):
                 if section == "EXPERT":
                     extra_args["camera_model"] = self.fov.camera_model
 
-- 
2.43.0


From 41062e50973eec9139f6500468e65164b9fb47f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:08 +0000
Subject: [PATCH 20/70] fix: write basic output columns for DES, which has no
 uncertainties

---
 src/sorcha/modules/PPOutput.py | 39 ++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index f87ced2..17d83f6 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -177,25 +177,28 @@ def PPWriteOutput(cmd_args, sconfigs, observations_in, verbose=False):
     )
 
     if sconfigs.output.output_columns == "basic":
-        observations = observations_in.copy()[
-            [
-                "ObjID",
-                "fieldMJD_TAI",
-                "fieldRA_deg",
-                "fieldDec_deg",
-                "RA_deg",
-                "Dec_deg",
-                "astrometricSigma_deg",
-                "optFilter",
-                "trailedSourceMag",
-                "trailedSourceMagSigma",
-                "fiveSigmaDepth_mag",
-                "phase_deg",
-                "Range_LTC_km",
-                "RangeRate_LTC_km_s",
-                "Obj_Sun_LTC_km",
-            ]
+        basic_columns = [
+            "ObjID",
+            "fieldMJD_TAI",
+            "fieldRA_deg",
+            "fieldDec_deg",
+            "RA_deg",
+            "Dec_deg",
+            "astrometricSigma_deg",
+            "optFilter",
+            "trailedSourceMag",
+            "trailedSourceMagSigma",
+            "fiveSigmaDepth_mag",
+            "phase_deg",
+            "Range_LTC_km",
+            "RangeRate_LTC_km_s",
+            "Obj_Sun_LTC_km",
         ]
+        # the DES simulation does not calculate uncertainties
+        for uncertainty_col in ["astrometricSigma_deg", "trailedSourceMagSigma"]:
+            if uncertainty_col not in observations_in.columns:
+                basic_columns.remove(uncertainty_col)
+        observations = observations_in.copy()[basic_columns]
 
         # if linking is on and unlinked objects are NOT dropped, add the object_linked column to the output
         if sconfigs.linkingfilter.ssp_linking_on and not sconfigs.linkingfilter.drop_unlinked:
-- 
2.43.0


From d69e4e757ee6bd6da1d8404fa877b3afa14cd2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:04 +0000
Subject: [PATCH 21/70] fix: skip chunks without an observation in the
 requested pointings

---
 src/sorcha/des.py    | 8 ++++++++
 src/sorcha/sorcha.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/sorcha/des.py b/src/sorcha/des.py
index eab6369..1df4b98 100644
--- a/src/sorcha/des.py
+++ b/src/sorcha/des.py
@@ -230,6 +230,14 @@ def runDESSimulation(args, sconfigs, return_only=False):
 
         observations = PPMatchPointingToObservations(observations, filterpointing)
 
+        if len(observations.index) == 0:
+            pplogger.info(
+                "WARNING: none of these objects are observed in the requested pointings. Skipping to next chunk..."
+            )
+            startChunk = startChunk + sconfigs.input.size_serial_chunk
+            loopCounter = loopCounter + 1
+            continue
+
         verboselog("Calculating apparent magnitudes...")
         observations = PPCalculateApparentMagnitude(
             observations,
diff --git a/src/sorcha/sorcha.py b/src/sorcha/sorcha.py
index b8a32de..4737677 100755
--- a/src/sorcha/sorcha.py
+++ b/src/sorcha/sorcha.py
@@ -239,6 +239,14 @@ def runLSSTSimulation(args, sconfigs, return_only=False):
 
         observations = PPMatchPointingToObservations(observations, filterpointing)
 
+        if len(observations.index) == 0:
+            pplogger.info(
+                "WARNING: none of these objects are observed in the requested pointings. Skipping to next chunk..."
+            )
+            startChunk = startChunk + sconfigs.input.size_serial_chunk
+            loopCounter = loopCounter + 1
+            continue
+
         verboselog("Calculating apparent magnitudes...")
         observations = PPCalculateApparentMagnitude(
             observations,
-- 
2.43.0


From 0fc921f1194b6a39e362b91f3cf5f4688d27feed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:19 +0000
Subject: [PATCH 22/70] fix: refuse an SNR limit for DES, which computes no SNR

---
 src/sorcha/utilities/sorchaConfigs.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 9b1fd98..d075066 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -943,6 +943,9 @@ class expertConfigs:
             self.trailing_losses_on = cast_as_bool_or_set_default(
                 self.trailing_losses_on, "trailing_losses_on", False
             )
+            if self.snr_limit_on:
+                logging.error("ERROR: DES simulation does not support an SNR limit.")
+                sys.exit("ERROR: DES simulation does not support an SNR limit.")
             if self.randomization_on == True or self.vignetting_on == True or self.trailing_losses_on == True:
                 logging.error(
                     "ERROR: DES simulation does not support trailing losses, vignetting and randomization."
-- 
2.43.0


From e0719bbe444606b5be564f235fd0c60819630ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:08 +0000
Subject: [PATCH 23/70] fix: keep precision when converting long-period orbits
 before perihelion

---
 src/sorcha/ephemeris/orbit_conversion_utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/orbit_conversion_utilities.py b/src/sorcha/ephemeris/orbit_conversion_utilities.py
index 02db9cb..50a8724 100644
--- a/src/sorcha/ephemeris/orbit_conversion_utilities.py
+++ b/src/sorcha/ephemeris/orbit_conversion_utilities.py
@@ -248,7 +248,8 @@ def universal_cartesian(mu, q, e, incl, longnode, argperi, tp, epochMJD_TDB):
     if e < 1:
         a = q / (1 - e)
         per = 2 * np.pi / np.sqrt(mu / (a * a * a))
-        t = t % per
+        # the nearest perihelion passage: counting from the previous one loses precision on long periods
+        t = t - per * np.floor(t / per + 0.5)
 
     # Establish constants for Kepler's equation,
     # starting at pericenter:
-- 
2.43.0


From 655f1544f4ef5c20b3a56ec055007bf5b74f1f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 24/70] fix: orbit angles of polar, circular and specially
 oriented orbits

---
 src/sorcha/ephemeris/orbit_conversion_utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/ephemeris/orbit_conversion_utilities.py b/src/sorcha/ephemeris/orbit_conversion_utilities.py
index 50a8724..3d3317e 100644
--- a/src/sorcha/ephemeris/orbit_conversion_utilities.py
+++ b/src/sorcha/ephemeris/orbit_conversion_utilities.py
@@ -425,7 +425,7 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     incl = np.arccos(h_vec[2] / h)
 
-    if h_vec[0] != 0.0 and h_vec[1] != 0.0:
+    if h_vec[0] != 0.0 or h_vec[1] != 0.0:
         longnode = np.arctan2(h_vec[0], -h_vec[1])
     else:
         longnode = 0.0
@@ -436,7 +436,7 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     q = p / (1 + e)
 
-    if esintrueanom != 0.0 and ecostrueanom != 0.0:
+    if esintrueanom != 0.0 or ecostrueanom != 0.0:
         trueanom = np.arctan2(esintrueanom, ecostrueanom)
     else:
         trueanom = 0.0
@@ -446,9 +446,9 @@ def universal_cometary(mu, x, y, z, vx, vy, vz, epochMJD_TDB):
 
     # u is the argument of latitude
     rcosu = pos[0] * cosnode + pos[1] * sinnode
-    rsinu = (pos[1] * cosnode - pos[0] * sinnode) / np.cos(incl)  # should check zero
+    rsinu = (pos[1] * cosnode - pos[0] * sinnode) * np.cos(incl) + pos[2] * np.sin(incl)
 
-    if rsinu != 0.0 and rcosu != 0.0:
+    if rsinu != 0.0 or rcosu != 0.0:
         u = np.arctan2(rsinu, rcosu)
     else:
         u = 0.0
-- 
2.43.0


From 3fe6483cecdb832214f3c75b1c040bfc48e21725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 25/70] fix: do not round observation times to a microday when
 converting to TDB

'%lf' keeps six decimals of a Julian date (0.086 s), although the pointing
times and the floats themselves are a thousand times finer.
---
 src/sorcha/ephemeris/simulation_parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/simulation_parsing.py b/src/sorcha/ephemeris/simulation_parsing.py
index 7407a63..29ef026 100644
--- a/src/sorcha/ephemeris/simulation_parsing.py
+++ b/src/sorcha/ephemeris/simulation_parsing.py
@@ -23,7 +23,7 @@ def mjd_tai_to_epoch(mjd_tai):
     epoch  : Ephemeris time
     """
     jd = mjd_tai + 2400000.5 + 32.184 / (24 * 60 * 60)
-    epoch_str = "JD %lf TDT" % jd
+    epoch_str = "JD %.10f TDT" % jd
     epoch = spice.j2000() + spice.str2et(epoch_str) / (24 * 60 * 60)
     return epoch
 
-- 
2.43.0


From e1c354c91bff2cac03145f574d7f30737909f155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 26/70] fix: keep number-like object identifiers as written in
 generated ephemerides

defaultdict.setdefault returned None, so that an ObjID such as 00123 was read
back as the number 123 and lost its orbit and physical parameters.
---
 src/sorcha/ephemeris/simulation_driver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index 4615485..1a636b0 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -157,7 +157,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
         "Obs_Sun_vz_km_s",
         "phase_deg",
     )
-    column_types = defaultdict(ObjID=str, FieldID=str).setdefault(float)
+    column_types = {"ObjID": str}
     in_memory_csv.writerow(column_names)
 
     # t_picket is the last time at which the sky positions of all the objects
-- 
2.43.0


From 2752de481dceb3fafe38e44530c2d55e8132bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 27/70] fix: move the ephemeris pickets backwards for an
 earlier pointing

A pointing between 0.5 and 1 intervals before the central picket moved the
pickets forward, away from it, so that objects were interpolated outside of
the table and missed.
---
 src/sorcha/ephemeris/pixel_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index 157eec8..790ea01 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -301,7 +301,7 @@ class PixelDict:
             if abs(jd_tdb - self.t0) <= 1.5 * self.picket_interval:
                 # Can compute just one new set and shift the others
 
-                if jd_tdb <= self.tm:
+                if jd_tdb < self.t0:
                     # shift earlier
                     self.tp = self.t0
                     self.r_obs_p = self.r_obs_0
-- 
2.43.0


From 6ec863faaae19075f4112c205cfaeddf24ab9869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 28/70] fix: look for objects in the pixel they are in, not
 only next to it

The pixels traversed by an object were replaced by their neighbours, so that
an object which stays in one pixel was missed by a field inside that pixel.
---
 src/sorcha/ephemeris/pixel_dict.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/pixel_dict.py b/src/sorcha/ephemeris/pixel_dict.py
index 790ea01..22420a7 100644
--- a/src/sorcha/ephemeris/pixel_dict.py
+++ b/src/sorcha/ephemeris/pixel_dict.py
@@ -281,7 +281,9 @@ class PixelDict:
             pixels = list(set(pixels))
 
             # Add the neighboring pixels
-            pixels = set(hp.get_all_neighbours(self.nside, pixels, nest=self.nested).flatten())
+            pixels = set(pixels).union(
+                hp.get_all_neighbours(self.nside, pixels, nest=self.nested).flatten()
+            )
 
             # Add the pixels that the object traverse, and the neighbors, to the pixel_dict
             for pix in pixels:
-- 
2.43.0


From 8e6358b6c4125fb0624d55ae4871dcfc0860da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 29/70] fix: keep objects at the very centre of a field

The dot product of two unit vectors can exceed one by rounding; arccos then
gives NaN and the observation was dropped.
---
 src/sorcha/ephemeris/simulation_driver.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index 1a636b0..e425783 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -203,7 +203,7 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
             v = sim_dict[k]
             sim, ex = v["sim"], v["ex"]
             uv /= np.linalg.norm(uv)
-            ang = np.arccos(np.dot(uv, visit_vector)) * 180 / np.pi
+            ang = np.arccos(np.clip(np.dot(uv, visit_vector), -1, 1)) * 180 / np.pi
             if ang < ang_fov_buffer:
                 (
                     ephem_geom_params.rho,
@@ -214,7 +214,11 @@ def create_ephemeris(orbits_df, pointings_df, args, sconfigs):
                 ) = integrate_light_time(sim, ex, pointing["fieldJD_TDB"] - ephem.jd_ref, r_obs, lt0=0.01)
                 ephem_geom_params.rho_hat = ephem_geom_params.rho / ephem_geom_params.rho_mag
 
-                ang_from_center = 180 / np.pi * np.arccos(np.dot(ephem_geom_params.rho_hat, visit_vector))
+                ang_from_center = (
+                    180
+                    / np.pi
+                    * np.arccos(np.clip(np.dot(ephem_geom_params.rho_hat, visit_vector), -1, 1))
+                )
                 if ang_from_center < ang_fov_buffer:
                     out_tuple = calculate_rates_and_geometry(pointing, ephem_geom_params)
                     in_memory_csv.writerow(out_tuple)
-- 
2.43.0


From 4bbb7cb93010b2cbfd70c37b6d1c8a3a2557aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:25 +0000
Subject: [PATCH 30/70] fix: accept observatories with a zero coordinate

Observatory codes at longitude 0, on the equator or at a pole (and the
geocentre) were treated as having no position.
---
 src/sorcha/ephemeris/simulation_parsing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_parsing.py b/src/sorcha/ephemeris/simulation_parsing.py
index 29ef026..6bf74f8 100644
--- a/src/sorcha/ephemeris/simulation_parsing.py
+++ b/src/sorcha/ephemeris/simulation_parsing.py
@@ -339,9 +339,9 @@ class Observatory:
         """
         returned_tuple = (None, None, None)
         if (
-            obs_location.get("Longitude", False)
-            and obs_location.get("cos", False)
-            and obs_location.get("sin", False)
+            obs_location.get("Longitude") is not None
+            and obs_location.get("cos") is not None
+            and obs_location.get("sin") is not None
         ):
             longitude = obs_location["Longitude"] * np.pi / 180.0
             x = obs_location["cos"] * np.cos(longitude)
-- 
2.43.0


From 28991987b4a039fd5438072ea48ce4adfab2b210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 31/70] fix: cull faint objects when a filter has no pointings

An observing filter absent from the selected pointings stopped the run with a
KeyError; nothing can be detected in it.
---
 src/sorcha/modules/PPFaintObjectCullingFilter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPFaintObjectCullingFilter.py b/src/sorcha/modules/PPFaintObjectCullingFilter.py
index b1fdb61..d02b789 100644
--- a/src/sorcha/modules/PPFaintObjectCullingFilter.py
+++ b/src/sorcha/modules/PPFaintObjectCullingFilter.py
@@ -91,7 +91,7 @@ def PPFaintObjectCullingFilter(
             )
 
         # 2 is a fairly arbitrary value added to give a threshold
-        drop_df[filt] = app_mag > max_five_sigma[filt] + 2
+        drop_df[filt] = app_mag > max_five_sigma.get(filt, -np.inf) + 2
 
     # if the object's apparent magnitude fulfils the condition in the above loop for all filters, drop it
     objects_to_drop = drop_df.loc[drop_df[observing_filters].all(axis=1), "ObjID"].tolist()
-- 
2.43.0


From fd76c948dfa23c6b01eeaba2cf2ecb0b48bfc7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 32/70] fix: recognise and replace exactly the existing outputs
 of a run

The output stem was used as a shell pattern: stems with brackets hid existing
files, to which results were then appended; only one of several existing files
was removed by --force, and it could be that of another stem (run.2.csv for
run).
---
 src/sorcha/utilities/sorchaCommandLineParser.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index 9f476e9..2373744 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -17,16 +17,25 @@ def warn_or_remove_file(filepath, force_remove, pplogger):
     ----------
     filepath : string
         The full file path to a given file. i.e. /home/data/output.csv
+        With the extension ".*", the files of this name with any extension.
     force_remove : boolean
         Whether to remove the file if it exists.
     pplogger : Logger
         Used to log the output.
     """
-    file_exists = glob.glob(filepath)
+    stem, extension = os.path.splitext(filepath)
+    if extension == ".*":
+        # only files of exactly this stem: run.* is not run.2.csv
+        file_exists = [
+            name for name in glob.glob(glob.escape(stem) + ".*") if os.path.splitext(name)[0] == stem
+        ]
+    else:
+        file_exists = [filepath] if os.path.exists(filepath) else []
 
     if file_exists and force_remove:
         pplogger.info(f"Existing file found at {filepath}. -f flag set: deleting existing file.")
-        os.remove(file_exists[0])
+        for name in file_exists:
+            os.remove(name)
     elif file_exists and not force_remove:
         pplogger.error(
             f"ERROR: existing file found at output location {filepath}. Set -f flag to overwrite this file."
-- 
2.43.0


From 22c31c6c240862320c001a85bc3e4aaaebe8efc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 33/70] fix: report a missing complex parameters file instead
 of a KeyError

---
 src/sorcha_cmdline/run.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha_cmdline/run.py b/src/sorcha_cmdline/run.py
index 7cbc01f..a14f3bd 100644
--- a/src/sorcha_cmdline/run.py
+++ b/src/sorcha_cmdline/run.py
@@ -176,11 +176,11 @@ def execute(args):
         pplogger.error("ERROR: A+R simulation not enabled and no ephemerides file provided")
         sys.exit("ERROR: A+R simulation not enabled and no ephemerides file provided")
 
-    if sconfigs.lightcurve.lc_model and cmd_args["complex_physical_parameters"] is None:
+    if sconfigs.lightcurve.lc_model and cmd_args.get("complex_physical_parameters") is None:
         pplogger.error("ERROR: No complex physical parameter file provided for light curve model")
         sys.exit("ERROR: No complex physical parameter file provided for light curve model")
 
-    if sconfigs.activity.comet_activity and cmd_args["complex_physical_parameters"] is None:
+    if sconfigs.activity.comet_activity and cmd_args.get("complex_physical_parameters") is None:
         pplogger.error("ERROR: No complex physical parameter file provided for comet activity model")
         sys.exit("ERROR: No complex physical parameter file provided for comet activity model")
     if "SORCHA_SEED" in os.environ:
-- 
2.43.0


From 9dbd1a67f944e56999b0a26f8f7dceb3343b82ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 34/70] fix: report empty logs as unsuccessful runs instead of
 stopping at them

---
 src/sorcha/utilities/check_output_logs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/check_output_logs.py b/src/sorcha/utilities/check_output_logs.py
index e9809ff..39b4339 100644
--- a/src/sorcha/utilities/check_output_logs.py
+++ b/src/sorcha/utilities/check_output_logs.py
@@ -53,7 +53,7 @@ def check_all_logs(log_files):
     for log_file in log_files:
         with open(log_file, "r") as f:
             lines = f.read().splitlines()
-            last_line = lines[-1]
+            last_line = lines[-1] if lines else ""
 
             if last_line[-29:] == "Sorcha process is completed. ":
                 good_log.append(True)
-- 
2.43.0


From bd51ee2c356a56dd1cddf08658d86cba3c97f90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 35/70] fix: check the file that check-logs writes before
 overwriting it

The .csv extension was added after the check, so that an existing file was
replaced without --force.
---
 src/sorcha_cmdline/outputs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sorcha_cmdline/outputs.py b/src/sorcha_cmdline/outputs.py
index 880e2fc..366c670 100644
--- a/src/sorcha_cmdline/outputs.py
+++ b/src/sorcha_cmdline/outputs.py
@@ -46,6 +46,9 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
         args.outpath = os.path.abspath(args.outpath)
         _ = FindDirectoryOrExit(os.path.dirname(args.outpath), "-o, --outpath")
 
+        if args.outpath[-4:] != ".csv":
+            args.outpath = args.outpath + ".csv"
+
         if os.path.exists(args.outpath) and not args.force:
             print(
                 "File already found at {}. Re-run with --force argument to overwrite existing output.".format(
@@ -56,9 +59,6 @@ def cmd_outputs_check_logs(args):  # pragma: no cover
         elif os.path.exists(args.outpath) and args.force:
             os.remove(args.outpath)
 
-        if args.outpath[-4:] != ".csv":
-            args.outpath = args.outpath + ".csv"
-
     return check_output_logs(args.filepath, args.outpath)
 
 
-- 
2.43.0


From ffbfc6e75bfb6fbe5d567251fb1ecd5508e71591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 36/70] fix: do not read the combined database as one of the
 results

With the output inside of the results folder, its own (empty or older) tables
were taken for those of a run.
---
 src/sorcha/utilities/createResultsSQLDatabase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 7fe2cdb..0c7f768 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -146,7 +146,7 @@ def create_results_database(args):
     else:
         stemname = ""
 
-    create_results_table(cnx_out, args.inputs, args.results, stemname)
+    create_results_table(cnx_out, args.output, args.results, stemname)
 
     create_inputs_table(cnx_out, args.inputs, "params")
     create_inputs_table(cnx_out, args.inputs, "orbits")
-- 
2.43.0


From 47e1db621216518f2f02b39cc340952b91633292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 37/70] fix: keep number-like object identifiers in the
 combined database

ObjID 00123 became 123 in the input tables, which then do not match the
results.
---
 src/sorcha/utilities/createResultsSQLDatabase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 0c7f768..db713ac 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -113,7 +113,7 @@ def create_inputs_table(cnx_out, input_path, table_type):
     cur_out.execute("DROP TABLE if exists " + table_type)
 
     for filename in input_list:
-        df = pd.read_csv(filename, sep="\\s+")
+        df = pd.read_csv(filename, sep="\\s+", dtype={"ObjID": str})
 
         if "INDEX" in df.columns:
             df = df.rename(columns={"INDEX": "orig_index"})
-- 
2.43.0


From 4d49ace6a3b4aa8de94719b0273ecf9c32a5b265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:14 +0000
Subject: [PATCH 38/70] fix: accept orbit files with blanks around the column
 names

The table with the stripped names was discarded, unlike for the other inputs.
---
 src/sorcha/readers/OrbitAuxReader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/readers/OrbitAuxReader.py b/src/sorcha/readers/OrbitAuxReader.py
index 05a1b43..06e804a 100755
--- a/src/sorcha/readers/OrbitAuxReader.py
+++ b/src/sorcha/readers/OrbitAuxReader.py
@@ -64,7 +64,7 @@ class OrbitAuxReader(CSVDataReader):
 
         """
         # Do standard CSV file processing
-        super()._process_and_validate_input_table(input_table, **kwargs)
+        input_table = super()._process_and_validate_input_table(input_table, **kwargs)
 
         if len(input_table) == 0:
             return input_table
-- 
2.43.0


From f7377bf6dde638aeeb7ac92c9747d2a447b5162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:28 +0000
Subject: [PATCH 39/70] fix: write meta kernels that SPICE can read for long
 data paths

The path was split into pieces but all on one line, of which SPICE reads 132
characters; a length of 79 gave an empty last piece. Neither could be loaded.
---
 src/sorcha/utilities/generate_meta_kernel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/generate_meta_kernel.py b/src/sorcha/utilities/generate_meta_kernel.py
index 4412d9b..a8b6622 100644
--- a/src/sorcha/utilities/generate_meta_kernel.py
+++ b/src/sorcha/utilities/generate_meta_kernel.py
@@ -62,7 +62,10 @@ def build_meta_kernel_file(auxconfigs, retriever: pooch.Pooch) -> None:
     """
     # build meta_kernel file path
     meta_kernel_file_path = os.path.join(retriever.abspath, auxconfigs.meta_kernel)
-    abspath = _split_kernel_path_str(str(retriever.abspath))
+    abspath = str(retriever.abspath)
+    # the last piece must not be empty, and SPICE reads no more than 132 characters of a line
+    abspath = _split_kernel_path_str(abspath, split=79 if len(abspath) % 79 else 78)
+    abspath = abspath.replace("+' '", "+'\n    '")
 
     # build a meta_kernel.txt file
     with open(meta_kernel_file_path, "w") as meta_file:
-- 
2.43.0


From ac9e4de30a3866c01b68694ba75a83809fb6c1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:45 +0000
Subject: [PATCH 40/70] fix: check logs that end within a character

---
 src/sorcha/utilities/check_output_logs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/check_output_logs.py b/src/sorcha/utilities/check_output_logs.py
index 39b4339..abc5751 100644
--- a/src/sorcha/utilities/check_output_logs.py
+++ b/src/sorcha/utilities/check_output_logs.py
@@ -51,7 +51,8 @@ def check_all_logs(log_files):
     last_lines = []
 
     for log_file in log_files:
-        with open(log_file, "r") as f:
+        # an interrupted run can leave a log that ends within a character
+        with open(log_file, "r", errors="replace") as f:
             lines = f.read().splitlines()
             last_line = lines[-1] if lines else ""
 
-- 
2.43.0


From a3d28567e0b2436c1bc834112896943692f6e925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:46 +0000
Subject: [PATCH 41/70] fix: combine results in folders whose names hold
 pattern characters

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index db713ac..9fe0c6b 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -42,7 +42,9 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
 
     """
 
-    output_list = glob.glob(os.path.join(output_path, "**", output_stem + "*.db"), recursive=True)
+    output_list = glob.glob(
+        os.path.join(glob.escape(output_path), "**", glob.escape(output_stem) + "*.db"), recursive=True
+    )
 
     if filename in output_list:
         output_list.remove(filename)
@@ -104,7 +106,7 @@ def create_inputs_table(cnx_out, input_path, table_type):
 
     """
 
-    input_list = glob.glob(input_path + "/" + table_type + "*", recursive=True)
+    input_list = glob.glob(glob.escape(input_path) + "/" + table_type + "*", recursive=True)
 
     if not input_list:
         sys.exit("Could not find any " + table_type + " files in given inputs folder.")
-- 
2.43.0


From e374c833751a6c64076bacc5fe6c1e3243095d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 42/70] fix: never remove an input file as an old output of the
 run

---
 .../utilities/sorchaCommandLineParser.py      | 26 ++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/utilities/sorchaCommandLineParser.py b/src/sorcha/utilities/sorchaCommandLineParser.py
index 2373744..091f5cf 100644
--- a/src/sorcha/utilities/sorchaCommandLineParser.py
+++ b/src/sorcha/utilities/sorchaCommandLineParser.py
@@ -5,7 +5,7 @@ import glob
 from sorcha.utilities.fileAccessUtils import FindFileOrExit, FindDirectoryOrExit
 
 
-def warn_or_remove_file(filepath, force_remove, pplogger):
+def warn_or_remove_file(filepath, force_remove, pplogger, inputs=()):
     """Given a path to a file(s), first determine if the file exists. If it does not
     exist, pass through.
 
@@ -22,6 +22,8 @@ def warn_or_remove_file(filepath, force_remove, pplogger):
         Whether to remove the file if it exists.
     pplogger : Logger
         Used to log the output.
+    inputs : iterable of strings
+        The input files of the run, which are never removed.
     """
     stem, extension = os.path.splitext(filepath)
     if extension == ".*":
@@ -32,6 +34,11 @@ def warn_or_remove_file(filepath, force_remove, pplogger):
     else:
         file_exists = [filepath] if os.path.exists(filepath) else []
 
+    for name in file_exists:
+        if any(os.path.exists(i) and os.path.samefile(name, i) for i in inputs):
+            pplogger.error(f"ERROR: the input file {name} has the name of an output of this run.")
+            sys.exit(f"ERROR: the input file {name} has the name of an output of this run.")
+
     if file_exists and force_remove:
         pplogger.info(f"Existing file found at {filepath}. -f flag set: deleting existing file.")
         for name in file_exists:
@@ -91,12 +98,25 @@ def sorchaCommandLineParser(args):
     else:
         cmd_args_dict["visits_database"] = args.vd
 
+    # the files that must not be removed as old outputs
+    input_keys = [
+        "paramsinput",
+        "orbinfile",
+        "configfile",
+        "pointing_database",
+        "complex_physical_parameters",
+        "input_ephemeris_file",
+        "visits_database",
+    ]
+    inputs = [cmd_args_dict[key] for key in input_keys if cmd_args_dict.get(key)]
+
     # if a value was provided, warn the user about overwriting if the file exists
     if cmd_args_dict["output_ephemeris_file"]:
         warn_or_remove_file(
             os.path.join(cmd_args_dict["outpath"], cmd_args_dict["output_ephemeris_file"] + ".*"),
             args.f,
             pplogger,
+            inputs,
         )
 
     cmd_args_dict["surveyname"] = args.s
@@ -106,7 +126,7 @@ def sorchaCommandLineParser(args):
 
     if cmd_args_dict["stats"] is not None:
         warn_or_remove_file(
-            os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"] + ".csv"), args.f, pplogger
+            os.path.join(cmd_args_dict["outpath"], cmd_args_dict["stats"] + ".csv"), args.f, pplogger, inputs
         )
 
     cmd_args_dict["ar_data_path"] = args.ar  # default value for args.ar is `None`.
@@ -114,7 +134,7 @@ def sorchaCommandLineParser(args):
         FindDirectoryOrExit(cmd_args_dict["ar_data_path"], "-ar, --ar_data_path")
 
     warn_or_remove_file(
-        os.path.join(cmd_args_dict["outpath"], cmd_args_dict["outfilestem"] + ".*"), args.f, pplogger
+        os.path.join(cmd_args_dict["outpath"], cmd_args_dict["outfilestem"] + ".*"), args.f, pplogger, inputs
     )
 
     # Log all the command line settings to INFO.
-- 
2.43.0


From e9a667b51e0c4e41141d25ec84a880308b2eb949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:39 +0000
Subject: [PATCH 43/70] fix: refuse to write two kinds of output into one file

---
 src/sorcha_cmdline/run.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/sorcha_cmdline/run.py b/src/sorcha_cmdline/run.py
index a14f3bd..11984ed 100644
--- a/src/sorcha_cmdline/run.py
+++ b/src/sorcha_cmdline/run.py
@@ -204,6 +204,17 @@ def execute(args):
             "ERROR: cmd line arg --vd, --visits-db and config fov varible visits_query must both be specified"
         )
 
+    # the detections, statistics and ephemeris must not be written into one file
+    extensions = {"csv": ".csv", "whitespace": ".csv", "sqlite3": ".db", "hdf5": ".h5"}
+    output_files = [cmd_args["outfilestem"] + extensions[sconfigs.output.output_format]]
+    if cmd_args["stats"] is not None:
+        output_files.append(cmd_args["stats"] + ".csv")
+    if sconfigs.input.ephemerides_type != "external" and cmd_args["output_ephemeris_file"]:
+        output_files.append(cmd_args["output_ephemeris_file"] + extensions[sconfigs.input.eph_format])
+    if len(set(output_files)) != len(output_files):
+        pplogger.error("ERROR: the output files of this run do not have different names")
+        sys.exit("ERROR: the output files of this run do not have different names")
+
     if cmd_args["surveyname"] in ["rubin_sim", "RUBIN_SIM"]:
         try:
             args = sorchaArguments(cmd_args)
-- 
2.43.0


From 3ca550e0b072cd14d87b8edc4b39b45d61ab02b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 44/70] fix: leave no unreadable HDF5 file when no ephemeris is
 generated

---
 src/sorcha/modules/PPOutput.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sorcha/modules/PPOutput.py b/src/sorcha/modules/PPOutput.py
index 17d83f6..0f35a9a 100755
--- a/src/sorcha/modules/PPOutput.py
+++ b/src/sorcha/modules/PPOutput.py
@@ -59,6 +59,10 @@ def PPOutWriteHDF5(pp_results, outf, keyname="sorcha_results"):
 
     """
 
+    # pandas stores no table without rows: a file made for one could not be read back
+    if len(pp_results) == 0:
+        return
+
     # pytables doesn't like the Pandas extension dtype StringDtype
     # converting the ObjID to 'str' type fixes this
     if "ObjID" in pp_results.columns:
-- 
2.43.0


From 7bcb0401b737d5bc8f65ce2fdc26b25caa1f9143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 45/70] fix: right ascensions in the ephemeris are always below
 360 degrees

---
 src/sorcha/ephemeris/simulation_geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/simulation_geometry.py b/src/sorcha/ephemeris/simulation_geometry.py
index 1e21c6e..74cc926 100644
--- a/src/sorcha/ephemeris/simulation_geometry.py
+++ b/src/sorcha/ephemeris/simulation_geometry.py
@@ -160,7 +160,8 @@ def vec2ra_dec(vec):
     x = vec[0]
     y = vec[1]
     z = vec[2]
-    ra = radeg * np.arctan2(y, x) % 360
+    # the remainder of a tiny negative angle rounds to 360 itself, hence the second one
+    ra = radeg * np.arctan2(y, x) % 360 % 360
     dec = radeg * np.arcsin(z)
     return ra, dec
 
-- 
2.43.0


From 91df3c68708b026e6514d0499f9417ec19db9a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:18 +0000
Subject: [PATCH 46/70] fix: phase angle of an object in line with Sun and
 observer is a number

---
 src/sorcha/ephemeris/simulation_driver.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/ephemeris/simulation_driver.py b/src/sorcha/ephemeris/simulation_driver.py
index e425783..c84a69f 100644
--- a/src/sorcha/ephemeris/simulation_driver.py
+++ b/src/sorcha/ephemeris/simulation_driver.py
@@ -307,9 +307,8 @@ def calculate_rates_and_geometry(pointing: pd.DataFrame, ephem_geom_params: Ephe
     r_ast_sun = ephem_geom_params.r_ast - r_sun
     v_ast_sun = ephem_geom_params.v_ast - v_sun
     r_ast_obs = ephem_geom_params.r_ast - r_obs
-    phase_angle = np.arccos(
-        np.dot(r_ast_sun, r_ast_obs) / (np.linalg.norm(r_ast_sun) * np.linalg.norm(r_ast_obs))
-    )
+    cos_phase = np.dot(r_ast_sun, r_ast_obs) / (np.linalg.norm(r_ast_sun) * np.linalg.norm(r_ast_obs))
+    phase_angle = np.arccos(np.clip(cos_phase, -1.0, 1.0))
     obs_sun = r_obs - r_sun
     dobs_sundt = v_obs - v_sun
 
-- 
2.43.0


From 46c4e26f4cb32e7053adcec6e8c32b7145dde3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 47/70] fix: a run that returns its results returns empty
 tables when nothing is detected

---
 src/sorcha/des.py    | 4 ++--
 src/sorcha/sorcha.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sorcha/des.py b/src/sorcha/des.py
index 1df4b98..6a97654 100644
--- a/src/sorcha/des.py
+++ b/src/sorcha/des.py
@@ -408,8 +408,8 @@ def runDESSimulation(args, sconfigs, return_only=False):
     pplogger.info("Sorcha process is completed.")
 
     if return_only:
-        result_observations = pd.concat(result_observations)
+        result_observations = pd.concat(result_observations) if result_observations else pd.DataFrame()
         if args.stats is not None:
-            result_stats = pd.concat(result_stats)
+            result_stats = pd.concat(result_stats) if result_stats else pd.DataFrame()
             return result_observations, result_stats
         return result_observations
diff --git a/src/sorcha/sorcha.py b/src/sorcha/sorcha.py
index 4737677..998066c 100755
--- a/src/sorcha/sorcha.py
+++ b/src/sorcha/sorcha.py
@@ -410,8 +410,8 @@ def runLSSTSimulation(args, sconfigs, return_only=False):
     pplogger.info("Sorcha process is completed.")
 
     if return_only:
-        result_observations = pd.concat(result_observations)
+        result_observations = pd.concat(result_observations) if result_observations else pd.DataFrame()
         if args.stats is not None:
-            result_stats = pd.concat(result_stats)
+            result_stats = pd.concat(result_stats) if result_stats else pd.DataFrame()
             return result_observations, result_stats
         return result_observations
-- 
2.43.0


From c2963882072388f6e9c781b0bd09083e23a5907b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 48/70] fix: a failing kernel download leaves no truncated meta
 kernel behind

---
 src/sorcha/utilities/generate_meta_kernel.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/generate_meta_kernel.py b/src/sorcha/utilities/generate_meta_kernel.py
index a8b6622..12f75e0 100644
--- a/src/sorcha/utilities/generate_meta_kernel.py
+++ b/src/sorcha/utilities/generate_meta_kernel.py
@@ -67,14 +67,19 @@ def build_meta_kernel_file(auxconfigs, retriever: pooch.Pooch) -> None:
     abspath = _split_kernel_path_str(abspath, split=79 if len(abspath) % 79 else 78)
     abspath = abspath.replace("+' '", "+'\n    '")
 
+    # fetch the kernels first: a failing download must not leave half a meta kernel behind
+    kernel_names = [
+        _build_file_name(retriever.abspath, retriever.fetch(file_name))
+        for file_name in auxconfigs.ordered_kernel_files
+    ]
+
     # build a meta_kernel.txt file
     with open(meta_kernel_file_path, "w") as meta_file:
         meta_file.write("\\begindata\n\n")
         meta_file.write(f"PATH_VALUES = ('{abspath}')\n\n")
         meta_file.write("PATH_SYMBOLS = ('A')\n\n")
         meta_file.write("KERNELS_TO_LOAD=(\n")
-        for file_name in auxconfigs.ordered_kernel_files:
-            shortened_file_name = _build_file_name(retriever.abspath, retriever.fetch(file_name))
+        for shortened_file_name in kernel_names:
             meta_file.write(f"    '{shortened_file_name}',\n")
         meta_file.write(")\n\n")
         meta_file.write("\\begintext\n")
-- 
2.43.0


From ad55b076fd2c180841ae49b455e5a270904fae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:02 +0000
Subject: [PATCH 49/70] fix: bootstrap --force works when files are missing,
 without downloading files to delete them

---
 src/sorcha/utilities/retrieve_ephemeris_data_files.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/utilities/retrieve_ephemeris_data_files.py b/src/sorcha/utilities/retrieve_ephemeris_data_files.py
index 0f2377a..b4fdee0 100644
--- a/src/sorcha/utilities/retrieve_ephemeris_data_files.py
+++ b/src/sorcha/utilities/retrieve_ephemeris_data_files.py
@@ -46,9 +46,10 @@ def _remove_files(auxconfigs, retriever: pooch.Pooch) -> None:  # pragma: no cov
     """
 
     for file_name in auxconfigs.data_file_list:
-        file_path = retriever.fetch(file_name)
-        print(f"Deleting file: {file_path}")
-        os.remove(file_path)
+        file_path = os.path.join(retriever.abspath, file_name)
+        if os.path.exists(file_path):
+            print(f"Deleting file: {file_path}")
+            os.remove(file_path)
 
 
 def _check_for_existing_files(retriever: pooch.Pooch, file_list: list[str]) -> bool:  # pragma: no cover
-- 
2.43.0


From e6f86a6ee901a281582efc0199c0e28c93c3a961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 50/70] fix: an auxiliary file of the user's own without a url
 is not replaced by a download of the default file

---
 src/sorcha/utilities/sorchaConfigs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index d075066..f3ee657 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1075,8 +1075,8 @@ class auxiliaryConfigs:
 
     def __post_init__(self):
         """Automagically validates the auxiliary configs after initialisation."""
-        self._create_lists_auxiliary_configs()
         self._validate_auxiliary_configs()
+        self._create_lists_auxiliary_configs()
 
     def _validate_auxiliary_configs(self):
         """
@@ -1121,6 +1121,8 @@ class auxiliaryConfigs:
             self.observatory_codes_compressed: self.observatory_codes_compressed_url,
             self.orientation_constants: self.orientation_constants_url,
         }
+        # a file of the user's own without a url is never downloaded
+        self.urls = {file: url for file, url in self.urls.items() if url is not None}
 
         self.data_file_list = [
             self.planet_ephemeris,
-- 
2.43.0


From 713aed6a484d2a73f3dca685028a3dc6c2431a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 51/70] fix: init and demo prepare copy nothing when one of the
 files exists and may not be overwritten

---
 src/sorcha/utilities/sorcha_copy_configs.py    | 1 +
 src/sorcha/utilities/sorcha_copy_demo_files.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/sorcha/utilities/sorcha_copy_configs.py b/src/sorcha/utilities/sorcha_copy_configs.py
index 1a2f1ed..ced88d4 100644
--- a/src/sorcha/utilities/sorcha_copy_configs.py
+++ b/src/sorcha/utilities/sorcha_copy_configs.py
@@ -57,6 +57,7 @@ def copy_demo_configs(copy_location, which_configs, force_overwrite):
                 "Identically named file exists at location. Re-run with -f or --force to force overwrite."
             )
 
+    for fn in config_locations:
         config_path = config_data_root.joinpath(fn)
         shutil.copy(config_path, copy_location)
 
diff --git a/src/sorcha/utilities/sorcha_copy_demo_files.py b/src/sorcha/utilities/sorcha_copy_demo_files.py
index 3504711..758844b 100644
--- a/src/sorcha/utilities/sorcha_copy_demo_files.py
+++ b/src/sorcha/utilities/sorcha_copy_demo_files.py
@@ -44,6 +44,7 @@ def copy_demo_files(copy_location, force_overwrite):
                 "Identically named file exists at location. Re-run with -f or --force to force overwrite."
             )
 
+    for fn in demo_files:
         demo_path = demo_data_root.joinpath(fn)
         shutil.copy(demo_path, copy_location)
 
-- 
2.43.0


From be56a92dc2c080f94948ab93cfd2a740ac78d067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 52/70] fix: results with the same columns in another order are
 combined by column name

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 9fe0c6b..7e75564 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -72,7 +72,10 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
         con = sqlite3.connect(filename)
         cur = con.cursor()
 
-        cur.execute("SELECT * FROM sorcha_results")
+        # the columns of the files need not be in the same order
+        if sorted(get_column_names(filename)) != sorted(column_names):
+            sys.exit(f"The columns of {filename} are not those of {output_list[0]}.")
+        cur.execute("SELECT [" + "], [".join(column_names) + "] FROM sorcha_results")
         output = cur.fetchall()
 
         for row in output:
-- 
2.43.0


From 8c618aedf187b2b3229db84112c06001c3d9a1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 53/70] fix: blank lines in an input table do not shift the
 rows of the blocks read after them

---
 src/sorcha/readers/CSVReader.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index d485b93..45618dc 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -192,7 +192,15 @@ class CSVDataReader(ObjectDataReader):
         if self.header_row > 0:
             skip_rows = [i for i in range(0, self.header_row)]
         if block_start > 0:
-            skip_rows.extend([i for i in range(self.header_row + 1, self.header_row + 1 + block_start)])
+            # A blank line holds no row, so it does not count towards the rows to skip.
+            n_rows = 0
+            with open(self.filename) as fh:
+                for i, line in enumerate(fh):
+                    if i > self.header_row:
+                        skip_rows.append(i)
+                        n_rows += not line.isspace()
+                        if n_rows == block_start:
+                            break
 
         # Read the rows.
         if self.sep == "whitespace":
-- 
2.43.0


From ca5320b62b1c66c9598ee463ce753c87a30575b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:07 +0000
Subject: [PATCH 54/70] fix: a blank line before the column headings does not
 hide them

---
 src/sorcha/readers/CSVReader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index 45618dc..ed75f99 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -232,7 +232,7 @@ class CSVDataReader(ObjectDataReader):
                 self.filename,
                 sep="\\s+",
                 usecols=["ObjID"],
-                header=self.header_row,
+                skiprows=self.header_row,
                 converters={"ObjID": str.strip},
             )
         else:
@@ -240,7 +240,7 @@ class CSVDataReader(ObjectDataReader):
                 self.filename,
                 delimiter=",",
                 usecols=["ObjID"],
-                header=self.header_row,
+                skiprows=self.header_row,
                 converters={"ObjID": str.strip},
             )
 
-- 
2.43.0


From 58777ee740ea6dc4c09048d42735789e8f87066d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 55/70] fix: physical parameters files with blanks around the
 column names are accepted with several filters

---
 src/sorcha/modules/PPGetMainFilterAndColourOffsets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/modules/PPGetMainFilterAndColourOffsets.py b/src/sorcha/modules/PPGetMainFilterAndColourOffsets.py
index fbec9a3..6fd8ae4 100644
--- a/src/sorcha/modules/PPGetMainFilterAndColourOffsets.py
+++ b/src/sorcha/modules/PPGetMainFilterAndColourOffsets.py
@@ -82,7 +82,7 @@ def PPGetMainFilterAndColourOffsets(filename, observing_filters, filesep):
     if filesep == "whitespace":
         split_line = first_line[:-1].split()
     elif filesep == "comma" or filesep == "csv":
-        split_line = first_line[:-1].split(",")
+        split_line = [column.strip() for column in first_line.split(",")]
     else:
         err_str = f"ERROR: PPGetMainFilterAndColourOffsets: unexpected value for auxFormat keyword in configs: {filesep}"
         pplogger.error(err_str)
-- 
2.43.0


From 55ade5322220af543fcda6491d57bc7ac6668a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 56/70] fix: refuse input files in which an ObjID occurs more
 than once

The rows of such an object were joined with each of its orbits and
physical parameters in turn, repeating its detections.
---
 src/sorcha/readers/CombinedDataReader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sorcha/readers/CombinedDataReader.py b/src/sorcha/readers/CombinedDataReader.py
index 984c5f7..a549fac 100755
--- a/src/sorcha/readers/CombinedDataReader.py
+++ b/src/sorcha/readers/CombinedDataReader.py
@@ -80,6 +80,12 @@ class CombinedDataReader:
 
             if i == 0:
                 primary_ids = self.aux_data_readers[i].obj_id_table
+                if primary_ids["ObjID"].duplicated().any():
+                    error_str = "ERROR: ObjIDs in {} are not unique.".format(
+                        self.aux_data_readers[0].filename
+                    )
+                    pplogger.error(error_str)
+                    sys.exit(error_str)
                 continue
 
             raise_error = False
-- 
2.43.0


From 02e5fd4eab99f504fa1d4fbad52804debe9689a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:08 +0000
Subject: [PATCH 57/70] fix: refuse orbits with missing values

Velocities or epochs left out of Cartesian orbits went through to the
integrator, which crashes or never sees the object.
---
 src/sorcha/readers/OrbitAuxReader.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sorcha/readers/OrbitAuxReader.py b/src/sorcha/readers/OrbitAuxReader.py
index 06e804a..bb1206c 100755
--- a/src/sorcha/readers/OrbitAuxReader.py
+++ b/src/sorcha/readers/OrbitAuxReader.py
@@ -84,6 +84,12 @@ class OrbitAuxReader(CSVDataReader):
             pplogger.error("ERROR: Orbit file must have a consistent FORMAT (COM, KEP, or CART).")
             sys.exit("ERROR: Orbit file must have a consistent FORMAT (COM, KEP, or CART).")
 
+        missing = input_table.loc[input_table.isnull().any(axis=1), "ObjID"]
+        if not missing.empty:
+            error_str = f"ERROR: For Object(s) {', '.join(missing)}. Orbit file has missing values."
+            pplogger.error(error_str)
+            sys.exit(error_str)
+
         keplerian_elements = ["ObjID", "a", "e", "inc", "node", "argPeri", "ma", "epochMJD_TDB"]
         cometary_elements = ["ObjID", "q", "e", "inc", "node", "argPeri", "t_p_MJD_TDB", "epochMJD_TDB"]
         cartesian_elements = ["ObjID", "x", "y", "z", "xdot", "ydot", "zdot", "epochMJD_TDB"]
-- 
2.43.0


From 8a3809c39f9a5dcde1835831dd86b4422e7e8c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:12 +0000
Subject: [PATCH 58/70] fix: take a per cent sign in a configuration value as
 written

---
 src/sorcha/utilities/sorchaConfigs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index f3ee657..88c563b 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1230,7 +1230,8 @@ class sorchaConfigs(basesorchaConfigs):
             with open(config_file_location, "r") as file:
                 logging.info(f"Copy of configuration file {config_file_location}:\n{file.read()}")
 
-            config_object = configparser.ConfigParser()  # create a ConfigParser object
+            # create a ConfigParser object; values are taken as written: a % (in an SQL query or a url) is only a %
+            config_object = configparser.ConfigParser(interpolation=None)
             config_object.read(config_file_location)  # and read the whole config file into it
             self._read_configs_from_object(
                 config_object
-- 
2.43.0


From 0856e65fb721a8b66059553f677b57c9f830b1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:39 +0000
Subject: [PATCH 59/70] fix: find the absolute magnitude column by its whole
 name

A column such as EARTH_MOID before it was taken for the H column and its
filter.
---
 src/sorcha/modules/PPGetMainFilterAndColourOffsets.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/modules/PPGetMainFilterAndColourOffsets.py b/src/sorcha/modules/PPGetMainFilterAndColourOffsets.py
index 6fd8ae4..dcebbc7 100644
--- a/src/sorcha/modules/PPGetMainFilterAndColourOffsets.py
+++ b/src/sorcha/modules/PPGetMainFilterAndColourOffsets.py
@@ -1,3 +1,4 @@
+import re
 import sys
 import logging
 
@@ -42,9 +43,10 @@ def PPGetMainFilterAndColourOffsets(filename, observing_filters, filesep):
     with open(filename) as f:
         first_line = f.readline()
 
-    H_loc = first_line.find("H_")
+    # a whole column name: other columns may hold "H_" as well (EARTH_MOID)
+    H_col = re.search(r"(?<![^\s,])H_([^\s,])(?![^\s,])", first_line)
 
-    if H_loc == -1:
+    if H_col is None:
         pplogger.error(
             "ERROR: PPGetMainFilterAndColourOffsets: cannot find column of H_{main filter} format in physical parameters file."
         )
@@ -52,7 +54,7 @@ def PPGetMainFilterAndColourOffsets(filename, observing_filters, filesep):
             "ERROR: PPGetMainFilterAndColourOffsets: cannot find column of H_{main filter} format in physical parameters file."
         )
 
-    mainfilter = first_line[H_loc + 2]
+    mainfilter = H_col.group(1)
 
     if mainfilter not in observing_filters:
         pplogger.error(
-- 
2.43.0


From 7668f84ba2048766865ba6011802420694dcddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:22 +0000
Subject: [PATCH 60/70] fix: refuse physical parameters with missing values

Objects without an absolute magnitude, a colour or a phase curve parameter
were dropped or written with magnitudes that are no numbers.
---
 src/sorcha/des.py                             | 13 ++++++--
 .../PPGetMainFilterAndColourOffsets.py        | 31 +++++++++++++++++++
 src/sorcha/readers/CSVReader.py               | 14 ++++++++-
 src/sorcha/sorcha.py                          | 13 ++++++--
 4 files changed, 66 insertions(+), 5 deletions(-)

diff --git a/src/sorcha/des.py b/src/sorcha/des.py
index 6a97654..84dc136 100644
--- a/src/sorcha/des.py
+++ b/src/sorcha/des.py
@@ -30,7 +30,10 @@ from sorcha.modules.PPFaintObjectCullingFilter import PPFaintObjectCullingFilter
 from sorcha.modules.PPMatchPointingToObservations import PPMatchPointingToObservations
 from sorcha.modules.PPMagnitudeLimit import PPMagnitudeLimit
 from sorcha.modules.PPOutput import PPWriteOutput, PPIndexSQLDatabase
-from sorcha.modules.PPGetMainFilterAndColourOffsets import PPGetMainFilterAndColourOffsets
+from sorcha.modules.PPGetMainFilterAndColourOffsets import (
+    PPGetMainFilterAndColourOffsets,
+    PPGetNeededColumns,
+)
 from sorcha.modules.PPStats import stats
 
 from sorcha.readers.CombinedDataReader import CombinedDataReader
@@ -146,7 +149,13 @@ def runDESSimulation(args, sconfigs, return_only=False):
         reader.add_ephem_reader(EphemerisDataReader(args.input_ephemeris_file, sconfigs.input.eph_format))
 
     reader.add_aux_data_reader(OrbitAuxReader(args.orbinfile, sconfigs.input.aux_format))
-    reader.add_aux_data_reader(CSVDataReader(args.paramsinput, sconfigs.input.aux_format))
+    reader.add_aux_data_reader(
+        CSVDataReader(
+            args.paramsinput,
+            sconfigs.input.aux_format,
+            no_missing=PPGetNeededColumns(sconfigs.filters, sconfigs.phasecurves.phase_function),
+        )
+    )
     if sconfigs.activity.comet_activity is not None or sconfigs.lightcurve.lc_model is not None:
         reader.add_aux_data_reader(CSVDataReader(args.complex_parameters, sconfigs.input.aux_format))
 
diff --git a/src/sorcha/modules/PPGetMainFilterAndColourOffsets.py b/src/sorcha/modules/PPGetMainFilterAndColourOffsets.py
index dcebbc7..348b2c1 100644
--- a/src/sorcha/modules/PPGetMainFilterAndColourOffsets.py
+++ b/src/sorcha/modules/PPGetMainFilterAndColourOffsets.py
@@ -109,3 +109,34 @@ def PPGetMainFilterAndColourOffsets(filename, observing_filters, filesep):
         )
 
     return mainfilter, colour_offsets
+
+
+def PPGetNeededColumns(filters, phase_function):
+    """
+    Function to list the columns of the physical parameters file in which every
+    object must have a value: absolute magnitude, colour offsets and phase curve
+    parameters, the latter for all filters or for each observing filter.
+
+    Parameters
+    -----------
+    filters : filtersConfigs dataclass
+        The filters, including the main filter and colour offsets found by PPGetMainFilterAndColourOffsets.
+
+    phase_function : string
+        The phase function used.
+
+    Returns
+    ----------
+    columns : list of strings
+        The names of the columns.
+
+    """
+
+    parameters = {"HG": ["GS"], "HG1G2": ["G1", "G2"], "HG12": ["G12"], "linear": ["S"]}
+
+    columns = ["H_" + filters.mainfilter] + (filters.othercolours or [])
+
+    for parameter in parameters.get(phase_function, []):
+        columns += [parameter] + [parameter + filt for filt in filters.observing_filters]
+
+    return columns
diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index ed75f99..4ebd622 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -12,7 +12,7 @@ class CSVDataReader(ObjectDataReader):
     Requires that the file's first column is ObjID.
     """
 
-    def __init__(self, filename, sep="csv", header=-1, **kwargs):
+    def __init__(self, filename, sep="csv", header=-1, no_missing=(), **kwargs):
         """A class for reading the object data from a CSV file.
 
         Parameters
@@ -28,11 +28,15 @@ class CSVDataReader(ObjectDataReader):
             The row number of the header. If not provided, does an automatic search.
             Default = -1
 
+        no_missing : list of strings, optional
+            The columns in which, where the file has them, every row must have a value.
+
         **kwargs: dictionary, optional
             Extra arguments
         """
         super().__init__(**kwargs)
         self.filename = filename
+        self.no_missing = no_missing
 
         if sep not in ["whitespace", "csv", "comma"]:
             pplogger = logging.getLogger(__name__)
@@ -322,4 +326,12 @@ class CSVDataReader(ObjectDataReader):
         # Strip out the whitespace from the column names.
         input_table = input_table.rename(columns=lambda x: x.strip())
 
+        for column in self.no_missing:
+            if column in input_table.columns and input_table[column].isnull().any():
+                missing = input_table.loc[input_table[column].isnull(), "ObjID"]
+                error_str = f"ERROR: For Object(s) {', '.join(missing)}. No value of {column} in {self.filename}."
+                pplogger = logging.getLogger(__name__)
+                pplogger.error(error_str)
+                sys.exit(error_str)
+
         return input_table
diff --git a/src/sorcha/sorcha.py b/src/sorcha/sorcha.py
index 998066c..5fffb7e 100755
--- a/src/sorcha/sorcha.py
+++ b/src/sorcha/sorcha.py
@@ -27,7 +27,10 @@ from sorcha.modules.PPFaintObjectCullingFilter import PPFaintObjectCullingFilter
 from sorcha.modules.PPMatchPointingToObservations import PPMatchPointingToObservations
 from sorcha.modules.PPMagnitudeLimit import PPMagnitudeLimit
 from sorcha.modules.PPOutput import PPWriteOutput, PPIndexSQLDatabase
-from sorcha.modules.PPGetMainFilterAndColourOffsets import PPGetMainFilterAndColourOffsets
+from sorcha.modules.PPGetMainFilterAndColourOffsets import (
+    PPGetMainFilterAndColourOffsets,
+    PPGetNeededColumns,
+)
 from sorcha.modules.PPFootprintFilter import Footprint
 from sorcha.modules.PPStats import stats
 
@@ -155,7 +158,13 @@ def runLSSTSimulation(args, sconfigs, return_only=False):
         reader.add_ephem_reader(EphemerisDataReader(args.input_ephemeris_file, sconfigs.input.eph_format))
 
     reader.add_aux_data_reader(OrbitAuxReader(args.orbinfile, sconfigs.input.aux_format))
-    reader.add_aux_data_reader(CSVDataReader(args.paramsinput, sconfigs.input.aux_format))
+    reader.add_aux_data_reader(
+        CSVDataReader(
+            args.paramsinput,
+            sconfigs.input.aux_format,
+            no_missing=PPGetNeededColumns(sconfigs.filters, sconfigs.phasecurves.phase_function),
+        )
+    )
     if sconfigs.activity.comet_activity is not None or sconfigs.lightcurve.lc_model is not None:
         reader.add_aux_data_reader(CSVDataReader(args.complex_parameters, sconfigs.input.aux_format))
 
-- 
2.43.0


From a3ebfbee06bd78b3d2210b56a8450a8625e1af83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 61/70] fix: refuse external ephemerides with missing values

Rows without a position, distance or phase angle were dropped or written
with values that are no numbers.
---
 src/sorcha/readers/EphemerisReader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/readers/EphemerisReader.py b/src/sorcha/readers/EphemerisReader.py
index 98c2eb1..899e009 100755
--- a/src/sorcha/readers/EphemerisReader.py
+++ b/src/sorcha/readers/EphemerisReader.py
@@ -175,8 +175,19 @@ class EphemerisDataReader(ObjectDataReader):
                         "ERROR: EphemerisDataReader: column headings do not match expected ephemeris column headings. Check format of file."
                     )
 
-        # Return only the columns of interest.
-        return input_table[ephem_cols]
+        # Keep only the columns of interest.
+        input_table = input_table[ephem_cols]
+
+        missing = input_table.loc[input_table.isnull().any(axis=1), "ObjID"].unique()
+        if len(missing) > 0:
+            error_str = (
+                f"ERROR: EphemerisDataReader: missing ephemeris values for Object(s) {', '.join(missing)}."
+            )
+            pplogger = logging.getLogger(__name__)
+            pplogger.error(error_str)
+            sys.exit(error_str)
+
+        return input_table
 
 
 def read_full_ephemeris_table(filename, inputformat):
-- 
2.43.0


From 63c12b1a795088fe51dfa1aaa33d4147b4e2c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:15 +0000
Subject: [PATCH 62/70] fix: refuse configuration values that are no numbers

nan passes for a float and every comparison of the range checks, and a run
with it as a limit finds nothing.
---
 src/sorcha/utilities/sorchaConfigs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index 88c563b..e6d06f8 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -256,6 +256,8 @@ class saturationConfigs:
             if isinstance(self.bright_limit, str):
                 try:
                     self.bright_limit = [float(e.strip()) for e in self.bright_limit.split(",")]
+                    if np.isnan(self.bright_limit).any():
+                        raise ValueError
                 except ValueError:
                     logging.error("ERROR: could not parse brightness limits. Check formatting and try again.")
                     sys.exit("ERROR: could not parse brightness limits. Check formatting and try again.")
@@ -1406,7 +1408,8 @@ def cast_as_float(value, key):
     """
 
     try:
-        float(value)
+        if np.isnan(float(value)):
+            raise ValueError
     except ValueError:
         logging.error(f"ERROR: expected a float for config parameter {key}. Check value in config file.")
         sys.exit(f"ERROR: expected a float for config parameter {key}. Check value in config file.")
-- 
2.43.0


From a66938ddd3e4e2e1ebf9d05ef1304693c5abed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:59 +0000
Subject: [PATCH 63/70] fix: log every setting of the configuration as it is
 used

The DES cuts, discovery and efficiency, a circle radius beside a fill
factor, culling and some add-ons were left out; rounding to zero decimals
and no edge threshold were reported as something else.
---
 src/sorcha/utilities/sorchaConfigs.py | 59 +++++++++++++++++++--------
 1 file changed, 43 insertions(+), 16 deletions(-)

diff --git a/src/sorcha/utilities/sorchaConfigs.py b/src/sorcha/utilities/sorchaConfigs.py
index e6d06f8..7c9b5f5 100644
--- a/src/sorcha/utilities/sorchaConfigs.py
+++ b/src/sorcha/utilities/sorchaConfigs.py
@@ -1540,9 +1540,9 @@ def PrintConfigsToLog(sconfigs, cmd_args):
         pplogger.info("The output ephemerides file is located " + cmd_args.output_ephemeris_file)
     pplogger.info("The survey selected is: " + cmd_args.surveyname)
 
-    if sconfigs.activity.comet_activity == "comet":
+    if sconfigs.activity.comet_activity is not None:
         pplogger.info("Cometary activity set to: " + str(sconfigs.activity.comet_activity))
-    elif sconfigs.activity.comet_activity == None:
+    else:
         pplogger.info("No cometary activity selected.")
 
     pplogger.info("Format of ephemerides file is: " + sconfigs.input.eph_format)
@@ -1591,27 +1591,28 @@ def PrintConfigsToLog(sconfigs, cmd_args):
                 pplogger.info("Loading default LSST footprint LSST_detector_corners_100123.csv")
             if cmd_args.surveyname.lower() == "des":
                 pplogger.info("Loading default DES footprint DES_ccd_corners.csv")
-        if sconfigs.fov.footprint_edge_threshold:
+        if sconfigs.fov.footprint_edge_threshold is not None:
             pplogger.info(
                 "The footprint edge threshold is "
                 + str(sconfigs.fov.footprint_edge_threshold)
                 + " arcseconds"
             )
         else:
-            pplogger.info("Default footprint edge threshold used (10px or 2 arcseconds).")
+            pplogger.info("No footprint edge threshold is used.")
     elif sconfigs.fov.camera_model == "circle":
         pplogger.info("Footprint is circular.")
-        if sconfigs.fov.fill_factor:
+        if sconfigs.fov.fill_factor is not None:
             pplogger.info(
                 "The code will approximate chip gaps using filling factor: " + str(sconfigs.fov.fill_factor)
             )
-        elif sconfigs.fov.circle_radius:
+        if sconfigs.fov.circle_radius is not None:
             pplogger.info(
                 "A circular footprint will be applied with radius: " + str(sconfigs.fov.circle_radius)
             )
     elif sconfigs.fov.camera_model == "visits_footprint":
         pplogger.info("Footprint is the actual camera footprint for each observation.")
         pplogger.info("Loading camera footprint from " + cmd_args.visits)
+        pplogger.info("Visits database required query is: " + sconfigs.fov.visits_query)
     else:
         pplogger.info("Camera footprint is turned OFF.")
 
@@ -1627,6 +1628,8 @@ def PrintConfigsToLog(sconfigs, cmd_args):
 
     if sconfigs.expert.default_snr_cut:
         pplogger.info("Default SNR cut is ON. All observations with SNR < 2.0 will be removed.")
+    else:
+        pplogger.info("Default SNR cut is OFF.")
 
     if sconfigs.expert.mag_limit_on:
         pplogger.info("The magnitude limit is: " + str(sconfigs.expert.mag_limit))
@@ -1635,14 +1638,20 @@ def PrintConfigsToLog(sconfigs, cmd_args):
 
     if sconfigs.fadingfunction.fading_function_on:
         pplogger.info("The detection efficiency fading function is ON.")
-        pplogger.info(
-            "The width parameter of the fading function has been set to: "
-            + str(sconfigs.fadingfunction.fading_function_width)
-        )
-        pplogger.info(
-            "The peak efficiency of the fading function has been set to: "
-            + str(sconfigs.fadingfunction.fading_function_peak_efficiency)
-        )
+        if cmd_args.surveyname.lower() == "des":
+            pplogger.info(
+                "The transient efficiency of the fading function has been set to: "
+                + str(sconfigs.fadingfunction.des_transient_efficency)
+            )
+        else:
+            pplogger.info(
+                "The width parameter of the fading function has been set to: "
+                + str(sconfigs.fadingfunction.fading_function_width)
+            )
+            pplogger.info(
+                "The peak efficiency of the fading function has been set to: "
+                + str(sconfigs.fadingfunction.fading_function_peak_efficiency)
+            )
     else:
         pplogger.info("The detection efficiency fading function is OFF.")
 
@@ -1681,6 +1690,22 @@ def PrintConfigsToLog(sconfigs, cmd_args):
             pplogger.info("Unlinked objects will not be dropped.")
     else:
         pplogger.info("Solar System Processing linking filter is turned OFF.")
+    if sconfigs.linkingfilter.des_discovery_on:
+        pplogger.info("DES discovery filter is turned ON.")
+    if sconfigs.linkingfilter.distance_cut_on:
+        pplogger.info(
+            "The distance cut in au is from "
+            + str(sconfigs.linkingfilter.distance_cut_lower)
+            + " to "
+            + str(sconfigs.linkingfilter.distance_cut_upper)
+        )
+    if sconfigs.linkingfilter.motion_cut_on:
+        pplogger.info(
+            "The motion cut in degrees per day is from "
+            + str(sconfigs.linkingfilter.motion_cut_lower)
+            + " to "
+            + str(sconfigs.linkingfilter.motion_cut_upper)
+        )
     pplogger.info("The auxiliary files used for emphemris generation...")
     pplogger.info("...the leap second file is: " + str(sconfigs.auxiliary.leap_seconds))
     pplogger.info(
@@ -1726,6 +1751,8 @@ def PrintConfigsToLog(sconfigs, cmd_args):
         pplogger.info("...the observatory code is: " + str(sconfigs.simulation.ar_obs_code))
         pplogger.info("...the healpix order is: " + str(sconfigs.simulation.ar_healpix_order))
         pplogger.info("...the number of sub-intervals is: " + str(sconfigs.simulation.ar_n_sub_intervals))
+        if not sconfigs.expert.brute_force:
+            pplogger.info("...objects too faint to be observed are left out.")
     else:
         pplogger.info("ASSIST+REBOUND Simulation is turned OFF.")
 
@@ -1739,7 +1766,7 @@ def PrintConfigsToLog(sconfigs, cmd_args):
         "Output files will be saved in path: " + cmd_args.outpath + " with filestem " + cmd_args.outfilestem
     )
     pplogger.info("Output files will be saved as format: " + sconfigs.output.output_format)
-    if sconfigs.output.position_decimals:
+    if sconfigs.output.position_decimals is not None:
         pplogger.info(
             "In the output, positions will be rounded to "
             + str(sconfigs.output.position_decimals)
@@ -1747,7 +1774,7 @@ def PrintConfigsToLog(sconfigs, cmd_args):
         )
     else:
         pplogger.info("In the output, positions will not be rounded")
-    if sconfigs.output.magnitude_decimals:
+    if sconfigs.output.magnitude_decimals is not None:
         pplogger.info(
             "In the output, magnitudes will be rounded to "
             + str(sconfigs.output.magnitude_decimals)
-- 
2.43.0


From aea9314852659af3e5f161c488bd96cf93d2b5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:34 +0000
Subject: [PATCH 64/70] fix: recognise missing values in csv files that have
 blanks after the commas

---
 src/sorcha/readers/CSVReader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sorcha/readers/CSVReader.py b/src/sorcha/readers/CSVReader.py
index 4ebd622..8df36ca 100755
--- a/src/sorcha/readers/CSVReader.py
+++ b/src/sorcha/readers/CSVReader.py
@@ -219,6 +219,7 @@ class CSVDataReader(ObjectDataReader):
             res_df = pd.read_csv(
                 self.filename,
                 delimiter=",",
+                skipinitialspace=True,
                 skiprows=skip_rows,
                 nrows=block_size,
                 converters={"ObjID": str.strip},
@@ -243,6 +244,7 @@ class CSVDataReader(ObjectDataReader):
             self.obj_id_table = pd.read_csv(
                 self.filename,
                 delimiter=",",
+                skipinitialspace=True,
                 usecols=["ObjID"],
                 skiprows=self.header_row,
                 converters={"ObjID": str.strip},
@@ -286,6 +288,7 @@ class CSVDataReader(ObjectDataReader):
                 res_df = pd.read_csv(
                     self.filename,
                     delimiter=",",
+                    skipinitialspace=True,
                     skiprows=(lambda x: skipped_row[x]),
                     converters={"ObjID": str.strip},
                 )
-- 
2.43.0


From c1dd038973c0d305d17afe8956887b20a65290d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:01 +0000
Subject: [PATCH 65/70] fix: link objects whose ObjIDs have characters outside
 ASCII

---
 src/sorcha/modules/PPLinkingFilter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sorcha/modules/PPLinkingFilter.py b/src/sorcha/modules/PPLinkingFilter.py
index d84f2d3..00c05cc 100755
--- a/src/sorcha/modules/PPLinkingFilter.py
+++ b/src/sorcha/modules/PPLinkingFilter.py
@@ -77,7 +77,7 @@ def PPLinkingFilter(
     nameLen = obsv["ssObjectId"].str.len().max()
     obsv = obsv.to_records(
         index=False,
-        column_dtypes=dict(ssObjectId=f"S{nameLen}", diaSourceId="u8", midPointTai="f8", ra="f8", decl="f8"),
+        column_dtypes=dict(ssObjectId=f"U{nameLen}", diaSourceId="u8", midPointTai="f8", ra="f8", decl="f8"),
     )
 
     # link
@@ -108,7 +108,6 @@ def PPLinkingFilter(
     obj_discovery = pd.DataFrame(
         {"ObjID": obj["ssObjectId"], "date_linked_MJD": obj["discoverySubmissionDate"]}
     )
-    obj_discovery["ObjID"] = obj_discovery["ObjID"].str.decode("utf-8")
     linked_object_observations = pd.merge(linked_object_observations, obj_discovery, on="ObjID")
     linked_object_observations = linked_object_observations.sort_values("fieldMJD_TAI").reset_index(drop=True)
 
-- 
2.43.0


From 70f578044957bcc67aeeda947dd3b97b1d5af8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:26 +0000
Subject: [PATCH 66/70] fix: do not read the combined database as one of the
 results when it is found through a link

---
 src/sorcha/utilities/createResultsSQLDatabase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sorcha/utilities/createResultsSQLDatabase.py b/src/sorcha/utilities/createResultsSQLDatabase.py
index 7e75564..899464e 100644
--- a/src/sorcha/utilities/createResultsSQLDatabase.py
+++ b/src/sorcha/utilities/createResultsSQLDatabase.py
@@ -46,8 +46,8 @@ def create_results_table(cnx_out, filename, output_path, output_stem, table_name
         os.path.join(glob.escape(output_path), "**", glob.escape(output_stem) + "*.db"), recursive=True
     )
 
-    if filename in output_list:
-        output_list.remove(filename)
+    # the combined database itself is none of the results, by whichever path it is found
+    output_list = [f for f in output_list if os.path.realpath(f) != os.path.realpath(filename)]
 
     if not output_list:
         sys.exit("Could not find any .db files using given filepath and stem.")
-- 
2.43.0


From eb8e419e6cb13a15b295bb3e9e2ca612ce558bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:04 +0000
Subject: [PATCH 67/70] fix: place observatories before 1962 in the search for
 objects as in their ephemerides

---
 src/sorcha/ephemeris/simulation_parsing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sorcha/ephemeris/simulation_parsing.py b/src/sorcha/ephemeris/simulation_parsing.py
index 6bf74f8..00d83d4 100644
--- a/src/sorcha/ephemeris/simulation_parsing.py
+++ b/src/sorcha/ephemeris/simulation_parsing.py
@@ -376,7 +376,9 @@ class Observatory:
         pos, _ = spice.spkpos("EARTH", et, "J2000", "NONE", "SSB")
 
         # Get the matrix that rotates from the Earth's equatorial body fixed frame to the J2000 equatorial frame.
-        m = spice.pxform("ITRF93", "J2000", et)
+        # (its observed orientation, or the approximate one before there are observations)
+        frame = "ITRF93" if et >= spice.str2et("1962-Jan-20") else "IAU_EARTH"
+        m = spice.pxform(frame, "J2000", et)
 
         # Get the MPC's unit vector from the geocenter to
         # the observatory
-- 
2.43.0


From 6dfdae82456b7b05524d46a1931593b057407f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:03 +0000
Subject: [PATCH 68/70] fix: identity activity model accepts the arguments
 activity models are called with

---
 src/sorcha/activity/identity_activity.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/sorcha/activity/identity_activity.py b/src/sorcha/activity/identity_activity.py
index 70ed0de..a2c73d4 100644
--- a/src/sorcha/activity/identity_activity.py
+++ b/src/sorcha/activity/identity_activity.py
@@ -1,4 +1,5 @@
 from sorcha.activity.base_activity import AbstractCometaryActivity
+from typing import List
 import pandas as pd
 
 """
@@ -20,14 +21,28 @@ class IdentityCometaryActivity(AbstractCometaryActivity):
     def __init__(self) -> None:
         super().__init__()
 
-    def compute(self, df: pd.DataFrame) -> pd.DataFrame:
-        """Returns numpy array of 0's with shape equal to the input dataframe
-        time column.
+    def compute(
+        self,
+        df: pd.DataFrame,
+        observing_filters: List[str] = None,
+        rho: List[float] = None,
+        delta: List[float] = None,
+        alpha: List[float] = None,
+    ) -> pd.DataFrame:
+        """Returns the input dataframe unchanged.
 
         Parameters
         ----------
         df : pd.DataFrame
             The ``observations`` dataframe provided by ``Sorcha``.
+        observing_filters : List[str], optional
+            The photometric filters the observations are taken in (not used), by default None
+        rho : List[float], optional
+            Heliocentric distance [units au] (not used), by default None
+        delta : List[float], optional
+            Distance to Earth [units au] (not used), by default None
+        alpha : List[float], optional
+            Phase angle [units degrees] (not used), by default None
 
         Returns
         -------
-- 
2.43.0


From 42050097426a7c0c0b9a2e1be80c47adfa0dc0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:03 +0000
Subject: [PATCH 69/70] fix: runs with an identity model can cull faint objects

---
 src/sorcha/activity/identity_activity.py      | 31 +++++++++++++++++++
 src/sorcha/lightcurves/identity_lightcurve.py | 16 ++++++++++
 2 files changed, 47 insertions(+)

diff --git a/src/sorcha/activity/identity_activity.py b/src/sorcha/activity/identity_activity.py
index a2c73d4..d00750f 100644
--- a/src/sorcha/activity/identity_activity.py
+++ b/src/sorcha/activity/identity_activity.py
@@ -54,6 +54,37 @@ class IdentityCometaryActivity(AbstractCometaryActivity):
 
         return df
 
+    def maxBrightness(
+        self,
+        df: pd.DataFrame,
+        observing_filters: List[str] = None,
+        rho: List[float] = None,
+        delta: List[float] = None,
+        alpha: List[float] = None,
+    ) -> pd.Series:
+        """Returns the brightest apparent magnitudes possible with this model, used when
+        culling faint objects: those in the input dataframe.
+
+        Parameters
+        ----------
+        df : pd.DataFrame
+            The dataframe of objects provided by ``Sorcha``.
+        observing_filters : List[str], optional
+            The photometric filters the magnitudes are in (not used), by default None
+        rho : List[float], optional
+            Heliocentric distance [units au] (not used), by default None
+        delta : List[float], optional
+            Distance to Earth [units au] (not used), by default None
+        alpha : List[float], optional
+            Phase angle [units degrees] (not used), by default None
+
+        Returns
+        -------
+        pd.Series
+            The apparent magnitudes of the input dataframe, unchanged.
+        """
+        return df["trailedSourceMagTrue"]
+
     @staticmethod
     def name_id() -> str:
         """Returns the string identifier for this cometary activity method. It
diff --git a/src/sorcha/lightcurves/identity_lightcurve.py b/src/sorcha/lightcurves/identity_lightcurve.py
index ecd9be5..5202d4b 100644
--- a/src/sorcha/lightcurves/identity_lightcurve.py
+++ b/src/sorcha/lightcurves/identity_lightcurve.py
@@ -40,6 +40,22 @@ class IdentityLightCurve(AbstractLightCurve):
 
         return np.zeros_like(df["fieldMJD_TAI"])
 
+    def maxBrightness(self, df: pd.DataFrame) -> float:
+        """Returns the largest change towards brighter magnitudes possible with this model,
+        used when culling faint objects: none.
+
+        Parameters
+        ----------
+        df : Pandas dataframe
+            The dataframe of objects provided by ``Sorcha``.
+
+        Returns
+        -------
+        float
+            Zero.
+        """
+        return 0.0
+
     @staticmethod
     def name_id() -> str:
         """Returns the string identifier for this light curve method. It must be
-- 
2.43.0


From 2d1c571402f65c6a98b72fc2eba5b50e8bd3d438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:03 +0000
Subject: [PATCH 70/70] fix: activity models can log an exception

---
 src/sorcha/activity/base_activity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sorcha/activity/base_activity.py b/src/sorcha/activity/base_activity.py
index 8db3bbf..de0e510 100644
--- a/src/sorcha/activity/base_activity.py
+++ b/src/sorcha/activity/base_activity.py
@@ -57,7 +57,7 @@ class AbstractCometaryActivity(ABC):
         exception : Exception
             The exception with a value string to appended to the error log
         """
-        self._log_error_message(str(exception.value))
+        self._log_error_message(str(exception))
 
     def _log_error_message(self, error_msg: str) -> None:
         """Log a specific error string to the error log file
-- 
2.43.0

