S = "src/sorcha/"
prop("C01", "Detections depend on the inputs' content, not on chunking, order or format",
"""With no random element active, a run's detections and statistics are a function of the contents of its inputs. The chunk size, the order of objects in the auxiliary files, the order of rows in the
ephemeris, the input and output file formats, and dividing the objects over separate runs do not change which observations are reported or any value reported for them.""",
"inputs configurations schedules", "all surveys, configurations and chunk sizes; all orders; all ways of splitting the objects", "The chunking test compares two chunk sizes on one data set, and needs downloaded data.",
[S+"sorcha.py", S+"des.py", R+"CombinedDataReader.py"], [("chunk loop", S+"sorcha.py:runLSSTSimulation"), ("chunk loop", S+"des.py:runDESSimulation"), ("block reading", R+"CombinedDataReader.py:read_block")],
"External ephemerides; linking with certain efficiency, sharp fading.", "property-based testing: metamorphic relation between whole runs")

prop("C02", "A seed fixes a run; random modules draw from independent streams",
"""The same inputs, configuration and seed give byte-identical outputs whatever ran before in the process and whatever the global random state. Different seeds give different random draws (except linking, which depends
on the object's observations only). Every module's random stream depends on the seed and the module's name alone, so switching one random module off does not change the draws of another.""",
"inputs configurations histories", "all surveys, seeds, disturbances and module combinations", "Tests check two draws of one generator.",
[U+"sorchaModuleRNG.py", S+"sorcha.py", S+"des.py"], [("generator per module", U+"sorchaModuleRNG.py:PerModuleRNG.getModuleRNG"), ("default generators inside modules", M+"PPMiniDifi.py")],
"External ephemerides.", "property-based testing: replay and metamorphic relations between whole runs")

prop("C03", "An LSST run reports exactly the detections its documented steps let through",
"""A whole simulation of an LSST survey reports exactly those ephemeris entries that pass every configured step in the documented order (visit matching, apparent magnitude, trailing losses, vignetting, SNR floor, camera footprint,
SNR or magnitude limit, fading, saturation, linking), with the documented values in the reported columns, and the statistics file tallies exactly these;
a run asked to return its results returns these same observations and statistics and writes neither.""",
"inputs configurations", "all object sets, visits, configurations (modules on or off), formats and chunk sizes", "End-to-end tests compare two runs with stored files and need downloaded data.",
[S+"sorcha.py"], [("order of the steps", S+"sorcha.py:runLSSTSimulation"), ("switches", S+"sorcha.py:runLSSTSimulation")],
"External ephemerides; values on a threshold are not judged.", "property-based testing: whole runs against an independent reference model")

prop("C04", "A DES run reports exactly the detections its documented steps let through",
"""A whole simulation of a DES survey reports exactly those ephemeris entries that pass every configured step in the documented order (visit matching, apparent magnitude, DECam footprint or CCD footprints with their own
depth, magnitude limit, DES fading, saturation, distance and motion cuts, discovery), with the documented values in the reported columns, and the statistics file tallies exactly these;
a run asked to return its results returns these same observations and statistics and writes neither.""",
"inputs configurations", "all object sets, visits, configurations (modules on or off), formats and chunk sizes", "No test runs a DES simulation.",
[S+"des.py"], [("order of the steps", S+"des.py:runDESSimulation")],
"External ephemerides; values on a threshold are not judged.", "property-based testing: whole runs against an independent reference model")

prop("C05", "Input tables are read faithfully, whole, in blocks or by object",
"""Reading an input table (csv, whitespace-separated or HDF5, with or without a preamble, cached or not) returns exactly the rows, order,
values and textual object identifiers of the file. Reading it in consecutive blocks of any size gives the same table, and asking for a set of
objects gives exactly that table's rows for those objects, in file order; blank lines in a text file change nothing. Reading objects back from
an intermediate database of the table gives the same rows. An external ephemeris loses only its optional magnitude and
Julian-date columns and is refused if it has columns it should not have.""",
"inputs configurations", "all tables, identifiers (number-like ones included), formats, block sizes, object subsets",
"The tests read a few fixed files with alphanumeric identifiers and default indices; block boundaries, number-like identifiers and appended HDF5 files are not sampled.",
[R+"CSVReader.py", R+"HDF5Reader.py", R+"ObjectDataReader.py", R+"EphemerisReader.py"],
[("row skipping and counting", R+"CSVReader.py:_read_rows_internal"), ("identifier map", R+"CSVReader.py:_read_objects_internal"), ("positional selection", R+"HDF5Reader.py:_read_objects_internal"), ("cached table slicing", R+"ObjectDataReader.py:read_rows")],
"Assumes identifiers are not pandas missing-value words. Trusts pandas/pytables as writers of HDF5 inputs.", "property-based testing: write-read round trip and block/whole metamorphic relation")

prop("C06", "Rows are joined with their own object's data; mismatched files are refused",
"""Each ephemeris row of an object in the orbits file reaches the simulation exactly once, in ephemeris order, carrying that object's own
orbit, physical and (when used) complex parameters, whatever the row orders of the files and the block size. Auxiliary files whose object
identifiers are not exactly the same set, each once, are refused with an error before anything is simulated, an identifier occurring more than
once in one file or in all of them included.""",
"inputs configurations", "all object sets, file orders, formats, block sizes; all single-identifier discrepancies",
"The tests use one small matched file set in one order and a couple of mismatches.",
[R+"CombinedDataReader.py", R+"OrbitAuxReader.py", R+"CSVReader.py"],
[("join on the identifier", R+"CombinedDataReader.py:read_block"), ("multiset comparison", R+"CombinedDataReader.py:check_aux_object_ids"), ("auxiliary join", R+"CombinedDataReader.py:read_aux_block")],
"Oracle is the join written out from the generated tables.", "property-based testing against a reference join; negative cases by mutation")

prop("C08", "Observations get their own visit's data, in the chosen filters only",
"""Reading the pointing database yields exactly the visits taken in the requested filters with their own values and with exposure start and
midpoint times consistent for the survey, and leaves the database file untouched. Every observation is given its own visit's data, and
observations of other visits are dropped without disturbing order or other columns. A database without usable visits, a failing query, a
missing DES efficiency parameter or clearly inconsistent times (by days) end the run with an error.""",
"inputs configurations", "all pointing tables, filter subsets, surveys, observation orders",
"The tests read one database and match one small table.",
[M+"PPReadPointingDatabase.py", M+"PPMatchPointingToObservations.py"],
[("query and filter selection", M+"PPReadPointingDatabase.py:PPReadPointingDatabase"), ("merge on the visit identifier", M+"PPMatchPointingToObservations.py:PPMatchPointingToObservations")],
"Times that differ by less than a day from the database are not judged.", "property-based testing against generated SQLite databases")

prop("C09", "Apparent magnitudes follow the phase function, colours and activity model",
"""The true trailed-source magnitude of every observation equals the documented formula: absolute magnitude in the main filter plus the
colour of the observation's filter, the distance term, the chosen phase function evaluated with that object's (per-filter or common)
parameters at that observation's phase angle, and the chosen light-curve and cometary contributions. No observation is lost,
reordered or given another row's values.""",
"inputs configurations", "all geometries, filters, phase functions, parameter layouts, registered light-curve and activity models",
"Tests evaluate one or two rows per phase function with one parameter layout.",
[M+"PPCalculateApparentMagnitude.py", M+"PPCalculateApparentMagnitudeInFilter.py", M+"PPApplyColourOffsets.py", M+"PPCalculateSimpleCometaryMagnitude.py"],
[("phase function evaluation", M+"PPCalculateApparentMagnitudeInFilter.py"), ("colour offsets and per-filter columns", M+"PPApplyColourOffsets.py"), ("orchestration", M+"PPCalculateApparentMagnitude.py")],
"Trusts sbpy's HG-family implementations only through published closed-form/tabulated values re-derived in the oracle.", "property-based testing against an independent formula")

prop("C10", "Trailing losses follow the published formulae",
"""The trailing loss of every observation depends only on its rate of motion, exposure time and seeing through the documented circular-PSF
and source-detection formulae; it is zero for a stationary object, never negative, and grows with motion.""",
"inputs", "all rates, exposure times, seeings, and both models",
"Tests evaluate a handful of points.", [M+"PPTrailingLoss.py"],
[("loss formula", M+"PPTrailingLoss.py:calcTrailingLoss"), ("per-row application", M+"PPTrailingLoss.py:PPTrailingLoss")],
"", "property-based testing against the closed formula, with monotonicity relations")

prop("C11", "Vignetting deepens nothing and follows the angle from the field centre",
"""The limiting magnitude at a source's position equals the field's limit at the centre and is brightened by the documented vignetting
profile of its true angular distance from the field centre, for any sky position including the poles and RA wrap; no other input matters.""",
"inputs", "all field centres, offsets and depths", "Tests evaluate fixed offsets at mid declination.",
[M+"PPVignetting.py"], [("angular distance", M+"PPVignetting.py:calcVignettingLosses"), ("profile", M+"PPVignetting.py:vignetFunc / vignettingEffects")],
"", "property-based testing against vector geometry and the tabulated profile")

prop("C12", "SNR and astrometric/photometric uncertainties follow the LSST formulae",
"""Signal-to-noise ratios, photometric uncertainties and astrometric uncertainties of every observation follow the documented LSST formulae from
that observation's own magnitude, limit, seeing and filter; they worsen monotonically as a source gets fainter and respect the systematic floors.""",
"inputs configurations", "all magnitudes, limits, seeings, filters, with trailing losses on or off", "Tests check single rows.",
[M+"PPAddUncertainties.py"], [("uncertainty formulae", M+"PPAddUncertainties.py")],
"", "property-based testing against the closed formulae, with monotonicity relations")

prop("C13", "Measured values scatter about the truth as their uncertainties say",
"""Measured magnitudes and sky positions are unbiased Gaussian draws about the true values with exactly the stated uncertainties (isotropic on
the sky at every declination, RA kept in range), the true values are preserved in the output, rows keep their identity, and repeated runs with the
same seed give the same draws. With randomisation on, low-significance rows are removed by the stated cut and nothing else is.""",
"inputs schedules", "all positions (poles, RA wrap), uncertainties, seeds, units", "Tests check one seed and one position against stored numbers.",
[M+"PPRandomizeMeasurements.py"], [("astrometric offsets", M+"PPRandomizeMeasurements.py:randomizeAstrometry"), ("photometric draws", M+"PPRandomizeMeasurements.py:randomizePhotometry")],
"Distributional claims are judged with 6.5-sigma bounds over replicated rows.", "property-based testing: statistical oracle plus per-row invariants")

prop("C14", "Camera footprint keeps exactly the observations that land on a sensor",
"""With a camera footprint (the built-in LSST or DES one, or a user file with corners in any order), an observation is kept exactly when its position, projected
onto the tangent plane of its field centre and rotated with the camera, lies inside a sensor and farther from the sensor's edges than the configured
margin. Each kept observation reports that sensor's number, and order and all other columns are preserved.""",
"inputs configurations", "all field centres, rotations, positions, footprints, edge margins", "Tests compare stored lists for one field.",
[M+"PPFootprintFilter.py", M+"PPApplyFOVFilter.py"],
[("tangent-plane projection", M+"PPFootprintFilter.py:radec_to_focal_plane"), ("point in sensor and edge margin", M+"PPFootprintFilter.py:Detector.ison"), ("row selection", M+"PPApplyFOVFilter.py:PPApplyFOVFilter")],
"Corner files are interpreted as sky offsets as the code does; decisions within 1e-8 rad of an edge are not judged.", "property-based testing: inverse construction from focal-plane positions")

prop("C15", "Circular field of view keeps what lies inside, thinned by the fill factor",
"""With a circular footprint an observation is kept exactly when its true angular distance from its own field centre does not exceed the radius, at
every sky position; the fill factor then keeps each remaining observation independently with that probability. A radius or fill factor of zero
is honoured, and kept rows are unchanged and in order.""",
"inputs configurations", "all positions, radii, fill factors, seeds", "Tests use one field and stored random draws.",
[M+"PPApplyFOVFilter.py"], [("separation", M+"PPApplyFOVFilter.py:PPGetSeparation"), ("circle and fill factor", M+"PPApplyFOVFilter.py:PPCircleFootprint / PPSimpleSensorArea")],
"Fill-factor fraction judged with 6.5-sigma bounds.", "property-based testing against vector geometry; statistical oracle")

prop("C16", "Per-visit footprint keeps exactly observations on one of that visit's CCDs",
"""With a per-visit footprint an observation is kept exactly when it lies inside one of the CCDs recorded for its own visit, also where the camera
straddles RA 0, and reports that CCD's identifier and limiting magnitude; visits without CCDs keep nothing. Order and other columns are preserved,
and it works alike for generated and external ephemerides.""",
"inputs configurations", "all visits, CCD subsets, positions across the survey's declinations", "Tests use a few squares near the equator.",
[M+"PPVisitsFootprintFilter.py", M+"PPApplyFOVFilter.py"],
[("CCD candidates and point in polygon", M+"PPVisitsFootprintFilter.py:PPVisitsFootprint"), ("row selection", M+"PPApplyFOVFilter.py:PPApplyFOVFilter")],
"CCD layouts are DECam's, placed at declinations between -66 and +6 deg.", "property-based testing against generated visit databases and half-plane geometry")

prop("C17", "Detection efficiency removes each observation with the documented probability",
"""Each observation survives the detection-efficiency filter independently with the documented fading-function probability of its own magnitude, limit (per chip when available),
width and peak efficiency (LSST) or of its visit's efficiency parameters and the transient efficiency (DES); surviving rows are unchanged and in order,
and the same seed gives the same survivors.""",
"inputs schedules", "all magnitudes, limits, parameters, seeds", "Tests evaluate a few probabilities and one seed.",
[M+"PPDetectionProbability.py", M+"PPFadingFunctionFilter.py", M+"DESDetectionProbability.py", M+"DESFadingFunctionFilter.py", M+"PPDropObservations.py"],
[("probability", M+"PPDetectionProbability.py"), ("uniform draw", M+"PPDropObservations.py")],
"Kept fractions judged with 6.5-sigma bounds.", "property-based testing: closed formula plus statistical oracle")

prop("C18", "SNR, magnitude and saturation limits cut exactly at their thresholds",
"""The signal-to-noise, faint-magnitude and saturation limits remove exactly the observations beyond them, judged on each observation's own measured value and
(for saturation lists) its own filter; survivors keep their values and order.""",
"inputs configurations", "all values around thresholds, scalar and per-filter limits", "Tests use three-row tables.",
[M+"PPSNRLimit.py", M+"PPMagnitudeLimit.py", M+"PPBrightLimit.py"],
[("thresholds", M+"PPSNRLimit.py, PPMagnitudeLimit.py, PPBrightLimit.py")],
"", "property-based testing against a row-by-row reference")

prop("C19", "Objects are linked exactly when enough tracklets fall in the time window",
"""An object's observations count as linked exactly when, within some trailing window of the configured number of nights, it has the required number of nights with a
tracklet (enough detections, with enough motion, within the maximum time); the linking date is the first such night. The configured efficiency is applied per linking
opportunity, independently per object, and unlinked observations are dropped, or kept and flagged, as configured; nothing else changes and the result is in time order.""",
"inputs schedules configurations", "all observing histories, linking parameters, row orders, object mixes", "Tests use a few hand-made histories with default parameters.",
[M+"PPLinkingFilter.py", M+"PPMiniDifi.py"],
[("tracklet search", M+"PPMiniDifi.py:hasTracklet"), ("track window", M+"PPMiniDifi.py:trackletsInNights / discoveryOpportunities / linkObject"), ("result assembly", M+"PPLinkingFilter.py")],
"Observations are at night as the code requires. Fraction linked judged with 6.5-sigma bounds.", "property-based testing against a brute-force reference; metamorphic relations; statistical oracle")

prop("C20", "DES distance and motion cuts keep exactly what is inside their bounds",
"""The distance cut keeps every observation of each object that has at least one observation at a heliocentric distance strictly between the
configured bounds, and nothing of any other object. The motion cut keeps exactly the observations whose total on-sky rate is strictly between the
configured bounds. Survivors keep their values and their order.""",
"inputs configurations", "all positions, rates and bounds", "Tests use a few rows.",
[M+"PPDistanceandMotionCuts.py"], [("distance cut", M+"PPDistanceandMotionCuts.py:distance_cut"), ("motion cut", M+"PPDistanceandMotionCuts.py:motion_cut")],
"", "property-based testing against a row-by-row reference")

prop("C21", "DES discovery keeps exactly the objects that meet the discovery rules",
"""An object's observations survive the DES discovery filter exactly when it was seen on at least nine nights, or on at least seven nights with an arc of over half a year that does not
hinge on one night and with three nights whose consecutive gaps are below 60 days (90 if it never comes within 50 au of the Sun). All of a discovered object's observations are kept
unchanged and in time order, none of another's.""",
"inputs", "all observing histories, distances, row orders, object mixes", "Tests use four hand-made objects.",
[M+"DESDiscoveryFilter.py"], [("night count", M+"DESDiscoveryFilter.py:compute_nunique"), ("arc", M+"DESDiscoveryFilter.py:compute_arccut"), ("triplet", M+"DESDiscoveryFilter.py:compute_triplet")],
"Nights are generated so that a night's observations span under six hours.", "property-based testing against a brute-force reference over nights")

prop("C27", "The detections file holds every chunk's rows once, in the format asked for",
"""The detections file holds exactly the detections of all chunks, once and in order, in the configured format (csv, SQLite or HDF5), with exactly the configured columns
(basic, all or a list) and with every value as computed, or rounded to the configured number of decimals (zero included) for positions and magnitudes only. It does so whatever the identifiers'
lengths and the number of chunks. Asking for a column that does not exist ends the run with an error.""",
"inputs configurations histories", "all sequences of chunks, identifiers, column choices, formats and roundings",
"Tests write one small table once per format with a few column choices.",
[M+"PPOutput.py"], [("column selection and rounding", M+"PPOutput.py:PPWriteOutput"), ("appending", M+"PPOutput.py:PPOutWriteCSV / PPOutWriteHDF5 / PPOutWriteSqlite3")],
"Files are read back with csv, sqlite3 and pandas, not with sorcha.", "property-based testing: write/read-back round trip over chunk sequences")

prop("C28", "The statistics file tallies every detected object in every filter it was seen in",
"""The statistics file has exactly one row for every object and filter with detections, with the number of observations, smallest, largest and median apparent magnitude and smallest and largest
phase angle of exactly those detections and, with linking on, that object's own linking state and date. Chunks add up to one table and the observations themselves are not changed.""",
"inputs histories", "all tables of detections and chunk sequences", "Tests check two objects in one chunk without the filter categories that a real run has.",
[M+"PPStats.py"], [("grouping and aggregation", M+"PPStats.py:stats")],
"", "property-based testing against a reference tally")

prop("C29", "Configurations are taken as written, and invalid ones are refused before the run",
"""A configuration file that follows the documented rules is accepted for its survey and every setting has the value written in the file or its documented default, whatever the order of sections and the case of keys.
One that breaks a rule (missing or superfluous key, wrong type, value out of range, unsupported combination) ends the run with an error. Every configuration file shipped with the package loads for its survey.""",
"configurations", "all combinations of settings and all single broken rules", "Tests cover one file and single rules at one value; shipped files are not loaded.",
[U+"sorchaConfigs.py", "src/sorcha/data/survey_setups"], [("section validation", U+"sorchaConfigs.py:*Configs"), ("type casts", U+"sorchaConfigs.py:cast_as_int / cast_as_float / cast_as_bool")],
"", "property-based testing: generated valid files against their own text, and rule-breaking mutations")

prop("C22", "Faint-object culling removes exactly the objects too faint in every filter",
"""With brute_force off, an object is left out of the simulation exactly when its perihelion is at least 2 au and its brightest possible apparent magnitude (from its perihelion, with its colours and any brightening that
the light-curve or activity model allows) is more than 2 magnitudes below the deepest visit in every observing filter. A filter without visits cannot save an object and does not stop the run. Kept objects are unchanged and in order.""",
"inputs configurations", "all orbits in all formats, magnitudes, colours, sets of visits and models", "No test of the repository runs this filter in a simulation; a few rows with given q are checked.",
[M+"PPFaintObjectCullingFilter.py", E+"simulation_parsing.py"], [("limit", M+"PPFaintObjectCullingFilter.py:PPFaintObjectCullingFilter"), ("perihelion", E+"simulation_parsing.py:get_perihelion_row")],
"Objects at the limit are not judged.", "property-based testing against a row-by-row reference")

prop("C23", "The ephemeris generator lists every object in a visit's field and none outside",
"""For any set of orbits and visits, in any order of time, the generated ephemeris has one entry for every object whose apparent place at the time of the visit lies within the field's radius (objects that move too fast for the configured
pickets and pixels excepted, as documented), and none for an object beyond the field and its buffer. This holds for every picket interval, HEALPix order, number of sub-intervals, field size and observatory.""",
"inputs schedules configurations", "all orbits, visit sequences, fields and search settings", "The end-to-end test covers one visit list with one setting and needs downloaded data.",
[E+"pixel_dict.py", E+"simulation_driver.py", E+"simulation_geometry.py"], [("pickets", E+"pixel_dict.py:update_pickets"), ("pixels", E+"pixel_dict.py:compute_pixel_traversed / get_designations"), ("field cut", E+"simulation_driver.py:create_ephemeris")],
"Real ASSIST and SPICE over made-up kernels; ASSIST itself is trusted.", "property-based testing: exhaustive position search as reference")

prop("C24", "Generated ephemerides have the right place, rates, distances and phase",
"""Every entry of a generated ephemeris has the light-time corrected right ascension, declination, range, rates of the three, heliocentric position and velocity of object and observer, and phase angle
that the orbit has for that observatory at the mid-exposure time of the visit, and carries the identifier (as written), orbit and physical parameters of its own object and the identifier and time of its own visit.""",
"inputs configurations", "all orbits in all formats and epochs, visits, observatories, identifiers", "Tests compare one object with stored values.",
[E+"simulation_driver.py", E+"simulation_geometry.py", E+"simulation_setup.py", E+"simulation_parsing.py"], [("geometry", E+"simulation_driver.py:calculate_rates_and_geometry"), ("light time", E+"simulation_geometry.py:integrate_light_time"), ("initial state", E+"simulation_setup.py:generate_simulations"), ("observer", E+"simulation_setup.py:precompute_pointing_information")],
"Real ASSIST and SPICE over made-up kernels; ASSIST itself is trusted.", "property-based testing against independent positions; rates against finite differences")

prop("C25", "Orbital elements of every format describe the same orbit",
"""The six orbit formats (cometary, Keplerian, Cartesian, heliocentric and barycentric) convert to the state vector of the two-body orbit they describe, and states convert back to the elements, for
elliptic, parabolic and hyperbolic orbits of any size, orientation and time from perihelion. An unknown format is refused.""",
"inputs", "all orbits, times and formats", "Tests convert a few orbits.",
[E+"orbit_conversion_utilities.py", E+"simulation_parsing.py"], [("Kepler's equation in universal variables", E+"orbit_conversion_utilities.py:universal_cartesian"), ("elements", E+"orbit_conversion_utilities.py:universal_cometary / universal_keplerian"), ("formats", E+"simulation_parsing.py:parse_orbit_row")],
"Reference with 45 digits.", "property-based testing: high-precision reference and round trips")

prop("C26", "Frames, time scales and the observatory's place are right everywhere",
"""Conversions between ecliptic and equatorial vectors and between directions and vectors are exact inverses at every place on the sky; TAI dates convert to TDB to better than a millisecond; an observatory with any geographic coordinates
(zero included) has its barycentric place and velocity at any date; the pixels for a search contain the whole search area; the pointing table gains these values row by row; the kernels load from any data folder.""",
"inputs configurations", "all directions, dates, observatories, search radii, pointing tables, folder paths", "Tests compare single values.",
[E+"simulation_geometry.py", E+"simulation_parsing.py", E+"simulation_setup.py", U+"generate_meta_kernel.py"], [("rotation", E+"simulation_geometry.py:ecliptic_to_equatorial"), ("time", E+"simulation_parsing.py:mjd_tai_to_epoch"), ("observatory", E+"simulation_parsing.py:Observatory"), ("pointing table", E+"simulation_setup.py:precompute_pointing_information")],
"Real SPICE over made-up kernels with known motion.", "property-based testing against closed formulas and round trips")

prop("C07", "Orbit files are accepted or refused by the documented rules",
"""A file of orbits in one of the six formats with exactly the documented columns and physical elements is read with all of its values, whole, in blocks or by object. One without FORMAT, with mixed or unknown formats, with missing or
superfluous columns, missing values, or with impossible elements (negative eccentricity or perihelion, unbound or negative-axis Keplerian orbits) ends the run with an error, and merely unusual elements do not.""",
"inputs", "all orbit tables and single defects at any row", "Tests try single defects in two-row files.",
[R+"OrbitAuxReader.py"], [("validation", R+"OrbitAuxReader.py:_process_and_validate_input_table")],
"", "property-based testing: valid tables and rule-breaking mutations")

prop("C30", "The command line runs what it is given and never overwrites results unasked",
"""A run started from the command line uses the files, stem and seed it is given. If a detections, statistics or ephemeris file of the same name exists, the run ends with an error and leaves every file as it was, unless --force is given:
then exactly these files are replaced by the new results and no other file is touched. Contradictory or missing arguments end the run with an error before any result is written.""",
"inputs configurations histories", "all file names (pattern characters included), folder contents, flags and contradictions", "One test with one file name; the run command itself is only tested with downloaded data.",
[U+"sorchaCommandLineParser.py", "src/sorcha_cmdline/run.py", U+"sorchaArguments.py", U+"sorchaGetLogger.py"], [("existing files", U+"sorchaCommandLineParser.py:warn_or_remove_file"), ("argument checks", "src/sorcha_cmdline/run.py:execute")],
"Runs in scratch folders with external ephemerides.", "property-based testing: folder contents before and after against a model")

prop("C31", "The output tools report every run's log and combine every run's results",
"""The log check classifies every log below the folder as that of a completed or an unfinished run, with its last line, whatever the logs contain (nothing included), and never overwrites a report unasked. The combined database
has every row of every matching result database once, and every row of the input tables, with identifiers as written, whenever and wherever it is made.""",
"inputs histories", "all folders of logs, results and inputs; repeated runs", "Tests use one folder.",
[U+"check_output_logs.py", U+"createResultsSQLDatabase.py", "src/sorcha_cmdline/outputs.py"], [("log check", U+"check_output_logs.py:check_all_logs"), ("combination", U+"createResultsSQLDatabase.py:create_results_table / create_inputs_table")],
"", "property-based testing: folder model, read back with sqlite3 and csv")

prop("C32", "A generated ephemeris read back from its file gives the same detections",
"""A run that generates its ephemeris and writes it (csv, whitespace-separated or HDF5) and a run that reads this file give the same detections, for any number of chunks, any identifiers and fields without objects. Object order and
chunk size do not change the generated ephemeris of an object.""",
"inputs configurations schedules", "all object sets, visits, chunk sizes, formats, identifiers", "The end-to-end tests need downloaded data and use one file.",
[E+"simulation_driver.py", "src/sorcha/sorcha.py", R+"EphemerisReader.py"], [("ephemeris output", E+"simulation_driver.py:write_out_ephemeris_file"), ("chunk loop", "src/sorcha/sorcha.py:runLSSTSimulation")],
"Real ASSIST and SPICE over made-up kernels.", "property-based testing: metamorphic relation between whole runs")

prop("C33", "Set-up commands deliver whole, exact files and lose nothing",
"""`sorcha init` and `sorcha demo prepare` copy exactly the shipped files asked for, or, when one exists and --force is not given, refuse and change nothing. `sorcha bootstrap` leaves a complete cache alone, fetches exactly the
missing auxiliary files from their own addresses (all of them with --force), leaves no partial file or meta kernel behind when downloads fail, never reports missing files as found, and completes the cache when run again.
A run uses the auxiliary files its configuration names and takes no file of the user's own from the default address.
`sorcha VERB` passes arguments and exit status through unchanged.""",
"inputs configurations fault_sequences", "all folder and cache contents, selections, failing servers, auxiliary file names and addresses, argument lists", "Tests copy into an empty folder; bootstrap is untested (needs network).",
[U+"sorcha_copy_configs.py", U+"sorcha_copy_demo_files.py", U+"retrieve_ephemeris_data_files.py", U+"generate_meta_kernel.py", "src/sorcha_cmdline/bootstrap.py", "src/sorcha_cmdline/main.py", E+"simulation_data_files.py"],
[("copying", U+"sorcha_copy_configs.py:copy_demo_configs"), ("download and clean-up", "src/sorcha_cmdline/bootstrap.py:execute"), ("names and addresses", U+"sorchaConfigs.py:auxiliaryConfigs")],
"The network is a stand-in for requests.get.", "property-based testing: model of the folder and cache, with injected download faults")

prop("C34", "Physical parameters and ephemerides fit the configuration, or the run is refused",
"""Whatever the order of the columns and whatever columns of the user's own stand among them, a run takes the main filter from the absolute magnitude column of the physical parameters file and uses exactly the colours of
the other observing filters and the phase curve parameters of its phase function. A file without one of these columns, with the absolute magnitude in another filter than the first observing filter, or with the
wrong separator, an object without one of these values, and an external ephemeris without a column or a value or with an unknown column end the run with an error; values missing from columns a run does not need change nothing.""",
"inputs configurations", "all filters, phase functions, column orders, columns of the user's own; any column or value missing", "Tests read two files with one order of columns; no run with a missing column or value is tested.",
[M+"PPGetMainFilterAndColourOffsets.py", R+"CSVReader.py", R+"EphemerisReader.py", M+"PPApplyColourOffsets.py"],
[("main filter and colours", M+"PPGetMainFilterAndColourOffsets.py:PPGetMainFilterAndColourOffsets"), ("phase curve columns", M+"PPApplyColourOffsets.py:PPApplyColourOffsets"), ("ephemeris columns", R+"EphemerisReader.py:_process_and_validate_input_table")],
"External ephemerides.", "property-based testing: generated headers and tables against the documented contract; negative cases by removal")

prop("C35", "A run's logs repeat it, state its settings and tell success from failure",
"""A run without a seed of its own can be repeated exactly with the seed its log gives. The log states every setting in use: changing the value of one changes what is logged, and the value is in it.
The error log of a complete run is empty; a run that ends because its inputs or its configuration do not fit says so in its error log and in its log, and exits with an error.""",
"inputs configurations", "all configurations of both surveys, any setting changed; inputs that do not fit in any way", "Tests check that the two log files exist; nothing reads what runs log.",
[U+"sorchaConfigs.py", U+"sorchaArguments.py", U+"sorchaModuleRNG.py", U+"sorchaGetLogger.py", "src/sorcha_cmdline/run.py"],
[("settings", U+"sorchaConfigs.py:PrintConfigsToLog"), ("seed", U+"sorchaModuleRNG.py:PerModuleRNG"), ("log files", U+"sorchaGetLogger.py:sorchaGetLogger")],
"External ephemerides.", "property-based testing: replay from the log (metamorphic), single-setting differences, outcome against log contents")

prop("C36", "Brightness models are found by their name and applied exactly where asked for",
"""Every class derived from the light-curve or activity template is available under its own name once new classes are made known, whenever it was defined and apart from the other kind; making classes known again changes nothing,
a second class of the same name does not replace the first, and collecting all classes refuses it. A configuration accepts exactly the registered names, or none. Naming a model changes the brightness of each observation by exactly
what that model computes for it and nothing else; the identity models change nothing, in whole runs and when faint objects are culled too. A model whose required columns are missing ends the run with an error.""",
"inputs configurations histories", "all histories of definitions and registrations, all sets of models and choices among them, all observations", "Tests register one class of each kind and one duplicate; the identity activity model is never run.",
["src/sorcha/lightcurves/lightcurve_registration.py", "src/sorcha/activity/activity_registration.py", "src/sorcha/lightcurves/identity_lightcurve.py", "src/sorcha/activity/identity_activity.py", M+"PPCalculateSimpleCometaryMagnitude.py", M+"PPCalculateApparentMagnitudeInFilter.py", M+"PPFaintObjectCullingFilter.py", U+"sorchaConfigs.py"],
[("registration", "src/sorcha/lightcurves/lightcurve_registration.py:update_lc_subclasses"), ("registration", "src/sorcha/activity/activity_registration.py:register_activity_subclasses"), ("use of the chosen model", M+"PPCalculateApparentMagnitudeInFilter.py"), ("names in the configuration", U+"sorchaConfigs.py:lightcurveConfigs")],
"External ephemerides in whole runs; models derived from the templates themselves.", "property-based testing: model-based histories, differential and metamorphic relations between models")
