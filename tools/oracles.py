"""Per property: the oracle (what the code is compared to) and why generated search reaches what the tests cannot."""
ORACLE = {
"C01": "Metamorphic: the same survey in different chunk sizes, object orders, ephemeris orders and file formats, and split over separate runs, must give the same detections, values and statistics; stochastic modules are off or set so sharp that the outcome is certain.",
"C02": "Metamorphic: the same run twice with one seed, after disturbing numpy's global generator and running something else in the process, must give identical bytes; another seed must differ; switching one random module off must leave the draws of the others. Streams of generated module names are compared to the documented derivation only through their independence and repeatability.",
"C03": "Reference model `vlib/e2e.py:expected`: the documented chain of modules written again from the documentation for one observation at a time (no pandas), with its own geometry, photometry, linking and saturation; whole runs are compared row by row and value by value.",
"C04": "The same reference model with the DES modules (distance and motion cuts, visits footprint, transient efficiency, discovery).",
"C05": "Round trip: the generated table is the oracle for every way of reading it.",
"C06": "Set and multiset model of the join: which objects and rows a block must hold, judged against the tables it was built from.",
"C07": "The generated table is the oracle for files that follow the rules; for broken ones the oracle is the rule that was broken (SystemExit with an error, no results).",
"C08": "The SQLite database is written by the check; the table that must come out is computed from its rows; filters, times and the join of ephemeris and visits by a dictionary.",
"C09": "HG (Bowell 1989), linear and H re-derived; HG1G2 and HG12_Pen16 evaluated one row at a time through sbpy with that row's own parameters (sbpy is trusted, the selection of parameters is not); distance term, colours and plugins by name; metamorphic scaling of distances and H.",
"C10": "Both trailing formulae of Veres & Chesley as documented, entered again for one observation at a time; zero at rest, independent of direction, monotonic in rate and seeing.",
"C11": "The nodes of the shipped vignetting table entered independently (exact at nodes, bounded by the neighbours between them), separations from vectors, and invariants: at the centre nothing is lost, nothing is deepened, only the separation matters.",
"C12": "SNR, photometric and astrometric errors from the LSST formulae entered again for one observation at a time; monotonicity, floors, 5 sigma at the depth.",
"C13": "Position and magnitude residuals of many draws against their stated normal distributions (moments, correlations and isotropy within 6.5 sigma), at every place on the sky including poles; rows, truth columns and the SNR cut row by row; unit conversions by closed formulae.",
"C14": "Independent point-in-polygon with signed distance in the tangent plane for each detector, for generated and built-in cameras, rotations and thresholds.",
"C15": "Exact separation against the radius; the fill factor by binomial bounds and independence of field and object.",
"C16": "Point-in-quadrilateral by signed distances on the unwrapped sky; the depth and identity of the detector that holds the point.",
"C17": "Closed formulae of both fading functions, and binomial bounds for what is kept.",
"C18": "One-line reference filters at generated limits, including values equal to the limit.",
"C19": "Brute-force linking reference (all tracklets by pairs of positions, all windows), certain efficiency; then binomial bounds for efficiency below one.",
"C20": "One-line reference of the distance and motion cuts per object / observation.",
"C21": "Brute-force enumeration of all triplets of nights and all windows.",
"C22": "Row-by-row reference with the perihelion that the orbit was built from (not recomputed).",
"C23": "Exhaustive search: every object is integrated to every visit with an own set-up of ASSIST and an own light-time iteration; the set of pairs within the field must be listed.",
"C24": "Same integrator with own initial states (45-digit two-body), own observer and Sun (the formulae the kernels were made from); rates against finite differences of positions.",
"C25": "45-digit two-body solution (mpmath) and round trips state -> elements -> state.",
"C26": "Closed formulae for frames, TAI-TDB, geodetic positions and the made-up kernels.",
"C27": "Round trip: written in chunks, read back with csv, sqlite3 and pandas, compared to the frames that went in (selection, rounding by Decimal).",
"C28": "Tally by dictionary of lists; medians by hand; chunks appended.",
"C29": "The text of the file is the oracle: every key's value, or its documented default; each rule has a generated violation.",
"C30": "Model of the folder: names that are outputs of the run and names that are not, contents before and after; results against the same run called as a function.",
"C31": "Model of the tree: which log is complete, which row is in which database; read back with csv and sqlite3.",
"C32": "Metamorphic relation between whole runs (generated / from the file / other order and chunks), and an independent end-to-end prediction of generated detections (own positions, magnitudes, culling rule).",
"C33": "Model of the folder or cache: for every file its shipped text, the text its address serves, or what was there before; injected download faults (404, no connection, cut half-way, for good or for a number of attempts), then recovery; a scripted verb that records its arguments.",
"C34": "The documented contract written out: which columns and values a configuration needs; a run must match the reference model of C03/C04 with columns of the user's own added, and must end with an error once a needed column or value is taken away.",
"C35": "The run itself, repeated with the seed its log gives; two logs of configurations that differ in one setting; the exit status against the contents of the two log files.",
"C36": "A dictionary of what was defined and made known, operation by operation; the generated model's own one-line formula; runs and cullings with the identity model against those with none, and with models that brighten against brighter objects with none.",
}
