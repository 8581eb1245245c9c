"""Whole runs on external ephemerides: a generated survey (visits, objects, ephemeris, configuration) and the
detections the documentation says it must produce."""
import csv
import math
import os
import random
import sqlite3

import numpy as np
from hypothesis import strategies as st

from checks import c14, c16, c19
from checks.c05 import EPH
from checks.c08 import D_COLS, DES_QUERY, L_COLS, LSSTQ
from checks.c09 import PF, PRANGE, reduced, register
from checks.c10 import ref as trail_ref
from checks.c12 import snr as snr_ref
from checks.c21 import ambiguous, discovered
from vlib.core import HarnessError, require
from vlib.gen import AU_KM, DES, LSST, VISITS_QUERY, fl, fx, make_db, object_ids, offset_point, sep_deg, write_ini

BASIC = [
    "ObjID", "fieldMJD_TAI", "fieldRA_deg", "fieldDec_deg", "RA_deg", "Dec_deg", "astrometricSigma_deg", "optFilter", "trailedSourceMag",
    "trailedSourceMagSigma", "fiveSigmaDepth_mag", "phase_deg", "Range_LTC_km", "RangeRate_LTC_km_s", "Obj_Sun_LTC_km",
]
NIGHT = {"lsst": 0.05, "des": 0.05}  # time of day (TAI MJD fraction) a night's visits start: night in Chile


@st.composite
def world(draw, survey="lsst", max_obj=5, stochastic=False, plugins=True, min_obj=1):
    des = survey == "des"
    names = DES if des else LSST
    nf = draw(st.integers(1, len(names)))
    filters = list(draw(st.permutations(names)))[:nf]
    fn = draw(st.sampled_from(list(PF)))
    perfilt = draw(st.booleans()) and not plugins or (draw(st.booleans()) and nf > 1)
    ids = draw(object_ids(min_obj, max_obj))
    objs = []
    for _ in ids:
        o = {"H": draw(fx(3, 11, 2) if des else fx(13, 21, 2)), "col": [draw(fx(-1, 2, 2)) for _ in filters[1:]], "p": {}}
        for p in PF[fn]:
            for f in filters if perfilt else [""]:
                o["p"][p + f] = draw(PRANGE[p])
        o["off"] = [draw(fl(0, 360)), draw(st.one_of(fl(0, 0.6), fl(0, 1.1), fl(0, 1.9), fl(1.5, 2.6)))]
        o["rate"] = [draw(fx(-0.09, 0.09, 3)), draw(fx(-0.09, 0.09, 3))]
        o["delta"] = draw(fx(0.3, 5, 2)) if not des else draw(fx(5, 60, 1))
        o["sun"] = o["delta"] + draw(fx(0.1, 1, 2))
        o["phase"] = draw(st.one_of(fx(0.1, 40, 1), fx(40, 175, 1)))
        o["lca"] = draw(fx(-1, 1, 2))
        o["seen"] = draw(st.sampled_from(["all"] * 4 + ["most", "half", "none", "stray"]))
        objs.append(o)
    nights, n = [], 0
    long = des and draw(st.booleans())
    for _ in range(draw(st.integers(7, 11)) if long else draw(st.one_of(st.integers(1, 2), st.integers(3, 6)))):
        n += draw(st.sampled_from([1, 40, 50, 55, 61, 100]) if long else st.sampled_from([1, 1, 2, 3, 5, 12]))
        nights.append(
            [
                n,
                draw(
                    st.lists(
                        st.fixed_dictionaries(
                            {
                                "dt": st.sampled_from([0.008, 0.015, 0.03, 0.05]),
                                "f": st.one_of(st.integers(0, nf - 1), st.integers(0, nf - 1), st.integers(0, nf + 1)),
                                "b": fl(0, 360),
                                "s": fl(0, 0.6),
                                "m5": fx(21, 25, 2),
                                "see": fx(0.5, 1.5, 2),
                                "rot": fl(0, 360),
                                "et": st.sampled_from([15.0, 30.0, 90.0]),
                                "vk": st.sampled_from([1.0, 1.0, 1.0, 0.25, 4.0, 60.0]),  # this visit's motion and heliocentric distance, relative
                                "sk": st.sampled_from([1.0, 1.0, 1.0, 0.7, 1.6]),
                            }
                        ),
                        min_size=1 if long else draw(st.integers(1, 2)),
                        max_size=2 if long else 4,
                    )
                ),
            ]
        )
    w = {
        "survey": survey,
        "filters": filters,
        "fn": fn,
        "perfilt": bool(perfilt),
        "ids": ids,
        "objs": objs,
        "nights": nights,
        "long": long,
        "start": draw(st.integers(60000, 61000)) if not des else draw(st.integers(56500, 58000)),
        "ra": draw(st.one_of(st.sampled_from([0.0, 359.9]), fl(0, 359.9))),
        "dec": draw(fl(-60, 0)) if des else draw(fl(-80, 80)),
        "seed": draw(st.integers(0, 2**31 - 1)),
        "orders": [draw(st.permutations(range(len(ids)))) for _ in range(3)],
        "eph_order": draw(st.sampled_from(["object", "time", "mixed"])),
        "aux": draw(st.sampled_from(["csv", "csv", "whitespace"])),
        "cols_seed": draw(st.integers(0, 999)),
        "extra": draw(st.lists(st.sampled_from(["albedo", "diam", "note", "class"]), unique=True, max_size=2)),
        "pad": draw(st.sampled_from(["", "", " ", "  "])),
        "efmt": draw(st.sampled_from(["csv"] * 4 + ["whitespace", "hdf5"])),
        "chunk": draw(st.sampled_from([1, 2, 3, 10, 100])),
        "out": draw(st.sampled_from(["csv"] * 5 + ["sqlite3"] * 2 + ["hdf5"])),
        "cols": "all" if stochastic else draw(st.sampled_from(["all", "all", "basic"])),
        "stats": draw(st.booleans()),
        "lc": draw(st.sampled_from([None, None, "verif_lc"])) if plugins else None,
        "ca": draw(st.sampled_from([None, None, None, "verif_ca"])) if plugins else None,
        "cam": draw(st.sampled_from(["none", "circle", "circle", "footprint", "footprint"] + (["visits_footprint"] * 2 if des else []))),
        "radius": draw(fx(0.4, 2.2, 2)),
        "edge": draw(st.sampled_from([None, 2.0])),
        "limit": draw(st.sampled_from([None, None, "snr", "mag"])),
        "snr": draw(fx(2, 15, 1)),
        "mag": draw(fx(19, 24, 1)),
        "bright": draw(st.sampled_from([None, "one", "each"])),
        "brights": [draw(fx(12, 20, 1)) for _ in filters],
        "fading": draw(st.booleans()),
    }
    if des:
        w["fading"] = w["fading"]
        w["discovery"] = draw(st.sampled_from([True, True, False])) if long else draw(st.sampled_from([False] * 5 + [True]))
        w["distance"] = draw(st.sampled_from([None, None, [8.0, 45.0], [0.1, 30.0]]))
        w["motion"] = draw(st.sampled_from([None, None, [0.0002, 0.02], [0.0, 0.002]] if long else [None, None, [0.005, 0.1], [0.0, 0.06]]))
        w["ccds"] = [draw(st.one_of(st.just(list(range(61))), st.lists(st.integers(0, 60), max_size=30, unique=True))) for _ in range(3)]
    else:
        w["trailing"] = draw(st.booleans())
        w["vignetting"] = draw(st.booleans())
        w["random"] = False
        w["linking"] = draw(st.sampled_from([None, None, "drop", "keep"]))
        w["link"] = {"nobs": draw(st.sampled_from([1, 2, 2, 3])), "ntrk": draw(st.sampled_from([1, 2, 3])), "win": draw(st.sampled_from([5, 15])), "sep": 0.5, "maxt": 0.0625, "noon": 16.0, "eff": 1.0}
    return w


def is_des(w):
    return w["survey"] == "des"


def visits(w):
    """[{id, filter, mjd (ephemeris time = start of exposure), ra, dec, ...}], in the order of the survey."""
    out = []
    allf = w["filters"] + [f for f in (DES if is_des(w) else LSST) if f not in w["filters"]] + ["VR"]
    for n, vs in w["nights"]:
        t = w["start"] + n + NIGHT[w["survey"]]
        for v in vs:
            t += v["dt"]
            ra, dec = offset_point(w["ra"], w["dec"], v["b"], v["s"])
            if not out:  # a survey has at least one visit in the filters asked for
                v = dict(v, f=v["f"] % len(w["filters"]))
            out.append(dict(v, id=5000 + 7 * len(out), filter=allf[min(v["f"], len(allf) - 1)], mjd=t, ra=ra, dec=dec, c=1.0, k=4000.0))
    return out


def eph_rows(w):
    """Ephemeris rows as dicts, in file order."""
    vs = visits(w)
    t0 = vs[0]["mjd"]
    rows = []
    for k, o in enumerate(w["objs"]):
        r0, d0 = offset_point(w["ra"], w["dec"], o["off"][0], o["off"][1])
        slow = 0.02 if w["long"] else 1.0
        for j, v in enumerate(vs):
            if o["seen"] in ("none", "stray") or (o["seen"] == "half" and (j + k) % 2) or (o["seen"] == "most" and j % 5 == 3):
                continue
            dt = v["mjd"] - t0
            dec = d0 + o["rate"][1] * dt * slow
            ra = (r0 + o["rate"][0] * dt * slow / math.cos(math.radians(max(-89.0, min(89.0, d0))))) % 360.0
            if not -89.5 < dec < 89.5:
                continue
            u = o["sun"] * v["sk"]
            x = [u * 0.6 * AU_KM, -u * 0.64 * AU_KM, u * 0.48 * AU_KM]
            if j % 2:
                x = [x[1], x[2], -x[0]]
            r = {"ObjID": w["ids"][k], "FieldID": v["id"], "fieldMJD_TAI": v["mjd"], "Range_LTC_km": o["delta"] * AU_KM, "RangeRate_LTC_km_s": -3.5 + k,
                 "RA_deg": ra, "RARateCosDec_deg_day": o["rate"][0] * slow * v["vk"], "Dec_deg": dec, "DecRate_deg_day": o["rate"][1] * slow * v["vk"]}
            r.update(zip(EPH[9:12], x))
            r.update({c: 0.5 * i + k for i, c in enumerate(EPH[12:15])})
            r.update({c: 1e8 * (i + 1) for i, c in enumerate(EPH[15:18])})
            r.update({c: 1.25 * i for i, c in enumerate(EPH[18:21])})
            r["phase_deg"] = o["phase"] + 0.125 * (j % 4)
            rows.append(r)
    if w["eph_order"] == "time":
        rows.sort(key=lambda r: r["FieldID"])
    elif w["eph_order"] == "mixed":
        rows = rows[1::3] + rows[0::3] + rows[2::3]
    # an object that is only in visits the pointing database does not have
    for k, o in enumerate(w["objs"]):
        if o["seen"] == "stray" and rows:
            rows[len(rows) // 2 : len(rows) // 2] = [dict(rows[0], ObjID=w["ids"][k], FieldID=999990 + j) for j in range(2)]
    # a row for a visit the pointing database does not have, and an object that is not in the orbit file
    if rows:
        rows.insert(len(rows) // 2, dict(rows[0], FieldID=999999))
        rows.append(dict(rows[0], ObjID="not_in_orbits"))
    return rows


def link_on(w):
    return (not is_des(w)) and w["linking"] is not None


def ini_sections(w):
    des = is_des(w)
    s = {
        "INPUT": {"ephemerides_type": "external", "eph_format": w["efmt"], "size_serial_chunk": w["chunk"], "aux_format": w["aux"], "pointing_sql_query": DES_QUERY if des else LSSTQ},
        "FILTERS": {"observing_filters": ",".join(w["filters"])},
        "PHASECURVES": {"phase_function": w["fn"]},
        "FOV": {"camera_model": w["cam"]},
        "FADINGFUNCTION": {"fading_function_on": str(w["fading"])},
        "OUTPUT": {"output_format": w["out"], "output_columns": w["cols"]},
        "EXPERT": {},
        "LIGHTCURVE": {"lc_model": w["lc"] or "none"},
        "ACTIVITY": {"comet_activity": w["ca"] or "none"},
    }
    if w["bright"]:
        s["SATURATION"] = {"bright_limit": str(w["brights"][0]) if w["bright"] == "one" else ",".join(str(b) for b in w["brights"])}
    if w["cam"] == "circle":
        s["FOV"]["circle_radius"] = w["radius"]
        if w.get("fill") is not None:
            s["FOV"]["fill_factor"] = w["fill"]
    if w["cam"] == "footprint" and w["edge"] is not None:
        s["FOV"]["footprint_edge_threshold"] = w["edge"]
    if w["cam"] == "visits_footprint":
        s["FOV"]["visits_query"] = VISITS_QUERY
    if w["limit"] == "mag":
        s["EXPERT"]["mag_limit"] = w["mag"]
    if w["limit"] == "snr" and not des:
        s["EXPERT"]["SNR_limit"] = w["snr"]
    if des:
        if w["fading"]:
            s["FADINGFUNCTION"]["des_transient_efficency"] = w.get("transient", 1.0)
        s["LINKINGFILTER"] = {"des_discovery_on": str(w["discovery"])}
        if w["distance"]:
            s["LINKINGFILTER"].update(distance_cut_lower=w["distance"][0], distance_cut_upper=w["distance"][1])
        if w["motion"]:
            s["LINKINGFILTER"].update(motion_cut_lower=w["motion"][0], motion_cut_upper=w["motion"][1])
    else:
        s["EXPERT"].update(trailing_losses_on=w["trailing"], vignetting_on=w["vignetting"], randomization_on=w["random"])
        if w.get("snrcut") is not None:
            s["EXPERT"]["default_snr_cut"] = w["snrcut"]
        if w["fading"]:
            s["FADINGFUNCTION"].update(fading_function_width=w.get("width", 0.001), fading_function_peak_efficiency=w.get("peak", 1.0))
        if link_on(w):
            k = w["link"]
            s["LINKINGFILTER"] = dict(ssp_detection_efficiency=k["eff"], ssp_number_observations=k["nobs"], ssp_separation_threshold=k["sep"], ssp_maximum_time=k["maxt"],
                                      ssp_number_tracklets=k["ntrk"], ssp_track_window=k["win"], ssp_night_start_utc=k["noon"], drop_unlinked=str(w["linking"] == "drop"))
    return s


def table(path, fmt, header, rows, shuffle=None, pad=""):
    """A table of text: its columns (but the first) in another order if asked to, blanks around the names of a csv file."""
    sep = " " if fmt == "whitespace" else ","
    if shuffle is not None:
        order = [0] + random.Random(shuffle).sample(range(1, len(header)), len(header) - 1)
        header, rows = [header[i] for i in order], [[r[i] for i in order] for r in rows]
    if fmt != "whitespace":
        header = header[:1] + [pad + h + pad[1:] for h in header[1:]]
    with open(path, "w") as f:
        f.write(sep.join(header) + "\n")
        for r in rows:
            f.write(sep.join(repr(x) if isinstance(x, float) else str(x) for x in r) + "\n")
    return path


def write(w, d):
    """Writes every input file into directory d, returns the arguments dictionary of a run."""
    import pandas as pd

    des = is_des(w)
    main = w["filters"][0]
    vs = visits(w)
    rows = []
    for v in vs[1::2] + vs[0::2]:
        if des:
            rows.append((v["id"], v["mjd"] + v["et"] / 2 / 86400, v["et"], v["filter"], v["m5"], v["ra"], v["dec"], v["c"], v["k"]))
        else:
            rows.append((v["id"], v["mjd"], v["et"] + 4, v["et"], v["filter"], v["see"], v["see"] * 1.1, v["m5"], v["ra"], v["dec"], v["rot"], "n"))
    make_db(os.path.join(d, "pointing.db"), "observations", D_COLS if des else L_COLS, rows)
    vdb = None
    if w["cam"] == "visits_footprint":
        vdb = visits_db(w, os.path.join(d, "visits.db"))
    n = len(w["ids"])
    orb = [[w["ids"][k], "KEP", 2.5 + k, 0.1, 5.0 + k, 10.0, 20.0, 30.0, 60000.0] for k in range(n)]
    par = [[w["ids"][k], w["objs"][k]["H"]] + list(w["objs"][k]["col"]) + list(w["objs"][k]["p"].values()) + [{"note": "x%d" % k, "class": "MBA"}.get(x, 0.25 + k) for x in w["extra"]] for k in range(n)]
    cpl = [[w["ids"][k], w["objs"][k]["lca"]] for k in range(n)]
    o = w["orders"]
    table(os.path.join(d, "orbits.txt"), w["aux"], ["ObjID", "FORMAT", "a", "e", "inc", "node", "argPeri", "ma", "epochMJD_TDB"], [orb[k] for k in o[0]], w["cols_seed"], w["pad"])
    table(os.path.join(d, "params.txt"), w["aux"], ["ObjID", "H_" + main] + [f"{f}-{main}" for f in w["filters"][1:]] + list(w["objs"][0]["p"]) + w["extra"], [par[k] for k in o[1]], w["cols_seed"], w["pad"])
    table(os.path.join(d, "complex.txt"), w["aux"], ["ObjID", "vary"], [cpl[k] for k in o[2]], None, w["pad"])
    er = eph_rows(w)
    if w["efmt"] == "hdf5":
        df = pd.DataFrame(er, columns=EPH) if er else pd.DataFrame([dict({c: 0.0 for c in EPH}, ObjID="not_in_orbits", FieldID=1)], columns=EPH)
        df.to_hdf(os.path.join(d, "eph.dat"), key="data", format="table", min_itemsize={"ObjID": 40})
    else:
        table(os.path.join(d, "eph.dat"), w["efmt"], EPH, [[r[c] for c in EPH] for r in er], w["cols_seed"], w["pad"])
    write_ini(os.path.join(d, "config.ini"), ini_sections(w))
    out = os.path.join(d, "out")
    os.makedirs(out, exist_ok=True)
    return {
        "paramsinput": os.path.join(d, "params.txt"),
        "orbinfile": os.path.join(d, "orbits.txt"),
        "input_ephemeris_file": os.path.join(d, "eph.dat"),
        "configfile": os.path.join(d, "config.ini"),
        "outpath": out,
        "outfilestem": "run",
        "pointing_database": os.path.join(d, "pointing.db"),
        "output_ephemeris_file": None,
        "ar_data_path": None,
        "loglevel": False,
        "stats": "tally" if w["stats"] else None,
        "visits_database": vdb,
        "surveyname": "des" if des else "rubin_sim",
        "seed": w["seed"],
        **({"complex_physical_parameters": os.path.join(d, "complex.txt")} if w["lc"] or w["ca"] else {}),
    }


def visit_ccds(w, j):
    return w["ccds"][j % len(w["ccds"])]


def visits_db(w, path):
    rows = []
    for j, v in enumerate(visits(w)):
        for i, k in enumerate(visit_ccds(w, j)):
            k = k % len(c16.layout())
            c = c16.corners(v, k)
            cen = np.mean(c, axis=0)
            rows.append((v["id"], *[float(x) for p in c for x in p], float(cen[0]), float(cen[1]), 100 + k, chip_depth(v, i)))
    cols = "visitId,llcra,llcdec,lrcra,lrcdec,urcra,urcdec,ulcra,ulcdec,ra,dec,detectorID,magLim".split(",")
    return make_db(path, "observations", cols, rows)


def chip_depth(v, i):
    return v["m5"] - 0.5 + (i % 8) / 8


def run(args, return_only=False):
    """A run as `sorcha run` does it after parsing the command line; returns what it returns."""
    from sorcha.des import runDESSimulation
    from sorcha.sorcha import runLSSTSimulation
    from sorcha.utilities.sorchaArguments import sorchaArguments
    from sorcha.utilities.sorchaConfigs import sorchaConfigs

    register()
    cfg = sorchaConfigs(args["configfile"], args["surveyname"])
    a = sorchaArguments(dict(args))
    f = runDESSimulation if args["surveyname"] == "des" else runLSSTSimulation
    return f(a, cfg, return_only=return_only)


def convert(s):
    if s == "":
        return float("nan")
    try:
        return float(s)
    except ValueError:
        return s


def read_output(w, args, stem=None):
    """Rows of the detections file as dicts (ObjID as text), or None if there is no file."""
    stem = os.path.join(args["outpath"], stem or args["outfilestem"])
    if w["out"] == "csv":
        if not os.path.exists(stem + ".csv"):
            return None
        with open(stem + ".csv", newline="") as f:
            return [{k: (v if k in ("ObjID", "optFilter", "object_linked") else convert(v)) for k, v in r.items()} for r in csv.DictReader(f)]
    if w["out"] == "sqlite3":
        if not os.path.exists(stem + ".db"):
            return None
        con = sqlite3.connect(stem + ".db")
        cur = con.execute("select * from sorcha_results")
        names = [c[0] for c in cur.description]
        rows = [dict(zip(names, r)) for r in cur]
        con.close()
        return rows
    if not os.path.exists(stem + ".h5"):
        return None
    import pandas as pd

    return pd.read_hdf(stem + ".h5", "sorcha_results").to_dict("records")


def read_stats(args):
    p = os.path.join(args["outpath"], "tally.csv")
    if not os.path.exists(p):
        return None
    with open(p, newline="") as f:
        return list(csv.DictReader(f))


class Unclear(Exception):
    """A decision of this world lies within rounding of its threshold; not judged."""


def near(a, b, tol):
    if abs(a - b) < tol:
        raise Unclear()


def expected(w):
    """The detections that must come out, by (ObjID, FieldID): dict of values to compare. Raises Unclear."""
    des = is_des(w)
    out = {}
    byid = {v["id"]: (j, v) for j, v in enumerate(visits(w))}
    vign = {}
    rows = [r for r in eph_rows(w) if r["ObjID"] in w["ids"] and r["FieldID"] in byid and byid[r["FieldID"]][1]["filter"] in w["filters"]]
    if not des and w["vignetting"] and rows:
        # decided by C11; here only that the run uses it on the right rows
        import pandas as pd

        from sorcha.modules import PPVignetting

        df = pd.DataFrame([{"FieldID": r["FieldID"], "RA_deg": r["RA_deg"], "Dec_deg": r["Dec_deg"], "fieldRA_deg": byid[r["FieldID"]][1]["ra"], "fieldDec_deg": byid[r["FieldID"]][1]["dec"],
                            "fieldFiveSigmaDepth_mag": byid[r["FieldID"]][1]["m5"]} for r in rows])
        vign = {(r["ObjID"], r["FieldID"]): float(m) for r, m in zip(rows, np.asarray(PPVignetting.vignettingEffects(df)))}
    for r in rows:
        j, v = byid[r["FieldID"]]
        k = w["ids"].index(r["ObjID"])
        o = w["objs"][k]
        f = v["filter"]
        h = o["H"] + (0.0 if f == w["filters"][0] else o["col"][w["filters"].index(f) - 1])
        p = {q: o["p"].get(q + f, o["p"].get(q)) for q in PF[w["fn"]]}
        rho = math.sqrt(sum(r[c] ** 2 for c in EPH[9:12])) / AU_KM
        m = reduced(w["fn"], h, p, r["phase_deg"]) + 5 * math.log10(rho) + 5 * math.log10(o["delta"])
        if w["lc"]:
            m += o["lca"] * math.sin(r["fieldMJD_TAI"])
        if w["ca"]:
            m += -0.25 * abs(o["lca"]) - 0.01 * rho
        if not math.isfinite(m):  # a phase function of no light at all
            raise Unclear()
        e = dict(r, optFilter=f, H_filter=h, trailedSourceMagTrue=m, fieldFiveSigmaDepth_mag=v["m5"], fieldRA_deg=v["ra"], fieldDec_deg=v["dec"], visitExposureTime=v["et"], RATrue_deg=r["RA_deg"], DecTrue_deg=r["Dec_deg"])
        e["Obj_Sun_LTC_km"] = rho * AU_KM
        e["PSFMagTrue"] = m
        if not des:
            e["seeingFwhmEff_arcsec"], e["seeingFwhmGeom_arcsec"], e["fieldRotSkyPos_deg"] = v["see"] * 1.1, v["see"], v["rot"]
            if w["trailing"]:
                e["PSFMagTrue"] = m + float(trail_ref("circularPSF", r["RARateCosDec_deg_day"], r["DecRate_deg_day"], v["see"] * 1.1, v["et"]))
        e["fiveSigmaDepth_mag"] = vign.get((r["ObjID"], r["FieldID"]), v["m5"])
        if not des:
            dm = float(trail_ref("trailedSource", r["RARateCosDec_deg_day"], r["DecRate_deg_day"], v["see"], v["et"])) if w["trailing"] else 0.0
            e["SNRTrailedSourceMag"] = float(snr_ref(m + dm, e["fiveSigmaDepth_mag"]))
            e["SNRPSFMag"] = float(snr_ref(e["PSFMagTrue"], e["fiveSigmaDepth_mag"]))
            e["trailedSourceMagSigma"] = 2.5 * math.log10(1 + 1 / e["SNRTrailedSourceMag"])
            e["PSFMagSigma"] = 2.5 * math.log10(1 + 1 / e["SNRPSFMag"])
            e["astrometricSigma_deg"] = math.hypot(10.0, 600.0 * v["see"] / e["SNRTrailedSourceMag"]) / 3.6e6
        e["trailedSourceMag"], e["PSFMag"] = e["trailedSourceMagTrue"], e["PSFMagTrue"]
        if not fov(w, j, v, r, e):
            continue
        if not limits(w, v, e):
            continue
        out[(r["ObjID"], r["FieldID"])] = e
    if des:
        return des_selection(w, out)
    return linking(w, out)


_cams = {}


def fov(w, j, v, r, e):
    if w["cam"] == "none":
        return True
    if w["cam"] == "circle":
        s = float(sep_deg(r["RA_deg"], r["Dec_deg"], v["ra"], v["dec"]))
        near(s, w["radius"], 1e-7)
        return s < w["radius"]
    if w["cam"] == "visits_footprint":
        best, who = -np.inf, None
        for i, k in enumerate(visit_ccds(w, j)):
            k = k % len(c16.layout())
            q = c16.corners(v, k)
            x = r["RA_deg"] + 360.0 * round((v["ra"] - r["RA_deg"]) / 360.0)
            s = c16.inside(q, (x, r["Dec_deg"]))
            if s > best:
                best, who = s, (100 + k, chip_depth(v, i))
        if best == -np.inf:
            return False
        near(best, 0, 1e-7)
        if best > 0:
            e["detectorID"], e["limMag_perChip"] = who
        return best > 0
    cam = "des" if is_des(w) else "rubin_sim"
    if cam not in _cams:
        _cams[cam] = [c14.plane(c) for c in c14.builtin(cam)]
    n = np.array([math.cos(math.radians(v["dec"])) * math.cos(math.radians(v["ra"])), math.cos(math.radians(v["dec"])) * math.sin(math.radians(v["ra"])), math.sin(math.radians(v["dec"]))])
    a, d = math.radians(v["ra"]), math.radians(v["dec"])
    east = np.array([-math.sin(a), math.cos(a), 0.0])
    north = np.array([-math.sin(d) * math.cos(a), -math.sin(d) * math.sin(a), math.cos(d)])
    pa, pd_ = math.radians(r["RA_deg"]), math.radians(r["Dec_deg"])
    p = np.array([math.cos(pd_) * math.cos(pa), math.cos(pd_) * math.sin(pa), math.sin(pd_)])
    if p @ n < 0.5:
        return False
    xe, yn = p @ east / (p @ n), p @ north / (p @ n)
    rot = math.radians(v["rot"]) if not is_des(w) else 0.0
    c, s = math.cos(rot), math.sin(rot)
    x, y = xe * c - yn * s, xe * s + yn * c
    best, who = -np.inf, None
    for q, poly in enumerate(_cams[cam]):
        s = c14.inside(poly, (x, y))
        if s > best:
            best, who = s, q
    lim = (w["edge"] or 0.0) * c14.ARC
    near(best, lim, 1e-8)
    return best > lim


def limits(w, v, e):
    if w["limit"] == "snr" and not is_des(w):
        near(e["SNRPSFMag"], w["snr"], 1e-6)
        if e["SNRPSFMag"] < w["snr"]:
            return False
    if w["limit"] == "mag":
        near(e["trailedSourceMag"], w["mag"], 1e-5)
        if e["trailedSourceMag"] > w["mag"]:
            return False
    if w["fading"]:
        depth = e["fiveSigmaDepth_mag"]
        if "limMag_perChip" in e and not is_des(w):
            depth = e["limMag_perChip"]
        near(e["PSFMag"], depth, 0.04)
        if e["PSFMag"] > depth:
            return False
    if w["bright"]:
        b = w["brights"][0] if w["bright"] == "one" else w["brights"][w["filters"].index(v["filter"])]
        near(e["PSFMag"], b, 1e-5)
        if e["PSFMag"] < b:
            return False
    return True


def linking(w, out):
    if not link_on(w):
        return out
    res = {}
    for i in w["ids"]:
        mine = {k: e for k, e in out.items() if k[0] == i}
        trk = c19.tracklet_nights(w["link"], [[i, e["fieldMJD_TAI"], e["RA_deg"], e["Dec_deg"]] for e in mine.values()])
        if trk is None:
            raise Unclear()
        n = c19.link_date(w["link"], trk)
        if n is None and w["linking"] == "drop":
            continue
        for k, e in mine.items():
            res[k] = dict(e, object_linked=n is not None)
    return res


def des_selection(w, out):
    if w["distance"]:
        lo, hi = w["distance"]
        good = set()
        for (i, _), e in out.items():
            near(e["Obj_Sun_LTC_km"] / AU_KM, lo, 1e-9)
            near(e["Obj_Sun_LTC_km"] / AU_KM, hi, 1e-9)
            if lo < e["Obj_Sun_LTC_km"] / AU_KM < hi:
                good.add(i)
        out = {k: e for k, e in out.items() if k[0] in good}
    if w["motion"]:
        lo, hi = w["motion"]
        keep = {}
        for k, e in out.items():
            m = math.hypot(e["RARateCosDec_deg_day"], e["DecRate_deg_day"])
            near(m, lo, 1e-9)
            near(m, hi, 1e-9)
            if lo < m < hi:
                keep[k] = e
        out = keep
    if w["discovery"]:
        res = {}
        for i in w["ids"]:
            mine = {k: e for k, e in out.items() if k[0] == i}
            by = {}
            for e in mine.values():
                by.setdefault(int(e["fieldMJD_TAI"]), []).append(e["fieldMJD_TAI"])
            nights = [sorted(by[n]) for n in sorted(by)]
            if not nights:
                continue
            dist = min(e["Obj_Sun_LTC_km"] / AU_KM for e in mine.values())
            if ambiguous(nights, dist):
                raise Unclear()
            if discovered(nights, dist)[0]:
                res.update(mine)
        out = res
    return out


COMPARE = [
    "fieldMJD_TAI", "Range_LTC_km", "RangeRate_LTC_km_s", "RA_deg", "RARateCosDec_deg_day", "Dec_deg", "DecRate_deg_day", "phase_deg", "Obj_Sun_x_LTC_km", "Obj_Sun_vz_LTC_km_s",
    "Obs_Sun_y_km", "H_filter", "trailedSourceMagTrue", "PSFMagTrue", "trailedSourceMag", "PSFMag", "fieldFiveSigmaDepth_mag", "fiveSigmaDepth_mag", "fieldRA_deg", "fieldDec_deg",
    "visitExposureTime", "RATrue_deg", "DecTrue_deg", "Obj_Sun_LTC_km", "seeingFwhmEff_arcsec", "seeingFwhmGeom_arcsec", "fieldRotSkyPos_deg", "SNRTrailedSourceMag", "SNRPSFMag",
    "trailedSourceMagSigma", "PSFMagSigma", "astrometricSigma_deg", "detectorID", "limMag_perChip",
]


def key_of(w, r, byt):
    return (str(r["ObjID"]), int(float(r["FieldID"])) if "FieldID" in r else byt[round(float(r["fieldMJD_TAI"]), 6)])


def index(w, rows):
    """Rows by (ObjID, FieldID); a repeated one is a violation."""
    byt = {round(v["mjd"], 6): v["id"] for v in visits(w)}
    out = {}
    for r in rows or []:
        k = key_of(w, r, byt)
        require(k not in out, "the same observation is reported twice", key=k)
        out[k] = r
    return out


def compare(w, rows, want, what="run"):
    got = index(w, rows)
    extra, miss = sorted(set(got) - set(want)), sorted(set(want) - set(got))
    require(not extra, f"{what}: observations reported that the survey would not make", extra=extra[:4], of=len(want))
    require(not miss, f"{what}: observations missing from the output", missing=miss[:4], of=len(want))
    for k, e in want.items():
        g = got[k]
        if w["cols"] == "all":
            require(str(g["optFilter"]) == e["optFilter"], f"{what}: wrong filter reported", key=k)
            need = [c for c in COMPARE if c in e]
        else:
            need = [c for c in BASIC if c in e and c not in ("ObjID", "optFilter")]
        for c in need:
            require(c in g, f"{what}: column {c} missing", columns=list(g))
            a, b = float(g[c]), float(e[c])
            mag = "Mag" in c or "SNR" in c or c.startswith("ast")
            require(abs(a - b) <= (4e-6 if mag else 1e-9) * max(1.0 if not c.startswith("ast") else 0.0, abs(b)), f"{what}: {c} is wrong", key=k, got=a, want=b)
        if "object_linked" in e and (w["cols"] == "all" or w["linking"] == "keep"):
            require("object_linked" in g and str(g["object_linked"]) in (("True", "1", "1.0") if e["object_linked"] else ("False", "0", "0.0")), f"{what}: wrong linking state", key=k, got=g.get("object_linked"), want=e["object_linked"])


def compare_stats(w, args, want, what="run"):
    rows = read_stats(args)
    groups = {}
    for (i, _), e in want.items():
        groups.setdefault((i, e["optFilter"]), []).append(e)
    if not w["stats"]:
        require(rows is None, f"{what}: statistics written although not asked for")
        return
    got = {}
    for r in rows or []:
        k = (r["ObjID"], r["optFilter"])
        require(k not in got, f"{what}: two statistics rows for one object and filter", key=k)
        got[k] = r
    require(set(got) == set(groups), f"{what}: statistics rows are not one per object and filter detected", got=sorted(got)[:6], want=sorted(groups)[:6])
    for k, es in groups.items():
        require(int(float(got[k]["number_obs"])) == len(es), f"{what}: wrong number of observations in the statistics", key=k, got=got[k]["number_obs"], want=len(es))


def compare_returned(w, args, want, got, what="run that returns its results"):
    """What a run with return_only hands back, and that it wrote neither detections nor statistics."""
    import pandas as pd

    files = sorted(f for f in os.listdir(args["outpath"]) if f.startswith(("run", "tally")))
    require(not files, f"{what}: wrote files", files=files)
    stats = None
    if w["stats"]:
        require(isinstance(got, tuple) and len(got) == 2, f"{what}: no observations and statistics", got=type(got))
        got, stats = got
    require(isinstance(got, pd.DataFrame), f"{what}: no table of observations", got=type(got))
    rows = got.to_dict("records")
    for r in rows:
        if "Obj_Sun_LTC_km" not in r:  # added on writing
            r["Obj_Sun_LTC_km"] = math.sqrt(sum(float(r[c]) ** 2 for c in EPH[9:12]))
    compare(dict(w, cols="all"), rows, want, what)
    if stats is None:
        return
    groups = {}
    for (i, _), e in want.items():
        groups.setdefault((i, e["optFilter"]), []).append(e)
    require(isinstance(stats, pd.DataFrame) and len(stats) == len(groups), f"{what}: not one row of statistics per object and filter", got=len(stats), want=len(groups))
    if len(stats):
        s = stats.reset_index()
        for o, f, n in zip(s["ObjID"], s["optFilter"], s["number_obs"]):
            require((str(o), str(f)) in groups and len(groups[(str(o), str(f))]) == n, f"{what}: wrong statistics", object=o, filter=f, n=n)
