"""C32: whole runs that generate their ephemeris: right detections, and the same ones from the file it writes."""
import math
import os

import numpy as np
from hypothesis import strategies as st

from checks import c14, c19
from checks.c08 import D_COLS, DES_QUERY, L_COLS, LSSTQ
from checks.c23 import interpolation_error
from vlib import e2e, ephem, sky
from vlib.core import Property, require
from vlib.gen import DES, LSST, fx, make_db, object_ids, write_ini

PROP = Property(
    "C32",
    rule="Whole runs on 1-5 objects (all kinds and orbit formats, identifiers that look like numbers or have different lengths) and 1-9 visits aimed at them, in 1-3 filters, for both surveys: chunk sizes 1 to 100, "
    "culling of faint objects on or off, ephemeris file in the three formats, detections in three formats, the deterministic modules on or off. Non-trivial = detections in a run of more than one chunk.",
    assumptions=[
        "made-up kernels; two-pass runs compared to 1e-9 (files hold shortest decimal forms, the readers round the last bit)",
        "runs with a detection within 0.04 mag of the limit of a fading run are not judged",
        "magnitudes within 1e-4 mag and positions within 1e-4 degrees of a limit are not judged, nor objects too fast for the pickets (as for C23)",
        "a run that generates no observation at all need not leave an ephemeris file",
    ],
)


@PROP.warmup
def _warm():
    import sorcha.des  # noqa: F401
    import sorcha.sorcha  # noqa: F401

    c14._warm()
    c19._warm()
    ephem.warm()


OBJ = ["main belt", "main belt", "near Earth", "trans-Neptunian", "comet"]
MODULES = st.fixed_dictionaries(
    {
        "trailing": st.booleans(),
        "vignetting": st.booleans(),
        "cam": st.sampled_from(["none", "circle", "footprint"]),
        "linking": st.sampled_from([None, None, "drop", "keep"]),
        "phase": st.sampled_from(["none", "HG"]),
        "fading": st.booleans(),
    }
)


@st.composite
def case(draw, plain):
    survey = draw(st.sampled_from(["lsst", "lsst", "lsst", "des"]))
    names = DES if survey == "des" else LSST
    filters = list(draw(st.permutations(names)))[: draw(st.integers(1, 3))]
    objs = draw(ephem.objects(OBJ, 5, epochs=fx(59900, 60200, 3)))
    n = len(objs["list"])
    if draw(st.booleans()):
        ids = draw(object_ids(n, n))
    else:
        ids = ["x" * draw(st.integers(1, 30)) + str(i) for i in range(n)]
    nv = draw(st.integers(1, 9))
    return {
        "survey": survey,
        "filters": filters,
        "objects": objs,
        "ids": ids,
        "config": {
            "fov": draw(st.sampled_from([0.3, 1.0, 1.75, 2.06])),
            "buffer": draw(st.sampled_from([0.2, 0.5])),
            "picket": draw(st.sampled_from([1, 1, 2])),
            "code": draw(st.sampled_from(["X05", "X05", "W84"])),
            "order": draw(st.integers(5, 8)),
            "sub": 101,
        },
        "start": draw(fx(60000, 60100, 5)),
        "walk": draw(ephem.WALK),
        "visits": draw(st.lists(ephem.VISIT, min_size=nv, max_size=nv)),
        "look": draw(st.lists(st.fixed_dictionaries({"f": st.integers(0, len(filters)), "m5": fx(20, 25, 2), "see": fx(0.6, 1.5, 2), "rot": fx(0, 360, 1), "et": st.sampled_from([15.0, 30.0])}), min_size=nv, max_size=nv)),
        "bright": draw(st.lists(fx(-5, 4, 2), min_size=n, max_size=n)),
        "col": [[draw(fx(-1, 2, 2)) for _ in filters[1:]] for _ in range(n)],
        "chunk": draw(st.sampled_from([1, 2, 3, 100])),
        "chunk2": draw(st.sampled_from([1, 2, 5])),
        "order": list(draw(st.permutations(range(n)))),
        "porder": list(draw(st.permutations(range(n)))),
        "brute": draw(st.booleans()),
        "eph": draw(st.sampled_from(["csv", "csv", "whitespace", "whitespace", "hdf5"])),
        "aux": draw(st.sampled_from(["csv", "csv", "whitespace"])),
        "out": draw(st.sampled_from(["csv"] * 4 + ["sqlite3", "hdf5"])),
        "maglimit": draw(st.booleans()),
        "radius": draw(st.sampled_from([None, 0.9, 0.5])),
        "mod": None if plain else draw(MODULES),
        "seed": draw(st.integers(0, 2**31 - 1)),
    }


class Run(ephem.World):
    """The world of a case plus its tables and configuration on disk."""

    def __init__(self, c):
        super().__init__(c, c["ids"])
        self.c = c
        des = self.des = c["survey"] == "des"
        others = [f for f in (DES if des else LSST) if f not in c["filters"]]
        names = c["filters"] + others[:1]
        for j, (v, k) in enumerate(zip(self.visits, c["look"])):
            v.update(k, id=100 + 3 * j, filter=names[min(k["f"] if j else 0, len(names) - 1)])
        if c["mod"] and any(not 0.11 < (v["observationMidpointMJD_TAI"] - 16 / 24) % 1 < 0.89 for v in self.visits):
            c = self.c = dict(c, mod=dict(c["mod"], linking=None))  # linking needs visits at night
        self.H = []
        v0 = self.visits[0]
        for b, m in zip(self.bodies, c["bright"]):
            rho, lt, r, _ = b.seen(v0["jd"], c["config"]["code"])
            sun = sky.sun(v0["jd"])[0]
            self.H.append(round(22 - 5 * math.log10(np.linalg.norm(rho) * np.linalg.norm(r - sun)) + m, 3))

    def write(self, d, kind, chunk, order, read=None):
        """Input files in directory d; the arguments of a run that generates ("ar") or reads the ephemeris."""
        c = self.c
        os.makedirs(os.path.join(d, "out"))
        rows = []
        for v in self.visits[1::2] + self.visits[0::2]:
            t = v["observationMidpointMJD_TAI"]
            if self.des:
                rows.append((v["id"], t, v["et"], v["filter"], v["m5"], v["fieldRA_deg"], v["fieldDec_deg"], 1.0, 4000.0))
            else:
                rows.append((v["id"], t - (v["et"] + 4) / 2 / 86400, v["et"] + 4, v["et"], v["filter"], v["see"], v["see"] * 1.1, v["m5"], v["fieldRA_deg"], v["fieldDec_deg"], v["rot"], "n"))
        make_db(os.path.join(d, "pointing.db"), "observations", D_COLS if self.des else L_COLS, rows)
        cols = [k for k in self.orbits.columns if k != "H_r"]
        main = c["filters"][0]
        orb = [[self.orbits[k].iloc[i] for k in cols] for i in order]
        orb = [[float(x) if isinstance(x, np.floating) else x for x in r] for r in orb]
        par = [[self.ids[i], self.H[i]] + c["col"][i] for i in c["porder"]]
        e2e.table(os.path.join(d, "orbits.txt"), c["aux"], cols, orb)
        e2e.table(os.path.join(d, "params.txt"), c["aux"], ["ObjID", "H_" + main] + [f"{f}-{main}" for f in c["filters"][1:]], par)
        k = c["config"]
        m = c["mod"] or {"trailing": False, "vignetting": False, "cam": "circle" if c["radius"] else "none", "linking": None, "phase": "none", "fading": False}
        s = {
            "INPUT": {"ephemerides_type": kind, "eph_format": c["eph"], "size_serial_chunk": chunk, "aux_format": c["aux"], "pointing_sql_query": DES_QUERY if self.des else LSSTQ},
            "SIMULATION": {"ar_ang_fov": k["fov"], "ar_fov_buffer": k["buffer"], "ar_picket": k["picket"], "ar_obs_code": k["code"], "ar_healpix_order": k["order"]} if kind == "ar" else {},
            "FILTERS": {"observing_filters": ",".join(c["filters"])},
            "PHASECURVES": {"phase_function": "none"},
            "FOV": {"camera_model": m["cam"]},
            "FADINGFUNCTION": {"fading_function_on": str(m["fading"])},
            "OUTPUT": {"output_format": c["out"], "output_columns": "all"},
            "EXPERT": {"brute_force": str(c["brute"])},
            "LIGHTCURVE": {"lc_model": "none"},
            "ACTIVITY": {"comet_activity": "none"},
        }
        if m["cam"] == "circle":
            s["FOV"]["circle_radius"] = self.radius()
        if c["maglimit"]:
            s["EXPERT"]["mag_limit"] = 22.5
        if self.des:
            s["LINKINGFILTER"] = {"des_discovery_on": "False"}
            if m["fading"]:
                s["FADINGFUNCTION"]["des_transient_efficency"] = 1.0
        else:
            s["EXPERT"].update(trailing_losses_on=m["trailing"], vignetting_on=m["vignetting"], randomization_on="False")
            if m["fading"]:
                s["FADINGFUNCTION"].update(fading_function_width=0.001, fading_function_peak_efficiency=1.0)
            if m["linking"]:
                s["LINKINGFILTER"] = dict(ssp_detection_efficiency=1.0, ssp_number_observations=1, ssp_separation_threshold=0.5, ssp_maximum_time=0.0625,
                                          ssp_number_tracklets=1, ssp_track_window=15, ssp_night_start_utc=16.0, drop_unlinked=str(m["linking"] == "drop"))
        write_ini(os.path.join(d, "config.ini"), s)
        return {
            "paramsinput": os.path.join(d, "params.txt"),
            "orbinfile": os.path.join(d, "orbits.txt"),
            "input_ephemeris_file": read,
            "configfile": os.path.join(d, "config.ini"),
            "outpath": os.path.join(d, "out"),
            "outfilestem": "run",
            "pointing_database": os.path.join(d, "pointing.db"),
            "output_ephemeris_file": "eph" if kind == "ar" else None,
            "ar_data_path": sky.folder() if kind == "ar" else None,
            "loglevel": False,
            "stats": None,
            "visits_database": None,
            "surveyname": "des" if self.des else "rubin_sim",
            "seed": c["seed"],
        }

    def radius(self):
        return round(self.c["radius"] * self.c["config"]["fov"], 4) if self.c["radius"] else 1.5

    def eph_file(self, args):
        p = os.path.join(args["outpath"], "eph" + (".h5" if self.c["eph"] == "hdf5" else ".csv"))
        return p if os.path.exists(p) else None

    def rows(self, args):
        rows = e2e.read_output(self.c, args)
        out = {}
        for r in rows or []:
            k = (str(r["ObjID"]), int(float(r["FieldID"])))
            require(k not in out, "the same observation is reported twice", key=k)
            out[k] = r
        return out


def same(a, b, what, rel=1e-9):
    require(set(a) == set(b), f"{what}: not the same detections", only_first=sorted(set(a) - set(b))[:4], only_second=sorted(set(b) - set(a))[:4], both=len(set(a) & set(b)))
    for k in a:
        for c in set(a[k]) & set(b[k]):
            x, y = a[k][c], b[k][c]
            if c == "ObjID" or isinstance(x, str) or isinstance(y, str):
                require(str(x) == str(y), f"{what}: {c} differs", key=k, first=x, second=y)
            elif not (math.isnan(float(x)) and math.isnan(float(y))):
                tol = rel * max(1.0, abs(float(x))) if "Mag" not in c and "SNR" not in c else 2e-6 * max(1.0, abs(float(x)))
                require(abs(float(x) - float(y)) <= tol, f"{what}: {c} differs", key=k, first=x, second=y)


def chancy(c, rows):
    """Whether a detection was made with a probability between 0 and 1."""
    return bool(c["mod"] and c["mod"]["fading"]) and any(abs(float(r["PSFMag"]) - float(r["fiveSigmaDepth_mag"])) < 0.04 for r in rows.values())


@PROP.check(case(False), quick=220, thorough=5000)
def twice(c, ctx):
    """Generated and written, then read: the same detections; and for another object order and chunk size too."""
    w = Run(c)
    d = ctx.scratch()
    a1 = w.write(os.path.join(d, "1"), "ar", c["chunk"], range(len(w.ids)))
    e2e.run(a1)
    one = w.rows(a1)
    n = len(w.ids)
    if w.eph_file(a1):
        a2 = w.write(os.path.join(d, "2"), "external", c["chunk2"], range(n), read=w.eph_file(a1))
        e2e.run(a2)
        two = w.rows(a2)
        if chancy(c, one) or chancy(c, two):
            ctx.tag("unclear")
            return
        same(one, two, "from the ephemeris file", rel=2e-13)
    else:
        require(not one, "detections without an ephemeris file although one was asked for", n=len(one))
        ctx.tag("nothing generated")
    a3 = w.write(os.path.join(d, "3"), "ar", c["chunk2"], c["order"])
    e2e.run(a3)
    three = w.rows(a3)
    if chancy(c, one) or chancy(c, three):
        ctx.tag("unclear")
        return
    same(one, three, "other order and chunks")
    ctx.nontrivial(len(one) > 0 and c["chunk"] < n)
    ctx.tag("detections" if one else "none", c["eph"], "culling" if not c["brute"] else "brute force", "des" if w.des else "lsst")


@PROP.check(case(True), quick=400, thorough=5000)
def right_detections(c, ctx):
    """Detections are the objects within the field (or circle) that are bright enough, where they are."""
    w = Run(c)
    args = w.write(os.path.join(ctx.scratch(), "1"), "ar", c["chunk"], range(len(w.ids)))
    e2e.run(args)
    got = w.rows(args)
    k = c["config"]
    pixel = 58.6 / 2 ** k["order"]
    hits = 0
    depth = {f: max((v["m5"] for v in w.visits if v["filter"] == f), default=None) for f in c["filters"]}
    for i, b in enumerate(w.bodies):
        o = c["objects"]["list"][i]
        # culled by the documented rule: more than 2 mag too faint at perihelion in every filter
        culled = None
        if not c["brute"]:
            q = o["q"]
            best = [w.H[i] + ([0.0] + c["col"][i])[m] + 5 * math.log10(q * (q - 1)) - 2 - depth[f] for m, f in enumerate(c["filters"]) if depth[f] is not None] if q >= 2 else [-9]
            culled = None if min(abs(x) for x in best) < 0.06 or abs(q - 2) < 0.02 else min(best) > 0
        for v in w.visits:
            key = (w.ids[i], v["id"])
            here = key in got
            if v["filter"] not in c["filters"]:
                require(not here, "an observation in a filter that was not asked for", key=key)
                continue
            rho, lt, r, _ = b.seen(v["jd"], k["code"])
            u = rho / np.linalg.norm(rho)
            a, dd = math.radians(v["fieldRA_deg"]), math.radians(v["fieldDec_deg"])
            n = np.array([math.cos(dd) * math.cos(a), math.cos(dd) * math.sin(a), math.sin(dd)])
            s = ephem.sep(u, n)
            mag = w.H[i] + ([0.0] + c["col"][i])[c["filters"].index(v["filter"])] + 5 * math.log10(np.linalg.norm(rho) * np.linalg.norm(r - sky.sun(v["jd"])[0]))
            lim = w.radius() if c["radius"] else k["fov"] + k["buffer"]
            if here:
                g = got[key]
                require(s < lim + 1e-4, "a detection outside of the field", key=key, separation=s, limit=lim)
                require(not c["maglimit"] or mag < 22.5 + 1e-4, "a detection of too faint an object", key=key, mag=mag)
                require(abs(float(g["trailedSourceMagTrue"]) - mag) < 2e-5, "wrong apparent magnitude", key=key, got=g["trailedSourceMagTrue"], want=mag)
                ra, dec = ephem.radec(u)
                dra = (float(g["RA_deg"]) - ra + 180) % 360 - 180
                require(abs(dra) * math.cos(math.radians(dec)) < 3e-6 and abs(float(g["Dec_deg"]) - dec) < 3e-6, "wrong place", key=key, got=(g["RA_deg"], g["Dec_deg"]), want=(ra, dec))
                require(str(g["optFilter"]) == v["filter"] and abs(float(g["fieldMJD_TAI"]) - v["observationMidpointMJD_TAI"]) < 1e-8, "wrong visit data", key=key, got=(g["optFilter"], g["fieldMJD_TAI"]))
                require(culled is not True, "an object reported that culling removes", key=key)
                hits += 1
                continue
            if s > (w.radius() if c["radius"] else k["fov"]) - 1e-4 or (c["maglimit"] and mag > 22.5 - 1e-4) or culled is not False and not c["brute"]:
                continue
            err = interpolation_error(b, v["jd"], k["code"], k["picket"])
            move = ephem.sep(u, b.unit(v["jd"] + k["picket"] / (k["sub"] - 1), k["code"]))
            if err > 0.3 * k["buffer"] or err + move > 0.3 * pixel:
                ctx.tag("too fast")
                continue
            require(False, "a detection is missing", key=key, separation=s, mag=mag)
    require({x[0] for x in got} <= set(w.ids) and {x[1] for x in got} <= {v["id"] for v in w.visits}, "unknown objects or visits", got=sorted(got)[:5])
    ctx.nontrivial(hits > 0 and c["chunk"] < len(w.ids))
    ctx.tag("detections" if hits else "none", "culling" if not c["brute"] else "brute force", "des" if w.des else "lsst")
