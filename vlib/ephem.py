"""Worlds for the ephemeris generation: objects, visits aimed at them, and where the objects really are.

The reference shares the integrator (ASSIST) with sorcha but nothing else: own initial states (45 digits), own observer and
Sun (the formulas the made-up kernels were written from), own light-time iteration, rates from differences.
"""
import math
from types import SimpleNamespace

import numpy as np
import pandas as pd
from hypothesis import assume
from hypothesis import strategies as st

from vlib import sky
from vlib.gen import fl, fx
from vlib.orbit import state

C_AUD = sky.C_KM * 86400 / sky.AU
DEG = 180 / math.pi


def rad(x):
    return x * math.pi / 180


ANG = st.one_of(fx(0, 360, 4), st.sampled_from([0.0, 90.0, 180.0]))
INC = st.one_of(fx(0, 40, 3), fx(0, 180, 3), st.sampled_from([0.0, 90.0, 180.0]))
KINDS = {
    "main belt": (fx(1.8, 3.2, 4), fx(0, 0.3, 4)),
    "near Earth": (fx(0.5, 1.3, 4), fx(0.1, 0.8, 4)),
    "trans-Neptunian": (fx(30, 60, 3), fx(0, 0.5, 4)),
    "comet": (fx(0.8, 12, 3), st.one_of(fx(0.9, 0.9999, 5), fx(1.0, 1.3, 4), st.just(1.0))),
}
FORMATS = ["COM", "KEP", "CART", "BCOM", "BKEP", "BCART"]


def objects(kinds, n, formats=FORMATS, epochs=fx(59700, 60700, 3)):
    def one(kind):
        q, e = KINDS[kind]
        return st.fixed_dictionaries(
            {"kind": st.just(kind), "q": q, "e": e, "inc": INC, "node": ANG, "argp": ANG, "dt": st.one_of(fx(-300, 300, 3), fx(-4000, 4000, 2)), "epoch": epochs}
        )

    return st.fixed_dictionaries({"format": st.sampled_from(formats), "list": st.lists(st.one_of([one(k) for k in kinds]), min_size=1, max_size=n)})


def elements(o, fmt):
    """The orbit's row in a format, and the barycentric equatorial state (au, au/day) it stands for."""
    mu = sky.GM_TOTAL if fmt.startswith("B") else sky.GM_SUN
    t, tp = o["epoch"], round(o["epoch"] - o["dt"], 6)
    e = o["e"] if o["e"] < 1 or not fmt.endswith("KEP") else 0.97
    s = [float(x) for x in state(mu, o["q"], e, rad(o["inc"]), rad(o["node"]), rad(o["argp"]), tp, t)]
    row = {"FORMAT": fmt}
    if fmt.endswith("COM"):
        row.update(q=o["q"], e=e, inc=o["inc"], node=o["node"], argPeri=o["argp"], t_p_MJD_TDB=tp)
    elif fmt.endswith("KEP"):
        a = o["q"] / (1 - e)
        row.update(a=a, e=e, inc=o["inc"], node=o["node"], argPeri=o["argp"], ma=(t - tp) * math.sqrt(mu / a**3) * DEG % 360)
    else:
        row.update(zip(("x", "y", "z", "xdot", "ydot", "zdot"), s))
    row["epochMJD_TDB"] = t
    r, v = sky.ROT @ np.array(s[:3]), sky.ROT @ np.array(s[3:])
    if not fmt.startswith("B"):
        rs, vs = sky.sun(t + 2400000.5)
        r, v = r + rs, v + vs
    return row, r, v


class Body:
    def __init__(self, ephem, o, fmt):
        import assist
        import rebound

        self.row, r, v = elements(o, fmt)
        self.ref = ephem.jd_ref

        def fresh():
            sim = rebound.Simulation()
            sim.t = o["epoch"] + 2400000.5 - self.ref
            sim.dt = 5
            sim.ri_ias15.adaptive_mode = 1
            sim.add(rebound.Particle(x=r[0], y=r[1], z=r[2], vx=v[0], vy=v[1], vz=v[2]))
            ex = assist.Extras(sim, ephem)
            f = ex.forces
            f.remove("GR_EIH")
            f.append("GR_SIMPLE")
            ex.forces = f
            return sim, ex

        self.fresh = fresh
        self.sim, self.ex = fresh()
        self.probed = [self.sim.t, self.sim.t]

    def at(self, jd):
        t = jd - self.ref
        if not self.probed[0] <= t <= self.probed[1]:
            # an orbit that hits a planet of the made-up Solar System takes for ever, in the code as well
            sim, ex = self.fresh()
            sim.dt = math.copysign(5, t - sim.t)
            while (t - sim.t) * sim.dt > 0:
                sim.step()
                assume(sim.steps_done < 3000)
            self.probed = [min(self.probed[0], t), max(self.probed[1], t)]
        self.ex.integrate_or_interpolate(t)
        p = self.sim.particles[0]
        return np.array(p.xyz), np.array(p.vxyz)

    def seen(self, jd, code):
        """Topocentric vector at light time, light time (days), object state then."""
        ro, _ = sky.observer(jd, code)
        lt = 0.0
        for _ in range(12):
            r, v = self.at(jd - lt)
            rho = r - ro
            new = np.linalg.norm(rho) / C_AUD
            if abs(new - lt) < 1e-13:
                break
            lt = new
        return rho, lt, r, v

    def unit(self, jd, code):
        rho = self.seen(jd, code)[0]
        return rho / np.linalg.norm(rho)


def sep(a, b):
    """Angle between two unit vectors, degrees, accurate at all angles."""
    return 2 * math.atan2(np.linalg.norm(a - b), np.linalg.norm(a + b)) * DEG


def radec(u):
    return math.atan2(u[1], u[0]) * DEG % 360, math.asin(max(-1.0, min(1.0, u[2]))) * DEG


def offset(u, d, pa):
    """The unit vector d degrees from u at position angle pa (degrees)."""
    pole = np.array([0, 0, 1.0]) if abs(u[2]) < 0.999 else np.array([1.0, 0, 0])
    east = np.cross(pole, u)
    east /= np.linalg.norm(east)
    north = np.cross(u, east)
    d, pa = rad(d), rad(pa)
    return u * math.cos(d) + (north * math.cos(pa) + east * math.sin(pa)) * math.sin(d)


VISIT = st.fixed_dictionaries(
    {
        "gap": st.one_of(st.sampled_from([0.0005, 0.02, 0.3, 0.49, 0.51, 0.7, 0.8, 0.95, 1.0, 1.4, 1.6, 2.7]), fx(0, 3, 4), fx(3, 20, 3)),
        "back": st.booleans(),
        "at": st.integers(0, 5),
        "off": st.one_of(fl(0, 1.2), st.just(0.0)),
        "edge": st.sampled_from([None, None, 0.97, 0.999, 0.9]),  # of the field, without its buffer
        "pa": fl(0, 360),
    }
)


class Logger:
    def info(self, *a, **k):
        pass

    warning = error = debug = info


class World:
    def __init__(self, case, ids=None):
        from assist import Ephem
        import os

        self.case = case
        d = sky.folder()
        self.ephem = Ephem(planets_path=os.path.join(d, "linux_p1550p2650.440"), asteroids_path=os.path.join(d, "sb441-n16.bsp"))
        c = case["config"]
        self.fmt = case["objects"]["format"]
        self.bodies = [Body(self.ephem, o, self.fmt) for o in case["objects"]["list"]]
        self.ids = ids or [f"o{i}" for i in range(len(self.bodies))]
        self.orbits = pd.DataFrame([{"ObjID": k, **b.row} for k, b in zip(self.ids, self.bodies)])
        self.orbits["H_r"] = [10.0 + i for i in range(len(self.bodies))]
        t = case["start"]
        rows = []
        for j, v in enumerate(case["visits"]):
            if j:
                back = {"forward": False, "backward": True, "mixed": v["back"]}[case["walk"]]
                t += (-1 if back else 1) * v["gap"] * c["picket"]
            t = min(max(round(t, 7), 51700.0), 62200.0)
            jd = sky.jd_tdb(t)
            u = self.bodies[v["at"] % len(self.bodies)].unit(jd, c["code"])
            ra, dec = radec(offset(u, v["edge"] * c["fov"] if v["edge"] else v["off"] * (c["fov"] + c["buffer"]), v["pa"]))
            rows.append({"FieldID": j, "observationMidpointMJD_TAI": t, "fieldRA_deg": ra, "fieldDec_deg": dec, "jd": jd})
        self.visits = rows

    def pointings(self):
        return pd.DataFrame([{k: r[k] for k in r if k != "jd"} for r in self.visits])

    def configs(self):
        from sorcha.utilities.sorchaConfigs import auxiliaryConfigs

        c = self.case["config"]
        return SimpleNamespace(
            auxiliary=auxiliaryConfigs(),
            simulation=SimpleNamespace(
                ar_ang_fov=c["fov"], ar_fov_buffer=c["buffer"], ar_picket=c["picket"], ar_obs_code=c["code"], ar_healpix_order=c["order"], ar_n_sub_intervals=c["sub"]
            ),
            input=SimpleNamespace(eph_format="csv"),
            output=SimpleNamespace(output_format="csv"),
        )

    def args(self):
        return SimpleNamespace(ar_data_file_path=sky.folder(), pplogger=Logger(), loglevel=False, output_ephemeris_file=None, outpath=None)

    def run(self):
        from sorcha.ephemeris.simulation_driver import create_ephemeris
        from sorcha.ephemeris.simulation_setup import precompute_pointing_information

        args, conf = self.args(), self.configs()
        pt = precompute_pointing_information(self.pointings(), args, conf)
        return create_ephemeris(self.orbits.copy(), pt, args, conf)


CONFIG = st.fixed_dictionaries(
    {
        "fov": st.sampled_from([0.1, 0.3, 0.3, 1.0, 1.75, 2.06, 3.0]),
        "buffer": st.sampled_from([0.05, 0.2, 0.5, 1.0]),
        "picket": st.sampled_from([1, 1, 0.5, 2, 3, 0.25]),
        "code": st.sampled_from(["X05", "X05", "W84", "500", "I11", "000"]),
        "order": st.one_of(st.integers(4, 8), st.integers(7, 10)),
        "sub": st.sampled_from([101, 101, 51, 31]),
    }
)


WALK = st.sampled_from(["forward", "mixed", "mixed", "backward"])


def warm():
    """Kernels, numba and the libraries, before the workers are forked."""
    d = {"kind": "main belt", "q": 2.0, "e": 0.1, "inc": 5.0, "node": 10.0, "argp": 20.0, "dt": 5.0, "epoch": 60000.0}
    w = World(
        {
            "objects": {"format": "COM", "list": [d]},
            "config": {"fov": 1.0, "buffer": 0.2, "picket": 1, "code": "X05", "order": 6, "sub": 101},
            "start": 60010.0,
            "walk": "forward",
            "visits": [{"gap": 0.1, "back": False, "at": 0, "off": 0.0, "edge": None, "pa": 0.0}],
        }
    )
    w.run()
