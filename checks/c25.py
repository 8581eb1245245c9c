"""C25: orbits given in any of the six formats describe the same motion."""
import math
from types import SimpleNamespace

import numpy as np
from hypothesis import strategies as st

from vlib.core import Property, require
from vlib.gen import fl, fx
from vlib.orbit import state
from vlib.sky import GM_SUN, GM_TOTAL, ROT

PROP = Property(
    "C25",
    rule="Orbits from sun-grazing to 200 au perihelia, eccentricity 0 to 4 (exactly and nearly 0 and 1 included), all inclinations including exactly 0, 90 and 180 degrees, "
    "angles on the axes, from 1e4 days before to 1e4 days after perihelion and over many revolutions; the six input formats with a moving Sun. Non-trivial = away from perihelion.",
    assumptions=["results are compared to a relative 1e-9", "hyperbolic orbits are within 2000 au of their perihelion", "angles of (nearly) circular or planar orbits are judged by the position and velocity they describe"],
)

ANG = st.one_of(fl(0, 360), st.sampled_from([0.0, 45.0, 90.0, 180.0, 270.0, 359.999999]))
INC = st.one_of(fl(0, 180), st.sampled_from([0.0, 1e-7, 30.0, 90.0, 89.9999999, 179.9999999, 180.0]))
ECC = st.one_of(fl(0, 0.95), fl(0.95, 1.05), fl(1, 4), st.sampled_from([0.0, 1e-12, 1e-6, 0.5, 0.99, 0.9999, 0.999999, 0.9999999, 1.0, 1.0000001, 1.0001, 1.2, 3.36]))
ORBIT = st.fixed_dictionaries(
    {
        "q": st.one_of(fl(0.1, 5), fl(5, 80), fl(0.005, 0.1), fl(80, 200)),
        "e": ECC,
        "inc": INC,
        "node": ANG,
        "argp": ANG,
        "dt": st.one_of(fl(-1000, 1000), fl(-10000, 10000), fl(-0.01, 0.01), st.just(0.0)),
    }
).filter(lambda o: o["e"] <= 1 or math.sqrt(GM_TOTAL * (o["e"] - 1) / o["q"]) * abs(o["dt"]) < 2000)  # au from perihelion
EPOCH = st.one_of(fx(50000, 65000, 4), st.sampled_from([60000.0, 60218.0]))


@PROP.warmup
def _warm():
    from sorcha.ephemeris import orbit_conversion_utilities as o

    v = o.universal_cartesian(GM_SUN, 1.0, 0.1, 0.1, 0.1, 0.1, 59990.0, 60000.0)
    o.universal_cometary(GM_SUN, *v, 60000.0)
    o.universal_keplerian(GM_SUN, *v, 60000.0)


def rad(x):
    return x * math.pi / 180


def ref(o, mu, tp, t):
    return np.array(state(mu, o["q"], o["e"], rad(o["inc"]), rad(o["node"]), rad(o["argp"]), tp, t))


def close(got, want, tol, what, **kw):
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(np.all(np.isfinite(got)), f"{what}: not a number", got=got, want=want, **kw)
    r, v = np.linalg.norm(want[:3]), np.linalg.norm(want[3:])
    dr, dv = np.linalg.norm(got[:3] - want[:3]), np.linalg.norm(got[3:] - want[3:])
    require(dr <= tol * r, f"{what}: wrong position", got=got[:3], want=want[:3], rel=dr / r, **kw)
    require(dv <= tol * v, f"{what}: wrong velocity", got=got[3:], want=want[3:], rel=dv / v, **kw)


def conditioning(o, mu, tp, t, w):
    """How far the state may move when times and elements are rounded to double precision (relative)."""
    r, v = np.linalg.norm(w[:3]), np.linalg.norm(w[3:])
    a = mu / r**2  # acceleration
    dt = 4e-16 * (abs(t) + abs(tp)) + 1e-15 * abs(t - tp)
    return 50 * dt * max(v / r, a / v)


@PROP.check(st.fixed_dictionaries({"o": ORBIT, "t": EPOCH, "mu": st.sampled_from([GM_SUN, GM_TOTAL])}), quick=1600, thorough=60000)
def elements_to_state(case, ctx):
    from sorcha.ephemeris.orbit_conversion_utilities import universal_cartesian

    o, t, mu = case["o"], case["t"], case["mu"]
    tp = t - o["dt"]
    w = ref(o, mu, tp, t)
    g = universal_cartesian(mu, o["q"], o["e"], rad(o["inc"]), rad(o["node"]), rad(o["argp"]), tp, t)
    close(g, w, 1e-9 + conditioning(o, mu, tp, t, w), "state from elements", o=o)
    ctx.nontrivial(o["dt"] != 0)
    ctx.tag("ellipse" if o["e"] < 1 else "parabola" if o["e"] == 1 else "hyperbola", "before" if o["dt"] < 0 else "after")


@PROP.check(st.fixed_dictionaries({"o": ORBIT, "t": EPOCH, "mu": st.sampled_from([GM_SUN, GM_TOTAL])}), quick=1600, thorough=60000)
def state_to_elements(case, ctx):
    """The elements found for a state describe that state, have its perihelion and eccentricity, and tell when perihelion is."""
    from sorcha.ephemeris.orbit_conversion_utilities import universal_cometary, universal_keplerian

    o, t, mu = case["o"], case["t"], case["mu"]
    tp = t - o["dt"]
    w = ref(o, mu, tp, t)
    q, e, inc, node, argp, t1 = (float(x) for x in universal_cometary(mu, *w, t))
    require(all(map(math.isfinite, (q, e, inc, node, argp, t1))), "elements are not numbers", got=(q, e, inc, node, argp, t1), o=o)
    r = np.linalg.norm(w[:3])
    far = max(1.0, r / o["q"])
    require(abs(q - o["q"]) <= 1e-11 * far * o["q"], "wrong perihelion distance", got=q, want=o["q"], far=far, o=o)
    require(abs(e - o["e"]) <= 1e-11 * far, "wrong eccentricity", got=e, want=o["e"], o=o)
    require(abs(inc - rad(o["inc"])) <= 1e-7, "wrong inclination", got=inc, want=rad(o["inc"]))
    back = np.array(state(mu, q, e, inc, node, argp, t1, t))
    # far out on a nearly parabolic or long ellipse the time since perihelion is poorly determined by the state
    close(back, w, 1e-6 if far > 5 or abs(o["e"] - 1) < 1e-3 or min(o["inc"], 180 - o["inc"]) < 1e-5 else 1e-8, "state of the elements found", o=o, el=(q, e, inc, node, argp, t1))
    if e < 0.99:
        a, e2, inc2, node2, argp2, m = (float(x) for x in universal_keplerian(mu, *w, t))
        require(abs(a * (1 - e2) - q) <= 1e-10 * q and abs(e2 - e) < 1e-12, "Keplerian and cometary elements disagree", a=a, e=e2, q=q)
        n = math.sqrt(mu / a**3)
        back = np.array(state(mu, a * (1 - e2), e2, inc2, node2, argp2, t - m / n, t))
        close(back, w, 1e-6 if far > 5 else 1e-8, "state of the Keplerian elements found", o=o)
    ctx.nontrivial(o["dt"] != 0)
    ctx.tag("ellipse" if o["e"] < 1 else "parabola" if o["e"] == 1 else "hyperbola", f"inc {o['inc']:g}" if o["inc"] in (0, 90, 180) else "inc other")


NUM = st.one_of(st.just(0.0), fx(-1, 1, 2), st.sampled_from([1.0, -1.0, 0.5, -0.5]))
VEC = st.one_of(st.sampled_from([(1.0, 0.0, 0.0), (-1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.0, -1.0, 0.0), (0.0, 0.0, 1.0), (0.0, 0.0, -1.0)]), st.tuples(NUM, NUM, NUM))
CART = st.fixed_dictionaries({"r": VEC, "v": VEC, "au": st.one_of(fx(0.3, 60, 2), st.just(1.0)), "speed": st.one_of(fx(0.1, 1.3, 3), fx(0.1, 3.0, 2), st.just(1.0)), "t": EPOCH})


@PROP.check(CART, quick=1000, thorough=30000)
def states_on_axes(case, ctx):
    """States with components that are exactly zero (nodes on the axes, planes along them) have elements that describe them."""
    from sorcha.ephemeris.orbit_conversion_utilities import universal_cometary, universal_keplerian

    mu, t = GM_SUN, case["t"]
    r, v = np.array(case["r"]), np.array(case["v"])
    if not r.any() or not v.any():
        return
    r = r / np.linalg.norm(r)
    v = v / np.linalg.norm(v)
    if np.linalg.norm(np.cross(r, v)) < 0.2:
        return  # (nearly) radial fall has no perihelion to speak of
    w = np.concatenate([r * case["au"], v * case["speed"] * math.sqrt(mu / case["au"])])
    q, e, inc, node, argp, t1 = el = tuple(float(x) for x in universal_cometary(mu, *w, t))
    require(all(map(math.isfinite, el)), "elements are not numbers", got=el, state=w)
    tol = 1e-6 if abs(e - 1) < 1e-3 else 1e-8
    h = np.cross(w[:3], w[3:])
    require(abs(inc - math.acos(max(-1, min(1, h[2] / np.linalg.norm(h))))) < 1e-7, "wrong inclination", got=inc, state=w)
    close(state(mu, q, e, inc, node, argp, t1, t), w, tol, "state of the elements found", state=w, el=el)
    if e < 0.99:
        a, e2, inc2, node2, argp2, m = (float(x) for x in universal_keplerian(mu, *w, t))
        n = math.sqrt(mu / a**3)
        close(state(mu, a * (1 - e2), e2, inc2, node2, argp2, t - m / n, t), w, tol, "state of the Keplerian elements found", state=w)
    ctx.nontrivial(bool((h == 0).any()))
    ctx.tag(f"{int((h == 0).sum())} zero components of the pole", "ellipse" if e < 1 else "hyperbola")


class Ephem:
    """Stands in for the planetary ephemeris: a Sun moving about the barycentre."""

    def __init__(self, c):
        self.jd_ref, self.c, self.asked = 2451545.0, c, []

    def get_particle(self, body, t):
        assert body in ("Sun", 0), body
        self.asked.append(t)
        c = self.c
        k = 1.0 + (t / 10000.0)
        return SimpleNamespace(x=c[0] * k, y=c[1] * k, z=c[2] * k, vx=c[3] * k, vy=c[4] * k, vz=c[5] * k, m=GM_SUN)


ROW = st.fixed_dictionaries({"o": ORBIT, "fmt": st.sampled_from(["KEP", "BKEP", "COM", "BCOM", "CART", "BCART"]), "t": EPOCH})
ROWS = st.fixed_dictionaries({"rows": st.lists(ROW, min_size=1, max_size=4), "sun": st.tuples(*[fx(-0.01, 0.01, 5)] * 3, *[fx(-1e-5, 1e-5, 8)] * 3)})


def orbit_row(r):
    """The fields of an orbit-file row for r, and the state (ecliptic) about the format's centre it stands for."""
    o, f, t = dict(r["o"]), r["fmt"], r["t"]
    mu = GM_TOTAL if f[0] == "B" else GM_SUN
    f = f.lstrip("B") if f != "BCART" else "CART"
    if f == "KEP":
        o["e"] = min(o["e"], 0.98) if o["e"] < 1 else 0.3
        a = o["q"] / (1 - o["e"])
        ma = math.degrees(math.sqrt(mu / a**3) * o["dt"]) % 360
        row = dict(a=a, e=o["e"], inc=o["inc"], node=o["node"], argPeri=o["argp"], ma=ma)
        o["q"] = a * (1 - o["e"])
        w = ref(o, mu, -math.radians(ma) / math.sqrt(mu / a**3), 0)
    else:
        tp = t - o["dt"]
        w = ref(o, mu, tp, t)
        if f == "COM":
            row = dict(q=o["q"], e=o["e"], inc=o["inc"], node=o["node"], argPeri=o["argp"], t_p_MJD_TDB=tp)
        else:
            row = dict(zip(("x", "y", "z", "xdot", "ydot", "zdot"), (float(v) for v in w)))
    return dict(row, FORMAT=r["fmt"], epochMJD_TDB=t), w, o


@PROP.check(ROWS, quick=900, thorough=30000)
def all_formats(case, ctx):
    """Each row of an orbit file gives the barycentric equatorial state its elements stand for, whatever rows came before."""
    import pandas as pd

    from sorcha.ephemeris.simulation_parsing import get_perihelion_row, parse_orbit_row

    eph, cache, cache2 = Ephem(case["sun"]), {}, {}
    for r in case["rows"]:
        row, w, o = orbit_row(r)
        jd = r["t"] + 2400000.5
        s = eph.get_particle("Sun", jd - eph.jd_ref)
        sun = np.array([s.x, s.y, s.z, s.vx, s.vy, s.vz])
        want = np.concatenate([ROT @ w[:3], ROT @ w[3:]])
        bary = r["fmt"][0] == "B"
        if not bary:
            want = want + sun
        got = parse_orbit_row(pd.Series(row), jd, eph, cache, GM_SUN, GM_TOTAL)
        mu = GM_TOTAL if bary else GM_SUN
        a = o["q"] / abs(1 - o["e"]) if o["e"] != 1 else 1e9
        period = 2 * math.pi * math.sqrt(a**3 / mu) if o["e"] < 1 else 0.0
        # epochs as JD resolve 5e-10 d
        r0, v0 = np.linalg.norm(w[:3]), np.linalg.norm(w[3:])
        slack = (5e-9 + 1e-14 * min(period, 1e7)) * (v0 / r0 + mu / r0**2 / v0) if "CART" not in r["fmt"] else 0.0
        close(got, want, 1e-9 + 10 * slack, f"{r['fmt']} row", row=row)
        # heliocentric perihelion distance
        h = w if not bary else w - np.concatenate([ROT.T @ sun[:3], ROT.T @ sun[3:]])
        mu_h = GM_SUN
        hv = np.cross(h[:3], h[3:])
        p = hv @ hv / mu_h
        rn = np.linalg.norm(h[:3])
        ev = np.cross(h[3:], hv) / mu_h - h[:3] / rn
        e = np.linalg.norm(ev)
        qh = p / (1 + e)
        gq = get_perihelion_row(pd.Series(row), jd, eph, cache2, GM_SUN, GM_TOTAL)
        require(abs(gq[0] - qh) <= (1e-8 + 10 * slack) * max(1.0, rn / qh) * qh, f"{r['fmt']} row: wrong perihelion distance", got=gq[0], want=qh, row=row)
        require(abs(gq[1] - e) <= (1e-8 + 10 * slack) * max(1.0, rn / qh), f"{r['fmt']} row: wrong eccentricity", got=gq[1], want=e, row=row)
        ctx.tag(r["fmt"])
    ctx.nontrivial(True)


@PROP.check(st.fixed_dictionaries({"fmt": st.sampled_from(["kep", "XYZ", "", "HELIO", "BKEPL"]), "o": ORBIT}), quick=40, thorough=200)
def unknown_format(case, ctx):
    """A format that does not exist is refused, not read as something else."""
    import pandas as pd

    from sorcha.ephemeris.simulation_parsing import parse_orbit_row

    row, _, _ = orbit_row({"o": case["o"], "fmt": "COM", "t": 60000.0})
    row.update(FORMAT=case["fmt"], a=3.0, ma=1.0, x=1.0, y=1.0, z=1.0, xdot=0.01, ydot=0.0, zdot=0.0)
    ctx.nontrivial(True)
    try:
        got = parse_orbit_row(pd.Series(row), 2460000.5, Ephem([0.0] * 6), {}, GM_SUN, GM_TOTAL)
    except (ValueError, SystemExit):
        return
    require(False, "an unknown orbit format is accepted", fmt=case["fmt"], got=got)
