"""C24: every generated ephemeris entry has the right place, rates and geometry."""
import numpy as np
from hypothesis import strategies as st

from vlib import ephem, sky
from vlib.core import Property, require
from vlib.gen import fx

PROP = Property(
    "C24",
    rule="1-3 objects of five kinds (0.5-60 au perihelia, bound and unbound) in the six orbit formats with their own epochs up to 500 days away, 1-5 visits aimed at them, six observatories, "
    "number-like identifiers. Each listed row is compared in all 23 columns. Non-trivial = a listed row.",
    assumptions=[
        "real ASSIST and SPICE with a made-up Solar System; ASSIST itself is trusted (same integrator in the reference, driven independently)",
        "rates are judged against finite differences of the apparent place; radial rates to 0.02 km/s (terms of first order in v/c are a matter of definition)",
        "vectors to the Sun may take the Sun at the time of observation or at light time",
    ],
    warmup=ephem.warm,
)

CASE = st.fixed_dictionaries(
    {
        "objects": ephem.objects(["main belt", "near Earth", "trans-Neptunian", "comet"], 3),
        "config": ephem.CONFIG,
        "start": fx(59900, 60500, 5),
        "walk": ephem.WALK,
        "visits": st.lists(ephem.VISIT, min_size=1, max_size=5),
        "ids": st.sampled_from([None, ["007", "7", "1e3"], ["2015 XY", "P/1", "a-b"], ["12", "0012", "12.0"]]),
    }
)
DAY = 86400.0


def wrap(x):
    return (x + 180) % 360 - 180


@PROP.check(CASE, quick=1200, thorough=20000)
def values(case, ctx):
    ids = case["ids"] and case["ids"][: len(case["objects"]["list"])]
    w = ephem.World(case, ids=ids)
    got = w.run()
    body = dict(zip(w.ids, w.bodies))
    code = case["config"]["code"]
    for _, r in got.iterrows():
        k, j = r["ObjID"], int(r["FieldID"])
        require(k in body, "unknown object", got=k, want=list(body))
        b, v = body[k], w.visits[j]
        jd = v["jd"]
        require(r["fieldMJD_TAI"] == v["observationMidpointMJD_TAI"], "wrong time of the visit", got=r["fieldMJD_TAI"], want=v["observationMidpointMJD_TAI"])
        require(abs(r["fieldJD_TDB"] - jd) < 2e-9, "wrong TDB", got=r["fieldJD_TDB"], want=jd)
        rho, lt, ra_, va_ = b.seen(jd, code)
        delta = np.linalg.norm(rho)
        u = rho / delta
        h = 5e-4 if delta < 0.3 else 2e-3
        x = {m: b.seen(jd + m * h, code)[0] for m in (-2, -1, 1, 2)}
        dist = {m: np.linalg.norm(x[m]) for m in x}

        def derivative(f):
            return (8 * (f[1] - f[-1]) - (f[2] - f[-2])) / (12 * h)

        du = derivative({m: x[m] / dist[m] for m in x}) * ephem.DEG
        rate = np.linalg.norm(du)
        radial = derivative(dist) * sky.AU / DAY
        a0, d0 = ephem.radec(u)
        # the time of the visit is a double (40 microseconds), the initial state is good to 1e-9
        tol = 3e-7 + 5e-9 * rate + 3e-7 / delta
        cosd = np.cos(np.radians(d0))
        require(abs(wrap(r["RA_deg"] - a0)) * cosd < tol, "wrong RA", got=r["RA_deg"], want=a0, tol=tol, object=k)
        require(abs(r["Dec_deg"] - d0) < tol, "wrong Dec", got=r["Dec_deg"], want=d0, tol=tol)
        require(0 <= r["RA_deg"] < 360 and -90 <= r["Dec_deg"] <= 90, "RA or Dec out of range", ra=r["RA_deg"], dec=r["Dec_deg"])
        require(abs(r["Range_LTC_km"] / sky.AU - delta) < 1e-9 + 2e-9 * delta, "wrong range", got=r["Range_LTC_km"], want=delta * sky.AU)
        require(abs(r["RangeRate_LTC_km_s"] - radial) < 0.02, "wrong range rate", got=r["RangeRate_LTC_km_s"], want=radial)
        e = np.array([-u[1], u[0], 0]) / np.hypot(u[0], u[1])
        n = np.cross(u, e)
        tol = 1e-6 + 2e-6 * rate + 1e-6 / delta
        require(cosd < 1e-3 or abs(r["RARateCosDec_deg_day"] - du @ e) < tol, "wrong RA rate", got=r["RARateCosDec_deg_day"], want=du @ e, object=k, delta=delta)
        require(cosd < 1e-3 or abs(r["DecRate_deg_day"] - du @ n) < tol, "wrong Dec rate", got=r["DecRate_deg_day"], want=du @ n, object=k, delta=delta)
        rs, vs = sky.sun(jd)
        ro, vo = sky.observer(jd, code)
        drift = np.linalg.norm(vs) * lt
        got_r = np.array([r[f"Obj_Sun_{a}_LTC_km"] for a in "xyz"]) / sky.AU
        got_v = np.array([r[f"Obj_Sun_v{a}_LTC_km_s"] for a in "xyz"]) * DAY / sky.AU
        require(np.linalg.norm(got_r - (ra_ - rs)) < 1e-8 + drift, "wrong vector from the Sun", got=got_r, want=ra_ - rs)
        require(np.linalg.norm(got_v - (va_ - vs)) < 1e-8 + 1e-3 * drift, "wrong velocity with respect to the Sun", got=got_v, want=va_ - vs)
        got_r = np.array([r[f"Obs_Sun_{a}_km"] for a in "xyz"]) / sky.AU
        got_v = np.array([r[f"Obs_Sun_v{a}_km_s"] for a in "xyz"]) * DAY / sky.AU
        require(np.linalg.norm(got_r - (ro - rs)) < 1e-9, "wrong observer", got=got_r, want=ro - rs)
        require(np.linalg.norm(got_v - (vo - vs)) < 1e-8, "wrong velocity of the observer", got=got_v, want=vo - vs)
        a, c = ra_ - rs, rho
        phase = ephem.sep(a / np.linalg.norm(a), c / np.linalg.norm(c))
        require(abs(r["phase_deg"] - phase) < 2e-5 + drift / np.linalg.norm(a) * ephem.DEG, "wrong phase angle", got=r["phase_deg"], want=phase)
        require(r["H_r"] == 10.0 + w.ids.index(k), "the row of another object was joined", object=k, got=r["H_r"])
        for name, x in b.row.items():
            require(r[name] == x, f"orbit column {name} changed", got=r[name], want=x)
        ctx.nontrivial()
        ctx.tag(w.fmt, case["objects"]["list"][w.ids.index(k)]["kind"], case["walk"])


UNIT3 = st.one_of(
    st.sampled_from([(1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (-1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (1.0, 1.0, 0.0), (1.0, 2.0, 2.0), (0.0, 0.6, -0.8), (0.6, -0.8, 0.0), (1.0, -1e-17, 0.0), (1.0, 1e-9, 0.0)]),
    st.tuples(*[fx(-1, 1, 3)] * 3).filter(lambda v: np.linalg.norm(v) > 0.1 and np.hypot(v[0], v[1]) > 0.01),
)
SPEED = st.tuples(*[fx(-0.02, 0.02, 5)] * 3)
GEO = st.fixed_dictionaries(
    {
        "u": UNIT3,  # from the observer to the object
        "rho": st.one_of(fx(0.01, 3, 4), fx(3, 100, 2), st.sampled_from([0.001, 1.0])),
        "sun": st.one_of(st.tuples(*[fx(-2, 2, 4)] * 3).filter(lambda v: np.linalg.norm(v) > 0.05), st.sampled_from(["behind", "in front", "beyond"])),
        "sun0": st.tuples(*[fx(-0.01, 0.01, 5)] * 3),
        "v": st.tuples(SPEED, SPEED, SPEED),
        "id": st.sampled_from(["a", "007", "1e3"]),
        "mjd": fx(60000, 60010, 6),
    }
)


@PROP.check(GEO, quick=1600, thorough=60000)
def geometry(case, ctx):
    """The entry of one object and one visit from their positions and velocities, in-line configurations included."""
    import pandas as pd

    from sorcha.ephemeris.simulation_driver import EphemerisGeometryParameters, calculate_rates_and_geometry

    u = np.array(case["u"])
    u = u / np.linalg.norm(u)
    rs = np.array(case["sun0"])
    s = case["sun"]  # the observer with respect to the Sun
    if s == "behind":
        os_ = u * 1.0  # opposition
    elif s == "in front":
        os_ = -u * (case["rho"] + 0.5)  # the object between observer and Sun
    elif s == "beyond":
        os_ = -u * case["rho"] * 0.5  # superior conjunction
    else:
        os_ = np.array(s)
    ro = rs + os_
    rho = u * case["rho"]
    ra_ = ro + rho
    va, vo, vs = (np.array(x) for x in case["v"])
    if np.linalg.norm(ra_ - rs) < 0.01:
        return
    row = {"FieldID": 77, "fieldJD_TDB": case["mjd"] + 2400000.5}
    for name, vec in (("r_sun", rs), ("r_obs", ro), ("v_sun", vs), ("v_obs", vo)):
        row.update({f"{name}_{a}": x for a, x in zip("xyz", vec)})
    g = EphemerisGeometryParameters()
    g.obj_id, g.mjd_tai, g.rho, g.rho_mag, g.r_ast, g.v_ast = case["id"], case["mjd"], rho, float(np.linalg.norm(rho)), ra_, va
    g.rho_hat = g.rho / g.rho_mag
    out = calculate_rates_and_geometry(pd.Series(row), g)
    require(len(out) == 23, "the entry does not have its 23 values", got=len(out))
    require(out[0] == case["id"] and out[1] == 77 and out[2] == case["mjd"] and out[3] == row["fieldJD_TDB"], "wrong object, visit or time", got=out[:4])
    v = np.array([float(x) for x in out[4:]])
    require(np.all(np.isfinite(v)), "a value of the entry is not a number", got=v, case=case)
    d = case["rho"]
    a0, d0 = ephem.radec(u)
    require(abs(v[0] / sky.AU - d) < 1e-12 * d + 1e-15, "wrong range", got=v[0], want=d * sky.AU)
    rel = va - vo
    radial = rel @ u
    require(abs(v[1] - radial * sky.AU / DAY) < 0.02, "wrong range rate", got=v[1], want=radial * sky.AU / DAY)
    require(0 <= v[2] < 360 and abs(wrap(v[2] - a0)) * np.cos(np.radians(d0)) < 1e-10, "wrong RA", got=v[2], want=a0)
    require(abs(v[4] - d0) < 1e-6 and (abs(d0) > 80 or abs(v[4] - d0) < 1e-10), "wrong Dec", got=v[4], want=d0)
    e = np.array([-u[1], u[0], 0]) / np.hypot(u[0], u[1])
    n = np.cross(u, e)
    app = (va * (1 - radial / 173.144632674) - vo) / d * ephem.DEG
    tol = 1e-9 * np.linalg.norm(app) + 1e-12 / d + 1e-3 * 1e-4 * np.linalg.norm(app)
    require(abs(v[3] - app @ e) < tol and abs(v[5] - app @ n) < tol, "wrong rates on the sky", got=(v[3], v[5]), want=(app @ e, app @ n), rho=d)
    for i, want, scale, what in ((6, ra_ - rs, sky.AU, "position from the Sun"), (9, va - vs, sky.AU / DAY, "velocity from the Sun"), (12, ro - rs, sky.AU, "observer"), (15, vo - vs, sky.AU / DAY, "velocity of the observer")):
        require(np.linalg.norm(v[i : i + 3] - want * scale) <= 1e-12 * scale * (1 + np.linalg.norm(want)), f"wrong {what}", got=v[i : i + 3], want=want * scale)
    a = ra_ - rs
    phase = ephem.sep(a / np.linalg.norm(a), u)
    require(abs(v[18] - phase) < 3e-6, "wrong phase angle", got=v[18], want=phase)
    ctx.nontrivial()
    ctx.tag(s if isinstance(s, str) else "general")
