# template of a whole run for demonstrations: simulate(objs, eph, visits, sections, survey) -> rows of the csv
E2E = '''
import csv, sqlite3
def simulate(objs, eph, visits, sections, survey="rubin_sim", stats=None, d=S, chunk=100, complex_=None):
    """objs: (ObjID, H); eph: (ObjID, FieldID, ra, dec, rate, delta, sun); visits: (id, mjd, filter, depth, ra, dec)"""
    from sorcha.utilities.sorchaArguments import sorchaArguments
    from sorcha.utilities.sorchaConfigs import sorchaConfigs
    os.makedirs(d, exist_ok=True)
    des = survey == "des"
    p = lambda n: os.path.join(d, n)
    for n in ("run.csv", "tally.csv", "v.db"):
        if os.path.exists(p(n)): os.remove(p(n))
    with open(p("orb.csv"), "w") as f:
        f.write("ObjID,FORMAT,a,e,inc,node,argPeri,ma,epochMJD_TDB\\n" + "".join(f"{o[0]},KEP,2.5,0.1,5,10,20,30,60000.0\\n" for o in objs))
    with open(p("par.csv"), "w") as f:
        f.write("ObjID,H_r\\n" + "".join(f"{o[0]},{o[1]}\\n" for o in objs))
    cols = "ObjID,FieldID,fieldMJD_TAI,Range_LTC_km,RangeRate_LTC_km_s,RA_deg,RARateCosDec_deg_day,Dec_deg,DecRate_deg_day,Obj_Sun_x_LTC_km,Obj_Sun_y_LTC_km,Obj_Sun_z_LTC_km,Obj_Sun_vx_LTC_km_s,Obj_Sun_vy_LTC_km_s,Obj_Sun_vz_LTC_km_s,Obs_Sun_x_km,Obs_Sun_y_km,Obs_Sun_z_km,Obs_Sun_vx_km_s,Obs_Sun_vy_km_s,Obs_Sun_vz_km_s,phase_deg"
    au = 149597870.7
    mjd = {v[0]: v[1] for v in visits}
    with open(p("eph.csv"), "w") as f:
        f.write(cols + "\\n")
        for o, v, ra, dec, rate, delta, sun in eph:
            f.write(",".join(map(repr, [0, v, mjd[v], delta * au, 1.0, ra, rate, dec, 0.0, sun * au, 0.0, 0.0, 1.0, 1.0, 1.0, 1e8, 1.0, 1.0, 1.0, 1.0, 1.0, 5.0])).replace("0", o, 1) + "\\n")
    con = sqlite3.connect(p("v.db"))
    if des:
        q = "SELECT observationId, observationMidpointMJD_TAI, visitExposureTime, filter, fieldFiveSigmaDepth_mag, fieldRA_deg, fieldDec_deg, c, k FROM observations"
        con.execute("create table observations (observationId, observationMidpointMJD_TAI, visitExposureTime, filter, fieldFiveSigmaDepth_mag, fieldRA_deg, fieldDec_deg, c, k)")
        for v in visits: con.execute("insert into observations values (?,?,?,?,?,?,?,?,?)", (v[0], v[1] + 45.0 / 86400, 90.0, v[2], v[3], v[4], v[5], 1.0, 4.0))
    else:
        q = "SELECT observationId, observationStartMJD as observationStartMJD_TAI, visitTime, visitExposureTime, filter, seeingFwhmGeom as seeingFwhmGeom_arcsec, seeingFwhmEff as seeingFwhmEff_arcsec, fiveSigmaDepth as fieldFiveSigmaDepth_mag , fieldRA as fieldRA_deg, fieldDec as fieldDec_deg, rotSkyPos as fieldRotSkyPos_deg FROM observations order by observationId"
        con.execute("create table observations (observationId, observationStartMJD, visitTime, visitExposureTime, filter, seeingFwhmGeom, seeingFwhmEff, fiveSigmaDepth, fieldRA, fieldDec, rotSkyPos)")
        for v in visits: con.execute("insert into observations values (?,?,?,?,?,?,?,?,?,?,?)", (v[0], v[1], 34.0, 30.0, v[2], 0.8, 0.9, v[3], v[4], v[5], 0.0))
    con.commit(); con.close()
    s = {"INPUT": dict(ephemerides_type="external", eph_format="csv", size_serial_chunk=chunk, aux_format="csv", pointing_sql_query=q), "FILTERS": dict(observing_filters="r"), "PHASECURVES": dict(phase_function="none"),
         "FOV": dict(camera_model="none"), "FADINGFUNCTION": dict(fading_function_on=False), "OUTPUT": dict(output_format="csv", output_columns="all"), "LIGHTCURVE": dict(lc_model="none"), "ACTIVITY": dict(comet_activity="none"), "EXPERT": {}}
    if not des: s["EXPERT"] = dict(trailing_losses_on=False, vignetting_on=False, randomization_on=False)
    for k, x in sections.items(): s.setdefault(k, {}).update(x)
    with open(p("c.ini"), "w") as f:
        for k, x in s.items(): f.write(f"[{k}]\\n" + "".join(f"{a} = {b}\\n" for a, b in x.items()))
    a = dict(paramsinput=p("par.csv"), orbinfile=p("orb.csv"), input_ephemeris_file=p("eph.csv"), configfile=p("c.ini"), outpath=d, outfilestem="run", pointing_database=p("v.db"), output_ephemeris_file=None, ar_data_path=None,
             loglevel=False, stats=stats, visits_database=None, surveyname=survey, seed=3)
    cfg = sorchaConfigs(a["configfile"], survey)
    if des:
        from sorcha.des import runDESSimulation as run
    else:
        from sorcha.sorcha import runLSSTSimulation as run
    run(sorchaArguments(a), cfg)
    return list(csv.DictReader(open(p("run.csv")))) if os.path.exists(p("run.csv")) else []
'''
