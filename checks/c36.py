"""C36: brightness models are found by their name and applied exactly, and only, where they are asked for."""
import gc
import logging
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from checks import c09
from vlib import e2e, ephem
from vlib.core import Property, require
from vlib.gen import fx, relclose, write_ini

PROP = Property(
    "C36",
    rule="histories of 1-12 operations (define a light-curve or activity class under one of a few names, make new classes known, collect all, load a configuration naming a model); "
    "tables, whole runs and cullings with one of several models of different strengths chosen by name, identity models included; models whose columns are missing. Non-trivial = at least two classes "
    "defined and one operation after them, or a model chosen among several.",
    assumptions=["classes derive from the base classes themselves, as documented; in runs that cull faint objects they have the method maxBrightness of the community models"],
)

NAMES = ["comet", "sinus", "identity", "none_", "Sinus", "lsst_comet", "my model"]
_N = [0]


@PROP.warmup
def _warm():
    import sorcha.des, sorcha.sorcha  # noqa: F401,E401
    import sorcha.modules.PPFaintObjectCullingFilter  # noqa: F401

    e2e.register()
    gc.collect()
    gc.freeze()  # only what a case makes is searched for what can be forgotten


class Kind:
    def __init__(self, kind):
        self.kind = kind
        if kind == "lc":
            from sorcha.lightcurves import lightcurve_registration as r
            from sorcha.lightcurves.base_lightcurve import AbstractLightCurve as base

            self.base, self.methods, self.update, self.collect = base, r.LC_METHODS, r.update_lc_subclasses, r.register_lc_subclasses
        else:
            from sorcha.activity import activity_registration as r
            from sorcha.activity.base_activity import AbstractCometaryActivity as base

            self.base, self.methods, self.update, self.collect = base, r.CA_METHODS, r.update_activity_subclasses, r.register_activity_subclasses

    def define(self, name, strength=0.0, need=(), filt=None):
        """A new model under this name. Light curve: adds strength * k of the row. Activity: takes strength * k of the row, in one filter only if given."""
        if self.kind == "lc":

            class Model(self.base):
                def __init__(self):
                    super().__init__(list(need))

                def compute(self, df):
                    self._validate_column_names(df)
                    return strength * df["vary"].values

                def maxBrightness(self, df):
                    return -abs(strength)

                @staticmethod
                def name_id():
                    return name

        else:

            class Model(self.base):
                def __init__(self):
                    super().__init__(list(need))

                def compute(self, df, observing_filters, rho, delta, alpha):
                    self._validate_column_names(df)
                    lit = np.ones(len(df)) if filt is None else (df["optFilter"] == filt).values * 1.0
                    df["trailedSourceMagTrue"] = df["trailedSourceMagTrue"] - lit * strength * np.abs(df["vary"].values)
                    return df

                def maxBrightness(self, df, observing_filters, rho, delta, alpha):
                    return df["trailedSourceMagTrue"] - abs(strength)

                @staticmethod
                def name_id():
                    return name

        return Model


class Tidy:
    """Models defined inside are forgotten afterwards: the tables of models, and the base classes, are as they were."""

    def __enter__(self):
        gc.collect()
        self.kinds = {k: Kind(k) for k in ("lc", "ca")}
        self.was = {k: dict(v.methods) for k, v in self.kinds.items()}
        return self.kinds

    def __exit__(self, *a):
        for k, v in self.kinds.items():
            v.methods.clear()
            v.methods.update(self.was[k])
        gc.collect()


OP = st.tuples(
    st.sampled_from(["define", "define", "define", "update", "update", "collect", "collect", "config", "wrong kind"]),
    st.sampled_from(["lc", "ca"]),
    st.sampled_from(NAMES[:1] * 3 + NAMES[1:2]) | st.sampled_from(NAMES),
)


def load(folder, lc, ca):
    from sorcha.utilities.sorchaConfigs import sorchaConfigs

    ini = {
        "INPUT": {"ephemerides_type": "external", "eph_format": "csv", "size_serial_chunk": 10, "aux_format": "csv", "pointing_sql_query": "SELECT 1"},
        "FILTERS": {"observing_filters": "r,g"},
        "PHASECURVES": {"phase_function": "none"},
        "FOV": {"camera_model": "none"},
        "FADINGFUNCTION": {"fading_function_on": "False"},
        "OUTPUT": {"output_format": "csv", "output_columns": "basic"},
    }
    if lc is not None:
        ini["LIGHTCURVE"] = {"lc_model": lc}
    if ca is not None:
        ini["ACTIVITY"] = {"comet_activity": ca}
    try:
        cfg = sorchaConfigs(write_ini(os.path.join(folder, "c.ini"), ini), "rubin_sim")
    except SystemExit as e:
        return str(e.code)
    return cfg.lightcurve.lc_model, cfg.activity.comet_activity


@PROP.check(st.lists(OP, min_size=4, max_size=14), quick=400, thorough=3000)
def registry(ops, ctx):
    ctx.nontrivial(sum(o[0] == "define" for o in ops) > 1 and ops[-1][0] != "define")
    folder = ctx.scratch()
    with Tidy() as kinds:
        alive = {k: [(c.name_id(), c) for c in v.base.__subclasses__()] for k, v in kinds.items()}
        known = {k: dict(v.methods) for k, v in kinds.items()}
        for k in kinds:
            require("identity" in known[k], "the identity model is not registered", kind=k)
        for op, k, name in ops:
            v = kinds[k]
            if op == "define":
                alive[k].append((name, v.define(name)))
            elif op == "update":
                v.update()
                for n, c in alive[k]:
                    known[k].setdefault(n, c)
            elif op == "collect":
                names = [n for n, _ in alive[k]]
                twice = {n for n in names if names.count(n) > 1}
                try:
                    got = v.collect()
                except ValueError as e:
                    require(twice, "classes of different names are refused", why=str(e), names=names)
                    require(any(n in str(e) for n in twice), "the refusal does not say which name is used twice", why=str(e), twice=sorted(twice))
                    ctx.tag("two classes of one name")
                else:
                    require(not twice, "two classes of one name are not refused", names=names)
                    require(got == dict(alive[k]), "not exactly the defined classes, each under its name", got=sorted(got), want=sorted(names))
            else:
                # what is registered for one kind of model is nothing to the other
                o = k if op == "config" else ("ca" if k == "lc" else "lc")
                r = load(folder, name if o == "lc" else None, name if o == "ca" else None)
                if name in known[o]:
                    require(r == ((name, None) if o == "lc" else (None, name)), "a registered model is not taken by the configuration", kind=o, name=name, got=r)
                else:
                    require(isinstance(r, str) and name in r, "the configuration takes a model that is not registered", kind=o, name=name, got=r)
                    ctx.tag("unregistered refused")
            for j in kinds:
                require({n: id(c) for n, c in kinds[j].methods.items()} == {n: id(c) for n, c in known[j].items()}, "the table of models is wrong after this history", kind=j, got=sorted(kinds[j].methods), want=sorted(known[j]))
        r = load(folder, "none", "none")
        require(r == (None, None), "'none' is not no model", got=r)
        del alive, known


STRENGTHS = [0.5, -0.25, 1.5, 0.0]
MODELS = st.lists(st.tuples(st.sampled_from(["lc", "ca"]), st.sampled_from(NAMES[:2] + NAMES[3:]), st.sampled_from(STRENGTHS), st.sampled_from([None, None, "r", "g"])), min_size=1, max_size=5, unique_by=lambda m: m[:2])


@st.composite
def chosen(draw):
    models = draw(MODELS)
    pick = {}
    for k in ("lc", "ca"):
        names = [m[1] for m in models if m[0] == k]
        pick[k] = draw(st.sampled_from([None, "identity"] + names + names))
    c = draw(c09.cases())
    c["lc"] = c["ca"] = None
    return {"models": models, "pick": pick, "case": c}


def setup(kinds, models):
    keep = [kinds[k].define(n, s, ["vary"], f) for k, n, s, f in models]
    for v in kinds.values():
        v.update()
    return keep


@PROP.check(chosen(), quick=250, thorough=6000)
def applied(c, ctx):
    """Among several models, the one that is named changes the magnitudes, by what it computes; no other column changes."""
    from sorcha.modules.PPCalculateApparentMagnitude import PPCalculateApparentMagnitude

    case, pick = c["case"], c["pick"]
    others = [f"{f}-{case['main']}" for f in case["filters"] if f != case["main"]] or None

    def run(lc, ca):
        return PPCalculateApparentMagnitude(c09.build(case), case["fn"], case["main"], others, list(case["filters"]), ca, lightcurve_choice=lc)

    ctx.nontrivial(len(c["models"]) > 1 and (pick["lc"] or pick["ca"]))
    ctx.tag(*[f"{k}={'identity' if v == 'identity' else 'none' if v is None else 'one of several'}" for k, v in pick.items()])
    with Tidy() as kinds:
        keep = setup(kinds, c["models"])
        base, got = run(None, None), run(pick["lc"], pick["ca"])
        want = base["trailedSourceMagTrue"].values.copy()
        for k, n, s, f in c["models"]:
            if pick[k] == n:
                vary = np.array([r["vary"] for r in case["obs"]])
                if k == "lc":
                    want = want + s * vary
                else:
                    want = want - s * np.abs(vary) * np.array([1.0 if f in (None, r["f"]) else 0.0 for r in case["obs"]])
        require(relclose(got["trailedSourceMagTrue"], want, atol=1e-9), "not the brightness of the chosen models", got=got["trailedSourceMagTrue"].tolist(), want=want.tolist(), pick=pick)
        require(set(got.columns) - set(base.columns) == ({"Delta_m"} if pick["lc"] else set()), "columns added or lost", got=sorted(set(got.columns) ^ set(base.columns)))
        for col in base.columns:
            if col != "trailedSourceMagTrue":
                require(base[col].equals(got[col]), "another column was changed", column=col)
        del keep


@PROP.check(chosen(), quick=200, thorough=4000)
def faint(c, ctx):
    """Culling with a model removes what culling without one removes from objects brighter by what the model can add: nothing for identity."""
    from sorcha.modules.PPFaintObjectCullingFilter import PPFaintObjectCullingFilter

    case, pick = c["case"], c["pick"]
    filters = [case["main"]] + [f for f in case["filters"] if f != case["main"]]
    rng = np.random.default_rng(len(case["obs"]))

    def table(brighter=0.0):
        rows = []
        for i, r in enumerate(case["obs"]):
            o = case["objs"][r["o"]]
            q = 2.5 + i
            # around the limit of this visit's filter
            h = r["t"] % 1 * 6 - 3 + 24 + 2 - 5 * np.log10(q * (q - 1))
            row = {"ObjID": f"o{i}", "FORMAT": "COM", "q": q, "e": 0.1, "inc": 5.0, "node": 1.0, "argPeri": 2.0, "t_p_MJD_TDB": 60000.0, "epochMJD_TDB": 60000.0, "H_" + filters[0]: h - brighter}
            row.update({f"{f}-{filters[0]}": o["col"][f] for f in filters[1:]})
            rows.append(row)
        return pd.DataFrame(rows)

    visits = pd.DataFrame({"optFilter": filters, "fieldFiveSigmaDepth_mag": np.round(24 + rng.uniform(-1, 1, len(filters)), 2)})
    with Tidy() as kinds:
        keep = setup(kinds, c["models"])

        def cull(df, lc, ca):
            return sorted(PPFaintObjectCullingFilter(df, visits, filters[0], list(filters), lc, ca)["ObjID"])

        more = sum(abs(s) for k, n, s, f in c["models"] if pick[k] == n)
        got, want = cull(table(), pick["lc"], pick["ca"]), cull(table(more), None, None)
        ctx.nontrivial(0 < len(want) < len(case["obs"]))
        ctx.tag("identity" if "identity" in pick.values() else "other")
        lo, hi = cull(table(more - 1e-6), None, None), cull(table(more + 1e-6), None, None)
        require(set(lo) <= set(got) <= set(hi), "with a model the wrong objects are culled", got=got, want=want, pick=pick)
        del keep


@PROP.check(
    st.tuples(e2e.world(), st.sampled_from([("identity", None), (None, "identity"), ("identity", "identity"), ("m", None), (None, "m"), ("m", "m"), ("lost", None), (None, "lost")]), st.sampled_from(STRENGTHS[:2])),
    quick=40,
    thorough=1200,
)
def whole_runs(c, ctx):
    """A run with the identity models gives what it gives with none; one with a model whose column is not in the file is refused."""
    w, (lc, ca), s = c
    w = dict(w, stats=True, cols="all", lc=None, ca=None)
    ctx.tag(f"lc={lc}", f"ca={ca}")
    with Tidy() as kinds:
        keep = setup(kinds, [("lc", "m", s, None), ("ca", "m", s, None)]) + [kinds[k].define("lost", 1.0, ["vary", "no such column"]) for k in kinds]
        for v in kinds.values():
            v.update()
        outs = []
        for i, (a, b) in enumerate([(None, None), (lc, ca)]):
            ww = dict(w, lc=a, ca=b)
            if i == 0:
                args = e2e.write(dict(ww, lc="x"), ctx.scratch())  # the complex file is there in both
                write_ini(args["configfile"], e2e.ini_sections(ww))
            else:
                args = e2e.write(ww, ctx.scratch())
            if "lost" in (a, b):
                rows = e2e.read_output(w, outs[0][0])
                try:
                    e2e.run(args)
                except (SystemExit, ValueError):
                    require(not e2e.read_output(w, args), "results of a run whose model lacks its column")
                    ctx.nontrivial(True)
                else:
                    # without a single visited observation the model is never needed
                    seen = [r for r in e2e.eph_rows(w) if r["ObjID"] in w["ids"] and r["FieldID"] in {v["id"] for v in e2e.visits(w) if v["filter"] in w["filters"]}]
                    require(not seen, "a run goes on without the column its model requires", rows=len(rows or []))
                del keep
                return
            e2e.run(args)
            outs.append((args, e2e.read_output(w, args), e2e.read_stats(args)))
        (_, r0, s0), (_, r1, s1) = outs
        if "m" in (lc, ca):
            # every detection of both runs: brighter or fainter by what the models say of its object
            vary = {w["ids"][k]: o["lca"] for k, o in enumerate(w["objs"])}
            t0 = {(r["ObjID"], str(r.get("FieldID"))): r for r in r0 or []}
            both = 0
            for r in r1 or []:
                p = t0.get((r["ObjID"], str(r.get("FieldID"))))
                if p is None:
                    continue
                both += 1
                want = p["trailedSourceMagTrue"] + (s * vary[r["ObjID"]] if lc else 0.0) - (s * abs(vary[r["ObjID"]]) if ca else 0.0)
                require(abs(r["trailedSourceMagTrue"] - want) < 3e-3, "not the brightness of the chosen model", got=r["trailedSourceMagTrue"], want=want)
                if lc:
                    require(abs(r["Delta_m"] - s * vary[r["ObjID"]]) < 3e-3, "not the light curve of the chosen model", got=r["Delta_m"])
            ctx.nontrivial(both > 0)
        else:
            ctx.nontrivial(bool(r0))
            require((r0 is None) == (r1 is None) and len(r0 or []) == len(r1 or []), "the identity models change which observations are detected", without=len(r0 or []), with_=len(r1 or []))
            for a, b in zip(r0 or [], r1 or []):
                a, b = dict(a), dict(b)
                if lc:
                    require(b.pop("Delta_m") == 0, "the identity light curve is not zero")
                a.pop("vary", None), b.pop("vary", None)  # read only when a model is used
                require(list(a) == list(b) and all(a[k] == b[k] or a[k] != a[k] for k in a), "the identity models change a value", without=a, with_=b)
            require(s0 == s1, "the identity models change the statistics", without=s0, with_=s1)
        del keep


@PROP.check(st.tuples(st.sampled_from(["lc", "ca"]), st.text(min_size=1, max_size=30)), quick=40, thorough=400)
def messages(c, ctx):
    """A model's error message, or exception, reaches the log as it is."""
    kind, text = c
    seen = []

    class H(logging.Handler):
        def emit(self, r):
            seen.append((r.levelno, r.getMessage()))

    h, root = H(), logging.getLogger()
    root.addHandler(h)
    try:
        m = Kind(kind).methods["identity"]()
        for what in (ValueError(text), RuntimeError(text)):
            m._log_exception(what)
        m._log_error_message(text)
    finally:
        root.removeHandler(h)
    ctx.nontrivial(True)
    require([x for x in seen if text in x[1] and x[0] >= logging.ERROR] == seen and len(seen) == 3, "a model's message is not logged as an error", got=seen)


