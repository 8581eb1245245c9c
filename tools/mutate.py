#!/usr/bin/env python3
"""Measures the checks: small random edits of the code under test, each run against the checks of its file (run by hand).

mutate.py OUT.jsonl N SEED [--jobs J] [FILE ...]   (files relative to src/)
Runs from any copy of /verif; works in copies of /repo/src under /tmp. Prints survivors.
"""
import argparse, ast, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUT_SRC", "/repo/src")
M, R, U, E = "sorcha/modules/", "sorcha/readers/", "sorcha/utilities/", "sorcha/ephemeris/"
MAP = {
    "sorcha/sorcha.py": "C03 C01 C32", "sorcha/des.py": "C04 C01", U + "sorchaModuleRNG.py": "C02",
    R + "CSVReader.py": "C05 C06 C34", R + "HDF5Reader.py": "C05 C06", R + "ObjectDataReader.py": "C05 C06", R + "EphemerisReader.py": "C05 C06 C34", R + "CombinedDataReader.py": "C06 C05",
    R + "OrbitAuxReader.py": "C07 C06", R + "DatabaseReader.py": "C05", M + "PPReadPointingDatabase.py": "C08", M + "PPMatchPointingToObservations.py": "C08",
    M + "PPCalculateApparentMagnitude.py": "C09", M + "PPCalculateApparentMagnitudeInFilter.py": "C09", M + "PPApplyColourOffsets.py": "C09", M + "PPCalculateSimpleCometaryMagnitude.py": "C09",
    M + "PPGetMainFilterAndColourOffsets.py": "C34 C09 C03 C06", M + "PPTrailingLoss.py": "C10", M + "PPVignetting.py": "C11", M + "PPAddUncertainties.py": "C12 C03", M + "PPRandomizeMeasurements.py": "C13",
    M + "PPFootprintFilter.py": "C14", M + "PPApplyFOVFilter.py": "C15 C14 C16", M + "PPVisitsFootprintFilter.py": "C16", M + "PPDetectionProbability.py": "C17", M + "PPFadingFunctionFilter.py": "C17",
    M + "DESDetectionProbability.py": "C17", M + "DESFadingFunctionFilter.py": "C17", M + "PPDropObservations.py": "C17", M + "PPDetectionEfficiency.py": "C17", M + "PPSNRLimit.py": "C18", M + "PPMagnitudeLimit.py": "C18",
    M + "PPBrightLimit.py": "C18", M + "PPLinkingFilter.py": "C19", M + "PPMiniDifi.py": "C19", M + "PPDistanceandMotionCuts.py": "C20", M + "DESDiscoveryFilter.py": "C21", M + "PPOutput.py": "C27",
    M + "PPStats.py": "C28", U + "sorchaConfigs.py": "C29 C03 C35", M + "PPFaintObjectCullingFilter.py": "C22", E + "simulation_parsing.py": "C26 C25 C24 C22", E + "pixel_dict.py": "C23 C24",
    E + "simulation_driver.py": "C24 C23 C32", E + "simulation_geometry.py": "C26 C24", E + "simulation_setup.py": "C26 C24 C30", E + "orbit_conversion_utilities.py": "C25", U + "generate_meta_kernel.py": "C26 C33", U + "retrieve_ephemeris_data_files.py": "C33", U + "sorcha_copy_configs.py": "C33", U + "sorcha_copy_demo_files.py": "C33", U + "citation_text.py": "C33",
    "sorcha_cmdline/bootstrap.py": "C33", "sorcha_cmdline/main.py": "C33", "sorcha_cmdline/init.py": "C33", "sorcha_cmdline/demo.py": "C33", "sorcha_cmdline/cite.py": "C33", E + "simulation_data_files.py": "C33",
    U + "sorchaCommandLineParser.py": "C30", "sorcha_cmdline/run.py": "C30", U + "sorchaArguments.py": "C30 C35 C03", U + "sorchaGetLogger.py": "C30 C31 C35", U + "check_output_logs.py": "C31",
    U + "createResultsSQLDatabase.py": "C31", "sorcha_cmdline/outputs.py": "C31", "sorcha/lightcurves/base_lightcurve.py": "C09", "sorcha/activity/base_activity.py": "C09",
    "sorcha/lightcurves/lightcurve_registration.py": "C09 C03", "sorcha/activity/activity_registration.py": "C09 C03", U + "fileAccessUtils.py": "C30 C31",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.In: ["not in"], ast.NotIn: ["in"], ast.Is: ["is not"], ast.IsNot: ["is"]}
BIN = {ast.Add: ["-"], ast.Sub: ["+"], ast.Mult: ["/"], ast.Div: ["*"], ast.Mod: ["*"], ast.Pow: ["*"], ast.FloorDiv: ["/"], ast.BitAnd: ["|"], ast.BitOr: ["&"]}
CALLS = {"min": "max", "max": "min", "any": "all", "all": "any", "sin": "cos", "cos": "sin", "arcsin": "arccos", "arctan2": "hypot", "floor": "ceil", "ceil": "floor", "ascending": "descending", "less": "greater", "append": "extend"}
QUIET = ("log", "logger", "pplogger", "verboselog", "print", "exit", "warning", "info", "error", "debug", "add_argument")


def name_of(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""


class Finder(ast.NodeVisitor):
    def __init__(self, text):
        self.text, self.out = text, []
        self.starts = [0]
        for l in text.encode().splitlines(keepends=True):
            self.starts.append(self.starts[-1] + len(l))
        self.b = text.encode()

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def src(self, n):
        a, b = self.span(n)
        return self.b[a:b].decode()

    def put(self, n, new, kind):
        a, b = self.span(n)
        self.out.append((a, b, new, kind, n.lineno))

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call):
            if name_of(n.value.func) in QUIET:
                return
            self.put(n, "pass", "drop statement")
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.put(n, "pass", "drop raise")

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.src(n.left), self.src(n.comparators[0])
            for o in CMP.get(type(n.ops[0]), []):
                self.put(n, f"({l} {o} {r})", "comparison")
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, "value", None), str):
            return
        for o in BIN.get(type(n.op), []):
            self.put(n, f"({self.src(n.left)} {o} {self.src(n.right)})", "operator")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        o = " or " if isinstance(n.op, ast.And) else " and "
        self.put(n, "(" + o.join(f"({self.src(v)})" for v in n.values) + ")", "boolean")
        for v in n.values:
            self.put(n, f"({self.src(v)})", "one operand")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        self.put(n, f"({self.src(n.operand)})", "unary")
        self.generic_visit(n)

    def visit_If(self, n):
        self.put(n.test, f"(not ({self.src(n.test)}))", "negate")
        self.put(n.test, "True", "always")
        self.put(n.test, "False", "never")
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.put(n, str(not v), "constant")
        elif isinstance(v, int):
            self.put(n, str(v + 1), "constant")
            if v:
                self.put(n, str(v - 1), "constant")
        elif isinstance(v, float):
            self.put(n, repr(v * 1.01 if v else 0.01), "constant")

    def visit_Call(self, n):
        f = name_of(n.func)
        if f in QUIET or f == "check_key_exists":
            return
        if f in CALLS:
            s = self.src(n.func)
            self.put(n.func, s[: len(s) - len(f)] + CALLS[f], "call")
        if len(n.args) == 2 and not n.keywords:
            self.put(n, f"{self.src(n.func)}({self.src(n.args[1])}, {self.src(n.args[0])})", "swap arguments")
        for k in n.keywords:
            if k.arg and len(n.keywords) + len(n.args) > 1:
                a, b = self.span(k)
                rest = self.b[b:].lstrip()
                if rest.startswith(b","):
                    b = len(self.b) - len(rest) + 1
                self.out.append((a, b, "", "drop keyword", n.lineno))
        self.generic_visit(n)

    def visit_Assign(self, n):
        if len(n.targets) == 1 and not isinstance(n.value, (ast.Constant, ast.Name)):
            if isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
                self.put(n, "pass", "drop assignment")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.put(n, "pass", "drop assignment")
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        for s in n.body:
            self.visit(s)

    def visit_JoinedStr(self, n):
        pass


def mutants(rel):
    text = open(os.path.join(SRC, rel)).read()
    f = Finder(text)
    f.visit(ast.parse(text))
    b = text.encode()
    out = []
    for a, e, new, kind, line in f.out:
        t = (b[:a] + new.encode() + b[e:]).decode()
        try:
            compile(t, rel, "exec")
        except SyntaxError:
            continue
        out.append(dict(file=rel, line=line, kind=kind, old=b[a:e].decode()[:200], new=new[:200], a=a, e=e, full=new))
    return out


def one(m, checks):
    d = tempfile.mkdtemp(prefix="mut_")
    try:
        src = os.path.join(d, "src")
        shutil.copytree(SRC, src, ignore=shutil.ignore_patterns("__pycache__"))
        p = os.path.join(src, m["file"])
        b = open(p, "rb").read()
        open(p, "wb").write(b[: m["a"]] + m["full"].encode() + b[m["e"] :])
        m["result"] = "SURVIVED"
        t = time.time()
        for c in checks:
            r = subprocess.run([sys.executable, "run_check.py", c], cwd=HERE, env=dict(os.environ, VERIF_REPO_SRC=src, VERIF_FAST="1"), capture_output=True, text=True, timeout=1500)
            if r.returncode == 1:
                m["result"] = "caught by " + c
                break
            if r.returncode != 0:
                m["result"] = f"{c} rc {r.returncode}"
                m["err"] = r.stderr[-600:]
                break
        m["s"] = round(time.time() - t)
    except subprocess.TimeoutExpired:
        m["result"] = "timeout"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    m.pop("full")
    return m


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("n", type=int)
    ap.add_argument("seed", type=int)
    ap.add_argument("--jobs", type=int, default=3)
    ap.add_argument("files", nargs="*")
    a = ap.parse_args()
    files = a.files or list(MAP)
    rng = random.Random(a.seed)
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            x = json.loads(l)
            done.add((x["file"], x["line"], x["old"], x["new"]))
    todo = []
    for f in files:
        ms = [m for m in mutants(f) if (m["file"], m["line"], m["old"], m["new"]) not in done]
        rng.shuffle(ms)
        # at most one mutant per line and kind first
        todo += ms[: a.n]
    rng.shuffle(todo)
    print(len(todo), "mutants")
    with ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as fh:
        for m in ex.map(lambda m: one(m, MAP[m["file"]].split()), todo):
            fh.write(json.dumps(m) + "\n")
            fh.flush()
            if not m["result"].startswith("caught"):
                print(m["result"], m["file"], m["line"], m["kind"], "|", m["old"].replace("\n", " ")[:90], "->", m["new"].replace("\n", " ")[:90], flush=True)
