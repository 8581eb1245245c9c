"""Shared machinery of the property-based checks.

A property module (checks/pNN.py) builds one `Property`, registers on it
  * checks     -- a Hypothesis strategy that yields a JSON-able *case* and a function that
                  executes the case against the code in /repo and judges it with an oracle;
  * findings   -- one fixed input per known, unrepaired defect (see known_findings.json).
`main` runs it: import + warm up once, fork SHARDS workers, let every worker drive its share of
the generated cases, shrink the first failure, replay the shrunk case without Hypothesis, write it
as a replay file, write the evidence file.

Exit status: 0 held; 1 violation (VIOLATION line printed); 2 the harness itself failed.
"""
import errno
import hashlib
import json
import math
import os
import pickle
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
SHARDS = 8


class Violation(Exception):
    """The code under test broke the property on this case."""


class HarnessError(Exception):
    """Something is wrong with the harness, not with the code under test."""


class NoAnswer(BaseException):
    """The code under test did not finish a case that takes well under a second."""


CASE_LIMIT_S = 90
# a signal handler of Python does not run inside of compiled code: the parent ends a worker that is stuck there
STUCK_S = 150
CRASHES = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL}


def _on_alarm(*_):
    raise NoAnswer()


class StopShrink(KeyboardInterrupt):
    """Ends Hypothesis' shrinking when its budget is used up (escapes Hypothesis)."""


def require(cond, msg="property does not hold", **detail):
    if not cond:
        if detail:
            msg += " | " + ", ".join(f"{k}={_short(v)}" for k, v in detail.items())
        raise Violation(msg)


def _short(v, n=300):
    s = repr(v)
    return s if len(s) <= n else s[:n] + "..."


def jsonable(x):
    """Canonical JSON-able copy of a case (tuples become lists, numpy scalars become Python)."""
    import numpy as np

    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return [jsonable(v) for v in x.tolist()]
    if isinstance(x, np.generic):
        return x.item()
    return x


class Ctx:
    """Handed to a check with each case: counts what the cases were."""

    def __init__(self, scratch_root):
        self.scratch_root = scratch_root
        self.tags = Counter()
        self.nontrivial_hashes = set()
        self.evaluations = 0
        self.samples = []
        self._dirs = []
        self._n = 0
        self._nt = False

    def begin(self):
        self._nt = False
        self._case_tags = []
        self.evaluations += 1

    def nontrivial(self, flag=True):
        """Mark the running case as non-trivial by the property's stated rule."""
        self._nt = self._nt or bool(flag)

    def tag(self, *labels):
        for label in labels:
            self.tags[str(label)] += 1

    def scratch(self):
        """A new empty directory, deleted after the case."""
        self._n += 1
        d = os.path.join(self.scratch_root, f"c{self._n}")
        os.makedirs(d)
        self._dirs.append(d)
        return d

    def end(self, name, case):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []
        if self._nt:
            blob = json.dumps([name, case], sort_keys=True, default=repr)
            h = hashlib.sha1(blob.encode()).digest()[:10]
            if h not in self.nontrivial_hashes:
                self.nontrivial_hashes.add(h)
                if len(self.samples) < 2:
                    self.samples.append({"check": name, "case": blob[:1500]})


class Check:
    def __init__(self, name, func, strategy, quick, thorough, weight_note=None):
        self.name, self.func, self.strategy = name, func, strategy
        self.quick, self.thorough = quick, thorough


class Property:
    def __init__(self, pid, rule, assumptions=(), warmup=None, level="exploration"):
        self.pid, self.rule, self.assumptions = pid, rule, list(assumptions)
        self.level = level
        self.checks = []
        self.findings = {}
        self._warmup = warmup

    def check(self, strategy, quick=200, thorough=None, name=None):
        def deco(f):
            self.checks.append(
                Check(name or f.__name__, f, strategy, quick, thorough or quick * 15)
            )
            return f

        return deco

    def warmup(self, f):
        self._warmup = f
        return f

    def finding(self, fid):
        def deco(f):
            self.findings[fid] = f
            return f

        return deco


INFRA_ERRNO = {errno.ENOSPC, errno.EMFILE, errno.ENFILE, errno.ENOMEM}


def judge(check, case, ctx):
    """Run one case. Returns None if the property held, else the failure text.

    Anything the code under test raises or exits with on these (valid by construction) inputs is a
    failure of the property, unless it is the machine (memory, disk) or the shared harness.
    """
    ctx.begin()
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.alarm(CASE_LIMIT_S)
    try:
        check.func(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except NoAnswer:
        return f"no answer within {CASE_LIMIT_S} s"
    except (HarnessError, MemoryError):
        raise
    except OSError as e:
        if e.errno in INFRA_ERRNO:
            raise HarnessError(f"machine trouble: {e}") from e
        return _describe(e)
    except (Exception, SystemExit) as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        return _describe(e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        ctx.end(check.name, case)


def _describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}" for f in tb if "/sorcha" in f.filename]
    last = f"{os.path.basename(tb[-1].filename)}:{tb[-1].lineno}" if tb else "?"
    return f"unexpected {type(e).__name__}: {_short(str(e))} (in repo: {where[-1] if where else 'none'}; raised at {last})"


def _sub_seed(seed, pid, name, shard):
    return zlib.crc32(f"{seed}/{pid}/{name}/{shard}".encode())


def _run_shard(prop, seed, tier, shard, outpath, budget_s, only):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from hypothesis.errors import Flaky, FlakyFailure

    scratch_root = os.path.join(os.path.dirname(outpath), f"s{shard}")
    os.makedirs(scratch_root)
    out = {"checks": {}, "failure": None, "error": None}
    t_start = time.monotonic()
    total_w = sum((c.quick if tier == "quick" else c.thorough) for c in prop.checks) or 1
    try:
        for ci, chk in enumerate(prop.checks):
            if only and chk.name not in only:
                continue
            ctx = Ctx(os.path.join(scratch_root, f"k{ci}"))
            os.makedirs(ctx.scratch_root)
            total = chk.quick if tier == "quick" else chk.thorough
            n = total // SHARDS + (1 if shard < total % SHARDS else 0)
            state = {"fail": None, "t_fail": None, "skipped": 0, "first": shard > 0}
            t0 = time.monotonic()
            # one check may use what is left of the shard's budget
            deadline = t_start + budget_s

            def body(case):
                case = jsonable(case)
                now = time.monotonic()
                if state["first"]:  # every shard would begin with the same simplest case; one is enough
                    state["first"] = False
                    return
                if state["fail"] is None and now > deadline:
                    state["skipped"] += 1
                    return
                if state["fail"] is not None and now > state["t_fail"] + 60:
                    raise StopShrink()
                with open(outpath + ".case", "w") as f:
                    json.dump({"check": chk.name, "case": case}, f, default=repr)
                msg = judge(chk, case, ctx)
                os.truncate(outpath + ".case", 0)
                if msg is not None:
                    if state["fail"] is None:
                        state["t_fail"] = now
                    state["fail"] = (case, msg)
                    raise Violation(msg)

            if n > 0:
                test = settings(
                    max_examples=n + (shard > 0),
                    database=None,
                    deadline=None,
                    report_multiple_bugs=False,
                    phases=[Phase.generate] if os.environ.get("VERIF_FAST") else [Phase.generate, Phase.shrink],
                    suppress_health_check=list(HealthCheck),
                    print_blob=False,
                )(given(chk.strategy)(body))
                test = hypothesis.seed(_sub_seed(seed, prop.pid, chk.name, shard))(test)
                try:
                    test()
                except (Violation, Flaky, FlakyFailure, StopShrink) as e:
                    if state["fail"] is None:
                        raise
            out["checks"][chk.name] = {
                "evaluations": ctx.evaluations,
                "requested": n,
                "skipped": state["skipped"],
                "hashes": ctx.nontrivial_hashes,
                "tags": ctx.tags,
                "samples": ctx.samples,
                "wall_s": time.monotonic() - t0,
            }
            if state["fail"] is not None:
                out["failure"] = {
                    "check": chk.name,
                    "case": state["fail"][0],
                    "message": state["fail"][1],
                }
                break
    except BaseException:
        out["error"] = traceback.format_exc()
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)
        with open(outpath + ".tmp", "wb") as f:
            pickle.dump(out, f)
        os.rename(outpath + ".tmp", outpath)


def _running_case(outp):
    try:
        with open(outp + ".case") as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def _wait(pids):
    """Waits for the workers, ends those that are stuck in a case; (pid, status, was stuck) for each."""
    done = {}
    while len(done) < len(pids):
        for pid, outp in pids:
            if pid in done:
                continue
            got, status = os.waitpid(pid, os.WNOHANG)
            if got:
                done[pid] = (pid, status, False)
                continue
            try:
                st = os.stat(outp + ".case")
            except FileNotFoundError:
                continue
            if st.st_size and time.time() - st.st_mtime > STUCK_S:
                os.kill(pid, signal.SIGKILL)
                _, status = os.waitpid(pid, 0)
                done[pid] = (pid, status, True)
        time.sleep(0.02)
    return [done[pid] for pid, _ in pids]


def _load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    with open(path) as f:
        entries = json.load(f)["findings"]
    return [e for e in entries if e["property"] == pid]


def write_replay(pid, failure):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(failure, indent=1, default=repr)
    h = hashlib.sha1(blob.encode()).hexdigest()[:10]
    path = os.path.join(d, f"{pid}-{failure['check']}-{h}.json")
    with open(path, "w") as f:
        f.write(blob + "\n")
    return path


def run(prop, argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", action="append", help="run only this check of the property (development)")
    ap.add_argument("--scale", type=float, default=1.0, help="multiply case counts (development)")
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args(argv)
    t0 = time.monotonic()
    work = os.environ["VERIF_WORK"]

    if prop._warmup is not None:
        try:
            prop._warmup()
        except (Exception, SystemExit) as e:
            # the warm-up only touches the code under test with an ordinary input
            print(f"note: warm-up raised {type(e).__name__}: {e}", file=sys.stderr)
    by_name = {c.name: c for c in prop.checks}

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        d = os.path.join(work, "replay")
        os.makedirs(d)
        msg = judge(by_name[rep["check"]], rep["case"], Ctx(d))
        if msg is None:
            print(f"replay: property={prop.pid} holds on {args.replay}")
            return 0
        print(f"replay: {msg}")
        print(f"VIOLATION property={prop.pid} replay={args.replay}")
        return 1

    if args.scale != 1.0:
        for c in prop.checks:
            c.quick = max(1, int(c.quick * args.scale))
            c.thorough = max(1, int(c.thorough * args.scale))
    budget = 420 if args.tier == "quick" else 6 * 3600
    budget = float(os.environ.get("VERIF_BUDGET_S", budget))

    pids = []
    sys.stdout.flush()
    sys.stderr.flush()
    for shard in range(SHARDS):
        outp = os.path.join(work, f"shard{shard}.pkl")
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                devnull = os.open(os.devnull, os.O_WRONLY)
                os.dup2(devnull, 1)
                if not os.environ.get("VERIF_STDERR"):
                    os.dup2(devnull, 2)
                _run_shard(prop, args.seed, args.tier, shard, outp, budget, args.only)
                code = 0
            finally:
                os._exit(code)
        pids.append((pid, outp))
    results, stuck = [], []
    for shard, (pid, status, late) in enumerate(_wait(pids)):
        outp = pids[shard][1]
        if not os.path.exists(outp):
            case = _running_case(outp)
            if case and (late or (os.WIFSIGNALED(status) and os.WTERMSIG(status) in CRASHES)):
                why = f"no answer within {STUCK_S} s" if late else f"crash, signal {os.WTERMSIG(status)}"
                stuck.append({**case, "message": why, "reproduced_without_library": False})
                results.append({"checks": {}, "failure": None, "error": None})
                continue
            results.append({"checks": {}, "failure": None, "error": f"worker {shard} died, status {status}"})
        else:
            with open(outp, "rb") as f:
                results.append(pickle.load(f))

    # known findings: the fixed input of each unrepaired defect
    known_lines = []
    rc = 0
    for e in _load_known(prop.pid):
        if e["status"] != "open":
            continue
        f = prop.findings[e["id"]]
        d = os.path.join(work, f"finding-{e['id']}")
        os.makedirs(d)
        msg = judge(Check(e["id"], lambda case, ctx: f(ctx), None, 0, 0), None, Ctx(d))
        if msg is not None:
            known_lines.append(f"KNOWN-FINDING: property={prop.pid} {e['id']} {e['what']}")

    failures = [r["failure"] for r in results if r["failure"]]
    errors = [r["error"] for r in results if r["error"]]
    tags, hashes, samples = Counter(), set(), []
    per_check = {}
    for r in results:
        for name, c in r["checks"].items():
            pc = per_check.setdefault(
                name, {"evaluations": 0, "distinct_nontrivial": 0, "skipped_for_time": 0, "classes": Counter(), "wall_s": 0.0}
            )
            pc["evaluations"] += c["evaluations"]
            pc["skipped_for_time"] += c["skipped"]
            pc["classes"].update(c["tags"])
            pc["wall_s"] += c["wall_s"]
            pc.setdefault("_h", set()).update(c["hashes"])
            hashes |= c["hashes"]
            if len([s for s in samples if s["check"] == name]) < 1:
                samples.extend(c["samples"][:1])
    for pc in per_check.values():
        pc["distinct_nontrivial"] = len(pc.pop("_h", ()))
        pc["classes"] = dict(pc["classes"].most_common(60))
        pc["wall_s"] = round(pc["wall_s"], 2)

    # confirm failures without the library, keep the smallest
    confirmed = []
    for i, f in enumerate(failures):
        d = os.path.join(work, f"confirm{i}")
        os.makedirs(d)
        try:
            msg = judge(by_name[f["check"]], f["case"], Ctx(d))
        except BaseException:
            errors.append(traceback.format_exc())
            continue
        f["reproduced_without_library"] = msg is not None
        if msg is not None:
            f["message"] = msg
            confirmed.append(f)
        else:
            confirmed.append(f)
    confirmed += stuck
    confirmed.sort(key=lambda f: (not f["reproduced_without_library"], len(json.dumps(f["case"], default=repr))))
    seen = set()
    uniq = []
    for f in confirmed:
        if f["check"] not in seen:
            seen.add(f["check"])
            uniq.append(f)

    evidence = {
        "property": prop.pid,
        "tier": args.tier,
        "seed": args.seed,
        "level": prop.level,
        "coverage": {
            "evaluations": sum(c["evaluations"] for c in per_check.values()),
            "distinct_nontrivial": len(hashes),
            "rule": prop.rule,
            "samples": samples[:12],
            "per_check": per_check,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(uniq),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = os.path.join(VERIF, "evidence", f"{prop.pid}.json")
    with open(ev + ".tmp", "w") as f:
        json.dump(evidence, f, indent=1, default=repr)
        f.write("\n")
    os.replace(ev + ".tmp", ev)

    for line in known_lines:
        print(line)
    for name, pc in per_check.items():
        print(
            f"{prop.pid}/{name}: {pc['evaluations']} cases, {pc['distinct_nontrivial']} distinct non-trivial,"
            f" {pc['wall_s']} s cpu" + (f", {pc['skipped_for_time']} skipped (time)" if pc["skipped_for_time"] else "")
        )
        if args.verbose:
            print("    ", pc["classes"])
    if uniq:
        for f in uniq:
            path = write_replay(prop.pid, {"property": prop.pid, **f})
            print(f"failure in {f['check']}: {f['message'][:1500]}")
            print(f"  case: {_short(json.dumps(f['case'], default=repr), 1500)}")
            print(f"VIOLATION property={prop.pid} replay={path}")
        rc = 1
    elif errors:
        for e in errors:
            print("HARNESS ERROR:\n" + e, file=sys.stderr)
        rc = 2
    else:
        print(f"{prop.pid}: held on everything explored ({evidence['wall_s']} s)")
    sys.stdout.flush()
    return rc
