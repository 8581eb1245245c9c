"""C33: `sorcha` itself, init, demo prepare, cite and bootstrap: whole, exact files; nothing of the user's lost."""
import contextlib
import gzip
import io
import json
import os
import re
import shutil
import sys
import threading
from types import SimpleNamespace

from hypothesis import strategies as st

from vlib import sky
from vlib.core import REPO_SRC, Property, require

PROP = Property(
    "C33",
    rule="init and demo prepare into folders that hold any subset of the files already, with every selection, with and without --force; bootstrap (its web requests answered by a stand-in that knows each file's address) "
    "into caches that hold any subset of the files, with servers that fail for good, now and then, or half-way, then again with all servers up; auxiliary files with names and addresses of the user's own; "
    "`sorcha VERB ...` with made-up verbs on the path. Non-trivial = something is there already, or a server fails, or a file is the user's own.",
    assumptions=[
        "the network is a stand-in for requests.get; pooch's waiting between attempts is skipped",
        "ObsCodes.json may be rewritten when its compressed form is fetched, and the meta kernel whenever something is",
        "what a failed bootstrap did fetch may stay",
    ],
)

INIT = {
    "1": ["Rubin_circular_approximation.ini"],
    "2": ["Rubin_full_footprint.ini"],
    "3": ["Rubin_known_object_prediction.ini"],
    "4": ["DES_config_file.ini"],
}
INIT["5"] = [f for v in list(INIT.values()) for f in v]
DEMO = ["sorcha_config_demo.ini", "sspp_testset_colours.txt", "sspp_testset_orbits.des", "baseline_v2.0_1yr.db"]


@PROP.warmup
def _warm():
    import sorcha.ephemeris.simulation_setup  # noqa: F401
    import sorcha_cmdline.bootstrap, sorcha_cmdline.cite, sorcha_cmdline.demo, sorcha_cmdline.init, sorcha_cmdline.main  # noqa: F401,E401

    sky.folder()


def tree(d):
    out = {}
    for root, dirs, names in os.walk(d):
        for n in names:
            with open(os.path.join(root, n), "rb") as f:
                out[os.path.relpath(os.path.join(root, n), d)] = f.read()
    return out


def call(main, argv, stdin=None, cwd=None):
    """(exit code, standard output)"""
    import builtins

    old, text, here, ask = sys.argv, io.StringIO(), os.getcwd(), builtins.input
    sys.argv = argv
    if stdin is not None:
        builtins.input = lambda *a: stdin
    try:
        if cwd:
            os.chdir(cwd)
        with contextlib.redirect_stdout(text), contextlib.redirect_stderr(io.StringIO()):
            main()
        code = 0
    except SystemExit as e:
        code = 0 if e.code is None else e.code
    finally:
        sys.argv, builtins.input = old, ask
        os.chdir(here)
    return code, text.getvalue()


def shipped(name):
    for sub in ("survey_setups", "demo"):
        p = os.path.join(REPO_SRC, "sorcha", "data", sub, name)
        if os.path.exists(p):
            with open(p, "rb") as f:
                return f.read()
    raise FileNotFoundError(name)


@PROP.check(
    st.fixed_dictionaries(
        {
            "cmd": st.sampled_from(["init", "init", "demo"]),
            "pick": st.sampled_from(["1", "2", "3", "4", "5", "5", "5", "0", "6", "x", "", "1.0", "-1"]),
            "have": st.lists(st.integers(0, 9), max_size=3),
            "force": st.booleans(),
            "place": st.sampled_from(["absolute", "relative", "here", "missing", "blanks"]),
            "other": st.booleans(),
        }
    ),
    quick=500,
    thorough=8000,
)
def copies(c, ctx):
    from sorcha_cmdline import demo, init

    names = DEMO if c["cmd"] == "demo" else INIT.get(c["pick"])
    base = ctx.scratch()
    sub = "my files" if c["place"] == "blanks" else "d"
    d = os.path.join(base, sub)
    os.makedirs(d)
    pool = names or INIT["5"]
    have = {pool[i % len(pool)] for i in c["have"]}
    for n in have:
        with open(os.path.join(d, n), "w") as f:
            f.write("my own " + n)
    if c["other"]:
        for n in (INIT["5"] + DEMO):
            if n not in pool:
                with open(os.path.join(d, n), "w") as f:
                    f.write("mine too")
    before = tree(base)
    argv = ["sorcha " + c["cmd"]] + (["prepare"] if c["cmd"] == "demo" else [])
    if c["place"] != "here":
        argv += ["-p" if c["force"] else "--path", {"absolute": d, "relative": sub, "missing": os.path.join(base, "nowhere"), "blanks": d}[c["place"]]]
    if c["force"]:
        argv += ["-f" if c["other"] else "--force"]
    code, _ = call((demo if c["cmd"] == "demo" else init).main, argv, c["pick"], cwd=d if c["place"] == "here" else base)
    after = tree(base)
    refuse = names is None or c["place"] == "missing" or (bool(have) and not c["force"])
    ctx.nontrivial(bool(have))
    ctx.tag(c["cmd"], "refused" if refuse else "copied")
    if refuse:
        require(code != 0, "files copied although they exist, or nothing to copy or nowhere to copy to is not an error", have=sorted(have), pick=c["pick"], place=c["place"])
        require(after == before, "a refused copy changed files", files=sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k)))
        return
    require(code == 0, "files are not copied", code=code)
    want = dict(before, **{os.path.join(sub, n): shipped(n) for n in names})
    require(after == want, "not exactly the files asked for were written", files=sorted(k for k in set(after) | set(want) if after.get(k) != want.get(k)))


@PROP.check(
    st.fixed_dictionaries({"here": st.booleans(), "old": st.booleans(), "missing": st.sampled_from([False, False, True])}), quick=24, thorough=24
)
def citation(c, ctx):
    from sorcha.utilities.citation_text import cite_sorcha
    from sorcha_cmdline import cite

    d = ctx.scratch()
    with open(os.path.join(d, "notes"), "w") as f:
        f.write("x")
    if c["old"]:
        with open(os.path.join(d, "sorcha_citation.txt"), "w") as f:
            f.write("y" * 100000)
    before = tree(d)
    arg = [] if c["here"] and not c["missing"] else ["-o", os.path.join(d, "nowhere") if c["missing"] else d]
    code, _ = call(cite.main, ["sorcha cite"] + arg, cwd=d)
    ctx.nontrivial(c["old"])
    if c["missing"]:
        require(code != 0 and tree(d) == before, "a folder that does not exist is no error", code=code)
        return
    text = io.StringIO()
    cite_sorcha(f=text)
    require(code == 0 and tree(d) == dict(before, **{"sorcha_citation.txt": text.getvalue().encode()}), "not the citation was written", code=code)


# ---------------------------------------------------------------- bootstrap
class Web:
    """Answers requests.get: one text per address; addresses may fail."""

    def __init__(self, content, faults=None):
        self.content, self.faults, self.asked, self.lock = content, dict(faults or {}), [], threading.Lock()

    def get(self, url, *a, **k):
        import requests

        with self.lock:
            self.asked.append(url)
            n = self.asked.count(url)
        kind = self.faults.get(url)
        if isinstance(kind, int):
            kind = "cut" if n <= kind else None
        if kind == "connection":
            raise requests.exceptions.ConnectionError("no connection to " + url)
        data = self.content.get(url)
        missing = data is None or kind == "404"

        def check():
            if missing:
                raise requests.exceptions.HTTPError("404 for " + url)

        def chunks(chunk_size=1, **_):
            if kind == "cut":
                yield data[: len(data) // 2]
                raise requests.exceptions.ChunkedEncodingError("connection broken")
            yield data

        return SimpleNamespace(raise_for_status=check, iter_content=chunks, headers={"content-length": str(len(data or b""))}, status_code=404 if missing else 200, ok=not missing)

    @contextlib.contextmanager
    def __call__(self):
        import logging
        import time

        import requests

        old = requests.get, requests.head, time.sleep
        requests.get, requests.head, time.sleep = self.get, self.get, lambda s: None
        logging.disable(logging.CRITICAL)
        try:
            yield
        finally:
            requests.get, requests.head, time.sleep = old
            logging.disable(logging.NOTSET)


KEYS = ["planet_ephemeris", "earth_predict", "earth_historical", "earth_high_precision", "jpl_planets", "jpl_small_bodies", "leap_seconds", "observatory_codes_compressed", "orientation_constants"]
KERNELS = ["leap_seconds", "earth_historical", "earth_predict", "orientation_constants", "planet_ephemeris", "earth_high_precision"]


def codes(mark):
    return json.dumps({mark: {"Longitude": 1.0, "cos": 0.5, "sin": 0.5, "Name": "here"}}).encode()


def addresses(aux):
    """name of the file -> its address and text"""
    out = {}
    for k in KEYS:
        url = getattr(aux, k + "_url")
        if url:
            out[getattr(aux, k)] = (url, gzip.compress(codes("W01"), mtime=0) if k == "observatory_codes_compressed" else f"contents of {url}\n".encode() * 40)
    return out


def meta_names(text):
    return re.findall(r"'\$A/([^']*)'", text.decode())


FAULT = st.sampled_from(["404", "connection", "cut", 1, 3, 20])


@PROP.check(
    st.fixed_dictionaries(
        {
            "have": st.one_of(st.just(list(range(11))), st.lists(st.integers(0, 10), max_size=11, unique=True)),
            "force": st.sampled_from([False, False, True]),
            "faults": st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 8), FAULT), max_size=3, unique_by=lambda t: t[0])),
            "fresh": st.booleans(),
            "extra": st.booleans(),
        }
    ),
    quick=300,
    thorough=4000,
)
def bootstrap(c, ctx):
    from sorcha.utilities.sorchaConfigs import auxiliaryConfigs
    from sorcha_cmdline import bootstrap as cmd

    aux = auxiliaryConfigs()
    served = addresses(aux)
    require(len(served) == 9, "a file has no address", files=sorted(served))
    plain = [getattr(aux, k) for k in KEYS]
    every = plain + [aux.observatory_codes, aux.meta_kernel]
    d = os.path.join(ctx.scratch(), "cache")
    have = [] if c["fresh"] and not c["extra"] and len(c["have"]) < 11 else [every[i] for i in c["have"]]
    if have or c["extra"]:
        os.makedirs(d)
    for n in have:
        with open(os.path.join(d, n), "wb") as f:
            f.write(gzip.compress(codes("M01"), mtime=0) if n == aux.observatory_codes_compressed else codes("M02") if n == aux.observatory_codes else b"mine " + n.encode())
    if c["extra"]:
        for n in ("notes.txt", "de441.bsp"):
            with open(os.path.join(d, n), "w") as f:
                f.write("mine")
    before = tree(d)
    faults = {served[plain[i]][0]: kind for i, kind in c["faults"]}
    web = Web({u: t for u, t in served.values()}, faults)
    argv = ["sorcha bootstrap", "--cache", d] + (["-f" if c["extra"] else "--force"] if c["force"] else [])
    with web():
        try:
            code, text = call(cmd.main, argv)
        except Exception as e:  # a failed download may end the command
            code, text = repr(e), ""
    after = tree(d)
    complete = not c["force"] and len(have) == len(every)
    kept = {n for n in plain if n in have and not c["force"]}
    dead = {n for n in plain if isinstance(faults.get(served[n][0]), str) and n not in kept} if not complete else set()
    ctx.nontrivial(bool(have) or bool(faults))
    ctx.tag("complete" if complete else "some servers down" if dead else "force" if c["force"] else "filled up")
    require({k: v for k, v in after.items() if k not in every} == {k: v for k, v in before.items() if k not in every}, "files that are none of the command's were touched or left")
    if complete:
        require(after == before and not web.asked, "a complete cache is not left alone", asked=web.asked, changed=sorted(k for k in after if after[k] != before.get(k)))
        require(code == 0 and "All expected files were found" in text, "a complete cache is not reported as such", text=text[-300:])
        return

    def judge(after, dead, text):
        for n in plain:
            if n in kept:
                require(after.get(n) == before[n], "a file that was there was changed without --force", file=n)
            elif n in dead:
                require(n not in after, "a file whose download failed is there", file=n, size=len(after.get(n, b"")))
            elif not dead or n in after:
                require(after.get(n) == served[n][1], "a file is missing or not what its address holds", file=n, there=n in after)
        m, want = after.get(aux.meta_kernel), [getattr(aux, k) for k in KERNELS]
        if m is not None and not (not c["force"] and m == before.get(aux.meta_kernel)):
            require(meta_names(m) == want and m.decode().rstrip().endswith("\\begintext"), "the meta kernel is not whole", names=meta_names(m))
        j = after.get(aux.observatory_codes)
        if j is not None:
            require(j in (codes("W01"), codes("M01"), codes("M02")), "the observatory codes are not the unpacked ones", start=j[:60])
            if c["force"] or (aux.observatory_codes not in have):
                src = "M01" if aux.observatory_codes_compressed in kept else "W01"
                require(j == codes(src), "the observatory codes are not those of the packed file", start=j[:60])
        if dead:
            require(text is None or "All expected files were found" not in text, "missing files are reported as found", dead=sorted(dead))
            return
        require(m is not None and j is not None and all(n in after for n in every), "files are missing", missing=[n for n in every if n not in after])
        require(meta_names(m) == want, "the meta kernel does not list the kernels in their order", names=meta_names(m))
        require(text is None or "All expected files were found" in text, "success is not reported", text=text[-300:])

    judge(after, dead, text)
    if not dead:
        require(code == 0, "bootstrap ends with an error", code=code)
        asked = set(web.asked)
        require(asked == {served[n][0] for n in plain if n not in kept}, "not exactly the missing files are asked for", asked=sorted(asked))
        return
    # once the servers are back, running it again completes the cache
    again = Web({u: t for u, t in served.values()})
    with again():
        code, text = call(cmd.main, ["sorcha bootstrap", "--cache", d])
    require(code == 0, "bootstrap ends with an error", code=code)
    judge(tree(d), set(), text)


@PROP.check(
    st.fixed_dictionaries(
        {
            "own": st.lists(st.tuples(st.sampled_from(KEYS), st.sampled_from(["name", "name and address"])), min_size=1, max_size=4, unique_by=lambda t: t[0]),
            "have": st.lists(st.sampled_from(KEYS), unique=True, max_size=9),
            "meta": st.sampled_from(["meta_kernel.txt", "my_meta.tm"]),
            "json": st.sampled_from(["ObsCodes.json", "mine.json"]),
        }
    ),
    quick=250,
    thorough=4000,
)
def own_files(c, ctx):
    """A run uses the auxiliary files its configuration names, wherever they come from, and no others."""
    import spiceypy as sp
    from sorcha.ephemeris.simulation_data_files import make_retriever
    from sorcha.ephemeris.simulation_parsing import Observatory
    from sorcha.ephemeris.simulation_setup import furnish_spiceypy
    from sorcha.utilities.sorchaConfigs import auxiliaryConfigs

    default = auxiliaryConfigs()
    real = {k: open(os.path.join(sky.folder(), getattr(default, k)), "rb").read() for k in KERNELS}
    kw = {"meta_kernel": c["meta"], "observatory_codes": c["json"]}
    for k, how in c["own"]:
        ext = os.path.splitext(getattr(default, k))[1]
        kw[k] = "own_" + k + ext
        if how != "name":
            kw[k + "_url"] = f"https://example.org/{k}/file{ext}"
    try:
        aux = auxiliaryConfigs(**kw)
    except SystemExit as e:
        require(False, "file names and addresses of the user's own are refused", why=e.code, given=kw)
    own = dict(c["own"])

    def text(k, mark):
        if k in real:
            return real[k]
        return gzip.compress(codes(mark), mtime=0) if k == "observatory_codes_compressed" else f"{mark} {k}".encode()

    # the default addresses serve something else for files the user has given names
    content = {getattr(default, k + "_url"): text(k, "W99" if k in own else "W01") for k in KEYS}
    content.update({kw[k + "_url"]: text(k, "W02") for k, how in c["own"] if how != "name"})
    d = os.path.join(ctx.scratch(), "cache")
    os.makedirs(d)
    for k in c["have"]:
        with open(os.path.join(d, getattr(aux, k)), "wb") as f:
            f.write(text(k, "M01"))
    args = SimpleNamespace(ar_data_file_path=d)
    name_only = [k for k in KEYS if own.get(k) == "name" and k not in c["have"]]
    web = Web(content)
    ctx.nontrivial(True)
    ctx.tag("a file without address is missing" if name_only else "all to be had")

    def attempt(f):
        try:
            return True, f()
        except (SystemExit, Exception) as e:  # noqa: B014
            return False, repr(e)

    sp.kclear()
    try:
        with web(), contextlib.redirect_stderr(io.StringIO()):
            ok, why = attempt(lambda: furnish_spiceypy(args, aux))
            loaded = [sp.kdata(i, "ALL", 255, 20, 255)[0] for i in range(sp.ktotal("ALL"))]
            lost = [k for k in KERNELS if k in name_only]
            require(ok == (not lost), "kernels to be had are not loaded, or a kernel that is not to be had goes unnoticed", error=why, lost=lost)
            if ok:
                want = [os.path.join(d, n) for n in [c["meta"]] + [getattr(aux, k) for k in KERNELS]]
                require([os.path.basename(x) for x in loaded] == [os.path.basename(x) for x in want], "not the configured kernels in their order", loaded=loaded)
            ok, obs = attempt(lambda: Observatory(args, aux))
            lost = "observatory_codes_compressed" in name_only
            require(ok == (not lost), "observatory codes to be had are not read, or missing ones go unnoticed", error=None if ok else obs)
            if ok:
                mark = "M01" if "observatory_codes_compressed" in c["have"] else "W02" if "observatory_codes_compressed" in own else "W01"
                require(list(obs.ObservatoryXYZ) == [mark], "not the configured observatory codes", got=list(obs.ObservatoryXYZ), want=mark)
            r = make_retriever(aux, d)
            for k in ("jpl_planets", "jpl_small_bodies"):
                ok, p = attempt(lambda: r.fetch(getattr(aux, k)))
                require(ok == (k not in name_only), "a file to be had is not fetched, or one that is not to be had is", file=k, result=p)
                if ok:
                    mark = "M01" if k in c["have"] else "W02" if k in own else "W01"
                    got = open(p, "rb").read()
                    require(os.path.basename(p) == getattr(aux, k) and got == text(k, mark), "not the configured file", file=k, got=got[:40], want=mark)
    finally:
        sp.kclear()
    bad = [u for u in web.asked if u in {getattr(default, k + "_url") for k in own}]
    require(not bad, "a file of the user's own is taken from the default address", asked=bad)


# ---------------------------------------------------------------- sorcha VERB
WORD = st.one_of(
    st.sampled_from(["-c", "--config", "a b", "--help", "-h", "--version", "--stem=x", "", "-", "x.ini", "*", "$HOME", "run", "-1", "é", "--vers", "-vq", "'"]),
    st.text(alphabet="ab-_= .,;*$\"'\\", max_size=6),
)


@PROP.check(
    st.fixed_dictionaries(
        {
            "verb": st.sampled_from(["run", "foo", "x-y", "demo", "run.sh"]),
            "args": st.lists(WORD, max_size=5),
            "code": st.sampled_from([0, 0, 1, 2, 77, 255]),
            "state": st.sampled_from(["there", "there", "there", "not executable", "missing", "second folder", "both folders"]),
        }
    ),
    quick=300,
    thorough=4000,
)
def verbs(c, ctx):
    from sorcha_cmdline import main

    base = ctx.scratch()
    log = os.path.join(base, "log")
    dirs = [os.path.join(base, x) for x in ("bin 1", "bin2")]
    for d in dirs:
        os.makedirs(d)

    def script(d, verb, code, x=True):
        p = os.path.join(d, "sorcha-" + verb)
        with open(p, "w") as f:
            f.write(f"#!/bin/sh\nprintf '%s\\0' '{os.path.basename(d)}' \"$@\" >> '{log}'\nexit {code}\n")
        os.chmod(p, 0o755 if x else 0o644)

    script(dirs[0], "other", 3)
    s = c["state"]
    if s in ("there", "both folders"):
        script(dirs[0], c["verb"], c["code"])
    if s == "not executable":
        script(dirs[0], c["verb"], c["code"], False)
    if s in ("second folder", "both folders"):
        script(dirs[1], c["verb"], c["code"] if s == "second folder" else 9)
    old = os.environ.get("PATH")
    os.environ["PATH"] = os.pathsep.join([dirs[0], os.path.join(base, "nowhere"), dirs[1]])
    try:
        code, _ = call(main.main, ["sorcha", c["verb"], *c["args"]])
    finally:
        os.environ["PATH"] = old
    got = open(log, "rb").read().decode().split("\0")[:-1] if os.path.exists(log) else None
    ctx.nontrivial(bool(c["args"]))
    if s in ("not executable", "missing"):
        require(code != 0 and got is None, "a verb that is not there is no error", code=code, ran=got)
        return
    want = [os.path.basename(dirs[1] if s == "second folder" else dirs[0])] + c["args"]
    require(got == want, "the command gets other arguments", got=got, want=want)
    require(code == c["code"], "the command's exit status is lost", got=code, want=c["code"])
