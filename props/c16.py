"""C16: update notices name a real, newer, installable release and are rate limited."""
import contextlib
import glob
import io
import json
import os
import re
import shutil
import sys
import tempfile

from packaging.version import InvalidVersion, Version

from vlib import fakenet
from vlib.core import Outcome, forked

CASES = {"quick": 6000, "thorough": 80000}
URL = "https://pypi.org/pypi/edulint/json"
TTL = 600
ERRORS = ["ConnectionError", "Timeout", "ChunkedEncodingError", "SSLError", "ContentDecodingError"]
RULE = (
    "A case is an installed version and a history of runs of the command line (update check enabled or disabled, some with every file write cut after k bytes, failing or "
    "killing the process), answers of the package index (generated sets of releases with pre-, post- and development releases, odd version strings, withdrawn files and releases "
    "without files; malformed documents; HTTP and network errors), clock steps (frozen or ticking during a run) and damaged or deleted local records. The notice written in each "
    "run and the requests made are compared with a reference model ordering versions by the packaging library. Non-trivial: a run was made with a valid index answer."
)
ASSUMPTIONS = ["the clock does not run backwards", "all files of a withdrawn release are marked so, as PyPI does"]
TIMEOUT_IS_VIOLATION = True


def prepare():
    import edulint.edulint  # noqa
    import requests  # noqa


PARTS = ["0.1", "1.0", "2.0.0", "4.2.0", "4.2.1", "4.2.1.post1", "4.2.2rc1", "4.2.2", "4.3.0a1", "4.10.0", "4.9.9", "5.0.0.dev3", "5.0.0b2", "5.0.0", "10.0", "1!0.1", "4.2.1+local", "v4.2.3",
         "4.2.2.0", "4.2.2-1", "2004d", "4.2.x", "latest", "", "4..2"]
LOCALS = ["4.2.1", "4.2.1", "4.2.1", "4.2.0", "4.2.2rc1", "5.0.0.dev1", "4.2.1.dev0+gabc", "4.10.0", "0.0.1", "10.0", "unknown-version", None]


def releases(rng):
    res = {}
    for v in rng.sample(PARTS, rng.choice([0, 1, 1, 2, 3, 5, 8, len(PARTS)])):
        yanked = rng.random() < 0.25
        n = 0 if rng.random() < 0.2 else rng.randint(1, 3)
        files = []
        for i in range(n):
            f = {"filename": f"edulint-{v}-{i}.whl", "packagetype": "bdist_wheel"}
            if yanked:
                f["yanked"], f["yanked_reason"] = True, rng.choice([None, "broken", ""])
            elif rng.random() < 0.7:
                f["yanked"], f["yanked_reason"] = False, None
            files.append(f)
        res[v] = files
    return res


def generate(rng):
    steps = []
    for _ in range(rng.randint(3, 12)):
        k = rng.random()
        if k < 0.45:
            fault = [rng.choice(["fail", "crash"]), rng.choice([0, 1, 2, 10, 30, 60, 5000])] if rng.random() < 0.15 else None
            steps.append(["run", rng.random() < 0.12, fault, rng.random() < 0.8])
        elif k < 0.7:
            r = rng.random()
            if r < 0.65:
                steps.append(["index", ["ok", {"info": {"name": "edulint", "version": rng.choice(PARTS)}, "releases": releases(rng), "urls": []}]])
            elif r < 0.85:
                steps.append(["index", ["raw", rng.choice(["", "<html>portal</html>", "{", "[]", "null", "{}", '{"message": "Not Found"}', '{"releases": null}', '{"releases": []', "5",
                                                           '"releases"', '{"releases": 5}']), rng.choice([200, 200, 404, 500])]])
            else:
                steps.append(["index", ["exc", rng.choice(ERRORS)]])
        elif k < 0.9:
            steps.append(["tick", rng.choice([1, 100, 580, 595, 599, 600, 601, 620, 3600, 10 ** 6])])
        else:
            steps.append(["damage", rng.choice(["delete", "empty", "truncate", "binary", "list"])])
    if not any(s[0] == "index" for s in steps):
        steps.insert(0, ["index", ["ok", {"releases": releases(rng)}]])
    if not any(s[0] == "run" for s in steps):
        steps.append(["run", False, None, True])
    ticking = rng.choice([0, 0, 0, 1, 25])
    if ticking and rng.random() < 0.3:  # the record expires during a run
        bad = rng.choice([["exc", "Timeout"], ["raw", "{}", 200], ["ok", {"releases": {}}]])
        steps[:0] = [["index", ["ok", {"releases": releases(rng)}]], ["run", False, None, True], ["tick", 600 - ticking * rng.randint(1, 8)], ["index", bad], ["run", False, None, True]]
    return {"local": rng.choice(LOCALS), "steps": steps, "ticking": ticking}


def fresh_modules():
    for m in [m for m in sys.modules if m in ("edulint", "edulint.edulint", "edulint.explanations") or m.startswith("edulint.versions")]:
        del sys.modules[m]
    import edulint.edulint

    return edulint.edulint


def play(case, world, data):
    from loguru import logger
    import importlib.metadata
    import time
    from props.c15 import join_threads

    logger.remove()
    os.environ["XDG_DATA_HOME"] = data
    world.install()
    if case["ticking"]:
        def tick():
            world.now += case["ticking"]
            return float(world.now)
        time.time = tick
    time.sleep = lambda s: None
    real = importlib.metadata.version

    def fake_version(name):
        if name.lower() == "edulint":
            if case["local"] is None:
                raise importlib.metadata.PackageNotFoundError(name)
            return case["local"]
        return real(name)

    importlib.metadata.version = fake_version
    sys.modules["pkg_resources"] = None
    ed = fresh_modules()
    logger.remove()
    log = []

    def run(disabled, explain):
        sys.argv = ["edulint"] + (["explain"] if explain else ["version"]) + ["--disable-explanations-update"] + (["--disable-version-check"] if disabled else []) + (["--", "C0103"] if explain else [])
        out, err = io.StringIO(), io.StringIO()
        excs = []
        import threading

        threading.excepthook = lambda a: excs.append(repr(a.exc_value)[:300])
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                rc = ed.main()
            except SystemExit as e:
                rc = e.code
            join_threads()
        logger.remove()
        return [rc, err.getvalue(), out.getvalue()[:2000], excs]

    for s in case["steps"]:
        world.asked = []
        got, touched, start = None, False, world.now
        if s[0] == "index":
            a = s[1]
            world.answers[URL] = ["ok", json.dumps(a[1])] if a[0] == "ok" else ["status", a[2], a[1]] if a[0] == "raw" else a
        elif s[0] == "tick":
            world.now += s[1]
        elif s[0] == "damage":
            for p in glob.glob(data + "/**", recursive=True):
                if os.path.isfile(p):
                    text = open(p, "rb").read()
                    if s[1] == "delete":
                        os.remove(p)
                    else:
                        with open(p, "wb") as f:
                            f.write({"empty": b"", "truncate": text[:len(text) // 2], "binary": b"\xff\xfe\x00", "list": b"[]"}[s[1]])
        else:
            before = fakenet.snapshot(data)
            if s[2] is None:
                got = run(s[1], s[3])
            else:
                fakenet.limited(lambda: run(s[1], s[3]), *s[2])
            touched = fakenet.snapshot(data) != before
        log.append((got, [u for u in world.asked], touched, start, world.now))
    return log


def parse(v):
    try:
        return Version(v)
    except InvalidVersion:
        return None


def best(ans):
    """(ok, highest release or None)"""
    if ans is None or ans[0] != "ok":
        return False, None
    vs = [parse(v) for v, files in ans[1]["releases"].items() if files and not any(f.get("yanked") for f in files)]
    vs = [v for v in vs if v is not None]
    return True, max(vs, default=None)


def run_case(case):
    data = tempfile.mkdtemp(prefix="d-")
    try:
        observed = forked(play, case, fakenet.World(), data, timeout=40)
    finally:
        shutil.rmtree(data, ignore_errors=True)
    viol = []
    slack = 12 * case["ticking"]
    local = parse(case["local"]) if case["local"] is not None else None

    def notice(b):
        return b if b is not None and local is not None and local < b else None

    server = None
    last = None  # time of the last request
    certain = True
    allowed = None  # answers allowed without asking; None: must ask
    goods = []  # highest releases of former good answers
    useful = False
    note = []
    for i, (s, (got, asked, touched, t0, t1)) in enumerate(zip(case["steps"], observed)):
        if s[0] == "index":
            server = s[1]
        elif s[0] == "damage":
            certain = False
        elif s[0] == "run":
            where = f"step {i} {s}, installed {case['local']}, index {json.dumps(server)[:1500]}"
            hist = f"\nhistory {json.dumps(case['steps'])[:3000]}"
            if s[1]:
                if asked or touched:
                    viol.append(("disabled", f"{where}: the check is disabled, yet asked {asked}, data changed: {touched}{hist}"))
                    break
            ok, b = best(server)
            if s[2] is not None:
                if not s[1]:
                    certain = False
                    if ok:
                        goods.append(b)
                    last = None if last is None else last
                continue
            found = re.findall(r"Update for EduLint \(([^)]*)\) is available", got[1])
            if "Traceback" in got[1] or got[3]:
                viol.append(("fails", f"{where}: {got[3]} {got[1][-1500:]}{hist}"))
                break
            if s[1]:
                if found:
                    viol.append(("disabled", f"{where}: notice {found} though disabled{hist}"))
                    break
                continue
            if s[3] and (got[0] != 0 or "C0103" not in got[2] and "###" not in got[2]):
                viol.append(("fails", f"{where}: the run ended with {got[0]}, output {got[2][:200]!r}{hist}"))
                break
            if local is not None:
                if len(asked) > 1 or asked and certain and last is not None and t1 - last < TTL - slack:
                    viol.append(("rate", f"{where}: asked {len(asked)} times, the previous request was {None if last is None else t1 - last} s ago{hist}"))
                    break
                if not asked and (last is None or t0 - last > TTL + slack) and certain:
                    viol.append(("stale", f"{where}: not asked though the previous request was {None if last is None else t0 - last} s ago{hist}"))
                    break
            if asked:
                last, certain_now = t1, True
                useful = useful or ok
                if ok:
                    allowed = [notice(b)]
                    goods = [b]
                else:
                    allowed = [None] + [notice(g) for g in goods]
                options = allowed
                certain = True
            elif certain and allowed is not None:
                options = allowed
            else:
                options = [None] + [notice(g) for g in goods] + (allowed or [])
            shown = [parse(v) for v in found]
            note.append(found)
            if len(found) > 1 or (shown[0] if shown else None) not in options or (found and shown[0] is None):
                viol.append(("notice", f"{where}: notices {found}, expected one of {[str(o) for o in options]} (asked: {bool(asked)}){hist}"))
                break
    return Outcome(viol, useful, [s[0] for s in case["steps"]] + (["notice"] if any(note) else []), evals=sum(s[0] == "run" for s in case["steps"]), note=note)


def shrink(case):
    for i in range(len(case["steps"]) - 1, -1, -1):
        yield dict(case, steps=case["steps"][:i] + case["steps"][i + 1:])
    if case["ticking"]:
        yield dict(case, ticking=0)
    if case["local"] != "4.2.1":
        yield dict(case, local="4.2.1")
    for i, s in enumerate(case["steps"]):
        if s[0] == "index" and s[1][0] == "ok":
            for v in list(s[1][1].get("releases", {})):
                doc = {"releases": {k: f for k, f in s[1][1]["releases"].items() if k != v}}
                yield dict(case, steps=case["steps"][:i] + [["index", ["ok", doc]]] + case["steps"][i + 1:])
