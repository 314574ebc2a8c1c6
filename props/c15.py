"""C15: explanations survive any update history."""
import contextlib
import glob
import io
import json
import os
import shutil
import sys
import tempfile
import tomllib

from vlib import fakenet
from vlib.core import REPO, Outcome, forked

CASES = {"quick": 5000, "thorough": 60000}
URL = "https://raw.githubusercontent.com/GiraffeReversed/edulint/main/edulint/explanations.toml"
TTL = 600
ERRORS = ["ConnectionError", "Timeout", "ChunkedEncodingError", "SSLError", "ContentDecodingError"]
RULE = (
    "A case is a history of update attempts (enabled or disabled, some with every file write cut after k bytes, failing or killing the process), requests for "
    "explanations through the package API and the command line (JSON and text), server contents (valid, malformed, wrongly typed, truncated, empty, HTTP and network errors), "
    "clock steps, process restarts and damaged or deleted downloaded data. Every answer must be the requested part of the newest well-formed downloaded data that some state of a "
    "nondeterministic reference model allows, or of the packaged data. Non-trivial: explanations were asked for after a download."
)
ASSUMPTIONS = ["the clock does not run backwards", "data are well-formed when they are a non-empty TOML table of tables of strings"]
TIMEOUT_IS_VIOLATION = True
PACKAGED = {}


def prepare():
    import edulint.edulint  # noqa
    import requests  # noqa

    with open(os.path.join(REPO, "edulint", "explanations.toml"), "rb") as f:
        PACKAGED.update(tomllib.load(f))


KNOWN = ["R6201", "C0103", "W0611", "R6609", "E501"]


def data_text(v, kind):
    ids = KNOWN[: 2 + v % 3] + [f"X{v}"]
    good = "".join(f'[{i}]\nwhy = """why {i} of {v}"""\nexamples = """examples {i} of {v}\n\n```py\nx = "č"\n```"""\n\n' for i in ids)
    return {
        "ok": good,
        "partial": f'[R6201]\nwhy = "only {v}"\n[X{v}]\nexamples = "only {v}"\n[Y]\n',
        "big": good + "".join(f'[B{i}]\nwhy = "{"." * 100}"\n' for i in range(150)),
        "broken": good + "[unclosed\n",
        "cut": good[: -20],
        "html": "<!DOCTYPE html><html>portal</html>",
        "number": good + "",
        "scalars": f"R6201 = {v}\nC0103 = 'x'\n",
        "ints": f"[R6201]\nwhy = {v}\n",
        "mixed": good + f"[Z]\nwhy = ['a']\n",
        "empty": "",
        "json": '{"R6201": {"why": "x"}}',
        "array": "[[R6201]]\nwhy = 'x'\n",
        "nested": "[R6201.why]\na = 'b'\n",
    }[kind]


GOOD = ("ok", "partial", "big", "number")


def data_value(ans):
    if ans is None or ans[0] != "ok" or ans[2] not in GOOD:
        return None
    return tomllib.loads(data_text(ans[1], ans[2]))


def generate(rng):
    steps = []
    v = 0
    for _ in range(rng.randint(4, 12)):
        k = rng.random()
        if k < 0.3:
            fault = [rng.choice(["fail", "crash"]), rng.choice([0, 1, 20, 100, 200, 300, 5000])] if rng.random() < 0.2 else None
            steps.append(["update", rng.random() < 0.15, fault])
        elif k < 0.55:
            ids = None if rng.random() < 0.2 else [rng.choice(KNOWN + ["X1", "X2", "Y", "", "nope", "r6201", "all", "use-foreach", "B7"]) for _ in range(rng.randint(0, 4))]
            steps.append(["get", rng.choice(["api", "api", "json", "text"]), ids, rng.random() < 0.4])
        elif k < 0.75:
            r = rng.random()
            v += 1
            if r < 0.5:
                steps.append(["server", ["ok", v, rng.choice(GOOD)]])
            elif r < 0.8:
                steps.append(["server", ["ok", v, rng.choice(["broken", "cut", "html", "scalars", "ints", "mixed", "empty", "json", "array", "nested"])]])
            elif r < 0.9:
                steps.append(["server", ["status", rng.choice([404, 500, 403, 204]), v]])
            else:
                steps.append(["server", ["exc", rng.choice(ERRORS)]])
        elif k < 0.9:
            steps.append(["tick", rng.choice([1, 100, 598, 602, 700, 3600, 10 ** 6])])
        elif k < 0.95:
            steps.append(["restart"])
        else:
            steps.append(["damage", rng.randrange(4), rng.choice(["delete", "binary"])])
    if not any(s[0] == "get" for s in steps):
        steps.append(["get", "api", ["R6201", "X1"], True])
    if not any(s[0] == "server" for s in steps):
        steps.insert(0, ["server", ["ok", 50, "ok"]])
    return {"steps": steps}


def fresh_modules():
    for m in [m for m in sys.modules if m in ("edulint", "edulint.edulint", "edulint.explanations") or m.startswith("edulint.versions")]:
        del sys.modules[m]
    import edulint.edulint
    import edulint.explanations

    return edulint.edulint, edulint.explanations


def join_threads():
    import threading

    for t in threading.enumerate():
        if t is not threading.current_thread() and not t.daemon:
            t.join()


def play(steps, world, data, log_so_far=()):
    from loguru import logger
    import time

    logger.remove()
    os.environ["XDG_DATA_HOME"] = data
    world.install()
    time.sleep = lambda s: None
    ed, ex = fresh_modules()
    logger.remove()
    log = []

    def update(disabled):
        ex.update_explanations(disabled)
        join_threads()

    for i, s in enumerate(steps):
        world.asked = []
        got = None
        touched = False
        if s[0] == "server":
            a = s[1]
            world.answers[URL] = ["ok", data_text(a[1], a[2])] if a[0] == "ok" else ["status", a[1], data_text(a[2], "ok")] if a[0] == "status" else a
        elif s[0] == "tick":
            world.now += s[1]
        elif s[0] == "restart":
            log.append((None, [], False))
            log.extend(forked(play, steps[i + 1:], world, data, timeout=60))
            return log
        elif s[0] == "damage":
            files = sorted(p for p in glob.glob(data + "/**", recursive=True) if p.endswith(".toml"))
            if files:
                p = files[s[1] % len(files)]
                if s[2] == "delete":
                    os.remove(p)
                else:
                    with open(p, "wb") as f:
                        f.write(b"\xff\xfe\x00")
        elif s[0] == "update":
            before = fakenet.snapshot(data)
            if s[2] is None:
                update(s[1])
            else:
                fakenet.limited(lambda: update(s[1]), *s[2])
            touched = fakenet.snapshot(data) != before
        elif s[0] == "get":
            before = fakenet.snapshot(data)
            _, how, ids, disabled = s
            if how == "api":
                if disabled and "disable_explanations_update" in ed.get_message_explanations.__code__.co_varnames:
                    got = ["api", ed.get_message_explanations(ids, disable_explanations_update=True)]
                else:
                    got = ["api", ed.get_message_explanations(ids)]
            else:
                argv = ["edulint", "explain", "--disable-version-check"] + (["--json"] if how == "json" else []) + (["--disable-explanations-update"] if disabled else [])
                sys.argv = argv + ["--"] + (ids if ids else ["all"])
                out = io.StringIO()
                with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
                    rc = ed.main()
                    join_threads()
                logger.remove()
                got = [how, rc, out.getvalue()]
            join_threads()
            touched = fakenet.snapshot(data) != before
        log.append((got, list(world.asked), touched))
    return log


def expected(ids, base):
    return {i: base[i] for i in (base if ids is None else ids) if i in base}


def answers(s, got, base):
    _, how, ids, _dis = s
    if how == "api":
        return got[1] == expected(ids, base)
    if ids == [] or ids is None or any(i.lower() == "all" for i in ids):
        ids = None
    exp = expected(ids, base)
    if got[1] != 0:
        return False
    if how == "json":
        try:
            return json.loads(got[2]) == {"explanations": exp}
        except ValueError:
            return False
    for i, e in exp.items():
        if any(t.strip() not in got[2] for t in (e.get("why", ""), e.get("examples", ""))):
            return False
        if len(exp) > 1 and f"## {i}\n" not in got[2]:
            return False
    return bool(exp) or not got[2].strip()


def run_case(case):
    data = tempfile.mkdtemp(prefix="d-")
    try:
        observed = forked(play, case["steps"], fakenet.World(), data, timeout=40)
    finally:
        shutil.rmtree(data, ignore_errors=True)
    viol = []
    now, last, certain = 0, None, True
    states = [None]  # possible downloaded data
    server = None
    downloaded = after = False

    def attempt(asked, fault):
        nonlocal states, last, downloaded
        if asked:
            last = now
            new = data_value(server)
            if new is not None:
                downloaded = True
                states = [new] if fault is None and certain else states + [new]

    for i, (s, (got, asked, touched)) in enumerate(zip(case["steps"], observed)):
        if s[0] == "server":
            server = s[1]
        elif s[0] == "tick":
            now += s[1]
        elif s[0] == "damage":
            states = states + [None]
        elif s[0] in ("update", "get"):
            disabled = s[1] if s[0] == "update" else s[3]
            fault = s[2] if s[0] == "update" else None
            if disabled and (asked or touched):
                viol.append(("disabled", f"step {i} {s}: updates are disabled, yet asked {asked}, data directory changed: {touched}\n{json.dumps(case['steps'])}"))
                break
            if fault is not None:
                asked = asked or ["?"] if not disabled and certain and (last is None or now - last > TTL) else asked
            if not disabled and fault is None and certain and (last is None or now - last > TTL) and not asked:
                viol.append(("no-update", f"step {i} {s}: no update is attempted {None if last is None else now - last} s after the last one\n{json.dumps(case['steps'])}"))
                break
            before = list(states)
            if fault is not None and not disabled:
                certain = False
                new = data_value(server)
                if new is not None:
                    states = states + [new]
                last = now
            elif not disabled:
                attempt(asked, None)
            if s[0] == "get":
                after = after or downloaded
                options = before + states
                okay = [b for b in options if answers(s, got, PACKAGED if b is None else b)]
                if not okay:
                    viol.append(("answer", f"step {i} {s}: got {json.dumps(got)[:600]}; allowed: that of {['packaged' if b is None else sorted(b)[:8] for b in options]}\nhistory {json.dumps(case['steps'])}"))
                    break
                if not asked and len(states) > 1:
                    states = [b for b in states if any(b is o or b == o for o in okay)] or states
    return Outcome(viol, after, [s[0] for s in case["steps"]], evals=sum(s[0] == "get" for s in case["steps"]), note=len(observed))


def shrink(case):
    for i in range(len(case["steps"]) - 1, -1, -1):
        yield {"steps": case["steps"][:i] + case["steps"][i + 1:]}
    for i, s in enumerate(case["steps"]):
        if s[0] == "get" and s[1] != "api":
            yield {"steps": case["steps"][:i] + [["get", "api"] + s[2:]] + case["steps"][i + 1:]}
        if s[0] == "get" and s[2] and len(s[2]) > 1:
            yield {"steps": case["steps"][:i] + [["get", s[1], s[2][:1], s[3]]] + case["steps"][i + 1:]}
