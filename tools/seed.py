#!/usr/bin/env python3
"""Development aid: plants bugs in copies of /repo, confirms them, and runs checks against them.

  plant(id, property, edits, demo, needs, breaks, files={})   from a script importing this module
  python3 tools/seed.py check ID [ID...]                      run the property's own check on each planted bug
  python3 tools/seed.py verify ID [ID...]                     re-confirm (applies, builds, tests pass, demo fails)

Copies live under /tmp/w and are removed.  The tests run in a private mount namespace in which the copy
is visible as /repo, so several bugs can be confirmed side by side."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def copy(id):
    d = f"/tmp/w/seed-{id}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/w", exist_ok=True)
    shutil.copytree("/repo", d, symlinks=True)
    return d


def in_ns(d, cmd, timeout=600):
    return sh(["unshare", "-Urm", "bash", "-c", f"mount --bind {d} /repo && cd /repo && {cmd}"], timeout=timeout)


def confirm(id, d, log):
    """demo ok on /repo, demo fails on d, build and stable tests pass on d"""
    demo = os.path.join(SEEDED, id, "demo.sh")
    out = f"/tmp/w/seed-{id}.json"
    a = sh(["bash", demo], cwd="/repo", timeout=300)
    b = in_ns(d, f"bash {demo}", 300)
    ok = a.returncode == 0 and b.returncode != 0
    if not ok:
        log.append(f"{id}: DEMO unpatched={a.returncode} patched={b.returncode}\n{a.stdout[-1500:]}\n----\n{b.stdout[-1500:]}")
    t = in_ns(d, f"bash /opt/vp/build.sh && bash /opt/vp/test.sh {out}", 900)
    try:
        passed = set(json.load(open(out)).get("passed", []))
        missing = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - passed)
    except Exception as e:  # noqa
        missing = [f"no results: {e} {t.stdout[-800:]}"]
    if missing:
        log.append(f"{id}: TESTS FAIL {missing[:8]} ({len(missing)})")
    if os.path.exists(out):
        os.remove(out)
    return ok and not missing


def plant(id, property, edits, demo, needs, breaks, files={}):
    """edits: [(path, old, new)]; returns a log"""
    log = []
    d = copy(id)
    try:
        for path, old, new in edits:
            p = os.path.join(d, path)
            s = open(p).read()
            if s.count(old) != 1:
                return [f"{id}: text occurs {s.count(old)} times in {path}: {old[:80]!r}"]
            open(p, "w").write(s.replace(old, new))
        patch = subprocess.run(["git", "diff"], cwd=d, stdout=subprocess.PIPE, text=True).stdout
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], cwd="/repo").stdout.strip()
        for path, _, _ in edits:
            blame = sh(["git", "blame", "-s", "--line-porcelain", "HEAD", "--", path], cwd="/repo").stdout.splitlines()
            mine = {l[1:] for i, l in enumerate(blame) if l.startswith("\t") and not next(b for b in reversed(blame[:i]) if len(b.split()[0]) == 40).startswith(base)}
            removed = [l[1:] for l in patch.splitlines() if l.startswith("-") and not l.startswith("---")]
            bad = [l for l in removed if l in mine and l.strip()]
            if bad:
                return [f"{id}: changes lines of later commits: {bad}"]
        dst = os.path.join(SEEDED, id)
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(os.path.join(dst, "patch.diff"), "w").write(patch)
        open(os.path.join(dst, "demo.sh"), "w").write("#!/bin/bash\n" + demo if not demo.startswith("#!") else demo)
        for name, text in files.items():
            open(os.path.join(dst, name), "w").write(text)
        json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(dst, "meta.json"), "w"), indent=1)
        if confirm(id, d, log):
            log.append(f"{id}: ok")
        else:
            shutil.rmtree("/tmp/w/rej-" + id, ignore_errors=True)
            shutil.move(dst, "/tmp/w/rej-" + id)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return log


PYDEMO = """#!/bin/bash
S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
export PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONUTF8=1 HOME=$S TMPDIR=$S XDG_DATA_HOME=$S/d XDG_CACHE_HOME=$S/c XDG_CONFIG_HOME=$S/e PYLINTHOME=$S/p
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir "$S/w"; cd "$S/w"
/opt/venv/bin/python "$HERE/demo.py"
"""


def plant_py(id, property, edits, demo_py, needs, breaks):
    return plant(id, property, edits, PYDEMO, needs, breaks, {"demo.py": demo_py})


def plant_all(specs):
    """specs: list of argument tuples of plant_py"""
    with cf.ThreadPoolExecutor(7) as ex:
        for log in ex.map(lambda s: plant_py(*s), specs):
            print("\n".join(log), flush=True)


def check_one(id, prop=None, jobs=8, seed=1, extra=()):
    d = copy(id)
    try:
        r = sh(["git", "apply", os.path.join(SEEDED, id, "patch.diff")], cwd=d)
        if r.returncode:
            return f"{id}: patch does not apply: {r.stdout}"
        prop = prop or json.load(open(os.path.join(SEEDED, id, "meta.json")))["property"]
        env = dict(os.environ, VERIF_REPO=d, VERIF_JOBS=str(jobs), VERIF_SEED=str(seed), VERIF_TIER="quick")
        r = sh(["python3", os.path.join(VERIF, "run.py"), prop.lower(), *extra], env=env, cwd=VERIF)
        caught = r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
        return f"{id}: {'CAUGHT' if caught else 'MISSED rc=' + str(r.returncode)} by {prop}: {r.stdout.strip().splitlines()[-1][:200]}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def verify_one(id):
    log = []
    d = copy(id)
    try:
        r = sh(["git", "apply", os.path.join(SEEDED, id, "patch.diff")], cwd=d)
        if r.returncode:
            return f"{id}: patch does not apply: {r.stdout}"
        return f"{id}: ok" if confirm(id, d, log) else "\n".join(log)
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    what, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(SEEDED))
    if what == "check":
        for i in ids:
            print(check_one(i), flush=True)
    elif what == "verify":
        with cf.ThreadPoolExecutor(7) as ex:
            for line in ex.map(verify_one, ids):
                print(line, flush=True)
