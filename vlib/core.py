"""Engine shared by all checks: generation, parallel search, shrinking, replay, evidence.

A property module (props/cNN.py) provides

    RULE            how cases are made and what makes one non-trivial
    CASES           {"quick": n, "thorough": m} number of generated cases
    generate(rng)   -> JSON-able case
    run_case(case)  -> Outcome
    shrink(case)    -> iterable of smaller cases          (optional)
    fixed_cases()   -> list of cases always run            (optional)
    prepare()       imports before the workers are forked  (optional)
    ASSUMPTIONS     list of strings                        (optional)

Everything random comes from random.Random(seed, property, case index), so a run
is a function of VERIF_SEED.  A failing case is shrunk greedily and written as a
replay file which `run.py <id> --replay FILE` executes without generation.
"""
import argparse
import ctypes
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import sys
import time
import traceback

LIBC = ctypes.CDLL(None)
REPO = os.environ.get("VERIF_REPO", "/repo")


class Outcome:
    """What running one case showed."""

    __slots__ = ("violations", "nontrivial", "classes", "evals", "note")

    def __init__(self, violations=(), nontrivial=False, classes=(), evals=1, note=None):
        self.violations = list(violations)  # [(signature, text)]
        self.nontrivial = nontrivial
        self.classes = list(classes)
        self.evals = evals
        self.note = note


class Timeout(Exception):
    pass


class ChildFailed(Exception):
    """An exception crossed the process border of a forked call."""

    def __init__(self, exc_type, text, in_repo, tb):
        super().__init__(f"{exc_type}: {text}")
        self.exc_type, self.text, self.in_repo, self.tb = exc_type, text, in_repo, tb


def touches_repo(tb):
    """Whether the innermost frames of a traceback run the code under test."""
    frames = traceback.extract_tb(tb)
    return any(f.filename.startswith(REPO + os.sep) for f in frames)


def innermost_repo_frame(tb):
    for f in reversed(traceback.extract_tb(tb)):
        if f.filename.startswith(REPO + os.sep):
            return f"{os.path.relpath(f.filename, REPO)}:{f.name}"
    return None


def forked(fn, *args, timeout=60.0):
    """Runs fn(*args) in a forked child and returns its (pickled) result.

    The child starts from the state of this process, so calls cannot influence each other."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            os.setpgid(0, 0)
            LIBC.prctl(1, signal.SIGKILL)  # ends with its parent
            try:
                res = ("ok", fn(*args))
            except BaseException as e:  # noqa
                tb = e.__traceback__
                res = (
                    "exc",
                    (type(e).__name__, str(e)[:2000], touches_repo(tb), "".join(traceback.format_exception(type(e), e, tb))[-4000:]),
                )
            try:
                data = pickle.dumps(res)
            except Exception as e:  # noqa
                data = pickle.dumps(("exc", ("PickleError", str(e), False, "")))
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:  # noqa
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    deadline = time.monotonic() + timeout
    chunks = []
    timed_out = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            timed_out = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if timed_out:
        for kill in (lambda: os.killpg(pid, signal.SIGKILL), lambda: os.kill(pid, signal.SIGKILL)):
            try:
                kill()
            except OSError:
                pass
    os.waitpid(pid, 0)
    if timed_out:
        raise Timeout(f"no answer within {timeout} s")
    data = b"".join(chunks)
    if not data:
        raise ChildFailed("Died", "forked call ended without an answer", False, "")
    kind, val = pickle.loads(data)
    if kind == "exc":
        raise ChildFailed(*val)
    return val


def case_rng(seed, prop, i):
    return random.Random(f"{seed}/{prop}/{i}")


def case_hash(case):
    return hashlib.sha256(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()[:12]


def safe_run(mod, case):
    """run_case with exceptions classified: (Outcome, harness error or None)"""
    try:
        return mod.run_case(case), None
    except Timeout as e:
        if getattr(mod, "TIMEOUT_IS_VIOLATION", False):
            return Outcome([("timeout", str(e))], True), None
        return Outcome(classes=["timeout"]), None
    except ChildFailed as e:
        if e.in_repo:
            return Outcome([("exception:" + e.exc_type, str(e) + "\n" + e.tb)], True), None
        return None, f"{e}\n{e.tb}"
    except Exception as e:  # noqa
        tb = e.__traceback__
        text = "".join(traceback.format_exception(type(e), e, tb))[-4000:]
        if touches_repo(tb):
            return Outcome([("exception:" + type(e).__name__, text)], True), None
        return None, text


def greedy_shrink(mod, case, signature, seconds):
    """Smallest case found that still shows a violation with the same signature."""
    shrinker = getattr(mod, "shrink", None)
    if shrinker is None:
        return case
    known = load_known(mod)
    deadline = time.monotonic() + seconds
    progress = True
    while progress and time.monotonic() < deadline:
        progress = False
        for smaller in shrinker(case):
            if time.monotonic() >= deadline:
                break
            out, err = safe_run(mod, smaller)
            if err is None and any(s == signature for s, _ in unlisted(mod, known, smaller, out)[0]):
                case = smaller
                progress = True
                break
    return case


# ---------------------------------------------------------------- known findings


def load_known(mod):
    path = os.path.join(HERE, "known_findings.json")
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return []
    return [k for k in data.get("findings", []) if k["property"] == mod.ID]


def unlisted(mod, known, case, out):
    """Splits violations into those not covered and those covered by a listed finding.

    A finding identifies a failing input, call site or history by the predicate named in it
    (`match`), which the property module implements in known_match(finding, case, signature, text)."""
    matcher = getattr(mod, "known_match", None)
    new, old = [], []
    for sig, text in out.violations:
        hit = None
        if matcher is not None:
            for k in known:
                if matcher(k, case, sig, text):
                    hit = k
                    break
        if hit is None:
            new.append((sig, text))
        else:
            old.append((hit["id"], sig))
    return new, old


# ---------------------------------------------------------------- search

HERE = None


def worker(mod, seed, indices, cap_deadline, out_fd):
    # programs that are run for a case may grow; they shall not take the sandbox's memory
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    known = load_known(mod)
    stats = {
        "evals": 0,
        "cases": 0,
        "nontrivial": set(),
        "classes": {},
        "samples": [],
        "violations": [],
        "known": {},
        "errors": [],
        "capped": 0,
    }
    for i in indices:
        if time.monotonic() > cap_deadline:
            stats["capped"] += 1
            continue
        if isinstance(i, tuple):
            case = i[1]
            label = "fixed"
        else:
            case = mod.generate(case_rng(seed, mod.ID, i))
            label = i
        out, err = safe_run(mod, case)
        if err is not None:
            stats["errors"].append((label, err))
            if len(stats["errors"]) >= 3:
                break
            continue
        stats["cases"] += 1
        stats["evals"] += out.evals
        for c in out.classes:
            stats["classes"][c] = stats["classes"].get(c, 0) + 1
        if out.nontrivial:
            stats["nontrivial"].add(case_hash(case))
            if len(stats["samples"]) < 2:
                stats["samples"].append({"case": case, "note": out.note})
        new, old = unlisted(mod, known, case, out)
        for kid, _sig in old:
            stats["known"][kid] = stats["known"].get(kid, 0) + 1
        if new:
            stats["violations"].append((label, case, new))
            if len(stats["violations"]) >= MAX_VIOL:
                break
    with os.fdopen(out_fd, "wb") as f:
        pickle.dump(stats, f)


MAX_VIOL = 2


def jobs():
    try:
        n = len(os.sched_getaffinity(0))
    except AttributeError:
        n = os.cpu_count() or 1
    return max(1, min(int(os.environ.get("VERIF_JOBS", "8")), max(n, 1), 16))


def search(mod, seed, tier, ncases, cap_seconds):
    fixed = [("fixed", c) for c in (mod.fixed_cases() if hasattr(mod, "fixed_cases") else [])]
    todo = fixed + list(range(ncases))
    n = jobs()
    cap_deadline = time.monotonic() + cap_seconds
    pids = []
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                worker(mod, seed, todo[k::n], cap_deadline, w)
            except BaseException:  # noqa
                traceback.print_exc()
                code = 70
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(w)
        pids.append((pid, r))
    total = None
    for pid, r in pids:
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise RuntimeError("a worker died")
        s = pickle.loads(data)
        if total is None:
            total = s
            continue
        for key in ("evals", "cases", "capped"):
            total[key] += s[key]
        total["nontrivial"] |= s["nontrivial"]
        for key in ("samples", "violations", "errors"):
            total[key].extend(s[key])
        for key in ("classes", "known"):
            for c, v in s[key].items():
                total[key][c] = total[key].get(c, 0) + v
    return total


def triage(mod, total, seconds):
    """Development aid: every distinct signature with its smallest case."""
    by = {}
    for label, case, new in total["violations"]:
        for sig, text in new:
            by.setdefault(sig, []).append((len(json.dumps(case, default=str)), label, case, text))
    work = []
    for sig, items in sorted(by.items(), key=lambda kv: -len(kv[1])):
        work.append((sig, min(items, key=lambda t: t[0]), len(items)))
    import concurrent.futures as cf

    def one(item):
        sig, (_, label, case, text), n = item
        if seconds > 0:
            try:
                case = forked(greedy_shrink, mod, case, sig, seconds, timeout=seconds * 3 + 60)
                out, _ = forked(safe_run, mod, case, timeout=120)
                text = next((t for s, t in out.violations if s == sig), text)
            except Exception as e:  # noqa
                text = f"(shrinking failed: {e})\n" + text
        return sig, n, label, text

    with cf.ThreadPoolExecutor(jobs()) as ex:
        for sig, n, label, text in ex.map(one, work):
            print(f"=== [{sig}] x{n} case {label}")
            print(text[:2500])
    for e in total["errors"][:3]:
        print("harness error", e[0], e[1])
    print(f"{total['cases']} cases, {len(total['nontrivial'])} nontrivial, {len(total['violations'])} violating, {len(total['errors'])} errors; classes {dict(sorted(total['classes'].items(), key=lambda kv: -kv[1])[:40])}")
    return 0


def sample_text(obj, limit=1500):
    text = json.dumps(obj, ensure_ascii=False, default=str)
    return obj if len(text) <= limit else text[:limit] + " ..."


def main(here, argv):
    global HERE
    HERE = here
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--show", type=int, help="print generated cases and outcomes")
    ap.add_argument("--cap", type=float)
    ap.add_argument("--triage", type=float, help="do not stop at violations; list one per signature, each shrunk for so many seconds")
    args = ap.parse_args(argv)
    tier = "thorough" if args.tier == "thorough" else "quick"

    started = time.monotonic()
    from loguru import logger

    logger.remove()
    import logging

    logging.disable(logging.CRITICAL)

    mod = importlib.import_module("props." + args.property.lower())
    mod.ID = args.property.upper()
    mod.SEED = args.seed
    mod.TIER = tier
    if hasattr(mod, "prepare"):
        mod.prepare()

    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        out, err = safe_run(mod, rep["case"])
        if err is not None:
            print(err)
            return 3
        for sig, text in out.violations:
            print(f"[{sig}] {text}")
        if out.violations:
            print(f"VIOLATION property={mod.ID} replay={os.path.abspath(args.replay)}")
            return 1
        print("the replayed case shows no violation")
        return 0

    if args.show:
        for i in range(args.show):
            case = mod.generate(case_rng(args.seed, mod.ID, i))
            out, err = safe_run(mod, case)
            print("=" * 20, i)
            print(json.dumps(case, indent=1, ensure_ascii=False, default=str) if not hasattr(mod, "show") else mod.show(case))
            print("->", err or (out.nontrivial, out.classes, out.violations, out.note))
        return 0

    ncases = args.cases if args.cases is not None else mod.CASES[tier]
    cap = args.cap or (55 if tier == "quick" else 3600 * 3)
    if args.triage is not None:
        global MAX_VIOL
        MAX_VIOL = 10**9
        total = search(mod, args.seed, tier, ncases, cap)
        return triage(mod, total, args.triage)
    total = search(mod, args.seed, tier, ncases, cap)

    known = load_known(mod)
    for k in known:
        print(f"KNOWN-FINDING: property={mod.ID} {k['id']}: {k['what']}")

    status = 0
    reported = 0
    seen = set()
    os.makedirs(os.path.join(here, "replays"), exist_ok=True)
    shrink_deadline = time.monotonic() + (45 if tier == "quick" else 600)
    for label, case, new in sorted(total["violations"], key=lambda v: len(json.dumps(v[1], default=str))):
        sig = new[0][0]
        if sig in seen:
            continue
        seen.add(sig)
        left = shrink_deadline - time.monotonic()
        if left > 5 and reported < 3:
            small = greedy_shrink(mod, case, sig, min(left, 25 if tier == "quick" else 300))
        else:
            small = case
        out, err = safe_run(mod, small)
        texts = [t for s, t in (out.violations if out else []) if s == sig] or [new[0][1]]
        path = os.path.join(here, "replays", f"{mod.ID}-{case_hash(small)}.json")
        with open(path, "w") as f:
            json.dump(
                {"property": mod.ID, "signature": sig, "seed": args.seed, "index": label, "case": small, "observed": texts},
                f, indent=1, default=str,
            )
        if reported < 5:
            print(f"--- {mod.ID} [{sig}] case {label}")
            print(texts[0][:3000])
            print(f"VIOLATION property={mod.ID} replay={path}")
            reported += 1
        status = 1

    coverage = {
        "evaluations": total["evals"],
        "distinct_nontrivial": len(total["nontrivial"]),
        "rule": mod.RULE,
        "samples": [sample_text(s) for s in total["samples"][:4]],
        "cases": total["cases"],
        "classes": dict(sorted(total["classes"].items())),
        "not_run_for_time": total["capped"],
        "known_findings_met": total["known"],
        "harness_errors": len(total["errors"]),
    }
    if hasattr(mod, "extra_coverage"):
        coverage.update(mod.extra_coverage())
    evidence = {
        "property": mod.ID,
        "tier": tier,
        "seed": args.seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - started, 2),
        "violations": len(total["violations"]),
    }
    os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
    with open(os.path.join(here, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(evidence, f, indent=1, default=str)

    print(
        f"{mod.ID} {tier} seed={args.seed}: {total['cases']} cases, {total['evals']} evaluations, "
        f"{len(total['nontrivial'])} distinct non-trivial, {len(total['violations'])} violations, "
        f"{len(total['errors'])} errors, {evidence['wall_s']} s"
    )
    if total["errors"]:
        print("harness error:", total["errors"][0][1])
        if status == 0:
            return 3
    if status == 0 and ncases > 20 and len(total["nontrivial"]) == 0:
        print("no non-trivial case was generated")
        return 3
    return status
