"""C10: each lint call answers for the current files, whatever ran before it."""
import hashlib
import io
import json
import os
import shutil
import sys
import tempfile

from props import c08
from vlib import lint
from vlib.core import Outcome, forked

CASES = {"quick": 420, "thorough": 20000}
RULE = (
    "A case is a history in one process: writing, changing and deleting source, imported, configuration and language files, changing the working directory, and lint calls with "
    "changing paths and options, some refused by the linters, some of missing files, some with an exception or interrupt injected into a linter. Every call must return what a fresh "
    "process returns for the files at that moment, and leave the standard streams, the working directory, sys.path and all files as they were. "
    "Non-trivial: a file is linted again after a change, or a call follows a failed one."
)
ASSUMPTIONS = ["R0801 is left out (pylint words it differently from run to run)"]

HELPERS = ["def add(x, y):\n    return x + y\n\n\nSIZE = 5\n", "def add(x):\n    return x\n\n\nclass SIZE:\n    pass\n", "def add(*xs):\n    return 'a'\n", "ADD = 1\n", "def add(x, y:\n", "import m\n\n\ndef add(x, y):\n    return m\n"]
MAINS = ["from helper import add, SIZE\n\n\ndef use(n):\n    res = add(n, 2)\n    return res[SIZE]\n", "import helper\n\nprint(helper.add(1, 2), helper.SIZE.x)\n", "from helper import *\nfoo = add(1)\n"]
CONFS = ['[pylint]\nenable = "all"\n', '[pylint]\nenable = ["C0104", "W0622"]\ndisable = "R6201"\n', 'allowed-onechar-names = "x"\n[flake8]\nselect = "E,W,F"\n', "[broken", 'language-file = "lang.toml"\n[pylint]\nenable = "all"\n']
LANGS = ['[translations]\nC0104 = "Jméno {}"\ndisallowed-name = "x"\n', '[translations]\nC0114 = "chybí"\nW0622 = "Zastínění {}"\n', "5", ""]


def prepare():
    c08.prepare()


def source(rng):
    return "\n\n\n".join(p.replace("{i}", str(j)) for j, p in enumerate(rng.sample(c08.SNIPPETS, rng.randint(1, 4)))) + "\n"


def gen_lint(rng, names):
    pys = [n for n in names if n.endswith(".py")] or ["m.py"]
    paths = rng.choice([["."], [rng.choice(pys)], [rng.choice(pys)], rng.sample(pys, min(2, len(pys)))])
    opts = []
    k = rng.random()
    if k < 0.3:
        opts.append("config-file=conf.toml")
    elif k < 0.9:
        opts.append("config-file=" + rng.choice(["empty", "default", "full"]))
    if rng.random() < 0.7:
        opts.append("pylint=--enable=" + rng.choice(["all", ",".join(c08.OWN), "C0104,W0622,E1120,E0611,E1101,E1136", "use-foreach,R6201", "F,E"]))
    if rng.random() < 0.4:
        opts.append(rng.choice(["pylint=--bad-names=foo,x", "pylint=--disable=C0104", "flake8=--select=E,W,F", "no-flake8", "allowed-onechar-names=l", "set-groups=enhancement", "language-file=lang.toml",
                                "ignore-infile-config-for=all", "disallowed-builtin-names=max", "pylint=--max-line-length=20"]))
    fail = None
    if rng.random() < 0.16:
        r = rng.random()
        if r < 0.3:
            opts.append(rng.choice(["pylint=--nonsense", "flake8=--nonsense", "pylint=--rcfile=missing.rc"]))
        elif r < 0.45:
            paths = paths + ["missing.py"]
        else:
            fail = [rng.choice(["flake8", "pylint"]), rng.choice(["RuntimeError", "KeyboardInterrupt", "OSError"]), rng.choice(["before", "after"])]
    return ["lint", paths, opts, fail]


def generate(rng):
    names = ["m.py"]
    steps = [["write", "m.py", rng.choice([source(rng), rng.choice(MAINS)])]]
    if rng.random() < 0.6:
        steps.append(["write", "helper.py", rng.choice(HELPERS)])
        names.append("helper.py")
    steps.append(["write", "conf.toml", rng.choice(CONFS)])
    steps.append(["write", "lang.toml", rng.choice(LANGS)])
    steps.append(gen_lint(rng, names))
    for _ in range(rng.randint(1, 5)):
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            k = rng.random()
            if k < 0.4:
                steps.append(["write", "m.py", rng.choice([source(rng), source(rng), rng.choice(MAINS)])])
            elif k < 0.6:
                steps.append(["write", "helper.py", rng.choice(HELPERS)])
                names = sorted(set(names) | {"helper.py"})
            elif k < 0.7:
                n = rng.choice(["sub/m.py", "sub/__init__.py", "helper/__init__.py", "n.py"])
                if n == "helper/__init__.py" and "helper.py" in names:
                    continue
                steps.append(["write", n, rng.choice([source(rng), rng.choice(HELPERS)])])
                names = sorted(set(names) | {n})
            elif k < 0.8:
                steps.append(["write", rng.choice(["conf.toml", "lang.toml", "edulint.toml"]), rng.choice(CONFS)])
            elif k < 0.85 and "helper.py" in names:
                steps.append(["delete", "helper.py"])
                names.remove("helper.py")
            elif k < 0.9:
                steps.append(["write", "lang.toml", rng.choice(LANGS)])
        if rng.random() < 0.15:
            steps.append(["same"])  # repeat the previous call
        else:
            steps.append(gen_lint(rng, names))
    return {"steps": steps}


def state(root):
    res = {}
    for base, dirs, files in os.walk(root):
        for n in files:
            p = os.path.join(base, n)
            st = os.stat(p)
            with open(p, "rb") as f:
                res[os.path.relpath(p, root)] = (hashlib.sha1(f.read()).hexdigest(), st.st_mtime_ns, st.st_mode)
        for n in dirs:
            res[os.path.relpath(os.path.join(base, n), root)] = "dir"
    return res


def clean(res):
    if res["problems"] is not None:
        res["problems"] = [p for p in res["problems"] if p["code"] != "R0801"]
    return res


def inject(fail):
    """Makes the next run of a linter raise, before or after doing its work; returns an undo function."""
    who, exc, when = fail
    error = {"RuntimeError": RuntimeError("injected"), "KeyboardInterrupt": KeyboardInterrupt(), "OSError": OSError("injected")}[exc]
    if who == "flake8":
        from flake8.main.application import Application as cls

        name = "_run"
    else:
        from pylint.lint.pylinter import PyLinter as cls

        name = "check"
    real = getattr(cls, name)

    def failing(self, *a, **k):
        if when == "after":
            real(self, *a, **k)
        raise error

    setattr(cls, name, failing)
    return lambda: setattr(cls, name, real)


def call(paths, opts, fail):
    undo = inject(fail) if fail else None
    try:
        return clean(lint.call_check_code(paths, opts))
    except (RuntimeError, KeyboardInterrupt, OSError) as e:
        if not fail:
            raise
        return {"raised": repr(e)}
    finally:
        if undo:
            undo()


def play(steps, root):
    os.chdir(root)
    out = []
    last = None
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    for s in steps:
        if s[0] == "same":
            s = last
        if s[0] == "write":
            lint.write_tree(root, {s[1]: s[2]})
        elif s[0] == "delete":
            os.remove(os.path.join(root, s[1]))
        else:
            last = s
            before = state(root)
            streams, wd, path, std = (sys.stdout, sys.stderr), os.getcwd(), list(sys.path), (sys.__stdout__, sys.__stderr__)
            res = call(s[1], s[2], s[3])
            left = []
            if (sys.stdout, sys.stderr) != streams or std != (sys.__stdout__, sys.__stderr__):
                left.append("standard streams replaced")
                sys.stdout, sys.stderr = streams
            if os.getcwd() != wd:
                left.append(f"working directory {os.getcwd()}")
                os.chdir(wd)
            if sys.path != path:
                left.append(f"sys.path {sys.path[:3]}")
                sys.path[:] = path
            if sys.stdin.closed or sys.stdout.closed or sys.stderr.closed:
                left.append("a stream closed")
            after = state(root)
            if after != before:
                left.append(f"files changed: {sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))}")
            out.append((s, res, left))
    return out


def fresh(files, s, root):
    lint.write_tree(root, files)
    os.chdir(root)
    return call(s[1], s[2], s[3])


def run_case(case):
    viol = []
    root = os.path.realpath(tempfile.mkdtemp(prefix="l-"))
    results = []
    try:
        results = forked(play, case["steps"], root, timeout=150)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    files, last, k = {}, None, 0
    changed, linted, failed, nontrivial = set(), False, False, False
    evals = 0
    for s in case["steps"]:
        if s[0] == "same":
            s = last
        if s[0] == "write":
            files[s[1]] = s[2]
            nontrivial = nontrivial or linted
        elif s[0] == "delete":
            del files[s[1]]
        else:
            last = s
            _s, got, left = results[k]
            k += 1
            evals += 1
            nontrivial = nontrivial or failed
            shown = f"call {k}: lint {s[1]} with {s[2]}{' injected ' + str(s[3]) if s[3] else ''}"
            hist = "\nhistory:\n" + "\n".join(f"{x[0]} {x[1]}:\n{x[2]}" if x[0] == "write" else json.dumps(x) for x in case["steps"])
            if left:
                viol.append(("left:" + left[0].split()[0], f"{shown} leaves {left}{hist}"))
                break
            root2 = os.path.realpath(tempfile.mkdtemp(prefix="l-"))
            try:
                exp = forked(fresh, files, s, root2, timeout=100)
            finally:
                shutil.rmtree(root2, ignore_errors=True)
            failed = "raised" in got or got["problems"] is None
            linted = linted or not failed
            a, b = norm(got, root), norm(exp, root2)
            if a != b:
                viol.append((f"differs", f"{shown}: differs from a fresh process\n{difference(a, b)}{hist}"))
                break
    return Outcome(viol, nontrivial, [], evals=evals, note=k)


def norm(res, root):
    return json.loads(json.dumps(res, sort_keys=True).replace(root, "ROOT"))


def difference(a, b):
    if "raised" in a or "raised" in b or a["problems"] is None or b["problems"] is None:
        return f"here: {str(a)[:500]}\nfresh: {str(b)[:500]}"
    pa, pb = a["problems"], b["problems"]
    if pa == pb:
        return f"configs or log: here {json.dumps([a['configs'], a['log']])[:1500]}\nfresh {json.dumps([b['configs'], b['log']])[:1500]}"
    extra = [p for p in pa if p not in pb][:4]
    missing = [p for p in pb if p not in pa][:4]
    return f"only here: {extra}\nonly fresh: {missing}" + ("\n(order or multiplicity differs)" if not extra and not missing else "")


def shrink(case):
    st = case["steps"]
    for i in range(len(st) - 1, -1, -1):
        rest = st[:i] + st[i + 1:]
        names = set()
        ok = True
        seen = False
        for s in rest:
            if s[0] == "write":
                names.add(s[1])
            elif s[0] == "delete":
                ok = ok and s[1] in names
                names.discard(s[1])
            elif s[0] == "same":
                ok = ok and seen
            else:
                seen = True
        if ok and seen:
            yield {"steps": rest}
    for i, s in enumerate(st):
        if s[0] == "lint":
            for j in range(len(s[2])):
                yield {"steps": st[:i] + [["lint", s[1], s[2][:j] + s[2][j + 1:], s[3]]] + st[i + 1:]}
        if s[0] == "write" and s[1].endswith(".py"):
            parts = s[2].split("\n\n\n")
            if len(parts) > 1:
                for j in range(len(parts)):
                    yield {"steps": st[:i] + [["write", s[1], "\n\n\n".join(parts[:j] + parts[j + 1:])]] + st[i + 1:]}
