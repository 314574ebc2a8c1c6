"""C08: reported problems are the linters' findings minus documented filtering."""
import io
import json
import os
import re
import shutil
import sys
import tempfile
from collections import Counter

from vlib import gen, lint
from vlib.core import Outcome, forked

CASES = {"quick": 500, "thorough": 40000}
RULE = (
    "A case is a set of files built from snippets that trigger overlapping checks of both linters (mixed with random programs, broken files and files with their own in-file "
    "configuration) and random options (packaged configurations, enabled sets, values of the tweaks' options). The reported list must equal, as a multiset, what a model of the "
    "override table and the tweaks leaves of the messages the raw linters give for the resulting arguments, and be ordered. Non-trivial: the model overrode, dropped or reworded "
    "at least one message, or both linters reported."
)
ASSUMPTIONS = ["the resulting arguments are those returned with the problems (their own correctness is C01-C03)", "R0801 (duplicate-code), whose text pylint itself chooses differently from run to run, is left out", "suppression comments reported by the tool itself (EDL001) are C04"]

# overridden code -> codes overriding it on the same line, as documented in the table of the pinned version
OVERRIDES = {
    "C0104": {"R6307", "R6609", "F841", "W0613"}, "C0103": {"R6307", "R6609", "F841", "W0613"}, "E225": {"R6609"}, "R1705": {"R1703", "R6201"}, "R6610": {"R6608"},
    "W0107": {"W0101"}, "C0201": {"C0206"}, "R6216": {"R6211", "R6212", "R6214", "R6215"}, "R6213": {"R6216"}, "R6221": {"R6222"}, "R6218": {"R6222"},
}
SNIPPETS = [
    "def f{i}(a):\n    if a:\n        return True\n    else:\n        return False",
    "def f{i}(a, foo):\n    if a > 3:\n        return True\n    else:\n        return False",
    "def f{i}(foo, unused):\n    foo = foo+1\n    foo=foo+1\n    return foo",
    "def f{i}(x):\n    x=x+1\n    y=2\n    return x",
    "def f{i}():\n    foo = 1\n    l = 2",
    "def f{i}(lst):\n    for foo in range(len(lst)):\n        print(lst[foo])\n    for Qx in range(len(lst)):\n        print(lst[Qx])",
    "def f{i}():\n    d = {1: 2}\n    for key in d.keys():\n        print(key, d[key])\n    for key in d.keys():\n        print(key)",
    "def f{i}():\n    return 1\n    pass",
    "def f{i}(a):\n    if a:\n        pass\n        print(a)\n    return 2",
    "lst{i} = [[]] * 1\nlst{i} = [[1]] * 3\nx{i} = 1 * 1 + 0",
    "def f{i}(x):\n    return x * x",
    "def f{i}(x, obj):\n    y = x * x * x\n    z = obj.size * obj.size * obj.size\n    return x + x + x + x, y, z",
    "def f{i}(x):\n    if not(x):\n        print(x)\n    if (x):\n        print(x)\n    return(x)",
    "def f{i}(x):\n    if x == True or x != False:\n        print(x == False)\n    return x is True",
    "def f{i}(list, max=3):\n    sum = 1\n    id, len = 1, 2\n    input = 5\n    return sum + max",
    "from ib111 import week_01\nimport ib111\nfrom os import path as ib111_path\nimport sys, os",
    "import os.path as ib111x\nfrom re import *\nimport re as re{i}",
    "def f{i}(a: int, b: int):\n    if a >= 3 and a <= 3:\n        print(b)\n    if a < 5 and a < 3:\n        print(1)\n    if a > 0 or a > 0 and b > 1:\n        print(2)\n    if a > b and a > 3 or a == 3 and a >= 2:\n        print(3)",
    "def f{i}(x):\n    x = int(input())\n    if x > 5:\n        print(1)\n    elif x <= 5:\n        print(2)\n    elif x == 3:\n        print(4)\n    else:\n        print(3)",
    "def f{i}():\n    x = int(input())\n    if x > 5 or x <= 5:\n        return 1\n    if x > 6:\n        if x < 4:\n            print(3)\n        elif x > 3:\n            print(x)\n    return 2",
    "class c{i}:\n    def Meth(self, foo):\n        self.x=foo\n        return foo+foo\n    def meth2(self, l, O): return self.x*self.x*self.x",
    "a{i}=1;b{i} =2\nfoo =3\nbar= foo+1\nbaz=baz",
    "x{i}    = [ 1,2 ]  \n\n\n\n\ny = lambda foo : foo",
    "for i in range(10):\n    a = 1\n    foo = i\nwhile True:\n    if foo == 1 or foo == 2 or foo == 3:\n        break",
    "try:\n    print(1)\nexcept:\n    pass\n    pass",
    "def f{i}(text):\n    foo = 0\n    for i in range(len(text)):\n        if text[i] == 'a' or text[i] == 'A':\n            foo=foo+1\n    return foo",
    "Č = 'ž' + 'dlouhý řetězec' * 3; ď=1",
    "def f{i}(a):\n\tif a:\n\t    return a\n        # tabs\n\treturn None",
    "print(undefined{i}, foo)\nassert (1, 'x')",
    "# pylint: disable=all\nx = 1", "foo = 1  # noqa", "bar = 2  # pylint: disable=disallowed-name", "def f{i}(:\n    pass",
]
OWN = []
PYCODES = ["C0104", "C0103", "R1705", "R1703", "W0107", "W0101", "C0201", "C0206", "W0613", "W0612", "C0325", "W0622", "C0121", "R1714", "W0611", "C0410", "W0401", "W0702", "C0304", "C0303", "W0104",
           "disallowed-name", "invalid-name", "no-else-return", "unnecessary-pass", "superfluous-parens", "redefined-builtin", "C", "R", "W", "E", "R6201", "R6609", "R6307", "R6608", "R6610",
           "R6607", "no-repeated-op", "R6216,R6211,R6212,R6213,R6214,R6215", "R6217,R6218,R6221,R6222", "F", "not-existing-check", "missing-module-docstring"]
FLCODES = ["E", "F", "W", "E225,E231", "F401,F841", "E7", "E712", "F403,F405,F401", "E999,F821", "E301,E302,E303,E305", "C901", "X99"]


def prepare():
    lint.preload()
    OWN.extend(sorted(lint.own_messages()))


def generate(rng):
    files = {}
    names = ["m.py", "a.py", "sub/m.py", "sub/b.py", "pkg/__init__.py", "pkg/c.py"]
    n = rng.choice([1, 1, 2, 3])
    base = rng.sample(SNIPPETS, rng.randint(2, 6))
    for name in rng.sample(names, n):
        parts = list(base) if rng.random() < 0.5 else rng.sample(SNIPPETS, rng.randint(1, 6))
        for j in range(len(parts)):
            if rng.random() < 0.2:
                parts[j] = rng.choice(SNIPPETS)
        if rng.random() < 0.2:
            parts.append(gen.Gen(rng, wild=0.1).program(nfuncs=1, top=3))
        gap = rng.choice(["\n\n\n", "\n\n", "\n"])
        text = gap.join(p.replace("{i}", str(j)) for j, p in enumerate(parts)) + rng.choice(["\n", "\n", "", "\n\n\n"])
        if rng.random() < 0.25:
            text = "# edulint: " + rng.choice(["pylint=--enable=" + rng.choice(PYCODES), "flake8=--extend-select=" + rng.choice(FLCODES), "allowed-onechar-names=l", "no-flake8",
                                              "pylint=--disable=R6609", "disallowed-builtin-names=max,sum"]) + "\n" + text
        files[name] = text
    opts = ["config-file=" + rng.choice(["empty", "empty", "default", "full", "cs0", "cs1", "webtiger"])]
    if rng.random() < 0.85:
        k = rng.random()
        opts.append("pylint=--enable=" + ("all" if k < 0.3 else ",".join([rng.choice(PYCODES) for _ in range(rng.randint(1, 10))])))
        if rng.random() < 0.5:
            opts.append("pylint=--enable=" + ",".join(OWN))
    if rng.random() < 0.2:
        opts.append("pylint=--disable=" + rng.choice(PYCODES))
    if rng.random() < 0.5:
        opts.append("pylint=--bad-names=" + ",".join(rng.sample(["foo", "bar", "x", "l", "y", "i", "a", "Qx", "key"], 5)))
    if rng.random() < 0.7:
        opts.append("flake8=--" + rng.choice(["select", "extend-select"]) + "=" + ",".join(rng.choice(FLCODES) for _ in range(rng.randint(1, 4))))
    if rng.random() < 0.15:
        opts.append("flake8=" + rng.choice(["--max-line-length=20", "--max-complexity=1", "--ignore=E2", "--extend-ignore=F401", "--max-doc-length=5"]))
    if "empty" in opts[0] and rng.random() < 0.8:
        opts.append("flake8=--ignore=" + rng.choice(["X9", "X9", "E2", "W5"]))
    if rng.random() < 0.12:
        opts.append("no-flake8")
    if rng.random() < 0.5:
        opts.append("allowed-onechar-names=" + rng.choice(["", "x", "xl", "iya", "Q", "ijkxyal"]))
    if rng.random() < 0.4:
        opts.append("disallowed-builtin-names=" + rng.choice(["max", "list,sum", "input,id,len", "su", "maxi,lis", "nothing"]))
    if rng.random() < 0.35:
        opts.append("set-groups=" + rng.choice(["enhancement", "python-specific", "enhancement,complexity", "nope"]))
    if rng.random() < 0.1:
        opts.append("ignore-infile-config-for=" + rng.choice(["pylint", "flake8", "all", "edulint"]))
    if rng.random() < 0.04:
        opts.append(rng.choice(["pylint=--nonsense-option", "flake8=--nonsense", "pylint=--rcfile=missing.rc"]))
    paths = rng.choice([sorted(files), ["."], rng.sample(sorted(files), len(files))])
    return {"files": files, "paths": paths, "opts": opts}


def raw_pylint(args, files):
    from pylint.lint import Run
    from pylint.reporters.json_reporter import JSON2Reporter

    out = io.StringIO()
    sys.stderr = sys.stdout = io.StringIO()
    try:
        Run(["--recursive=y"] + args + files, reporter=JSON2Reporter(out), exit=False)
    except SystemExit as e:
        if e.code == 32:
            return None
    return json.loads(out.getvalue())["messages"] if out.getvalue() else []


def raw_flake8(args, files):
    from flake8.main.application import Application

    out = io.StringIO()
    sys.stdout, sys.stderr = out, io.StringIO()
    code = 0
    try:
        Application()._run(["--format=json"] + args + files)
    except SystemExit as e:
        code = e.code
    if code not in (0, 1, True, False):
        return None
    return [m for ms in json.loads(out.getvalue()).values() for m in ms] if out.getvalue() else []


def in_dir(fn, root, *args):
    os.chdir(root)
    return fn(*args)


def real(root, path):
    return path if path.lower() in ("command line", "configuration file", "command line or configuration file") else os.path.realpath(os.path.join(root, path))


def key(p):
    return (p["source"], p["path"], p["line"], p["column"], p["code"], p["text"], p["end_line"], p["end_column"], p["symbol"])


def model(raw, options):
    """(problems left, number affected)"""
    affected = 0
    lines = {}
    for p in raw:
        lines.setdefault((p["path"], p["line"]), set()).add(p["code"])
    left = []
    for p in raw:
        if OVERRIDES.get(p["code"], set()) & lines[(p["path"], p["line"])]:
            affected += 1
            continue
        p = dict(p)
        code, text = p["code"], p["text"]
        keep = True
        if p["source"] == "pylint" and code == "C0104":
            name = re.match(r'Disallowed name "(.*)"', text).group(1)
            if len(name) == 1:
                keep = name not in (options.get("allowed-onechar-names") or "")
                p["text"] = f'Disallowed single-character variable name "{name}", choose a more descriptive name'
        elif p["source"] == "flake8" and code == "F401":
            keep = not re.match("'(.*)' imported but unused", text).group(1).startswith("ib111")
        elif p["source"] == "pylint" and code == "R6607":
            groups = options.get("set-groups") or []
            expr = re.match(r"Use \S+ instead of repeated \S+ in (.*)\.$", text, re.S).group(1)
            keep = bool(groups) or expr.count("*") > 1
        elif p["source"] == "pylint" and code == "C0325":
            keep = "'not'" not in text
        elif p["source"] == "pylint" and code == "W0622":
            name = re.match(r"Redefining built-in '(.*)'", text).group(1)
            names = options.get("disallowed-builtin-names")
            keep = not names or name in list(names)
        elif p["source"] == "flake8" and code == "E712":
            m = re.match(r"(comparison to (?:True|False) should be )'if cond is .*' or (.*)", text)
            p["text"] = m.group(1) + m.group(2)
        affected += (not keep) or p["text"] != text
        if keep:
            left.append(p)
    return left, affected


def run_case(case):
    root = os.path.realpath(tempfile.mkdtemp(prefix="l-"))
    viol = []
    try:
        lint.write_tree(root, case["files"])
        res = lint.forked_lint({}, case["paths"], case["opts"], timeout=120, root=root)
        shown = f"options {case['opts']}\npaths {case['paths']}"
        if res["problems"] is None:
            # some partition's arguments must be refused by its linter
            from vlib.core import ChildFailed  # noqa
            cfgs = forked(in_dir, configs_only, root, case["paths"], case["opts"], timeout=60)
        else:
            cfgs = res["configs"]
        raws, failing, affected, both = [], False, 0, 0
        exp = []
        for c in cfgs:
            raw = []
            files = list(c["files"])
            fl = [] if c["options"].get("no-flake8") else forked(in_dir, raw_flake8, root, c["options"]["flake8"], files, timeout=120)
            py = forked(in_dir, raw_pylint, root, c["options"]["pylint"], files, timeout=120)
            if fl is None or py is None:
                failing = True
                continue
            raw += [{"source": "flake8", "path": real(root, m["filename"]), "line": m["line_number"], "column": m["column_number"], "code": m["code"], "text": m["text"],
                     "end_line": None, "end_column": None, "symbol": None} for m in fl]
            raw += [{"source": "pylint", "path": real(root, m["path"]), "line": m["line"], "column": m["column"], "code": m["messageId"], "text": m["message"],
                     "end_line": m["endLine"], "end_column": m["endColumn"], "symbol": m["symbol"]} for m in py]
            both += bool(fl) and bool(py)
            left, aff = model(raw, c["options"])
            affected += aff
            exp += [p for p in left if p["code"] != "R0801"]
        if failing != (res["problems"] is None):
            viol.append(("refusal", f"{shown}\nlinters refuse the arguments: {failing}, result is None: {res['problems'] is None}, log {res['log'][:5]}"))
            return Outcome(viol, True, ["refused"])
        if failing:
            return Outcome([], True, ["refused"])
        got = [dict(p, path=real(root, p["path"])) for p in res["problems"] if p["code"] not in ("EDL001", "R0801")]
        if case.get("cut"):
            keepers = case["cut"]
            got = [p for p in got if p["code"] in keepers]
            exp = [p for p in exp if p["code"] in keepers]
        g, e = Counter(map(key, got)), Counter(map(key, exp))
        if g != e:
            extra, missing = list((g - e).elements())[:6], list((e - g).elements())[:6]
            sig = "problems:" + ",".join(sorted({k[4] for k in extra + missing})[:3])
            viol.append((sig, f"{shown}\nreported but not expected: {extra}\nexpected but not reported: {missing}\n" + dump(case)))
        order = [order_key(case, root, p) for p in res["problems"]]
        if order != sorted(order):
            k = next(i for i in range(len(order) - 1) if order[i] > order[i + 1])
            viol.append(("order", f"{shown}\nout of order: {res['problems'][k]}\nbefore {res['problems'][k + 1]}\n" + dump(case)))
        return Outcome(viol, bool(affected or both), sorted({p["code"] for p in exp if p["code"] in OVERRIDES or p["code"] in ("F401", "R6607", "C0325", "W0622", "E712")})
                       + (["affected"] if affected else []), evals=len(e) + 1, note={"reported": len(got), "affected": affected})
    finally:
        shutil.rmtree(root, ignore_errors=True)


def configs_only(paths, options):
    from loguru import logger
    from edulint.config.config import get_config_many, get_cmd_args

    logger.remove()
    return [{"files": [str(f) for f in fs], "options": lint.config_dict(c)} for fs, c, _t in get_config_many(paths, get_cmd_args(options))]


def order_key(case, root, p):
    path = real(root, p["path"])
    if not path.startswith("/"):
        return (-1, "", 0, 0)
    for i, q in enumerate(case["paths"]):
        q = os.path.realpath(os.path.join(root, q))
        if path == q or path.startswith(q + "/"):
            return (i, p["path"], p["line"], p["column"])
    return (10 ** 6, p["path"], p["line"], p["column"])


def dump(case):
    return "\n".join(f"--- {n}\n{t}" for n, t in case["files"].items())


def shrink(case):
    for n in list(case["files"]):
        if len(case["files"]) > 1:
            yield {"files": {k: v for k, v in case["files"].items() if k != n}, "paths": [p for p in case["paths"] if p != n] or ["."], "opts": case["opts"]}
    for i in range(len(case["opts"]) - 1, 0, -1):
        yield dict(case, opts=case["opts"][:i] + case["opts"][i + 1:])
    for n, t in case["files"].items():
        lines = t.split("\n")
        for size in (len(lines) // 2, len(lines) // 4, 3, 1):
            if size >= 1:
                for i in range(0, len(lines), size):
                    yield dict(case, files=dict(case["files"], **{n: "\n".join(lines[:i] + lines[i + size:])}))
