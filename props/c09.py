"""C09: a file's problems do not depend on what else is linted or how it is named."""
import os
import re
import shutil
import tempfile
from collections import Counter

from props import c08
from vlib import gen, lint
from vlib.core import Outcome

CASES = {"quick": 650, "thorough": 30000}
RULE = (
    "A case is a directory tree (packages, nested and equally named files, unusual names), a list of given paths in random spellings (relative, absolute, with detours, "
    "directories, repeated and nested) and a working directory. For every file below the given paths the problems must be those of linting it alone by its plain path, each once; "
    "reported paths must lead to the file from the working directory, be relative or absolute as given, and follow the order of the given paths. "
    "Non-trivial: at least two files are covered and some path is not plain."
)
ASSUMPTIONS = ["no symbolic links; the files do not import each other", "R0801 and R0401, which are about several files, are left out"]
DIRS = ["", "", "sub", "sub/deep", "pkg", "pkg/inner", "a b", "sub.x", "command line", "žlutý", "src/m", "PKG"]
NAMES = ["m.py", "m.py", "a.py", "b.py", "__init__.py", "__main__.py", "command line.py", "my configuration file.py", "Command line or configuration file.py", "a b.py", "č.py", "a.b.py", "x-y.py",
         "M.py", "test_m.py", "setup.py", "random.py", "%s.py", "{x}.py", "a'b.py", "[x].py", "a,b.py", "py.py", "conftest.py", "types.py"]
SNIPPETS = [s for s in c08.SNIPPETS if "ib111" not in s and "import" not in s] + ["import os\nimport sys", "from collections import *\nprint(OrderedDict)"]


def prepare():
    c08.prepare()


def content(rng):
    parts = ["foo = 0 \nif foo == 1:\n    pass"] + rng.sample(SNIPPETS, rng.randint(0, 3))
    text = "\n\n\n".join(p.replace("{i}", str(j)) for j, p in enumerate(parts)) + "\n"
    k = rng.random()
    if k < 0.2:
        text = "# edulint: " + rng.choice(["pylint=--enable=C0103", "no-flake8", "allowed-onechar-names=l", "config-file=cs0", "ignore-infile-config-for=all"]) + "\n" + text
    return text


def spell(rng, path, dirs, cwd):
    """a spelling of root-relative path (file or directory)"""
    k = rng.random()
    if k < 0.3:
        return ["plain", path]
    if k < 0.5:
        return ["abs", path]
    if k < 0.65:
        return ["dot", path]
    if k < 0.9:
        return ["detour", path, rng.choice([d for d in dirs if d] or ["elsewhere"])]
    return ["absdetour", path, rng.choice([d for d in dirs if d] or ["elsewhere"])]


def render(sp, root, cwd):
    kind, path = sp[0], sp[1] or "."
    rel = os.path.relpath(os.path.join(root, path), os.path.join(root, cwd))
    if kind == "plain":
        return rel
    if kind == "dot":
        return "./" + rel
    if kind == "abs":
        return os.path.normpath(os.path.join(root, path))
    up = "/".join([".."] * (1 + sp[2].count("/")))
    if kind == "absdetour":
        return f"{root}/{sp[2]}/{up}/{path}"
    base = os.path.relpath(os.path.join(root, sp[2]), os.path.join(root, cwd))
    return f"{base}/{up}/{path}"


def generate(rng):
    files = {}
    for _ in range(rng.randint(1, 5)):
        d = rng.choice(DIRS)
        n = rng.choice(NAMES)
        files[os.path.join(d, n)] = content(rng)
        if d.startswith("pkg") and rng.random() < 0.7:
            files["pkg/__init__.py"] = content(rng)
    if rng.random() < 0.3:
        files[os.path.join(rng.choice(DIRS), "notes.txt")] = "foo = 1 \n"
    dirs = sorted({os.path.dirname(f) for f in files} | {os.path.dirname(os.path.dirname(f)) for f in files} | {""})
    pys = sorted(f for f in files if f.endswith(".py"))
    paths = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        p = rng.choice(dirs) if rng.random() < 0.4 else rng.choice(pys)
        paths.append(spell(rng, p, dirs, None))
    opts = ["config-file=" + rng.choice(["empty", "default", "full"]), "pylint=--enable=" + rng.choice(["all", "C0104,W0107,C0103", "C0104," + ",".join(c08.OWN)]), "pylint=--bad-names=foo",
            "flake8=--extend-select=W,E,F", "flake8=--ignore=X9"]
    if rng.random() < 0.2:
        opts.append("ignore-infile-config-for=" + rng.choice(["pylint", "flake8", "all"]))
    return {"files": files, "paths": paths, "cwd": rng.choice(dirs + ["", "elsewhere"]), "opts": opts}


def key(p):
    text = re.sub(r"\([^()]*, line", "(…, line", p["text"]) if p["code"] == "E0001" else p["text"]  # names the module, after its package when that is importable
    return (p["source"], p["line"], p["column"], p["code"], text, p["end_line"], p["end_column"], p["symbol"], p["enabled_by"])


def package_files(d):
    res = set()
    if "." in os.path.basename(d):
        return res
    for root, dirs, names in os.walk(d):
        if "__init__.py" not in names:
            dirs[:] = []
            continue
        res |= {os.path.join(root, n) for n in names}
    return res


def pylint_reaches(entries):
    """Files that pylint's own recursion visits for the given arguments: it skips directories without __init__.py inside of packages (and those whose name
    begins with a package's name), and packages with a dot in their names."""
    res = set()
    for e in entries:
        if not os.path.isdir(e):
            res.add(e)
        elif os.path.exists(os.path.join(e, "__init__.py")):
            res |= package_files(e)
        else:
            skip = []
            for root, _dirs, names in os.walk(e):
                if any(root.startswith(s) for s in skip):
                    continue
                if "__init__.py" in names:
                    skip.append(root)
                    res |= package_files(root)
                else:
                    res |= {os.path.join(root, n) for n in names}
    return res


def known_match(finding, case, sig, text):
    return finding["id"] == "C09-pylint-recursion" and sig == "unreached"


SKIP = ("R0801", "R0401")


def run_case(case):
    root = os.path.realpath(tempfile.mkdtemp(prefix="l-"))
    viol = []
    try:
        lint.write_tree(root, case["files"])
        os.makedirs(os.path.join(root, "elsewhere"), exist_ok=True)
        given = [render(s, root, case["cwd"]) for s in case["paths"]]
        wd = os.path.join(root, case["cwd"])
        shown = f"cwd {case['cwd']!r}, given {given}, options {case['opts']}, files {sorted(case['files'])}"
        res = lint.forked_lint({}, given, case["opts"], timeout=120, root=root, cwd=case["cwd"])
        if res["problems"] is None:
            return Outcome([("failed", f"{shown}\nlinting failed: {res['log']}")], True)
        covered = {}
        for i, g in enumerate(given):
            full = os.path.realpath(os.path.join(wd, g))
            for f in case["files"]:
                p = os.path.join(root, f)
                if f.endswith(".py") and (p == full or p.startswith(full + "/")):
                    covered.setdefault(p, (i, set()))[1].add(os.path.isabs(g))
        got = {}
        order = []
        for p in res["problems"]:
            if p["path"].lower() in ("command line", "configuration file", "command line or configuration file") and not p["path"].endswith(".py"):
                order.append(-1)
                continue
            full = os.path.normpath(os.path.join(wd, p["path"]))
            if full not in covered:
                viol.append(("path", f"{shown}\npath {p['path']!r} of {p['code']} leads to {full}, not to a given file"))
                break
            if os.path.isabs(p["path"]) not in covered[full][1]:
                viol.append(("form", f"{shown}\npath {p['path']!r} has not the given form"))
                break
            order.append(covered[full][0])
            if p["code"] not in SKIP:
                got.setdefault(full, []).append(p)
        if not viol and order != sorted(order):
            viol.append(("order", f"{shown}\nproblems do not follow the given paths: {[(p['path'], p['line']) for p in res['problems']][:40]}"))
        if not viol:
            for full in sorted(covered):
                alone = lint.forked_lint({}, [os.path.relpath(full, root)], case["opts"], timeout=60, root=root)
                if alone["problems"] is None:
                    viol.append(("failed-alone", f"{shown}\nlinting {full} alone failed: {alone['log']}"))
                    break
                rel = os.path.relpath(full, root)
                exp = Counter(key(p) for p in alone["problems"] if p["code"] not in SKIP and p["path"].endswith(".py"))
                g = Counter(key(p) for p in got.get(full, []))
                if g != exp:
                    extra, missing = list((g - exp).elements())[:5], list((exp - g).elements())[:5]
                    sig = "differs:" + ",".join(sorted({k[3] for k in extra + missing})[:2])
                    entries = [os.path.normpath(os.path.join(wd, f)) for c in res["configs"] for f in c["files"]]
                    if all(k[3] == "E225" for k in extra) and all(k[0] == "pylint" for k in (exp - g)) and not any(k[0] == "pylint" for k in g) and full not in pylint_reaches(entries):
                        sig = "unreached"
                    viol.append((sig, f"{shown}\nfile {rel}\nmore than alone: {extra}\nless than alone: {missing}\n--- {rel}\n{case['files'][rel]}"))
                    if sig == "unreached":
                        continue
                    break
                if not exp and "flake8=--ignore=X9" in case["opts"] and "foo = 0 \n" in case["files"][rel] and not case["files"][rel].startswith("# edulint"):
                    viol.append(("uncovered", f"{shown}\nno problem in {rel} though it has some\n{case['files'][rel]}"))
                    break
        return Outcome(viol, len(covered) > 1 and any(s[0] != "plain" for s in case["paths"]), [s[0] for s in case["paths"]], evals=len(covered) + 1, note=shown[:300])
    finally:
        shutil.rmtree(root, ignore_errors=True)


def shrink(case):
    for i in range(len(case["paths"])):
        if len(case["paths"]) > 1:
            yield dict(case, paths=case["paths"][:i] + case["paths"][i + 1:])
    used = {s[1] for s in case["paths"]} | {s[2] for s in case["paths"] if len(s) > 2}
    for n in list(case["files"]):
        if n not in used and not any(u and n.startswith(u + "/") for u in used if len(case["files"]) == 1):
            yield dict(case, files={k: v for k, v in case["files"].items() if k != n})
    if case["cwd"]:
        yield dict(case, cwd="")
    for i, s in enumerate(case["paths"]):
        if s[0] != "plain":
            yield dict(case, paths=case["paths"][:i] + [["plain", s[1]]] + case["paths"][i + 1:])
    for i in range(len(case["opts"]) - 1, 0, -1):
        yield dict(case, opts=case["opts"][:i] + case["opts"][i + 1:])
    for n, t in case["files"].items():
        lines = t.split("\n")
        for size in (len(lines) // 2, 3, 1):
            if size >= 1:
                for i in range(0, len(lines), size):
                    yield dict(case, files=dict(case["files"], **{n: "\n".join(lines[:i] + lines[i + size:])}))
