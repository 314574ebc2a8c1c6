"""C11: CLI output and exit status tell exactly what was found."""
import io
import json
import os
import random
import runpy
import shutil
import sys
import tempfile

from props import c08
from vlib import lint
from vlib.core import Outcome, forked

CASES = {"quick": 700, "thorough": 30000}
RULE = (
    "A case is a tree of files (some clean, some with problems whose texts carry quotes, line ends, percent signs, control characters or letters of other alphabets; some with unusual names, also "
    "names that are not UTF-8), given paths (files, directories, missing ones), options (also unusual ones and ones that the linters refuse), translations and an encoding of the standard output. The "
    "command is run with and without --json in a forked process and the programming interface in another; the printed text must be the one "
    "a model of the output makes of the interface's problems, the JSON must give back every field and every option, and the exit statuses must agree. Non-trivial: some problem was found."
)
ASSUMPTIONS = ["characters that the encoding of the standard output lacks may be printed as escapes", "version check and update of explanations are switched off by their flags",
               "options that make the linters print in other formats than the tool reads (flake8 --format and --quiet, pylint --output-format) are left out"]
NAMES = ["m.py", "a.py", "sub/m.py", "sub/b.py", "a b.py", "č.py", "sub/ž.py", "a\nb.py", "x\"y.py", "a'b.py", "%s.py", "{x}.py", "\udcff.py", "sub\udcfe/m.py", "\u2028.py", "<b>.py", "\\n.py", "日本.py", "\x1b[31m.py"]
BODIES = [
    "x = 1\n", "", "import os\n", "s = 'č'\nlst = []\nlst.extend(['ž\"'])\n", "lst = []\nlst += ['a\\nb']\nprint(lst is True)\n", "def f(a):\n    if a:\n        return True\n    return False\n",
    "x = =\n", "def ř(x):\n    return x + x + x\n", "s = '%s'\nprint(s is True, '<b>' is True)\n", "x = 1 \n", "lst = []\nlst.extend(['''a\nb'''])\n", "print('%d' % 'a', undefined)\n", "lst = []\nlst += ['日本', ]\nlst.extend(['\\udcff'])\n",
    "# -*- coding: latin-1 -*-\nx = 1 \n", "lst = []\nlst.extend(['\\x1b\t\x0c'])\n", "for i in range(len([1])):\n    pass\n", "x = 0\nwhile x is True:\n    x = x + 0\n", "# edulint: no-flake8\nx = 1 \n", "# edulint: pylint=--enable=C0103\nQ = 1\nlst = []\n",
]
TEXTS = ["přeloženo", "a \"q\" {0}", "two\nlines {0}", "tab\t{0}", "<red>x</red>", "%s %d", "日本", "back\\slash", "\u2028sep", "\x07bell", "{{}}", "emoji 🦒", ""]
ENCODINGS = ["utf-8", "utf-8", "utf-8", "ascii", "latin-1", "cp1250", "utf-16"]


def prepare():
    c08.prepare()


def generate(rng):
    files = {}
    for _ in range(rng.randint(1, 4)):
        body = rng.choice(BODIES) + (rng.choice(BODIES) if rng.random() < 0.4 else "")
        files[rng.choice(NAMES)] = body
    lang = None
    opts = ["config-file=" + rng.choice(["empty", "empty", "default", "full"])]
    if rng.random() < 0.7:
        opts += ["pylint=--enable=" + rng.choice(["R6601,R6613,R6201,R6307,R6607,R6608", "all", "C0103"]), "flake8=--ignore=X9"]
    if rng.random() < 0.35:
        codes = rng.sample(["R6601", "R6613", "R6201", "C0103", "E0602", "W291", "F401", "E999", "C0114", "no-is-bool"], rng.randint(1, 4))
        lang = {c: rng.choice(TEXTS) for c in codes}
        opts.append("language-file=lang.toml" if rng.random() < 0.9 else "language-file=missing.toml")
    if rng.random() < 0.15:
        opts.append(rng.choice(["pylint=--nonsense", "flake8=--nonsense", "nonsense", "pylint=--jobs=x", "flake8=--max-line-length=x", "pylint=--rcfile=none.cfg", "pylint=--bad-names=č,\"", "ignore-infile-config-for=all", "pylint=--exit-zero", "flake8=--exit-zero",
                                "flake8=--output-file=out.txt", "flake8=--tee", "flake8=--count", "flake8=--statistics", "flake8=--show-source", "pylint=--score=y", "pylint=--reports=y", "flake8=--color=always", "flake8=--verbose", "flake8=--benchmark",
                                "pylint=--persistent=n", "pylint=--msg-template={msg}", "pylint=--fail-under=10", "pylint=--fail-on=E", "pylint=--verbose"]))
    paths = [rng.choice(sorted(files) + ["", "sub"] if rng.random() < 0.9 else ["missing.py", "no/dir"]) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
    paths = [p if p != "sub" or any(f.startswith("sub/") for f in files) else "" for p in paths]
    return {"files": files, "lang": lang, "paths": paths, "opts": opts, "abs": rng.random() < 0.2, "enc": rng.choice(ENCODINGS), "dup": rng.random() < 0.1}


def toml(lang):
    lines = ["[translations]"]
    for code, text in lang.items():
        lines += [f"[translations.{json.dumps(code)}]", f"translation = {json.dumps(text)}"]
    return "\n".join(lines) + "\n"


def _api(root, paths, options):
    os.chdir(root)
    res = lint.call_check_code(paths, options)
    from edulint import check_code
    back = None
    if res["problems"] is not None:
        from edulint.edulint import to_json
        from edulint.linting.problem import Problem
        configs, problems = check_code(paths, options)
        doc = json.loads(to_json(configs, problems))
        # the classes' own way of reading the document back
        back = [lint.problem_dict(p) for p in Problem.schema().load(doc["problems"], many=True)]
    return res, back


def _main(root, argv, enc):
    os.chdir(root)
    out = tempfile.NamedTemporaryFile(dir=os.environ["VERIF_SCRATCH"], delete=False)
    err = tempfile.NamedTemporaryFile(dir=os.environ["VERIF_SCRATCH"], delete=False)
    os.dup2(out.fileno(), 1)
    os.dup2(err.fileno(), 2)
    sys.stdout = io.TextIOWrapper(os.fdopen(os.dup(1), "wb"), encoding=enc, write_through=True)
    sys.stderr = io.TextIOWrapper(os.fdopen(os.dup(2), "wb"), encoding="utf-8", errors="backslashreplace", write_through=True)
    sys.argv = ["edulint"] + argv
    try:
        runpy.run_module("edulint", run_name="__main__", alter_sys=False)
        code = 0
    except SystemExit as e:
        code = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
    sys.stdout.flush()
    sys.stderr.flush()
    os.lseek(1, 0, 0)
    data = open(out.name, "rb").read()
    errs = open(err.name, "rb").read()
    os.unlink(out.name)
    os.unlink(err.name)
    return code, data, errs.decode("utf-8", "replace")[-3000:]


def model_text(problems, single):
    lines, prev = [], None
    for p in problems:
        if not single and p["path"] != prev:
            lines.append("****************** " + os.path.basename(p["path"]))
            prev = p["path"]
        lines.append(f"{p['path']}:{p['line']}:{p['column']}: {p['code']} {p['text']}" + (f" [{p['enabled_by']}]" if p["enabled_by"] is not None else ""))
    return "".join(l + "\n" for l in lines)


def run_case(case):
    root = os.path.realpath(tempfile.mkdtemp(prefix="o-"))
    viol, classes = [], []
    try:
        files = {os.fsencode(k).decode("utf-8", "surrogateescape"): v for k, v in case["files"].items()}
        lint.write_tree(root, {**files, **({"lang.toml": toml(case["lang"])} if case["lang"] else {})})
        given = [p or "." for p in case["paths"]]
        if case["abs"]:
            given = [os.path.normpath(os.path.join(root, p)) for p in given]
        if case["dup"]:
            given = given + given[:1]
        (api, back), text, doc = (forked(_api, root, given, case["opts"], timeout=120),
                                  forked(_main, root, args(case, given, False), case["enc"], timeout=120), forked(_main, root, args(case, given, True), "utf-8", timeout=120))
        tell = f"paths {given}, options {case['opts']}, encoding {case['enc']}"
        single = len(given) == 1 and not os.path.isdir(os.path.join(root, given[0]))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    problems = api["problems"]
    want = 2 if problems is None else 1 if problems else 0
    for what, (code, data, errs) in (("text", text), ("json", doc)):
        if code != want:
            viol.append((f"status:{what}:{code}-not-{want}", f"{tell}\nthe exit status with {what} output is {code}, the interface says {want} ({problems and problems[:2]})\nstderr: {errs[-1500:]}"))
    if problems is None:
        classes.append("not-done")
        if any(os.path.basename(p).startswith("missing") or "no/dir" in p for p in given):
            classes.append("missing")
        for what, (code, data, errs) in (("text", text), ("json", doc)):
            if data.strip():
                viol.append((f"output-without-linting:{what}", f"{tell}\nlinting was not done, but the output is {data[:300]}"))
        return Outcome(viol, False, classes, 2)
    if text[0] in (0, 1):
        expected = model_text(problems, single).encode(case["enc"] if case["enc"] != "utf-16" else "utf-16", "backslashreplace")
        if text[1] != expected and text[1].decode(case["enc"], "replace") != expected.decode(case["enc"], "replace"):
            viol.append(("text-differs", f"{tell}\nthe text output is\n{text[1].decode(case['enc'], 'replace')}\nthe problems are\n{expected.decode(case['enc'], 'replace')}"))
    if doc[0] in (0, 1):
        try:
            parsed = json.loads(doc[1].decode("utf-8"))
        except ValueError as e:
            viol.append(("json-invalid", f"{tell}\n{e}: {doc[1][:500]}"))
            parsed = None
        if parsed is not None:
            if parsed.get("problems") != problems:
                bad = [(a, b) for a, b in zip(parsed.get("problems") or [], problems) if a != b][:1] or [(len(parsed.get("problems") or []), len(problems))]
                viol.append(("json-problems", f"{tell}\nproblems in the JSON and from the interface differ: {bad}"))
            if parsed.get("configs") != [c["options"] for c in json.loads(json.dumps(api["configs"], default=str))]:
                viol.append(("json-configs", f"{tell}\nconfigurations in the JSON: {parsed.get('configs')}\nfrom the interface: {[c['options'] for c in api['configs']]}"))
            if set(parsed) != {"configs", "problems"}:
                viol.append(("json-keys", f"{tell}\n{sorted(parsed)}"))
    if back is not None and back != problems:
        viol.append(("json-reading", f"{tell}\nproblems read back by the package's own schema differ: {[(a, b) for a, b in zip(back, problems) if a != b][:1]}"))
    classes += [f"status-{want}", case["enc"]]
    if any(not p["text"].isascii() for p in problems):
        classes.append("non-ascii-text")
    if any("\n" in p["text"] for p in problems):
        classes.append("multi-line-text")
    if not single:
        classes.append("several")
    return Outcome(viol, bool(problems), classes, 3, note=[len(problems)])


def args(case, given, as_json):
    flags = ["--disable-version-check", "--disable-explanations-update"] + (["--json"] if as_json else [])
    opts = [x for o in case["opts"] for x in ("-o", o)]
    order = random.Random(repr(case["opts"])).random()
    return ["check"] + (flags + opts + given if order < 0.5 else opts + given + flags)


def shrink(case):
    for k in list(case["files"]):
        if len(case["files"]) > 1:
            yield {**case, "files": {f: v for f, v in case["files"].items() if f != k}}
    for i in range(len(case["paths"])):
        if len(case["paths"]) > 1:
            yield {**case, "paths": case["paths"][:i] + case["paths"][i + 1:]}
    for i in range(len(case["opts"])):
        yield {**case, "opts": case["opts"][:i] + case["opts"][i + 1:]}
    if case["lang"]:
        yield {**case, "lang": None}
        for k in case["lang"]:
            if len(case["lang"]) > 1:
                yield {**case, "lang": {f: v for f, v in case["lang"].items() if f != k}}
    for k in ("abs", "dup"):
        if case[k]:
            yield {**case, k: False}
    if case["enc"] != "utf-8":
        yield {**case, "enc": "utf-8"}
    for k, v in case["files"].items():
        lines = v.split("\n")
        for i in range(len(lines)):
            if len(lines) > 1:
                yield {**case, "files": {**case["files"], k: "\n".join(lines[:i] + lines[i + 1:])}}
    for k, v in case["files"].items():
        if k != "m.py" and "m.py" not in case["files"]:
            yield {**case, "files": {("m.py" if f == k else f): w for f, w in case["files"].items()}, "paths": ["m.py" if p == k else p for p in case["paths"]]}
