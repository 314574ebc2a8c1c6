"""C12: every valid Python file can be linted by every own check; problems lie inside the file."""
import ast
import glob
import os
import re

from vlib import gen, lint, pyshrink
from vlib.core import Outcome, Timeout, ChildFailed

CASES = {"quick": 2600, "thorough": 60000}
RULE = (
    "A case is one Python source: a random program over all statement and expression kinds (three degrees of unusual constructs), "
    "a random slice of top-level definitions of a standard-library module, or such a slice with random sub-expressions replaced. "
    "Non-trivial: the source compiles, has at least 5 lines, and was linted with all own checks enabled."
)
ASSUMPTIONS = ["CPython's own parser decides which files are valid", "a lint needing over 60 s for a file below 200 lines counts as not terminating"]
TIMEOUT_IS_VIOLATION = True
ENABLE = []
STDLIB = []


def prepare():
    lint.preload()
    ENABLE.extend(sorted(s for c, (t, s) in lint.own_messages().items() if s != "noop"))
    base = os.path.dirname(os.__file__)
    STDLIB.extend(sorted(glob.glob(base + "/*.py") + glob.glob(base + "/json/*.py") + glob.glob(base + "/email/*.py") + glob.glob(base + "/asyncio/*.py")
                         + glob.glob(base + "/idlelib/*.py") + glob.glob(base + "/collections/*.py") + glob.glob(base + "/unittest/*.py")))


def stdlib_slice(rng):
    for _ in range(20):
        path = STDLIB[rng.randrange(len(STDLIB))]
        try:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            tree = ast.parse(src)
        except (SyntaxError, UnicodeDecodeError, ValueError):
            continue
        defs = [n for n in tree.body if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.If, ast.For, ast.Try, ast.Assign))]
        if not defs:
            continue
        picked = []
        size = 0
        start = rng.randrange(len(defs))
        for n in defs[start:]:
            seg = ast.get_source_segment(src, n, padded=False)
            if seg is None:
                continue
            k = seg.count("\n")
            if size + k > 80:
                if isinstance(n, ast.ClassDef) and not picked:
                    meths = [m for m in n.body if isinstance(m, ast.FunctionDef)]
                    for m in rng.sample(meths, min(3, len(meths))):
                        s = ast.unparse(m)
                        if s.count("\n") < 60:
                            picked.append(s)
                break
            picked.append(seg)
            size += k
            if rng.random() < 0.3:
                break
        text = "\n\n\n".join(picked) + "\n"
        if picked and text.count("\n") < 150 and gen.compiles(text):
            return text
    return "x = 1\n"


def mutate(rng, src):
    """Replaces random sub-expressions / duplicates statements of a real program."""
    try:
        tree = ast.parse(src)
    except SyntaxError:
        return src
    g = gen.Gen(rng, wild=0.4)
    spots = []
    for node in ast.walk(tree):
        for field, val in ast.iter_fields(node):
            if isinstance(val, ast.expr) and not isinstance(getattr(val, "ctx", None), (ast.Store, ast.Del)) and not isinstance(node, (ast.JoinedStr, ast.FormattedValue)):
                spots.append((node, field))
    for _ in range(rng.randint(1, 4)):
        if not spots:
            break
        node, field = spots[rng.randrange(len(spots))]
        try:
            setattr(node, field, ast.parse("(" + g.expr(2) + ")", mode="eval").body)
        except SyntaxError:
            pass
    try:
        s = ast.unparse(ast.fix_missing_locations(tree)) + "\n"
    except Exception:  # noqa
        return src
    return s if gen.compiles(s) else src


def generate(rng):
    k = rng.random()
    for _ in range(8):
        if k < 0.3:
            src = stdlib_slice(rng)
        elif k < 0.45:
            src = mutate(rng, stdlib_slice(rng))
        else:
            src = gen.Gen(rng, wild=rng.choice([0.05, 0.25, 0.5]), max_depth=rng.choice([2, 3])).program()
        if gen.compiles(src) and src.count("\n") < 200:
            if rng.random() < 0.05:
                src = src.replace("\n", "\r\n")
            if rng.random() < 0.05:
                src = src.rstrip("\n")
            return {"source": src}
    return {"source": "x = 1\n"}


def run_case(case):
    src = case["source"]
    if not gen.compiles(src):
        return Outcome(classes=["invalid"])
    viol = []
    try:
        res = lint.lint_source(src, ENABLE, timeout=60)
    except Timeout as e:
        return Outcome([("hang", f"linting does not finish: {e}\n{src}")], True)
    except ChildFailed as e:
        if not e.in_repo:
            raise
        return Outcome([("exception:" + (crash_site(e.tb) or e.exc_type), f"{e}\n{e.tb}\n--- source\n{src}")], True)
    if res["problems"] is None:
        return Outcome([("failed", f"linting failed: {res['log']}\n{src}")], True)
    lines = src.replace("\r\n", "\n").split("\n")
    nlines = len(lines)
    for level, msg in res["log"]:
        if level in ("ERROR", "CRITICAL"):
            viol.append(("error-log:" + (crash_site(msg) or msg[:60]), f"{level}: {msg}\n--- source\n{src}"))
    for p in res["problems"]:
        if p["code"] in ("F0002", "E0001", "F0001", "E0011", "E0012") or p["code"].startswith("F"):
            viol.append(("internal:" + p["code"] + ":" + crash_site(p["text"]), f"{p['code']} {p['text'][-1500:]}\n--- source\n{src}"))
            continue
        ln, col, el, ec = p["line"], p["column"], p["end_line"], p["end_column"]
        if not (1 <= ln <= max(nlines, 1)):
            viol.append(("line:" + p["code"], f"line {ln} of {nlines}: {p}\n{src}"))
            continue
        width = len(lines[ln - 1].encode("utf-8")) + 1
        if not (0 <= col <= width):
            viol.append(("column:" + p["code"], f"column {col} outside line {lines[ln - 1]!r}: {p}\n{src}"))
        if el is not None:
            if not (ln <= el <= nlines) or (el == ln and ec is not None and ec < col):
                viol.append(("end:" + p["code"], f"end {el}:{ec} before start {ln}:{col} or outside: {p}\n{src}"))
    return Outcome(viol, nontrivial=nlines >= 5, classes=sorted({p["code"] for p in res["problems"]}), note=len(res["problems"]))


def crash_site(text):
    site = ""
    for l in text.split("\n"):
        l = l.strip()
        if l.startswith('File "') and "/edulint/" in l:
            parts = l.split(",")
            site = os.path.basename(parts[0].split('"')[1]) + ":" + parts[-1].strip().replace("in ", "")
    kinds = re.findall(r"^(\w+(?:Error|Exception|Interrupt|Iteration))\b", text, re.M)
    return site + (":" + kinds[-1] if site and kinds else "")


def shrink(case):
    for s in pyshrink.variants(case["source"]):
        yield {"source": s}
