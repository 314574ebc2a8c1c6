"""C13: enabling a check shows exactly its own findings."""
import random

from props import c08
from vlib import lint, patterns
from vlib.core import Outcome

CASES = {"quick": 1500, "thorough": 60000}
RULE = (
    "A case is a file of three to eight functions built from the documented defect patterns of all of the tool's checks with random names, constants, operators and near misses, "
    "and top-level code, linted once with all the tool's checks outside the duplicate-code family enabled and then with six random subsets of them (often single checks, "
    "often ones that occur in the file), named by code or symbol, enabled alone or left over after disabling the others. Each subset must report exactly "
    "the problems of its checks, overriding aside. Non-trivial: some subset kept and dropped some problems."
)
ASSUMPTIONS = ["a problem missing when all checks are enabled is accepted only if the override table has a check outside the subset reported on the same line"]
_own = {}


def prepare():
    lint.preload()
    _own.update({c: s for c, (_, s) in lint.own_messages().items() if not c.startswith("R65") and c not in ("R6600",)})


def codes_list():
    # generation must not depend on the linter: the list is fixed by the patterns
    extra = ["R6701", "E9992"]
    return sorted(set(patterns.PLAIN) | set(extra))


def generate(rng):
    g = patterns.PatternGen(rng)
    funcs = []
    chosen = []
    for _ in range(rng.randint(3, 8)):
        body = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            code = rng.choice(patterns.PLAIN)
            chosen.append(code)
            part = getattr(g, code)()
            if rng.random() < 0.15:
                i = g.fresh("k")
                part = [f"for {i} in range(3):"] + g.ind(part)
            elif rng.random() < 0.15:
                part = [f"if {g.cond()}:"] + g.ind(part)
            body += part
        funcs.append(body)
    top = []
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 2, 30])):
            top += [f"print({rng.randint(0, 9)})"]
    subsets = []
    for _ in range(6):
        n = rng.choice([1, 1, 1, 1, 1, 2, 3, 20])
        pool = chosen if rng.random() < 0.85 else codes_list()
        s = sorted({rng.choice(pool) for _ in range(n)})
        subsets.append({"codes": s, "by": rng.choice(["code", "symbol", "mixed"]), "how": rng.choice(["enable", "enable", "disable", "all-but"])})
    return {"funcs": funcs, "top": top, "subsets": subsets}


def source(case):
    return patterns.module(case["funcs"]) + ("\n\n" + "\n".join(case["top"]) + "\n" if case["top"] else "")


def name(code, by, k):
    if by == "code" or by == "mixed" and k % 2:
        return code
    return _own[code]


def options(sub):
    base = ["config-file=empty", "no-flake8"]
    mine = [name(c, sub["by"], k) for k, c in enumerate(sub["codes"]) if c in _own]
    rest = [name(c, sub["by"], k) for k, c in enumerate(sorted(_own)) if c not in sub["codes"]]
    if sub["how"] == "enable":
        return base + ["pylint=--enable=" + ",".join(mine)]
    if sub["how"] == "disable":
        return base + ["pylint=--enable=" + ",".join(sorted(_own)), "pylint=--disable=" + ",".join(rest)]
    return base + ["pylint=--enable=" + ",".join(rest + mine), "pylint=--disable=" + ",".join(rest)]


def key(p):
    return (p["line"], p["column"], p["code"], p["symbol"], p["text"], p["end_line"], p["end_column"])


def run_case(case):
    src = source(case)
    full = lint.lint_source(src, sorted(_own))["problems"]
    viol, classes = [], []
    if full is None:
        return Outcome([("no-result", src)], False, [], 1)
    lines = {}
    for p in full:
        lines.setdefault(p["line"], set()).add(p["code"])
    nontrivial = False
    for sub in case["subsets"]:
        codes = {c for c in sub["codes"] if c in _own}
        if not codes:
            continue
        res = lint.forked_lint({"m.py": src}, ["m.py"], options(sub))["problems"]
        want = sorted((key(p) for p in full if p["code"] in codes), key=repr)
        got = sorted((key(p) for p in res or []), key=repr)
        if want and len(want) < len(full):
            nontrivial = True
        classes += sorted({k[2] for k in want})
        tell = f"subset {sub}"
        left = list(got)
        for k in want:
            if k in left:
                left.remove(k)
            else:
                viol.append((f"missing:{k[2]}", f"{tell}\n{k} is reported with all checks enabled, but not with the subset alone\nreported: {got}\n--- source\n{src}"))
        for k in left:
            if k[2] not in codes:
                viol.append((f"foreign:{k[2]}", f"{tell}\n{k} is reported although it is not enabled\n--- source\n{src}"))
            elif not (c08.OVERRIDES.get(k[2], set()) & lines.get(k[0], set()) - codes):
                viol.append((f"extra:{k[2]}", f"{tell}\n{k} is reported by the subset alone, but not with all checks enabled: {[key(p) for p in full if p['line'] == k[0]]}\n--- source\n{src}"))
            else:
                classes.append("overridden")
    return Outcome(viol, nontrivial, classes, len(case["subsets"]), note=[sorted(set(c for s in case["subsets"] for c in s["codes"]))])


def shrink(case):
    for s in case["subsets"]:
        if len(case["subsets"]) > 1:
            yield {**case, "subsets": [s]}
    if len(case["subsets"]) > 1:
        return
    s = case["subsets"][0]
    if case["top"]:
        yield {**case, "top": []}
    if len(case["funcs"]) > 1:
        for f in case["funcs"]:
            yield {**case, "funcs": [f]}
        for i in range(len(case["funcs"])):
            yield {**case, "funcs": case["funcs"][:i] + case["funcs"][i + 1:]}
    for i in range(len(s["codes"])):
        if len(s["codes"]) > 1:
            yield {**case, "subsets": [{**s, "codes": s["codes"][:i] + s["codes"][i + 1:]}]}
    if s["how"] != "enable":
        yield {**case, "subsets": [{**s, "how": "enable"}]}
    if s["by"] != "code":
        yield {**case, "subsets": [{**s, "by": "code"}]}
    for i, f in enumerate(case["funcs"]):
        for k in range(len(f)):
            g = f[:k] + f[k + 1:]
            try:
                compile("def f():\n    0\n" + "\n".join("    " + l for l in g), "<c13>", "exec")
            except SyntaxError:
                continue
            yield {**case, "funcs": case["funcs"][:i] + [g] + case["funcs"][i + 1:]}
