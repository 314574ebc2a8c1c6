"""C20: suggested condition simplifications are logically equivalent."""
import ast
import re

from vlib import conds, lint
from vlib.core import ChildFailed, Outcome

CASES = {"quick": 1600, "thorough": 60000}
RULE = (
    "A case is a file of ten functions, each with one random pure condition over one to three integer, real or untyped variables, built near the "
    "recognised patterns (ranges around zero, comparisons of one expression with several constants or expressions, pairs of modulo tests, "
    "conditions with implied parts), used as an if or while test, a returned or an assigned value. Every suggested replacement is evaluated with exact arithmetic against "
    "what it replaces on a grid around all constants. Non-trivial: at least one replacement was suggested and compared."
)
ASSUMPTIONS = [
    "equivalence is tested on up to 2000 assignments per suggestion (values around all constants, their sums and quotients, small numbers, random ones)",
    "real-valued variables are exact rationals, so rounding of floats is outside the property",
    "assignments for which one of the two conditions raises are skipped",
    "conditions that apply % or // to quotients or floats are skipped",
]
CODES = {"R6211": 1, "R6212": 1, "R6213": 1, "R6214": 1, "R6215": 1, "R6216": 1}
ENABLE = ["simplifiable-with-abs", "redundant-compare-in-condition", "redundant-compare-avoidable-with-max-min", "using-compare-instead-of-equal",
          "simplifiable-test-by-equals", "redundant-condition-part", "condition-always-true-or-false"]
REPLACED = re.compile(r"^'(.*)' can be replaced with '(.*)'$", re.S)
SIMPLIFIED = re.compile(r"^'(.*)' can be simplified to '(.*)'\. Simplify the condition", re.S)


def prepare():
    lint.preload()


def generate(rng):
    items = []
    for _ in range(10):
        kinds = rng.choice([("int",), ("int",), ("int",), ("real",), ("free",), ("int", "real")])
        for _ in range(20):
            c = conds.CondGen(rng, kinds=kinds).cond(rng.choice([0, 1, 2]))
            if conds.compiles_cond(c) and len(c) < 250:
                break
        else:
            c = "x > 1 and x > 2"
        items.append([rng.choice(["if", "if", "while", "return", "assign", "elif"]), c])
    return {"items": items}


def render(case):
    lines, where = [], {}
    for i, (ctx, cond) in enumerate(case["items"]):
        names = conds.names_in(cond)
        lines.append(f"def fun{i}({conds.params(names)}):")
        lines += ["    " + l for l in conds.prologue(names)]
        if ctx == "if":
            body = [f"if {cond}:", "    print('a')"]
        elif ctx == "while":
            body = [f"while {cond}:", "    print('a')"]
        elif ctx == "return":
            body = [f"return {cond}"]
        elif ctx == "assign":
            body = [f"res = {cond}", "print(res)"]
        else:
            body = ["if input() == 'k':", "    print('b')", f"elif {cond}:", "    print('a')"]
        for l in body:
            if cond in l:
                where[len(lines) + 1] = (i, 4 + l.index(cond))
            lines.append("    " + l)
        lines += ["", ""]
    return "\n".join(lines) + "\n", where


def boolops_at(cond, offset, col):
    """Texts of the and/or nodes of the condition that begin at the column."""
    res = []
    for n in ast.walk(ast.parse(cond, mode="eval")):
        if isinstance(n, ast.BoolOp) and n.col_offset + offset == col:
            res.append((isinstance(n.op, ast.And), ast.unparse(n)))
    return res


def run_case(case):
    src, where = render(case)
    res = lint.lint_source(src, ENABLE)
    viol, classes, checked = [], [], 0
    for p in res["problems"] or []:
        if p["code"] not in CODES:
            continue
        m = REPLACED.match(p["text"]) or SIMPLIFIED.match(p["text"])
        if p["line"] not in where:
            viol.append((p["code"] + ":position", f"{p} is not at a condition\n{src}"))
            continue
        i, offset = where[p["line"]]
        cond = case["items"][i][1]
        tell = f"{p['code']} on line {p['line']}: {p['text']}\ncondition: {cond}"
        if not m:
            viol.append((p["code"] + ":format", tell))
            continue
        a, b = m.groups()
        if not (conds.compiles_cond(a) and conds.compiles_cond(b)):
            viol.append((p["code"] + ":syntax", f"{tell}\nis not an expression"))
            continue
        if conds.int_operation_on_fractions(a, b):
            classes.append("skipped:integer-operation-on-fractions")
            continue
        checked += 1
        classes.append(p["code"])
        extra = set(conds.names_in(a, b)) - set(conds.names_in(cond))
        if extra:
            viol.append((p["code"] + ":names", f"{tell}\nmentions {extra}"))
            continue
        diff = conds.first_difference(a, b)
        if diff:
            viol.append((p["code"] + ":inequivalent", f"{tell}\nfor {diff[0]} the original is {diff[1]}, the replacement {diff[2]}"))
            continue
        # what is said to be replaced must be that condition or some of its parts
        ops = boolops_at(cond, offset, p["column"])
        whys = []
        for is_and, text in ops:
            both = f"({text}) and not ({a})" if is_and else f"({a}) and not ({text})"
            pt = conds.first_point(both, True)
            if pt is None:
                whys = None
                break
            whys.append(f"for {pt} '{text}' is {is_and} and '{a}' is not")
        if whys is not None:
            viol.append((p["code"] + ":not-a-part", f"{tell}\n'{a}' is no part of the condition: {whys}"))
    return Outcome(viol, checked > 0, classes, max(checked, 1), note=[p["text"] for p in res["problems"] or []][:4])


def shrink(case):
    items = case["items"]
    if len(items) > 1:
        for it in items:
            yield {"items": [it]}
        return
    ctx, cond = items[0]
    if ctx != "if":
        yield {"items": [["if", cond]]}
    for s in smaller_conditions(cond):
        yield {"items": [[ctx, s]]}


def smaller_conditions(cond):
    try:
        tree = ast.parse(cond, mode="eval")
    except SyntaxError:
        return
    nodes = list(ast.walk(tree))
    for n in nodes:
        if isinstance(n, ast.BoolOp) and len(n.values) > 2:
            for k in range(len(n.values)):
                old = n.values
                n.values = old[:k] + old[k + 1:]
                yield ast.unparse(tree)
                n.values = old
    for n in nodes:
        for field, val in ast.iter_fields(n):
            vals = val if isinstance(val, list) else [val]
            for idx, v in enumerate(vals):
                if not isinstance(v, ast.expr) or isinstance(v, (ast.Name, ast.Constant)) or (isinstance(n, ast.Call) and field == "func"):
                    continue
                for sub in list(ast.iter_child_nodes(v)):
                    if not isinstance(sub, ast.expr):
                        continue
                    if isinstance(v, ast.Call) and sub is v.func:
                        continue
                    if isinstance(val, list):
                        val[idx] = sub
                        yield ast.unparse(tree)
                        val[idx] = v
                    else:
                        setattr(n, field, sub)
                        yield ast.unparse(tree)
                        setattr(n, field, v)
