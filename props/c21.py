"""C21: claims about elif chains and constant conditions are true."""
import ast
import random
import re

from props import c20
from vlib import conds, lint
from vlib.core import Outcome

CASES = {"quick": 1600, "thorough": 60000}
RULE = (
    "A case is a file of eight functions, each with one if/elif/else chain of two to six pure conditions over few integer, real or untyped variables and few "
    "constants (comparisons, conjunctions and disjunctions of them, divisions and remainders, negations of earlier conditions in several spellings, now and then a condition "
    "with an effect) or one single condition. Every claim is checked with exact arithmetic on a grid around all constants: constant conditions, "
    "branches claimed unreachable, always or never taken, or to be an else, conditions claimed to have redundant parts, and reordered chains, which must choose the same body. "
    "Non-trivial: at least one claim was checked."
)
ASSUMPTIONS = [
    "claims are tested on up to 2000 assignments each; assignments for which an evaluated condition raises are skipped",
    "real-valued variables are exact rationals, so rounding of floats is outside the property",
    "conditions that apply % or // to quotients or floats are skipped",
]
ENABLE = ["unreachable-elif-else", "condition-always-true-in-elif", "redundant-condition-part-in-elif", "redundant-condition-part-in-elif-reorder",
          "condition-always-false-in-elif", "condition-always-true-or-false", "redundant-condition-part", "redundant-elif", "unreachable-else"]
R6219 = re.compile(r"^'(.*)' can be replaced with '(.*)', because some operands of the '(and|or)' are always (True|False)\.$", re.S)
R6220 = re.compile(r"we suggest this order: '([^']*)' with these possibly simplified test conditions respectively: '(.*)'\.$", re.S)


def prepare():
    lint.preload()


class ChainGen(conds.CondGen):
    def spelled_negation(self, c):
        """A negation of a condition, or something that looks like one."""
        r = self.r.random()
        try:
            n = ast.parse(c, mode="eval").body
        except SyntaxError:
            return f"not ({c})"
        if r < 0.3 and isinstance(n, ast.Compare):
            neg = {ast.Lt: ">=", ast.LtE: ">", ast.Gt: "<=", ast.GtE: "<", ast.Eq: "!=", ast.NotEq: "=="}
            s = ast.unparse(n.left)
            for op, right in zip(n.ops, n.comparators):
                s += f" {neg[type(op)]} {ast.unparse(right)}"
            return s
        if r < 0.6 and isinstance(n, ast.BoolOp):
            other = "or" if isinstance(n.op, ast.And) else "and"
            return f" {other} ".join(self.wrap(self.spelled_negation(ast.unparse(v)), other) for v in n.values)
        if r < 0.7 and isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return ast.unparse(n.operand)
        if r < 0.75 and isinstance(n, ast.BoolOp):
            return f" {'and' if isinstance(n.op, ast.And) else 'or'} ".join(f"not ({ast.unparse(v)})" for v in n.values)
        return f"not ({c})" if self.p(0.5) or not isinstance(n, ast.Name) else f"not {c}"

    def chain_cond(self, earlier):
        r = self.r.random()
        if earlier and r < 0.22:
            return self.spelled_negation(self.ch(earlier))
        if earlier and r < 0.4:
            parts = [self.spelled_negation(self.ch(earlier)) if self.p(0.5) else self.ch(earlier), self.atom()]
            self.r.shuffle(parts)
            return self.join(parts, self.ch(["and", "and", "or"]))
        if r < 0.55:
            return self.cmp_of(self.term(1), self.ch(conds.CMP), self.const())
        if r < 0.68:
            return self.cmp_of(self.var(), self.ch(conds.CMP), self.var())
        if r < 0.76 and self.kinds == ("int",):
            v = self.var()
            return f"{v} % {self.ch(['2', '2', '2', '3'])} {self.ch(['==', '=='] + conds.CMP)} {self.ch(['0', '1', '2', self.var()])}"
        if r < 0.8:
            return f"{self.const()} {self.ch(conds.CMP)} {self.var()} {self.ch(conds.CMP)} {self.const()}"
        if r < 0.83:
            return f"read() {self.ch(conds.CMP)} {self.const()}"
        return self.join([self.cmp_of(self.term(0 if self.p(0.7) else 1), self.ch(conds.CMP), self.operand(0)) for _ in range(self.ch([2, 2, 3]))], self.ch(["and", "and", "or"]))


def generate(rng):
    items = []
    for _ in range(8):
        kinds = rng.choice([("int",), ("int",), ("int",), ("real",), ("free",), ("int", "real")])
        g = ChainGen(rng, kinds=kinds)
        if rng.random() < 0.15:
            cs = [g.cond(1) if rng.random() < 0.5 else g.atom()]
            items.append([rng.choice(["if", "while", "return"]), cs, False])
            continue
        cs = []
        for _ in range(rng.choice([2, 2, 3, 3, 4, 5, 6])):
            c = g.chain_cond(cs)
            if len(c) > 140 or not conds.compiles_cond(c):
                c = g.atom()
            cs.append(c)
        items.append(["chain", cs, rng.random() < 0.6])
    return {"items": items}


def render(case):
    lines, where = [], {}
    for i, (ctx, cs, has_else) in enumerate(case["items"]):
        names = [n for n in conds.names_in(*cs) if n != "read"]
        lines.append(f"def fun{i}({conds.params(names)}):")
        lines += ["    " + l for l in conds.prologue(names)]
        if ctx == "chain":
            for k, c in enumerate(cs):
                head = f"    {'el' if k else ''}if "
                lines.append(head + c + ":")
                where[len(lines)] = (i, k, len(head))
                lines.append(f"        print('body {k}')")
            if has_else:
                lines.append("    else:")
                lines.append("        print('body else')")
                where[len(lines)] = (i, "else", None)
        else:
            head = f"    {ctx} "
            lines.append(head + cs[0] + (":" if ctx != "return" else ""))
            where[len(lines)] = (i, 0, len(head))
            if ctx != "return":
                lines.append("        print('body')")
        lines += ["", ""]
    return "\n".join(lines) + "\n", where


def opaque(cs):
    """Conditions with every call with an effect replaced by a variable of its own."""
    n = 0
    out = []
    for c in cs:
        while "read()" in c:
            n += 1
            c = c.replace("read()", f"r{n}", 1)
        out.append(c)
    return out


def split_commas(text):
    parts, depth, cur = [], 0, ""
    for ch in text:
        if ch in "([{":
            depth += 1
        elif ch in ")]}":
            depth -= 1
        if ch == "," and depth == 0:
            parts.append(cur.strip())
            cur = ""
        else:
            cur += ch
    parts.append(cur.strip())
    return parts


def chosen(funcs, point):
    """Index of the branch a chain takes at a point (None: no condition is true; a string: it raises)."""
    for k, f in enumerate(funcs):
        v = conds.evaluate(f, point)
        if isinstance(v, str):
            return v
        if v:
            return k
    return None


def subexpressions(cond, offset, col, kinds=(ast.BoolOp, ast.Compare)):
    res = []
    for n in ast.walk(ast.parse(cond, mode="eval")):
        if isinstance(n, kinds) and n.col_offset + offset == col:
            res.append(ast.unparse(n))
    return res


def check_problem(p, case, where):
    """(kind of check or None, violation signature and text or None)"""
    code = p["code"]
    if p["line"] not in where:
        return None, (code + ":position", f"{p} is not at a condition")
    i, k, offset = where[p["line"]]
    ctx, cs, has_else = case["items"][i]
    cs = opaque(cs)
    chain_text = f"{code} on line {p['line']}: {p['text']}\nconditions: {cs}" + (" else" if has_else else "")
    if code == "R6222":
        want = "True" in p["text"]
        texts = subexpressions(case["items"][i][1][k], offset, p["column"])
        whys = []
        for t in texts:
            if conds.int_operation_on_fractions(t):
                return "skipped", None
            pt = conds.first_point(t, not want)
            if pt is None:
                return code, None
            whys.append(f"'{t}' is {not want} for {pt}")
        return code, (code + ":false-claim", f"{chain_text}\n{whys or 'no condition at that column'}")
    if ctx != "chain":
        return None, (code + ":position", f"{p} is not at a chain")
    if any(conds.int_operation_on_fractions(c) for c in cs):
        return "skipped", None
    names = conds.names_in(*cs)
    funcs = [conds.compiled(c, names) for c in cs]
    seed_texts = list(cs)
    ints_only = conds.has_int_operation(*cs)
    points = lambda extra=(): conds.grid(names, seed_texts + list(extra), 2000, ints_only)  # noqa
    show = lambda pt: dict(zip(names, [str(v) for v in pt]))  # noqa
    if code in ("R6217", "R6218", "R6221", "R6611", "R6612"):
        m = None
        for pt in points():
            c = chosen(funcs, pt)
            if isinstance(c, str):
                continue
            reached = c is None or (k != "else" and c >= k)
            if code in ("R6217", "R6612") and (k == "else" and c is None or k != "else" and reached):
                m = f"for {show(pt)} it is reached"
            elif code in ("R6218", "R6611") and k != "else" and reached and c != k:
                m = f"for {show(pt)} it is reached and its condition is False"
            elif code == "R6221" and k != "else" and c == k:
                m = f"for {show(pt)} its condition is True when reached"
            if m:
                break
        if code == "R6217" and (("'elif'" in p["text"]) == (k == "else")):
            m = "the wrong kind of branch is named"
        return code, (code + ":false-claim", f"{chain_text}\nbranch {k}: {m}") if m else None
    if code == "R6219":
        m = R6219.match(p["text"])
        if not m or not conds.compiles_cond(m.group(2)) or not conds.compiles_cond(m.group(1)):
            return code, (code + ":format", chain_text)
        a, b = m.group(1), m.group(2)
        if conds.first_difference(a, cs[k]) or conds.first_difference(cs[k], a):
            return code, (code + ":other-condition", f"{chain_text}\n'{a}' is not the condition of branch {k}")
        fb = conds.compiled(b, names)
        for pt in points([b]):
            c = chosen(funcs, pt)
            if isinstance(c, str) or (c is not None and c < k):
                continue
            vb = conds.evaluate(fb, pt)
            if not isinstance(vb, str) and vb is not (c == k):
                return code, (code + ":inequivalent", f"{chain_text}\nbranch {k}: for {show(pt)} the condition is {c == k}, the replacement {vb}")
        return code, None
    if code == "R6220":
        m = R6220.search(p["text"])
        if not m:
            return code, (code + ":format", chain_text)
        order = [int(o.strip().rstrip(".")) - 1 for o in m.group(1).split(",")]
        tests = split_commas(m.group(2))
        if len(order) != len(tests) or len(set(order)) != len(order) or not all(0 <= o < len(cs) + has_else for o in order):
            return code, (code + ":order", f"{chain_text}\n{order} {tests}")
        if any(t != "else block" and not conds.compiles_cond(t) for t in tests) or "else block" in tests[:-1]:
            return code, (code + ":order", f"{chain_text}\n{order} {tests}")
        new = [conds.compiled("True" if t == "else block" else t, names) for t in tests]
        for pt in points([t for t in tests if t != "else block"]):
            c = chosen(funcs, pt)
            if isinstance(c, str):
                continue
            if c is None and has_else:
                c = len(cs)
            d = chosen(new, pt)
            if isinstance(d, str):
                continue
            d = order[d] if d is not None else None
            if c != d:
                return code, (code + ":other-branch", f"{chain_text}\nfor {show(pt)} the original takes branch {c} (counted from 0), the suggested chain {d}")
        return code, None
    return None, None


def run_case(case):
    src, where = render(case)
    res = lint.lint_source(src, ENABLE)
    viol, classes, checked = [], [], 0
    for p in res["problems"] or []:
        if p["code"] == "R6216":
            continue
        if not p["code"].startswith("R62") and p["code"] not in ("R6611", "R6612"):
            if p["code"] not in ("R0124",):
                viol.append((p["code"] + ":unexpected", str(p)))
            continue
        kind, v = check_problem(p, case, where)
        if kind:
            classes.append(kind)
            checked += kind != "skipped"
        if v:
            viol.append((v[0], v[1]))
    return Outcome(viol, checked > 0, classes, max(checked, 1), note=[p["text"] for p in res["problems"] or []][:4])


def shrink(case):
    items = case["items"]
    if len(items) > 1:
        for it in items:
            yield {"items": [it]}
        return
    ctx, cs, has_else = items[0]
    for k in range(len(cs)):
        if len(cs) > 1 and (ctx != "chain" or len(cs) > 2):
            yield {"items": [[ctx, cs[:k] + cs[k + 1:], has_else]]}
    if has_else:
        yield {"items": [[ctx, cs, False]]}
    for k in range(len(cs)):
        for s in c20.smaller_conditions(cs[k]):
            yield {"items": [[ctx, cs[:k] + [s] + cs[k + 1:], has_else]]}
