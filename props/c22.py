"""C22: replacing an if statement or if expression as suggested keeps its result."""
import ast
import copy
import random
import re

from props import c20
from vlib import lint
from vlib.core import Outcome

CASES = {"quick": 1700, "thorough": 60000}
RULE = (
    "A case is a file of eight functions with one if statement or if expression each: branches returning or assigning constants and expressions, with and without "
    "else, in elifs, nested, consecutive, with pass, and tests of every kind of expression (and/or/not, comparisons, if expressions, lambdas, assignment expressions, calls with effects). "
    "The suggested replacement is put into the parsed function and both versions are run on up to 60 assignments of mixed values (numbers, "
    "truth values, strings, lists, None), comparing the truth of the result, the log of effects and the exception. Non-trivial: at least one suggestion was executed."
)
ASSUMPTIONS = ["results are compared by truth, as the property says, because the suggestions leave the conversion to bool to the reader",
               "<negated X> is read as 'not (X)'"]
ENABLE = ["simplifiable-if-return", "simplifiable-if-return-conj", "simplifiable-if-assignment", "simplifiable-if-assignment-conj", "simplifiable-if-expr",
          "simplifiable-if-expr-conj", "simplifiable-if-pass", "simplifiable-if-nested", "simplifiable-if-seq"]
VALUES = [0, 1, 2, -1, 5, True, False, "", "a", [], [0], None, 0.0, 2.5]
VARS = ["a", "b", "c"]


def prepare():
    lint.preload()


class G:
    def __init__(self, rng):
        self.r = rng

    def ch(self, seq):
        return seq[self.r.randrange(len(seq))]

    def p(self, x):
        return self.r.random() < x

    def const(self):
        return self.ch(["0", "1", "2", "''", "'a'", "None", "True", "False", "[]"])

    def atom(self):
        r = self.r.random()
        if r < 0.5:
            return self.ch(VARS)
        if r < 0.6:
            return f"{self.ch('fg')}({self.ch(VARS)})"
        if r < 0.7:
            return "o.val"
        return self.const()

    def expr(self, d=2):
        r = self.r.random()
        if d <= 0 or r < 0.2:
            return self.atom()
        if r < 0.42:
            return f"{self.par(self.expr(d - 1))} {self.ch(['<', '>', '==', '!=', '>=', 'is', 'is not', 'in'])} {self.par(self.expr(0))}"
        if r < 0.6:
            op = self.ch(["and", "or"])
            return f" {op} ".join(self.par(self.expr(d - 1)) for _ in range(self.ch([2, 2, 3])))
        if r < 0.7:
            return f"not {self.par(self.expr(d - 1))}"
        if r < 0.76:
            return f"{self.par(self.expr(d - 1))} if {self.par(self.expr(d - 1))} else {self.par(self.expr(d - 1))}"
        if r < 0.8:
            return f"{self.par(self.expr(0))} {self.ch(['+', '-', '*', '|', '%'])} {self.par(self.expr(0))}"
        if r < 0.84:
            return f"(n := {self.par(self.expr(d - 1))})"
        if r < 0.86:
            return f"lambda: {self.par(self.expr(d - 1))}"
        if r < 0.9:
            return f"{self.ch('fg')}({self.expr(d - 1)})"
        if r < 0.92:
            return f"[{self.expr(0)} for k in (1, 2) if {self.expr(0)}]"
        if r < 0.94:
            return f"({self.expr(0)}, {self.expr(0)})"
        if r < 0.96:
            return f"{self.expr(0)} {self.ch(['<', '>'])} {self.expr(0)} {self.ch(['<', '>='])} {self.expr(0)}"
        return f"bool({self.expr(d - 1)})"

    def par(self, e):
        try:
            n = ast.parse(e, mode="eval").body
        except SyntaxError:
            return f"({e})"
        if isinstance(n, (ast.Name, ast.Call, ast.Attribute, ast.Constant, ast.List)) or e.startswith("(") and e.endswith(")") and isinstance(n, (ast.NamedExpr, ast.Tuple)):
            return e
        if isinstance(n, ast.Compare) and self.p(0.6) and " in " not in e:
            return e if self.p(0.3) else f"({e})"
        return f"({e})"

    def test(self):
        e = self.expr(self.ch([1, 1, 2, 3]))
        # an assignment expression needs no brackets as a test
        if e.startswith("(n := ") and e.endswith(")") and self.p(0.5):
            try:
                ast.parse(f"if {e[1:-1]}: pass")
                return e[1:-1]
            except SyntaxError:
                pass
        return e

    def value(self, boolish=0.6):
        return self.ch(["True", "False"]) if self.p(boolish) else self.expr(self.ch([0, 1, 1, 2]))

    def two_values(self):
        a, b = self.value(), self.value()
        if self.p(0.7) and a not in ("True", "False") and b not in ("True", "False"):
            a = self.ch(["True", "False"])
        return a, b

    def effect(self):
        return self.ch(["f(1)", "g(a)", "c = 5", "o.val = 7", "b = g(b)"])

    def function(self):
        k = self.r.randrange(12)
        t = self.test()
        v1, v2 = self.two_values()
        pre = ["n = 3"]
        if self.p(0.3):
            pre.append(self.effect())
        if k in (0, 1):
            body = [f"if {t}:", f"    return {v1}", "else:", f"    return {v2}"]
        elif k == 2:
            body = [f"if {t}:", f"    return {v1}", f"return {v2}"]
        elif k == 3:
            tgt = self.ch(["res", "res", "o.val", "res: bool", "a"])
            if ":" in tgt and self.p(0.3):
                body = [f"if {t}:", f"    {tgt} = {v1}", "else:", f"    res = {v2}"]
            else:
                body = [f"if {t}:", f"    {tgt} = {v1}", "else:", f"    {tgt} = {v2}"]
            body.append(f"return {tgt.split(':')[0]}")
        elif k == 4:
            body = [f"if {t}:", "    pass", "else:", f"    {self.effect()}", f"    return {v1}", f"return {v2}"]
            if self.p(0.3):
                body = [f"if {t}:", "    pass", f"elif {self.test()}:", f"    {self.effect()}", f"return {v1}"]
        elif k == 5:
            body = [f"if {t}:", f"    if {self.test()}:", f"        {self.effect()}", f"        return {v1}", f"return {v2}"]
            if self.p(0.3):
                body = [f"if {self.expr(1)}:", f"    {self.effect()}", f"elif {t}:", f"    if {self.test()}:", f"        return {v1}", f"return {v2}"]
        elif k == 6:
            ret = self.ch([f"return {v1}", f"return {v1}", "return"])
            body = [f"if {t}:", f"    {ret}", f"if {self.test()}:", f"    {ret}", f"return {v2}"]
            if self.p(0.2):
                body.insert(2, self.effect())
        elif k == 7:
            s1, s2 = (v if v in ("True", "False") or v.isidentifier() else self.ch(["a", "b", "True", "n"]) for v in (v1, v2))
            e = f"{s1} if {self.par(t)} else {s2}"
            body = [self.ch([f"return {e}", f"return ({e})", f"res = {e}"])]
            if body[0].startswith("res"):
                body.append("return res")
        elif k == 8:
            body = [f"if {self.test()}:", f"    {self.effect()}", f"elif {t}:", f"    return {v1}", "else:", f"    return {v2}", "return 4"]
        elif k == 9:
            body = [f"if {t}:", f"    {self.effect()}", f"    return {v1}", f"return {v2}"]
            if self.p(0.5):
                body = [f"if {self.test()}:", f"    return {v1}", f"if {t}:", f"    return {v1}", f"return {v2}"]
        elif k == 10:
            body = ["for n in (1, 2):", f"    if {t}:", f"        return {v1}", f"    return {v2}"] if self.p(0.5) else ["while f(n):", f"    if {t}:", f"        a = {v1}", "    else:", f"        a = {v2}", "    break", "return a"]
        else:
            body = [f"if {t}:", f"    res = {v1}", "else:", f"    if {self.test()}:", f"        res = {v2}", "    else:", f"        res = {self.value()}", "return res"]
        return pre + body


class Flatten(ast.NodeTransformer):
    """(a or b) or c and a or b or c are the same."""

    def visit_BoolOp(self, node):
        self.generic_visit(node)
        values = []
        for v in node.values:
            values += v.values if isinstance(v, ast.BoolOp) and type(v.op) is type(node.op) else [v]
        node.values = values
        return node


def printable(fn_text):
    """Whether the parser library prints every expression of the function as itself.

    It leaves out the brackets of comparisons and assignment expressions that are operands of others."""
    import astroid

    tree = astroid.parse(fn_text)
    for node in tree.body[0].nodes_of_class((astroid.nodes.If, astroid.nodes.IfExp, astroid.nodes.Return, astroid.nodes.Assign, astroid.nodes.AnnAssign, astroid.nodes.While)):
        for e in node.get_children():
            if e is None or e.is_statement or isinstance(e, (astroid.nodes.AssignName, astroid.nodes.AssignAttr)):
                continue
            if isinstance(e, astroid.nodes.NamedExpr):
                e = e.value
            src = ast.parse("(" + "\n".join(fn_text.split("\n")[e.lineno - 1:e.end_lineno])[e.col_offset:e.end_col_offset] + ")", mode="eval") if e.lineno == e.end_lineno else None
            if src is None:
                return False
            try:
                printed = ast.parse(e.as_string(), mode="eval")
            except SyntaxError:
                return False
            if ast.dump(Flatten().visit(src)) != ast.dump(Flatten().visit(printed)):
                return False
    return True


def generate(rng):
    funcs = []
    while len(funcs) < 8:
        f = G(rng).function()
        text = "def f(a, b, c, o, f, g):\n" + "\n".join("    " + l for l in f)
        try:
            compile(text, "<c22>", "exec")
        except SyntaxError:
            continue
        if not printable(text):
            continue
        funcs.append(f)
    return {"funcs": funcs}


def fixed_cases():
    return [{"funcs": [["if (a > b) == c:", "    return True", "return False"]], "finding": "C22-printing"},
            {"funcs": [["if a:", "    if (n := b) > 1:", "        return 1", "return 2"]], "finding": "C22-printing"}]


def known_match(finding, case, sig, text):
    return case.get("finding") == finding["id"]


def render(case):
    lines, start = [], {}
    for i, f in enumerate(case["funcs"]):
        lines.append(f"def fun{i}(a, b, c, o, f, g):")
        start[i] = len(lines)
        lines += ["    " + l for l in f]
        lines += ["", ""]
    return "\n".join(lines) + "\n", start


def understand(text, test):
    """An expression for a suggestion with <negated X> in it."""
    if "<negated " not in text:
        return text
    start = text.index("<negated ") + len("<negated ")
    candidates = []
    for end in range(start, len(text)):
        if text[end] != ">":
            continue
        inner, rest = text[start:end], text[end + 1:]
        if rest and not (rest.startswith(" and ") or rest.startswith(" or ")):
            continue
        try:
            got = ast.parse(inner.strip(), mode="eval").body
            ast.parse(f"not (0){rest}", mode="eval")
        except SyntaxError:
            continue
        candidates.append((ast.dump(got) == ast.dump(test), f"{text[:start - len('<negated ')]}not ({inner}){rest}"))
    candidates.sort(key=lambda t: not t[0])
    return candidates[0][1] if candidates else None


def parse_expr(text):
    try:
        return ast.parse(text.strip(), mode="eval").body
    except SyntaxError:
        return None


def replace_statements(tree, node, new, drop_next=False):
    """Copy of the tree with the statement (and the next one) replaced by the given statements."""
    for parent in ast.walk(tree):
        for field, val in ast.iter_fields(parent):
            if isinstance(val, list) and any(v is node for v in val):
                k = next(i for i, v in enumerate(val) if v is node)
                old = list(val)
                val[k:k + (2 if drop_next else 1)] = new
                res = copy.deepcopy(tree)
                setattr(parent, field, old)
                val[:] = old
                return res
    return None


def next_sibling(tree, node):
    for parent in ast.walk(tree):
        for _, val in ast.iter_fields(parent):
            if isinstance(val, list) and any(v is node for v in val):
                k = next(i for i, v in enumerate(val) if v is node)
                return val[k + 1] if k + 1 < len(val) else None
    return None


class Obj:
    def __init__(self, val):
        self.val = val


def run(code, args, seed):
    log = []

    def recorder(name):
        def fn(x=None):
            log.append((name, repr(x)))
            return VALUES[random.Random(f"{seed}{name}{x!r}{len(log)}").randrange(len(VALUES))]
        return fn

    env = {"bool": bool}
    exec(code, {"__builtins__": {"bool": bool}}, env)
    fun = next(v for k, v in env.items() if k.startswith("fun"))
    o = Obj(args[3])
    try:
        out = ("value", bool(fun(*copy.deepcopy(args[:3]), o, recorder("f"), recorder("g"))))
    except Exception as e:  # noqa
        out = ("exception", type(e).__name__)
    val = o.val
    return out, log[:50], repr(val) if not isinstance(val, (bool, int, float, str, list, tuple, type(None))) and not callable(val) else bool(val)


def differ(old, new, seed):
    old, new = (compile(ast.fix_missing_locations(ast.Module([t], [])), "<c22>", "exec") for t in (old, new))
    rng = random.Random(seed)
    for k in range(60):
        args = [VALUES[rng.randrange(len(VALUES))] for _ in range(4)] if k else [1, 2, 3, 4]
        if k % 3 == 1:
            args = [rng.randint(-1, 2) for _ in range(4)]
        a, b = run(old, args, k), run(new, args, k)
        if a != b:
            return f"for (a, b, c, o.val) = {args} the original gives {a}, the rewritten code {b}"
    return None


def rewrite(p, fn, line):
    """(rewritten function, None) or (None, why not)"""
    code, text = p["code"], p["text"]
    ifs = [n for n in ast.walk(fn) if isinstance(n, ast.If) and n.lineno == line]
    if code in ("R6204", "R6209"):
        m = re.fullmatch(r"The if expression can be replaced with '(.*)'", text, re.S)
        exps = [n for n in ast.walk(fn) if isinstance(n, ast.IfExp) and (n.lineno, n.col_offset) == (line, p["column"])]
        if p["end_column"] is not None and len(exps) > 1:
            exps = [n for n in exps if n.end_col_offset == p["end_column"]] or exps
        if not m or not exps:
            return None, "no if expression there"
        node = exps[0]
        new = understand(m.group(1), node.test)
        new = new and parse_expr(new)
        if new is None:
            return None, "not an expression"
        # the expression alone: what surrounds it may look at more than its truth
        alone = copy.deepcopy(fn)
        alone.body = ast.parse("n = 3\nk = 2\nres = 1").body + [ast.Return(copy.deepcopy(node))]
        changed = copy.deepcopy(alone)
        changed.body[-1] = ast.Return(new)
        return (alone, changed), None
    if not ifs:
        return None, "no if statement there"
    node = ifs[0]
    if code in ("R6201", "R6202"):
        m = re.fullmatch(r"The if statement can be replaced with 'return (.*)'", text, re.S)
        new = m and understand(m.group(1), node.test)
        new = new and parse_expr(new)
        if not new:
            return None, "not an expression"
        return replace_statements(fn, node, [ast.Return(new)], drop_next=not node.orelse), None
    if code in ("R6203", "R6210"):
        m = re.fullmatch(r"The conditional assignment can be replaced with '(\S+) = (.*)'", text, re.S)
        new = m and understand(m.group(2), node.test)
        new = new and parse_expr(new)
        target = m and parse_expr(m.group(1))
        if not new or not isinstance(target, (ast.Name, ast.Attribute)):
            return None, "not an assignment"
        target.ctx = ast.Store()
        return replace_statements(fn, node, [ast.Assign([target], new, lineno=1)]), None
    if code == "R6205":
        m = re.fullmatch(r"Use 'if (.*): <else body>' instead of 'pass'", text, re.S)
        new = m and understand(m.group(1), node.test)
        new = new and parse_expr(new)
        if not new:
            return None, "not an expression"
        return replace_statements(fn, node, [ast.If(new, node.orelse, [])]), None
    if code in ("R6207", "R6208"):
        word = "nested" if code == "R6207" else "following"
        m = re.fullmatch(rf"The if statement can be merged with the {word} one to 'if (.*):'", text, re.S)
        new = m and parse_expr(m.group(1))
        if not new:
            return None, "not an expression"
        if code == "R6207":
            if len(node.body) != 1 or not isinstance(node.body[0], ast.If) or node.orelse or node.body[0].orelse:
                return None, "no nested if to merge with"
            return replace_statements(fn, node, [ast.If(new, node.body[0].body, [])]), None
        nxt = next_sibling(fn, node)
        if not isinstance(nxt, ast.If) or node.orelse or nxt.orelse or ast.dump(ast.Module(node.body, [])) != ast.dump(ast.Module(nxt.body, [])):
            return None, "no following if to merge with"
        return replace_statements(fn, node, [ast.If(new, node.body, [])], drop_next=True), None
    return None, None


def run_case(case):
    src, start = render(case)
    res = lint.lint_source(src, ENABLE)
    viol, classes, checked = [], [], 0
    for p in res["problems"] or []:
        if p["code"] not in ("R6201", "R6202", "R6203", "R6204", "R6205", "R6207", "R6208", "R6209", "R6210"):
            continue
        i = max(k for k, s in start.items() if s < p["line"])
        # a fresh tree for every suggestion: rewriting works on it in place
        tree = ast.parse(src)
        fn = next(n for n in tree.body if n.name == f"fun{i}")
        old = copy.deepcopy(fn)
        tell = f"{p['code']} on line {p['line']}: {p['text']}\n--- source\n{ast.unparse(fn)}"
        new, why = rewrite(p, fn, p["line"])
        if why is not None:
            viol.append((p["code"] + ":" + why.replace(" ", "-"), f"{tell}\n{why}"))
            continue
        if new is None:
            continue
        if isinstance(new, tuple):
            old, new = new
        checked += 1
        classes.append(p["code"])
        try:
            compile(ast.fix_missing_locations(ast.Module([new], [])), "<c22>", "exec")
        except (SyntaxError, ValueError) as e:
            viol.append((p["code"] + ":invalid", f"{tell}\nthe rewritten code is invalid: {e}"))
            continue
        d = differ(old, new, p["text"])
        if d:
            viol.append((p["code"] + ":differs", f"{tell}\n--- rewritten\n{ast.unparse(new)}\n{d}"))
    return Outcome(viol, checked > 0, classes, max(checked, 1), note=[p["text"] for p in res["problems"] or []][:4])


def shrink(case):
    funcs = case["funcs"]
    if len(funcs) > 1:
        for f in funcs:
            yield {"funcs": [f]}
        return
    f = funcs[0]
    for k in range(len(f)):
        g = f[:k] + f[k + 1:]
        if valid(g):
            yield {"funcs": [g]}
    for k, line in enumerate(f):
        m = re.match(r"(\s*(?:if |elif |return |res = |a = ))(.*?)(:?)$", line)
        if not m:
            continue
        for s in c20.smaller_conditions(m.group(2)):
            g = f[:k] + [m.group(1) + s + m.group(3)] + f[k + 1:]
            if valid(g):
                yield {"funcs": [g]}


def valid(g):
    try:
        compile("def f(a, b, c, o, f, g):\n" + "\n".join("    " + l for l in g), "<c22>", "exec")
    except SyntaxError:
        return False
    return printable("def f(a, b, c, o, f, g):\n" + "\n".join("    " + l for l in g))
