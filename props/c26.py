"""C26: suggested local rewrites compute the same value."""
import ast
import copy
import random
import re

from vlib import lint
from vlib.core import Outcome

CASES = {"quick": 1300, "thorough": 60000}
RULE = (
    "A case is a file of twelve functions with one statement each, around the patterns of the checks that suggest an equivalent expression or statement: extending by one element, repeated addition and "
    "multiplication, arithmetic with 0 and 1 or with equal operands, assignments repeating their target, comparisons with True and False by is, numbers of characters beside ord, and membership in ranges, with "
    "operands of every kind of expression, now and then with effects, and constants of every sign. The statement is rewritten as the message says, in the "
    "text of the source, and both versions run on up to 40 assignments of integers, floats, strings or lists as the construct wants, comparing result, variables, log of effects and exception. "
    "Non-trivial: at least one suggestion was executed."
)
ASSUMPTIONS = [
    "augmented assignments are run with numbers and strings, append with lists, redundant arithmetic with integers other than 0 where it divides, is True with truth values",
    "a message on redundant arithmetic names no replacement: it is taken to say that the value is that of one operand, its opposite, 0, 1 or the empty string",
    "evaluating an attribute has no effect, and evaluating a name that the function assigns has none on others",
    "letters are suggested for comparisons of plain calls of ord",
]
ENABLE = ["use-append", "no-repeated-op", "redundant-arithmetic", "use-augmented-assign", "no-is-bool", "use-ord-letter", "use-literal-letter", "in-range-instead-of-compare-small",
          "in-range-instead-of-compare", "in-range-instead-of-compare-step"]
INTS = ["x", "y", "z"]


def prepare():
    lint.preload()


class G:
    def __init__(self, rng):
        self.r = rng

    def ch(self, seq):
        return seq[self.r.randrange(len(seq))]

    def p(self, x):
        return self.r.random() < x

    def par(self, e, always=0.15):
        simple = re.fullmatch(r"[\w.]+|[\w.]+\([^()]*\)|[\w.]+\[[^\[\]]*\]", e)
        return e if simple and not self.p(always) else f"({e})"

    def num(self, d=2):
        r = self.r.random()
        if d <= 0 or r < 0.4:
            return self.ch(INTS + ["o.val", "lst[0]"])
        if r < 0.5:
            return str(self.ch([0, 1, 2, 3, -1, 7, 10]))
        if r < 0.7:
            return f"{self.par(self.num(d - 1))} {self.ch(['+', '-', '*', '+', '*', '//', '%'])} {self.par(self.num(d - 1))}"
        if r < 0.72:
            return f"{self.par(self.num(d - 1))} {self.ch(['** 2', '** 0', '** 1', '<< 2'])}"
        if r < 0.78:
            return f"-{self.par(self.num(d - 1))}"
        if r < 0.84:
            return f"f({self.num(d - 1)})"
        if r < 0.88:
            return f"{self.par(self.num(d - 1))} if {self.ch(INTS)} > 1 else {self.par(self.num(d - 1))}"
        if r < 0.91:
            return f"{self.par(self.num(d - 1))} {self.ch(['and', 'or'])} {self.par(self.num(d - 1))}"
        if r < 0.94:
            return f"{self.par(self.num(d - 1))} {self.ch(['|', '&', '^'])} {self.par(self.num(0))}"
        return self.ch(["len(lst)", "int(s)", "f(x)", "o.get(1)", "abs(x)", "next(it)"])

    # ---------------------------------------------------------------- statements
    def append(self):
        lst = self.ch(["lst", "lst", "o.vals", "mat[0]", "mat[f(0)]", "(lst or o.vals)", "(lst if x else o.vals)", "o.get_vals()", "(lst)", "(w := lst)", "mat[x % 2]"])
        e = self.ch([self.num(2), self.num(1), "*lst", "x, y", "(x, y)", "[x]", "lambda: x", "(w := x)", "*mat[0]", "'a'", "not x", "x if y else z", "f(lst)", "x for x in (1, 2)", "[*lst]"])
        if self.p(0.5) or not re.match(r"[a-z]", lst):
            return [f"{lst}.extend([{e}])"] if self.p(0.9) else [f"r = {lst}.extend([{e}])"]
        if lst == "o.get_vals()":
            lst = "lst"
        return [f"{lst} += [{e}]"]

    def repeated(self):
        a = self.ch(INTS + ["o.val", "lst[0]", "lst[x]", "o.vals[y]", "mat[0][1]", "o.next_val", "lst[f(0)]"])
        op = self.ch("+*+*-")
        parts = [a] * self.ch([2, 2, 3, 4])
        if self.p(0.4):
            parts[self.r.randrange(len(parts))] = self.ch(INTS + ["o.val", "2", "-" + a, "(x)", "f(x)"])
        s = parts[0]
        for q in parts[1:]:
            s = f"{s} {op if self.p(0.95) else self.ch('+-*')} {q}" if self.p(0.7) else f"{q} {op} ({s})"
        return [f"r = {s}"] if self.p(0.7) else [f"r = {self.ch(['1 + ', '2 * ', 'y - ', ''])}({s})"]

    def redundant(self):
        a = self.num(1)
        op = self.ch(["+", "-", "*", "/", "//", "%", "**"])
        if op == "**":
            return [f"r = {self.par(a, 0.1)} ** {self.ch(['0', '1', '2', '1 - 1', 'True', '0.0', '1.0'])}"]
        if self.p(0.3):
            return [f"{self.ch(['x', 'y', 'o.val', 'lst[0]', 'lst[f(0)]'])} {op}= {self.ch(['0', '1', '2', 'x', 'y', 'o.val', '-1', '1 - 1', '0.0', 'lst[0]'])}"]
        if self.p(0.35):
            b = self.ch([a, a, f"({a})", self.num(0)])
        else:
            b = self.ch(["0", "1", "2", "-1", "1 - 1", "1.0", "True", "False", "0.0", "''", "2 - 1"])
        l = [a, b]
        if self.p(0.4):
            l.reverse()
        if "''" in l and self.p(0.7):
            l[l.index("''") - 1] = self.ch(["s", "s + s", "f(s)", "t"])
            op = "+"
        return [f"r = {self.par(l[0], 0.1)} {op} {self.par(l[1], 0.1)}"]

    def augmented(self):
        t = self.ch(["x", "y", "q", "t", "x", "b", "o.val", "lst[0]", "tup"])
        op = self.ch(["+", "-", "*", "/", "//", "%", "**", "|", "&", "^", "<<", ">>"]) if t not in ("t", "tup") else self.ch(["+", "+", "*"])
        e = {"t": self.ch(["s", "'a'", "s + t", "str(x)", "f(s)", "'a' if x else s", "2"]), "tup": self.ch(["(1,)", "(x, y)", "2"]), "b": self.ch(["x > 1", "b", "x == y or b", "True"])}.get(t, self.num(2))
        if op == "*" and t in ("t", "tup"):
            e = "2"
        e = self.par(e, 0.1)
        if op in ("**", "<<", ">>"):
            e = self.ch(["2", "3", "(1 + 1)", "(2 if x else 3)", "abs(y)"])
        if t not in ("t", "tup", "b") and self.p(0.05):
            e = self.ch(["(w := 3)", "(w := y)", "(x := 3)"])
        s = f"{t} {op} {e}" if self.p(0.6) or op in ("**", "<<", ">>") else f"{e} {op} {t}"
        if self.p(0.15):
            s = f"{t} {op} {self.par(self.num(1))} {self.ch(['+', '-', '*'])} {self.par(self.num(1))}"
        r = self.r.random()
        if r < 0.85:
            return [f"{t} = {s}"]
        if r < 0.9:
            return [f"{t}: int = {s}"]
        return [f"{t} = r = {s}"] if r < 0.96 else [f"r = {t} = {s}"]

    def boolean(self, d=1):
        return self.ch(["b", "c", "not b", "b and c", "b or c", "x > 1", "x == y", "(b)", "f(b)", "o.flag", "b if c else x > 0", "b is c", "x in lst", "lst == []", "bool(x)", "not (b and c)", "(w := b)", "b == c", "True", "x < y < z",
                        "f(b) and c", "all([b])", "(lambda: b)()", "(b, c)[0]", "(b and c) is True", "b or c or x > 1"])

    def is_bool(self):
        e = self.par(self.boolean(), 0.1)
        s = f"{e} {self.ch(['is', 'is not'])} {self.ch(['True', 'False'])}"
        if self.p(0.1):
            s = f"{self.ch(['b', 'c'])} {self.ch(['is', '==', '!='])} {s}"
        if self.p(0.05):
            s += f" {self.ch(['is', 'is not'])} {self.ch(['True', 'False', 'b'])}"
        if self.p(0.3):
            s = self.ch([f"{s} and c", f"not {s}", f"c or {s}", f"[{s}]", f"f({s})"])
        return [f"r = {s}"]

    def code(self):
        base = self.ch([97, 122, 65, 90, 48, 57])
        return self.ch([base, base, base + 1, base - 1, base + self.r.randint(-3, 3), self.r.randint(28, 130), 39, 92, 34])

    def ord_letter(self):
        o = self.ch(["ord(s)", "ord(s)", "ord(lst2[0])", "(ord(s) + y)", "ord(s) - x", "(ord(s) - ord(u))", "ord(s) + ord(u)"])
        c = self.ch([str(self.code()), str(self.code()), f"({self.code()})", f"{self.code() - 1} + 1", f"-{self.code()}"])
        op = self.ch("+-+-*")
        s = f"{o} {op} {c}" if self.p(0.7) else f"{c} {op} {o}"
        if self.p(0.3):
            s = self.ch([f"({s}) * 2", f"2 - ({s})", f"chr({s})", f"{s} + 3", f"{s} - {self.code()}", f"({s}) % 26"])
        return [f"r = {s}"]

    def literal_letter(self):
        cmp = ["<", "<=", ">", ">=", "==", "!="]
        o = self.ch(["ord(s)", "ord(s)", "ord(s[0])", "ord(u)", "ord(s.lower())"])
        r = self.r.random()
        c = str(self.code())
        if r < 0.45:
            s = f"{o} {self.ch(cmp)} {c}"
        elif r < 0.7:
            s = f"{c} {self.ch(cmp)} {o}"
        elif r < 0.9:
            s = f"{self.code()} {self.ch(cmp[:4])} {o} {self.ch(cmp[:4])} {self.code()}"
        else:
            s = self.ch([f"{o} {self.ch(cmp)} ord('a')", f"{o} < x < {c}", f"{c} <= x < {o}", f"x < {o} < {c}", f"{o} <= ord(u) < {c}", f"{c} < x"])
        if self.p(0.2):
            s = self.ch([f"not {s}", f"{s} and x > 1", f"{s} or {o} == {self.code()}"])
        return [f"r = {s}"]

    def in_range(self):
        v = self.ch(["x", "x", "y", "len(lst)", "x", "f(x)", "int(s2)", "abs(x)", "int(next(it))", "int(input())", "lst[0]", "ord(s)", "len(f(lst))"])
        def bound():
            r = self.r.random()
            if r < 0.55:
                return str(self.r.randint(-6, 12))
            if r < 0.7:
                return self.ch(["y", "z", "len(lst)"])
            if r < 0.85:
                return f"{self.ch(['y', 'y', 'z'])} {self.ch('+-')} {self.ch(['0', '1', '2', '3', '4', '5', '7', '-1', 'z', '1 + 1'])}"
            return self.ch(["2 + y", "-y", "y if z > 1 else z", "y or 3", "y * 2", "f(y)", "y > 2", "3 - 1", "not y", "y and z", "True", "abs(y)", "y - 1 - 1", "(w := 3)", "1 - y", "-3 + 1"])
        a, b = bound(), bound()
        if self.p(0.25) and " " not in a and a.isidentifier():
            b = f"{a} {self.ch('+-')} {self.r.randint(0, 6)}"
        step = self.ch(["1", "1", "2", "3", "-1", "-2", "5", "4", "-3", "1 + 1", "y", "0", "-1", "7", "2 * 2"])
        args = self.ch([b, f"{a}, {b}", f"{a}, {b}", f"{a}, {b}, {step}", f"{a}, {b}, {step}"])
        s = f"{v} {self.ch(['in', 'in', 'not in'])} range({args})"
        if self.p(0.2):
            s = self.ch([f"not {s}", f"{s} and y > 1", f"{s} == b", f"f({s})"])
        return [f"r = {s}"]

    def function(self):
        k = self.ch(["append", "repeated", "redundant", "augmented", "augmented", "is_bool", "ord_letter", "literal_letter", "in_range", "in_range"])
        body = getattr(self, k)()
        if self.p(0.1):
            body = [f"if {self.ch(['x', 'y > 1', 'not x'])}:"] + ["    " + l for l in body]
        elif self.p(0.08):
            body = [f"for {self.ch(['k', 'x', 'y'])} in range(3):"] + ["    " + l for l in body]
        return [k] + body


PARAMS = "o, f, it, mat, u"
PRO = ["x = int(input())", "y = int(input())", "z = int(input())", "q = float(input())", "s = input()", "s2 = input()", "t = str(input())", "lst = [x, y, 3]", "lst2 = [s, s]", "b = x > y", "c = y == 3", "tup = (x, y)", "r = None", "w = None"]
EPI = ["return r, x, y, z, q, s, t, lst, lst2, b, c, tup, w, mat"]


def function(name, body):
    return [f"def {name}({PARAMS}):"] + ["    " + l for l in PRO + body + EPI]


def parses(body):
    try:
        compile("\n".join(function("fun", body)), "<c26>", "exec")
        return True
    except (SyntaxError, ValueError, OverflowError):
        return False


def generate(rng):
    funcs = []
    while len(funcs) < 12:
        f = G(rng).function()
        if parses(f[1:]):
            funcs.append(f)
    return {"funcs": funcs}


def render(case):
    lines, start = [], {}
    for i, f in enumerate(case["funcs"]):
        start[i] = len(lines) + 1
        lines += function(f"fun{i}", f[1:]) + ["", ""]
    return "\n".join(lines) + "\n", start


# ------------------------------------------------------------------- rewriting


def cut(src_lines, first, node_or_span, new):
    """Function text with a span replaced."""
    l1, c1, l2, c2 = node_or_span
    if l1 != l2:
        return None
    line = src_lines[l1 - 1].encode()
    new_lines = list(src_lines)
    new_lines[l1 - 1] = (line[:c1] + new.encode() + line[c2:]).decode()
    return new_lines


def span(n):
    return n.lineno, n.col_offset, n.end_lineno, n.end_col_offset


def at(tree, p, kinds):
    res = [n for n in ast.walk(tree) if isinstance(n, kinds) and (n.lineno, n.col_offset) == (p["line"], p["column"])]
    if p["end_column"] is not None:
        res = [n for n in res if (n.end_lineno, n.end_col_offset) == (p["end_line"], p["end_column"])] or res
    return res


def unquoted(text):
    m = re.fullmatch(r"Consider replacing '(.*)' with '(.*)'", text, re.S)
    return m and (m.group(1), m.group(2))


def is_ord(n):
    return isinstance(n, ast.Call) and ast.unparse(n.func) == "ord" and len(n.args) == 1


def rewrites(p, tree, lines):
    """List of (label, new text lines, kinds of values); None if the message does not fit the code; [] if it is nothing to execute."""
    code, text = p["code"], p["text"]
    if code == "R6601":
        m = re.fullmatch(r"Use (.*) instead of (.*)\.", text, re.S)
        nodes = at(tree, p, (ast.Call, ast.AugAssign))
        if not m or not nodes:
            return None
        # the suggestion ends where it is followed by the original code
        node = nodes[0]
        for k in [i.start() for i in re.finditer(" instead of ", text)]:
            new = text[len("Use "):k]
            try:
                a = ast.parse(text[k + len(" instead of "):-1]).body[0]
            except (SyntaxError, IndexError):
                continue
            a = a.value if isinstance(a, ast.Expr) else a
            if ast.dump(a) == ast.dump(node):
                return [("append", cut(lines, 0, span(node), new), "list")]
        new = m.group(1)
        return [("append", cut(lines, 0, span(node), new), "list")]
    if code == "R6607":
        nodes = [n for n in at(tree, p, ast.BinOp)]
        if not nodes:
            return None
        n = nodes[0]
        leaves = []

        def flatten(k):
            if isinstance(k, ast.BinOp) and type(k.op) is type(n.op):
                flatten(k.left)
                flatten(k.right)
            else:
                leaves.append(k)
        flatten(n)
        e = ast.unparse(leaves[0])
        same = {ast.dump(k) for k in leaves}
        if not isinstance(n.op, (ast.Add, ast.Mult)) or len(same) > 1:
            return [("not-repeated", None, f"the operands {[ast.unparse(k) for k in leaves]} are not one repeated")]
        new = f"(({e}) {'*' if isinstance(n.op, ast.Add) else '**'} {len(leaves)})"
        return [("repeated", cut(lines, 0, span(n), new), "int")]
    if code == "R6608":
        nodes = at(tree, p, (ast.BinOp, ast.AugAssign))
        if not nodes:
            return None
        n = nodes[0]
        if isinstance(n, ast.AugAssign):
            tgt = ast.unparse(n.target)
            cands = ["pass", tgt, f"{tgt} = 0", f"{tgt} = 1", f"{tgt} = ''"]
            val = n.value
        else:
            a, b = ast.unparse(n.left), ast.unparse(n.right)
            cands = [f"({a})", f"({b})", f"(({a}), 0)[1]", f"(({b}), 0)[1]", f"(({a}), 1)[1]", "0", "1", f"(-({b}))", "''", "()"]
            val = n.right
        divides = isinstance(n.op, (ast.Div, ast.FloorDiv, ast.Mod))
        return [("redundant", [cut(lines, 0, span(n), c) for c in cands], "nonzero" if divides else "int")]
    if code == "R6609":
        m = re.fullmatch(r"Use augmented assignment: '(.*)'", text, re.S)
        nodes = at(tree, p, (ast.Assign, ast.AnnAssign))
        if not m or not nodes:
            return None
        return [("augmented", cut(lines, 0, span(nodes[0]), m.group(1)), "num")]
    if code == "R6613":
        m = re.fullmatch(r"Use '(.*)' directly rather than as '(.*)'\.", text, re.S)
        nodes = at(tree, p, ast.Compare)
        if not m or not nodes:
            return None
        n = nodes[0]
        if len(n.ops) > 1:
            return []
        return [("is-bool", cut(lines, 0, span(n), f"({m.group(1)})"), "bool")]
    if code == "R6614":
        m = re.fullmatch(r'Use "(.*)" instead of using the magical constant (\d+)\.', text, re.S)
        nodes = [n for n in at(tree, p, ast.expr) if (n.end_lineno, n.end_col_offset) == (p["end_line"], p["end_column"])]
        if not m or not nodes:
            return None
        return [("ord-letter", cut(lines, 0, span(nodes[0]), m.group(1)), "int")]
    if code in ("R6617", "R6618", "R6619"):
        q = unquoted(text)
        nodes = at(tree, p, ast.Compare)
        if not q or not nodes:
            return None
        return [("range", cut(lines, 0, span(nodes[0]), f"({q[1]})"), "int")]
    return []


def letters(problems, tree, lines):
    """R6615 messages of one line: every comparison with the calls of ord removed and the numbers replaced."""
    res = []
    for n in [n for n in ast.walk(tree) if isinstance(n, ast.Compare)]:
        ops = [n.left] + n.comparators
        mine = [p for p in problems if any((k.lineno, k.col_offset, k.end_col_offset) == (p["line"], p["column"], p["end_column"]) for k in (ops[0], ops[-1]))]
        if not mine:
            continue
        words = [ast.get_source_segment("\n".join(lines), k) for k in ops]
        symbols = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.In: "in"}
        syms = [symbols.get(type(o), "?") for o in n.ops]
        done = set()
        for p in mine:
            m = re.fullmatch(r"Remove the call to 'ord' and compare to the string directly \"(.*)\" instead of using the magical constant (\d+)\. Careful, this may require changing the comparison operator\.", p["text"], re.S)
            if not m:
                res.append((p, None, None))
                continue
            i = 0 if (ops[0].col_offset, ops[0].end_col_offset) == (p["column"], p["end_column"]) else len(ops) - 1
            s = m.group(1)
            if i == 0:
                words[0], syms[0] = s.rsplit(" ", 1)
            else:
                syms[-1], words[-1] = s.split(" ", 1)
            done.add(i)
            neighbour = ops[1] if i == 0 else ops[-2]
            if not is_ord(neighbour) and not any(is_ord(k) for k in ast.walk(neighbour)):
                res.append((p, None, "the number is not compared with a call of ord"))
        if any(not is_ord(k) and i not in done for i, k in enumerate(ops)):
            continue
        for i, k in enumerate(ops):
            if i not in done:
                words[i] = ast.unparse(k.args[0])
        text = words[0] + "".join(f" {o} {w}" for o, w in zip(syms, words[1:]))
        res.append((mine[0], cut(lines, 0, span(n), text), "letter"))
    return res


class Obj:
    def __init__(self, vals, val, flag, log):
        self.vals, self.val, self.flag, self.log, self.k = vals, val, flag, log, 0

    @property
    def next_val(self):
        return self.val

    def get(self, v):
        self.log.append(("get", v))
        return v + 1

    def get_vals(self):
        self.log.append("get_vals")
        return self.vals


def run(code, kind, seed):
    rng = random.Random(seed)
    log = []
    lo, hi = (1, 9) if kind == "nonzero" else (-7, 9)
    num = [str(rng.randint(lo, hi)) for _ in range(3)]
    string = rng.choice(["a", "z", "Z", "0", "9", "k", "`", "{", "/", ":", "@", "[", "Q", "'", "\\", "~", " ", "b", "y"])
    inputs = num + [str(rng.choice([0.5, 2.0, -1.5])), string, str(rng.randint(0, 9)), rng.choice(["", "ab", "q"])]
    if kind == "nonzero":
        inputs[3] = "2.5"
    more = [str(rng.randint(-5, 14)) for _ in range(8)]

    def feed():
        log.append("input")
        return inputs.pop(0) if inputs else more.pop(0)

    def f(v):
        log.append(("f", repr(v)))
        return v

    o = Obj([1, 2, 3, 4, 5, 6, 7, 8, 9], rng.randint(lo, hi) if kind != "bool" else rng.random() < 0.5, rng.random() < 0.5, log)
    it = iter(int(v) for v in more[:4])
    env = {"__builtins__": {"input": feed, "int": int, "float": float, "str": str, "range": range, "len": len, "abs": abs, "ord": ord, "chr": chr, "bool": bool, "all": all, "next": next, "list": list}}
    try:
        exec(code, env)
        fun = next(v for k, v in env.items() if k.startswith("fun"))
        mat = [[2, 3], [4, 5]]
        out = ("value", describe(fun(o, f, it, mat, string)))
    except Exception as e:  # noqa
        out = ("exception", type(e).__name__)
    return out, log, describe_state(o, it)


def describe_state(o, it):
    return describe(o.vals), describe(o.val), o.flag, len(list(it))


def describe(v):
    if isinstance(v, tuple):
        return tuple(describe(k) for k in v)
    if isinstance(v, list):
        return [describe(k) for k in v]
    if callable(v):
        return "function"
    if isinstance(v, float):
        return int(v) if abs(v) < 1e15 and v == int(v) else round(v, 6) if abs(v) < 1e6 else f"{v:.6e}"
    if isinstance(v, bool):
        return int(v)
    return v


def differ(old, new, kind, tag, truth=False):
    a = compile(old, "<old>", "exec")
    try:
        b = compile(new, "<new>", "exec")
    except (SyntaxError, ValueError) as e:
        return f"the rewritten code is invalid: {e}"
    for k in range(40):
        ra = run(a, kind, f"{tag}{k}")
        if ra[0][0] == "exception":
            continue
        rb = run(b, kind, f"{tag}{k}")
        if ra != rb:
            return f"for seed {k} the original gives {ra}, the rewritten code {rb}"
    return None


def run_case(case):
    src, start = render(case)
    res = lint.lint_source(src, ENABLE)
    all_lines = src.split("\n")
    viol, classes, checked = [], [], 0
    by_fun = {}
    for p in res["problems"] or []:
        if p["code"] in ("R6601", "R6607", "R6608", "R6609", "R6613", "R6614", "R6615", "R6617", "R6618", "R6619"):
            i = max(k for k, s in start.items() if s <= p["line"])
            by_fun.setdefault(i, []).append({**p, "line": p["line"] - start[i] + 1, "end_line": p["end_line"] and p["end_line"] - start[i] + 1})
    for i, problems in sorted(by_fun.items()):
        lines = function(f"fun{i}", case["funcs"][i][1:])
        old = "\n".join(lines) + "\n"
        tree = ast.parse(old)
        todo = []
        for p in problems:
            if p["code"] == "R6615":
                continue
            got = rewrites(p, tree, lines)
            if got is None:
                todo.append((p, "unfit", None, None))
            else:
                todo += [(p, *g) for g in got]
        for p, new, kind in letters([p for p in problems if p["code"] == "R6615"], tree, lines):
            todo.append((p, "letter" if new is not None or kind else "unfit", new, kind))
        for p, label, new, kind in todo:
            tell = f"{p['code']}: {p['text']}\n--- source\n{'; '.join(case['funcs'][i][1:])}"
            classes.append(p["code"])
            checked += 1
            if label == "unfit":
                viol.append((p["code"] + ":unfit", f"{tell}\nthe message does not fit the code there"))
            elif new is None:
                if kind and kind not in ("int", "num", "list", "bool", "nonzero"):
                    viol.append((f"{p['code']}:{label}", f"{tell}\n{kind}"))
            elif isinstance(new[0], list):
                ds = [differ(old, "\n".join(n) + "\n", kind, p["text"]) for n in new]
                if all(ds):
                    viol.append((f"{p['code']}:differs", f"{tell}\nthe value is none of an operand, its opposite, 0, 1 and '': {ds[0]}"))
            else:
                d = differ(old, "\n".join(new) + "\n", kind, p["text"])
                if d:
                    changed = [n for n, o in zip(new, lines) if n != o]
                    viol.append((f"{p['code']}:differs", f"{tell}\n--- rewritten\n{'; '.join(changed)}\n{d}"))
    return Outcome(viol, checked > 0, classes, max(checked, 1), note=[p["text"] for p in res["problems"] or []][:4])


def shrink(case):
    funcs = case["funcs"]
    if len(funcs) > 1:
        for f in funcs:
            yield {"funcs": [f]}
        return
    from vlib import pyshrink

    f = funcs[0]
    if len(f) > 2:
        g = [f[0]] + [l[4:] for l in f[2:]]
        if parses(g[1:]):
            yield {"funcs": [g]}
        return
    m = re.match(r"(.*? [-+*/%|&^<>]*= )(.*)$", f[1])
    if m:
        for s in smaller(m.group(2)):
            g = [f[0], m.group(1) + s]
            if parses(g[1:]):
                yield {"funcs": [g]}


def smaller(text):
    try:
        tree = ast.parse(text, mode="eval")
    except SyntaxError:
        return
    for n in ast.walk(tree):
        if not isinstance(n, ast.expr):
            continue
        kids = [k for k in ast.iter_child_nodes(n) if isinstance(k, ast.expr)]
        for k in kids:
            yield ast.unparse(replaced(tree, n, k))
        if not isinstance(n, (ast.Constant, ast.Name)):
            for k in ("x", "1"):
                yield ast.unparse(replaced(tree, n, ast.parse(k, mode="eval").body))


def replaced(tree, old, new):
    class R(ast.NodeTransformer):
        def visit(self, node):
            return copy.deepcopy(new) if node is old else self.generic_visit(node)
    # transform a copy with the same identities
    memo = {}
    t = copy.deepcopy(tree, memo)
    target = memo.get(id(old))

    class Q(ast.NodeTransformer):
        def visit(self, node):
            return copy.deepcopy(new) if node is target else self.generic_visit(node)
    return ast.fix_missing_locations(Q().visit(t))
