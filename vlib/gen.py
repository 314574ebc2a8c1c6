"""Random Python programs as text.

Gen builds well-formed student-like programs plus, with `wild`, every other
construct of the language.  All choices come from the random.Random given."""
import builtins
import keyword

INT_VARS = ["a", "b", "c", "n", "m", "i", "j", "k", "x", "y", "total", "count"]
STR_VARS = ["s", "t", "word", "name"]
LIST_VARS = ["xs", "ys", "lst", "data", "values"]
ALL_VARS = INT_VARS + STR_VARS + LIST_VARS
FUNCS = ["foo", "bar", "helper", "process", "compute"]
ATTRS = ["size", "val", "head", "next"]
CMP = ["<", "<=", ">", ">=", "==", "!="]
ARITH = ["+", "-", "*", "//", "%", "/", "**", "<<", ">>", "&", "|", "^", "@"]

INTERESTING_INTS = [0, 1, 2, 3, -1, -2, 5, 7, 10, 26, 32, 48, 57, 64, 65, 90, 91, 96, 97, 122, 123, 127, 128, 255, 256, 1000, -5, 10 ** 6, 2 ** 31, 2 ** 63, 2 ** 64, 0x10FFFF, 0x110000]
STRS = ['""', '"a"', "'b'", '"A"', '"Z"', '"0"', '"9"', '"ab"', '"%s"', '"{}"', "'\\n'", '"\\x00"', '"č"', "'it''s'", 'r"\\d"', '"a" "b"', '"""doc"""', "'\\''", '"\\U0001F600"']


class Gen:
    def __init__(self, rng, wild=0.0, max_depth=3):
        self.r = rng
        self.wild = wild
        self.max_depth = max_depth
        self.fresh = 0

    # ------------------------------------------------------------- helpers
    def ch(self, seq):
        return seq[self.r.randrange(len(seq))]

    def p(self, x):
        return self.r.random() < x

    def name(self):
        return self.ch(ALL_VARS)

    def const_int(self):
        if self.p(0.7):
            return str(self.r.randint(-3, 10))
        v = self.ch(INTERESTING_INTS)
        return self.ch([str(v), hex(v)]) if self.p(0.9) else str(v)

    # --------------------------------------------------------- expressions
    def int_expr(self, d=2):
        r = self.r.random()
        if d <= 0 or r < 0.3:
            return self.ch([self.ch(INT_VARS), self.ch(INT_VARS), self.const_int()])
        if r < 0.65:
            op = self.ch(["+", "-", "*", "//", "%", "+", "-"])
            return f"{self.paren(self.int_expr(d - 1))} {op} {self.paren(self.int_expr(d - 1))}"
        if r < 0.72:
            return f"-{self.paren(self.int_expr(d - 1))}"
        if r < 0.8:
            return f"len({self.ch(LIST_VARS)})"
        if r < 0.86:
            return f"{self.ch(LIST_VARS)}[{self.int_expr(d - 1)}]"
        if r < 0.9:
            return f"abs({self.int_expr(d - 1)})"
        if r < 0.93:
            return f"ord({self.str_expr(d - 1)})"
        if r < 0.96:
            return f"{self.ch(['max', 'min'])}({self.int_expr(d - 1)}, {self.int_expr(d - 1)})"
        if r < 0.98:
            return f"{self.ch(FUNCS)}({self.int_expr(d - 1)})"
        return f"({self.int_expr(d - 1)} if {self.bool_expr(d - 1)} else {self.int_expr(d - 1)})"

    def paren(self, e):
        if e.isidentifier() or e.isdigit() or (e.endswith(")") and e[: e.find("(")].isidentifier() and e.count("(") == 1):
            return e
        return f"({e})"

    def str_expr(self, d=2):
        r = self.r.random()
        if d <= 0 or r < 0.5:
            return self.ch([self.ch(STR_VARS), self.ch(STRS)])
        if r < 0.6:
            return f"{self.ch(STR_VARS)}[{self.int_expr(d - 1)}]"
        if r < 0.7:
            return f"{self.str_expr(d - 1)} + {self.str_expr(d - 1)}"
        if r < 0.78:
            return f"str({self.int_expr(d - 1)})"
        if r < 0.86:
            return f"chr({self.int_expr(d - 1)})"
        if r < 0.93:
            return f"{self.ch(STR_VARS)}.{self.ch(['upper', 'lower', 'strip'])}()"
        return "f'{" + self.ch(ALL_VARS) + self.ch(["", "!r", ":>4"]) + "}'"

    def list_expr(self, d=2):
        r = self.r.random()
        if d <= 0 or r < 0.3:
            return self.ch(LIST_VARS)
        if r < 0.5:
            return "[" + ", ".join(self.int_expr(d - 1) for _ in range(self.r.randrange(4))) + "]"
        if r < 0.6:
            return f"{self.ch(LIST_VARS)}[{self.int_expr(0)}:]"
        if r < 0.7:
            return f"{self.paren(self.list_expr(d - 1))} + {self.paren(self.list_expr(d - 1))}"
        if r < 0.8:
            return f"{self.paren(self.list_expr(d - 1))} * {self.int_expr(0)}"
        if r < 0.9:
            v = self.ch(INT_VARS)
            return f"[{self.int_expr(d - 1)} for {v} in {self.iterable(d - 1)}]"
        return f"list({self.iterable(d - 1)})"

    def iterable(self, d=2):
        r = self.r.random()
        if r < 0.6:
            n = self.r.choice([1, 1, 2, 2, 3])
            args = ", ".join(self.ch([f"len({self.ch(LIST_VARS)})", self.int_expr(1), self.const_int()]) for _ in range(n))
            return f"range({args})"
        if r < 0.9:
            return self.list_expr(d - 1)
        return self.ch(STR_VARS)

    def cmp_expr(self, d=2):
        r = self.r.random()
        if r < 0.75:
            return f"{self.int_expr(d - 1)} {self.ch(CMP)} {self.int_expr(d - 1)}"
        if r < 0.82:
            return f"{self.str_expr(d - 1)} {self.ch(CMP)} {self.str_expr(d - 1)}"
        if r < 0.88:
            return f"{self.int_expr(0)} {self.ch(['in', 'not in'])} {self.list_expr(d - 1)}"
        if r < 0.93:
            return f"{self.name()} {self.ch(['is', 'is not', '==', '!='])} {self.ch(['None', 'True', 'False'])}"
        return f"{self.int_expr(d - 1)} {self.ch(CMP)} {self.int_expr(d - 1)} {self.ch(CMP)} {self.int_expr(d - 1)}"

    def bool_expr(self, d=2):
        r = self.r.random()
        if d <= 0 or r < 0.55:
            return self.cmp_expr(max(d, 1))
        if r < 0.85:
            op = self.ch(["and", "or"])
            return f" {op} ".join(self.bparen(self.bool_expr(d - 1)) for _ in range(self.ch([2, 2, 3])))
        if r < 0.95:
            return f"not {self.bparen(self.bool_expr(d - 1))}"
        return self.ch(["True", "False", self.name()])

    def bparen(self, e):
        return f"({e})" if (" and " in e or " or " in e or e.startswith("not ")) else e

    def expr(self, d=2):
        if self.wild and self.p(self.wild):
            return self.wild_expr(d)
        r = self.r.random()
        if r < 0.45:
            return self.int_expr(d)
        if r < 0.6:
            return self.str_expr(d)
        if r < 0.75:
            return self.list_expr(d)
        return self.bool_expr(d)

    def wild_expr(self, d=2):
        e = lambda: self.paren(self.expr(d - 1)) if d > 0 else self.ch(ALL_VARS)  # noqa
        k = self.r.randrange(34)
        if k == 0:
            return "None"
        if k == 1:
            return self.ch(["...", "b'x'", "b''", "3.5", "1e400", "-0.0", "1j", "0.1", "1_000", "0b11", "0o17", "NotImplemented", "__name__"])
        if k == 2:
            return f"lambda: {e()}"
        if k == 3:
            return f"lambda {self.ch(['u', 'u, v=1', '*u', '**u', 'u, /, v', '*, u'])}: {e()}"
        if k == 4:
            return f"{{{e()}: {e()}, **{self.name()}}}"
        if k == 5:
            return f"{{{e()}, *{self.name()}}}"
        if k == 6:
            return f"({e()}, *{self.name()}, {e()})"
        if k == 7:
            return f"[{e()} for {self.ch(INT_VARS)} in {e()} if {e()} for {self.ch(INT_VARS)} in {self.name()}]"
        if k == 8:
            return f"{{{e()}: {e()} for {self.ch(INT_VARS)}, {self.ch(INT_VARS)} in {e()}}}"
        if k == 9:
            return f"{{{e()} for {self.ch(INT_VARS)} in {e()}}}"
        if k == 10:
            return f"sum({e()} for {self.ch(INT_VARS)} in {e()})"
        if k == 11:
            return f"({self.ch(ALL_VARS)} := {e()})"
        if k == 12:
            return f"{self.name()}[{e()}:{e()}:{e()}]"
        if k == 13:
            return f"{self.name()}[{e()}, {self.ch(['1:2', '...', '::', 'a'])}]"
        if k == 14:
            return f"{self.name()}.{self.ch(ATTRS)}.{self.ch(ATTRS)}"
        if k == 15:
            return f"{self.ch(FUNCS)}(*{e()}, key={e()}, **{self.name()})"
        if k == 16:
            return f"{e()} {self.ch(ARITH)} {e()}"
        if k == 17:
            return f"{self.ch(['~', '+', '-', 'not '])}{e()}"
        if k == 18:
            return f"f'{{{self.name()}!r:>{{{self.name()}}}}} {{ {self.name()} + 1 = }}'"
        if k == 19:
            return f"{e()} if {e()} else {e()}"
        if k == 20:
            return f"{e()} {self.ch(CMP + ['in', 'not in', 'is', 'is not'])} {e()} {self.ch(CMP + ['in', 'is'])} {e()}"
        if k == 21:
            return f"{e()} {self.ch(['and', 'or'])} {e()} {self.ch(['and', 'or'])} {e()}"
        if k == 22:
            c = self.const_int()
            return f"{c} {self.ch(ARITH)} {self.ch(['0', '1', '-1', '2', '3', '0.5', 'True', '10', '100'])}"
        if k == 23:
            return f"ord({self.ch(STR_VARS)}) {self.ch(CMP)} {self.ch(STRS + [self.const_int(), '3.5', 'True', 'None', '-97'])}"
        if k == 24:
            return f"{self.const_int()} {self.ch(CMP)} ord({self.ch(STR_VARS)}{self.ch(['', '[0]'])}) {self.ch(CMP)} {self.const_int()}"
        if k == 25:
            return f"ord({self.ch(STR_VARS)}) {self.ch(['+', '-'])} {self.ch(STRS + [self.const_int(), '97', '65', '96'])}"
        if k == 26:
            return f"chr({e()} {self.ch(['+', '-', '*'])} {self.ch(['97', '65', '48', '-1', 'True', '1114112'])})"
        if k == 27:
            return f"[{self.ch(['[]', '{}', 'a', '0', '[0]', 'set()', 'lambda: 0', '[1] * 2'])}] * {self.ch([e(), '3', '[2]', 'True', '0'])}"
        if k == 28:
            return f"{self.ch(['int', 'round', 'float', 'math.floor', 'bool', 'str'])}({e()} / {e()})"
        if k == 29:
            return f"{self.name()} in range({e()})"
        if k == 30:
            return f"{self.ch(['any', 'all', 'sorted', 'enumerate', 'zip', 'map', 'set', 'dict', 'tuple', 'print', 'input'])}({e()})"
        if k == 31:
            v = self.ch(INT_VARS)
            return f"{v} {self.ch(['+', '*', '-', '/', '//', '%', '**', 'and', 'or', '|', '&'])} {v} {self.ch(['+', '*'])} {v}"
        if k == 32:
            return f"{e()} {self.ch(['+', '-', '*', '/', '//', '**', '%'])} {self.ch(['0', '1', '0.0', '1.0', '[]', chr(34) * 2, '-1', 'True', 'False'])}"
        return f"{self.name()} {self.ch(['==', '!=', 'is', 'is not'])} {self.ch(['True', 'False', 'None', '...'])}"

    # ---------------------------------------------------------- statements
    def block(self, lines, indent="    "):
        return [indent + l for l in lines] if lines else [indent + "pass"]

    def stmts(self, d, n=None, loop=False, func=False):
        n = n if n is not None else self.r.randint(1, 3)
        out = []
        for _ in range(n):
            out.extend(self.stmt(d, loop, func))
        return out

    def target(self):
        r = self.r.random()
        if r < 0.8:
            return self.ch(ALL_VARS)
        if r < 0.9:
            return f"{self.ch(LIST_VARS)}[{self.int_expr(1)}]"
        if r < 0.95:
            return f"{self.name()}.{self.ch(ATTRS)}"
        return f"{self.ch(INT_VARS)}, {self.ch(INT_VARS)}"

    def simple(self, loop, func):
        if self.wild and self.p(self.wild):
            return self.wild_simple(loop, func)
        r = self.r.random()
        if r < 0.3:
            return f"{self.ch(INT_VARS)} = {self.int_expr()}"
        if r < 0.42:
            t = self.ch(INT_VARS)
            return f"{t} = {t} {self.ch(['+', '-', '*', '//', '%'])} {self.paren(self.int_expr(1))}"
        if r < 0.54:
            return f"{self.ch(INT_VARS)} {self.ch(['+=', '-=', '*=', '//='])} {self.int_expr()}"
        if r < 0.62:
            return f"{self.ch(LIST_VARS)}.append({self.expr(1)})"
        if r < 0.68:
            return f"{self.target()} = {self.expr()}"
        if r < 0.72:
            return f"{self.ch(LIST_VARS)}[{self.int_expr(1)}] = {self.int_expr(1)}"
        if r < 0.8:
            return f"print({self.expr(1)})"
        if r < 0.86 and func:
            return self.ch(["return", f"return {self.expr()}", f"return {self.bool_expr()}", "return True", "return False", "return None"])
        if r < 0.91 and loop:
            return self.ch(["break", "continue"])
        if r < 0.94:
            v = self.ch(LIST_VARS)
            return self.ch([f"{v} = {v} + [{self.expr(1)}]", f"{v} += [{self.expr(1)}]", f"{v} = [{self.expr(1)}] * {self.int_expr(0)}"])
        if r < 0.97:
            return self.ch(["pass", '"comment"', f"assert {self.bool_expr(1)}", f"{self.ch(FUNCS)}({self.expr(1)})"])
        return f"raise ValueError({self.str_expr(1)})"

    def wild_simple(self, loop, func):
        e = self.expr
        k = self.r.randrange(30)
        a, b = self.ch(ALL_VARS), self.ch(ALL_VARS)
        if k == 0:
            return f"del {a}, {self.ch(LIST_VARS)}[0]"
        if k == 1:
            return f"{a} = {b} = {e()}"
        if k == 2:
            return f"{a}, *{b} = {e()}"
        if k == 3:
            return f"[{a}, ({b}, {self.name()}.val)] = {e()}"
        if k == 4:
            return f"{a}: int"
        if k == 5:
            return f"{a}: 'List[int]' = {e()}"
        if k == 6:
            return f"{self.ch(LIST_VARS)}[{e(1)}]: int = {e(1)}"
        if k == 7:
            return self.ch(["import os", "import os.path as p", "from math import *", "from math import floor, ceil as c", "from . import x", "import a, b as c", "from __future__ import annotations"]) if not func else self.ch(["import os", "from math import floor"])
        if k == 8 and func:
            return f"yield {e()}"
        if k == 9 and func:
            return f"{a} = yield"
        if k == 10 and func:
            return f"yield from {e(1)}"
        if k == 11:
            return self.ch(["raise", f"raise {e(1)} from {e(1)}", "raise ValueError"])
        if k == 12:
            return f"assert {e(1)}, {e(1)}"
        if k == 13:
            return e()
        if k == 14:
            return f"{self.ch(LIST_VARS)}[{e(1)}] {self.ch(['+=', '-=', '|=', '**=', '>>=', '@=', '%='])} {e(1)}"
        if k == 15:
            return f"{self.name()}.{self.ch(ATTRS)} {self.ch(['=', '+='])} {e(1)}"
        if k == 16 and func:
            return f"return {a}, {b}"
        if k == 17:
            return f"global {'g_' + a}" if func else f"{a} = {e()}"
        if k == 18:
            return f"{a} = {a} {self.ch(ARITH)} {e(1)}"
        if k == 19:
            return f"{a} = {e(1)}; {b} = {e(1)}"
        if k == 20:
            return f"{self.ch(LIST_VARS)} = {self.ch(LIST_VARS)} + [{e(1)}, {e(1)}]"
        if k == 21:
            return f"{self.ch(LIST_VARS)}.{self.ch(['pop', 'remove', 'insert', 'clear', 'sort', 'extend', 'append'])}({self.ch(['', e(1), e(1) + ', ' + e(1)])})"
        if k == 22:
            return f"{self.ch(LIST_VARS)}[:] = {e(1)}"
        if k == 23:
            return f"for {self.ch(INT_VARS)} in {self.iterable()}: {self.ch(['pass', 'print(a)', 'xs.append(i)'])}"
        if k == 24:
            return f"while {self.bool_expr(1)}: {self.ch(['pass', 'a += 1', 'break'])}"
        if k == 25:
            return f"if {self.bool_expr(1)}: {self.ch(['pass', 'a = 1', 'print(a)'])}"
        if k == 26:
            return f"print({self.ch(['locals()', 'globals()', 'vars()', 'dir()'])})" if self.p(0.15) else "print(a)"
        if k == 27:
            return f"{a} = not {self.paren(e(1))}"
        if k == 28:
            return f"type X{self.r.randrange(9)} = {self.ch(['int', 'list[int]', 'a'])}"
        return "..."

    def stmt(self, d, loop=False, func=False):
        r = self.r.random()
        if d <= 0 or r < 0.45:
            return [self.simple(loop, func)]
        if self.wild and self.p(self.wild):
            return self.wild_compound(d, loop, func)
        if r < 0.7:
            return self.if_stmt(d, loop, func)
        if r < 0.85:
            return self.for_stmt(d, func)
        if r < 0.94:
            return self.while_stmt(d, func)
        return self.if_stmt(d, loop, func)

    def if_stmt(self, d, loop, func):
        out = [f"if {self.bool_expr()}:"] + self.block(self.stmts(d - 1, None, loop, func))
        for _ in range(self.ch([0, 0, 0, 1, 1, 2, 3])):
            out += [f"elif {self.bool_expr()}:"] + self.block(self.stmts(d - 1, None, loop, func))
        if self.p(0.5):
            out += ["else:"] + self.block(self.stmts(d - 1, None, loop, func))
        return out

    def for_stmt(self, d, func):
        t = self.ch(INT_VARS) if self.p(0.9) else f"{self.ch(INT_VARS)}, {self.ch(INT_VARS)}"
        if self.wild and self.p(self.wild / 3):
            t = self.ch([f"{self.ch(LIST_VARS)}[0]", f"{self.name()}.val", "(a, (b, c))", "*a, b", "_"])
        out = [f"for {t} in {self.iterable()}:"] + self.block(self.stmts(d - 1, None, True, func))
        if self.p(0.12):
            out += ["else:"] + self.block(self.stmts(d - 1, None, False, func))
        return out

    def while_stmt(self, d, func):
        cond = self.ch(["True", self.bool_expr(), self.bool_expr(), f"{self.ch(INT_VARS)} < {self.int_expr(1)}"])
        out = [f"while {cond}:"] + self.block(self.stmts(d - 1, None, True, func))
        if self.p(0.12):
            out += ["else:"] + self.block(self.stmts(d - 1, None, False, func))
        return out

    def wild_compound(self, d, loop, func):
        k = self.r.randrange(12)
        body = lambda l=loop, f=func: self.block(self.stmts(d - 1, None, l, f))  # noqa
        if k == 0:
            out = ["try:"] + body()
            for i in range(self.r.randint(0, 2)):
                out += [self.ch(["except ValueError:", f"except (KeyError, {self.ch(FUNCS)}) as err:", f"except TypeError as {self.ch(ALL_VARS)}:"])] + body()
            if len(out) and not any(l.startswith("except") for l in out):
                return out + ["finally:"] + self.block([self.simple(False, False)])
            if self.p(0.3):
                out += ["except:"] + body()
            if self.p(0.3):
                out += ["else:"] + body()
            if self.p(0.3):
                out += ["finally:"] + self.block(self.stmts(d - 1, 1, False, func))
            return out
        if k == 1:
            return [f"with open({self.expr(1)}) as {self.ch(ALL_VARS)}{self.ch(['', ', foo(), bar() as (a, b)'])}:"] + body()
        if k == 2:
            out = [f"match {self.expr(1)}:"]
            pats = ["0", '"a"', "[a, *_]", "{'k': b, **c}", "int()", "foo.bar", "(1 | 2) as n", "None", "[1, [x]]", "Point(x=0, y=i)"]
            for _ in range(self.r.randint(1, 3)):
                out += ["    case " + self.ch(pats) + self.ch(["", f" if {self.bool_expr(1)}"]) + ":"] + self.block(body(), "    ")
            if self.p(0.5):
                out += ["    case _:"] + self.block(body(), "    ")
            return out
        if k == 3:
            self.fresh += 1
            return self.func_def(d - 1, f"inner{self.fresh}", nested=True)
        if k == 4:
            self.fresh += 1
            return self.class_def(d - 1, f"Cls{self.fresh}")
        if k == 5 and not func:
            self.fresh += 1
            return [f"async def co{self.fresh}(a, b):"] + self.block(
                ["async with a as c:"] + self.block(["await b"]) + ["async for i in a:"] + self.block(["xs = [x async for x in b]"]) + self.stmts(d - 1, 1, False, True)
            )
        if k == 6:
            return self.for_stmt(d, func)
        if k == 7:
            return self.while_stmt(d, func)
        if k == 8:
            c = self.bool_expr(1)
            return [f"if {c}:"] + self.block(self.ch([["pass"], ["a: int"], ["a: bool = True"], ["a += True"], ["a, b = True, False"], ["del a"], ["..."], ["return True"] if func else ["a = True"]])) + [
                "else:"
            ] + self.block(self.ch([["pass"], ["a: int"], ["a: bool = True"], ["a += False"], ["a, b = False, True"], ["del a"], ["..."], ["return False"] if func else ["a = False"]]))
        if k == 9:
            return ["try:"] + body() + ["except* ValueError:"] + self.block([self.simple(False, False)])
        if k == 10:
            return [f"if {self.expr(1)}:"] + body()
        s = self.stmts(d - 1, None, loop, func)
        return s * self.r.randint(2, 3)

    def params(self):
        r = self.r.random()
        names = self.r.sample(ALL_VARS, self.r.randint(0, 4))
        if not self.wild or not self.p(self.wild):
            return ", ".join(names)
        return self.ch(["a, b=1", "a, /, b", "a, *, b", "*args, **kwargs", "a: int, b: 'str' = ''", "xs=[], s={}", "self, a", ""])

    def func_def(self, d, name, nested=False):
        head = []
        if self.wild and self.p(self.wild / 3):
            head.append(self.ch(["@decorator", "@foo(1)", "@property", "@staticmethod"]))
        body = self.stmts(d, self.r.randint(1, 5), False, True)
        if nested and self.p(0.3):
            body = [f"nonlocal_{self.ch(INT_VARS)} = 1"] + body
        if self.p(0.15):
            body = ['"""Doc."""'] + body
        ann = self.ch(["", "", "", " -> int", " -> None"])
        return head + [f"def {name}({self.params()}){ann}:"] + self.block(body)

    def class_def(self, d, name):
        out = [f"class {name}{self.ch(['', '(object)', '(Exception)'])}:"]
        body = []
        for i in range(self.r.randint(0, 2)):
            body += [self.simple(False, False)]
        for i in range(self.r.randint(0, 2)):
            body += [f"def {self.ch(['__init__', 'meth', 'get', 'next'])}(self, {self.ch(INT_VARS)}):"] + self.block(
                [f"self.{self.ch(ATTRS)} = {self.expr(1)}"] + self.stmts(d, 2, False, True)
            )
        return out + self.block(body)

    def program(self, nfuncs=None, top=None):
        lines = []
        n = nfuncs if nfuncs is not None else self.r.randint(1, 4)
        for i in range(n):
            r = self.r.random()
            if self.wild and r < self.wild / 3:
                lines += self.class_def(self.max_depth - 1, f"Top{i}")
            else:
                lines += self.func_def(self.max_depth, f"{self.ch(FUNCS)}{i}")
            lines += ["", ""]
        t = top if top is not None else self.r.randint(0, 4)
        if t:
            lines += self.stmts(self.max_depth - 1, t)
        if self.p(0.3):
            lines += ["", "", 'if __name__ == "__main__":'] + self.block(self.stmts(1, 2))
        return "\n".join(lines) + "\n"


def compiles(src):
    try:
        compile(src, "<gen>", "exec")
        return True
    except (SyntaxError, ValueError, RecursionError, MemoryError, OverflowError):
        return False
