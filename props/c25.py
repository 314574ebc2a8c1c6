"""C25: what the tool says about the executions of loops is so in every run."""
import ast
import random
import re

from vlib import lint, progs
from vlib.core import Outcome
from vlib.progs import ind

CASES = {"quick": 1500, "thorough": 60000}
RULE = (
    "A case is a file of helper functions and six functions with one or two loops each: while loops over integers that are or are not changed on some path (directly, by nested functions, through globals, by aliases), "
    "loops over constant ranges, loops whose bodies end on some or all paths in break, return, raise or continue, and for loops that rebind their control variable or modify the list they iterate over. "
    "The functions are instrumented at the loops the tool makes a claim about and run on 40 inputs: a loop said to be infinite must never be left by its condition or a break, one said to make no or one iteration must do "
    "so at every entry, a statement said to change a control variable in vain must rebind it and another value assigned there must change nothing, one said to shadow it must rebind it in that loop, and one said to modify the "
    "iterated list must be a call of a modifying method that can find that very list. Non-trivial: at least one claim was tested in a run that reached it."
)
ASSUMPTIONS = [
    "unknown functions that are called change no variables",
    "where a nested function uses the iterated list, what is modified is not tested",
    "a run is cut after 200 iterations in all",
    "a loop is not counted as ended when an exception that the loop does not raise itself leaves it",
]
ENABLE = ["modifying-iterated-structure", "changing-control-variable", "loop-shadows-control-variable", "explicit-infinite-loop", "implicit-infinite-loop", "at-most-one-iteration-for-loop", "one-iteration"]
CODES = {"R6303", "R6304", "R6306", "R6309", "R6310", "R6606", "E9996"}

HELPERS = """\
g = 5
h = 3


def bump():
    global g
    g -= 1


def look():
    return g


def twice():
    bump()
    bump()


def both():
    global g, h
    g, h = h, g - 1


def call(fn):
    return fn()


alias = bump
"""
HELPER_LINES = HELPERS.split("\n")


def prepare():
    lint.preload()


class G:
    def __init__(self, rng):
        self.r = rng

    def ch(self, seq):
        return seq[self.r.randrange(len(seq))]

    def p(self, x):
        return self.r.random() < x

    # ------------------------------------------------ while loops that may not end

    def infinite(self):
        ints = ["a", "b", "c"]
        pre = [f"{v} = {self.ch(['int(input())', 'int(input())', 'len(lst)', '5', '0', 'int(input())', 'a', 'len(s)', 'int(input()) + 1', 'abs(int(input()))', '-int(input())', 'int(input()) // 2', 'int(input()) % 3', 'a - 1'])}" for v in ints]
        pre[0] = "a = int(input())"
        vs = ints + (["g", "h"] if self.p(0.25) else [])

        def var():
            return self.ch(vs)

        def comp():
            return f"{var()} {self.ch(['<', '<=', '>', '>=', '==', '!='])} {self.ch([var(), '0', '1', '5', '3', '-1', var() + ' + 1', '2 * ' + var()])}"
        r = self.r.random()
        if r < 0.1:
            test = self.ch(["True", "1", "not False", "'x'", "2 > 1", "1 == 1.0", "not 0", "-1", "3 - 2", "5 // 2"])
        elif r < 0.65:
            test = comp()
        elif r < 0.75:
            test = f"{comp()} {self.ch(['and', 'or'])} {comp()}"
        elif r < 0.8:
            test = f"not {comp()}" if self.p(0.5) else f"{var()} < {var()} <= {self.ch([var(), '7'])}"
        elif r < 0.87:
            test = self.ch([f"{var()}", f"not {var()}", f"{var()} % 2 == {self.ch('01')}", f"{var()} % {var()} == 1", f"abs({var()}) > 2", f"{var()} // 2 > 1", f"{var()} / 2 > 1"])
        else:
            test = self.ch(["True", comp(), comp(), f"(a := a - 1) > {var()}", f"int(input()) > {var()}", f"look() > {var()}", f"{var()} in lst", f"f({var()}) < 3", f"min({var()}, {var()}) < 2", "lst", "len(lst) > 0", "o.n > a", "n > 0"])

        def change():
            v = var()
            return self.ch([[f"{v} {self.ch(['+=', '-=', '+=', '-='])} {self.ch(['1', '2', '3', var(), '0'])}"], [f"{v} {self.ch(['*=', '//=', '%='])} {self.ch(['1', '2', '3', '0'])}"], [f"{v} = {v} {self.ch('+-*')} {self.ch(['1', '2'])}"], [f"{v} = {self.ch([var(), '0', '7', var() + ' + ' + var(), var() + ' - 1'])}"],
                            [f"{v}, {var()} = {var()}, {var()} {self.ch('+-')} 1"], [f"{v} = {var()} if {comp()} else {var()} + 1"], [f"{v} = {self.ch(['int(input())', 'f(1)', 'len(lst)', 'look()'])}"], [f"{v} = {var()} = {var()} + 1"], [f"assert {comp()}"],
                            [f"{v}: int = {var()} - 1"], [f"for {v} in range(3):", "    pass"], [f"print({v} := {var()} + 1)"]])

        def aside():
            return self.ch([["print(a)"], ["x += 1"], ["pass"], ["f(b)"], ["lst.append(a)"], ["x = 3"], ["k = k + a"], ["print(b, c)"], ["print(x)"],
                            [self.ch(["bump()", "twice()", "both()", "alias()", "call(bump)", "look()", "f(bump)", "print(alias())"])], [self.ch(["step()", "st = step", "call(step)", "other_step()"])] if nested else ["j = 1"]])
        nested = []
        if self.p(0.2):
            v = self.ch(ints)
            nested = ["def step():"] + ind([f"nonlocal {v}", self.ch([f"{v} -= 1", f"{v} += 1", f"{v} = 0"]), f"return {v}"] if self.p(0.9) else [f"{v} = 1", f"return {v}"])
            nested += self.ch([["other_step = step"], ["other_step = lambda: step()"], ["def other_step():", "    return step()"]])
        p_change = self.ch([0.0, 0.5, 0.5])

        def block(depth, n=None):
            out = []
            for _ in range(n or self.ch([1, 1, 2])):
                r = self.r.random()
                if depth > 0 and r < 0.3:
                    out += [f"if {comp()}:"] + ind(block(depth - 1))
                    if self.p(0.2):
                        out += [f"elif {comp()}:"] + ind(block(depth - 1))
                    if self.p(0.4):
                        out += ["else:"] + ind(block(depth - 1))
                else:
                    out += change() if self.p(p_change) else aside()
            return out
        body = block(2, self.ch([1, 2, 3]))
        if self.p(0.06):
            body += self.ch([["if a > 4:", "    break"], ["if b == a:", "    return a"], ["yield a"], ["exit()"], ["try:", "    raise ValueError(1)", "except ValueError:", "    pass"], ["if c:", "    continue"], ["for k in lst:", "    break"]])
        out = [f"while {test}:"] + ind(body)
        if self.p(0.08):
            out += ["else:"] + ind(["print(a)"])
        if self.p(0.1):
            out = [f"for {self.ch(['j', 'a', 'b'])} in range({self.ch(['3', 'b', 'len(lst)'])}):"] + ind(out)
        elif self.p(0.05):
            out = ["try:"] + ind(out) + ["finally:", "    x = 1"]
        elif self.p(0.05):
            out = [f"if {comp()}:"] + ind(out)
        use = [f"global {self.ch(['g', 'h', 'g, h'])}"] if any(v in ("g", "h") for v in vs) and self.p(0.8) else []
        return use + pre + nested + out

    # ------------------------------------------------ loops over constant ranges

    def ranges(self):
        n = lambda: self.ch(["0", "1", "2", "3", "5", "-1", "10", "1 + 1", "2 * 2", "-2", "7 // 2", "True", "n", "2 ** 2", "6 % 4", "- 3 // 2"])  # noqa
        args = [n() for _ in range(self.ch([1, 2, 2, 3, 3]))]
        it = f"range({', '.join(args)})"
        if self.p(0.03):
            it = self.ch([f"range(*[{args[0]}])", f"list({it})", f"reversed({it})"])
        body = ["print(i)"] + (self.ch([["continue"], ["x += 1"], ["if x > 2:", "    break"]]) if self.p(0.3) else [])
        return [f"for i in {it}:"] + ind(body)

    # ------------------------------------------------ bodies that leave

    def leaving(self):
        g = progs.Progs(self.r)

        def leave(depth, loop=True):
            """Statements that mostly leave the loop."""
            r = self.r.random()
            if depth <= 0 or r < 0.35:
                return g.simple(True) * self.p(0.3) + [self.ch(["break", "return x", "return", "break", "raise ValueError(1)", "continue", "print(x)", "exit()", "assert x", "x = int(s)", "return int(s)"])]
            if r < 0.6:
                return [f"if {g.cond()}:"] + ind(leave(depth - 1)) + (["else:"] + ind(leave(depth - 1)) if self.p(0.85) else [])
            if r < 0.7:
                return ["try:"] + ind(leave(depth - 1)) + self.ch([["except ValueError:"] + ind(leave(depth - 1)), ["finally:"] + ind(["print(k)"]), ["except (ValueError, IndexError):"] + ind(["pass"]) + ["else:"] + ind(leave(depth - 1)),
                                                                   ["except ValueError:"] + ind(leave(0)) + ["finally:"] + ind(["f(n)"] if self.p(0.8) else leave(0))])
            if r < 0.8:
                return [self.ch(["for e in lst:", "for j in range(k):", "while x < n:", "while True:"])] + ind(g.simple(True) * self.p(0.5) + leave(depth - 1)) + (["else:"] + ind(leave(depth - 1)) if self.p(0.4) else [])
            if r < 0.85:
                return ["match n:"] + ind(["case 1:"] + ind(leave(depth - 1)) + (["case _:"] + ind(leave(depth - 1)) if self.p(0.7) else []))
            if r < 0.9:
                return ["with ctx() as w:"] + ind(leave(depth - 1))
            if r < 0.94:
                return ["def inner():"] + ind(["return 1"]) + leave(depth - 1)
            return g.simple(True) + leave(depth - 1)
        head = self.ch(["for i in lst:", "for i in range(n):", "while x < 5:", "while True:", "while x < n and k:", "for i in other:", "for i, e in enumerate(lst):", "while 1:"])
        body = leave(2)
        if self.p(0.4):
            body = g.simple(True) + body
        if self.p(0.2):
            body += ["x += 1"]
        out = [head] + ind(body)
        if self.p(0.15):
            out += ["else:"] + ind(["print('end')"])
        if self.p(0.2):
            out = [self.ch(["for m in range(2):", "while k < 3:"])] + ind((["k += 1"] if self.p(0.8) else []) + out)
        return out

    # ------------------------------------------------ control variables

    def control(self):
        v = "i"

        def hot():
            return [l for l in self.ch([f"{v} += 1", f"{v} = {v} + 2", f"{v} -= 1", f"{v} = 0", f"{v}, x = x, {v}", f"{v} = x = 3", f"{v} += x", f"{v}: int = 3", f"for {v} in range(2):\n    print({v})", f"for {v} in lst:\n    x += {v}", f"for {v}, j in zip(lst, other):\n    print(j)",
                                        f"print({v} := 3)", f"x = [{v} for {v} in lst]", f"x = (lambda {v}: {v})(2)", f"for j, {v} in enumerate(lst):\n    pass", "def inner():\n    i = 2\n    return i", f"with ctx() as {v}:\n    x += 1", f"print({v})", f"j = {v}", f"lst.append({v})", f"del {v}",
                                        "def inner():\n    return i\nprint(inner())", "def inner():\n    nonlocal i\n    i += 1\ninner()", f"if {v} > 2:\n    {v} = 1\n    continue", f"{v} = 7\nbreak", f"while {v} < 3:\n    {v} += 1", f"try:\n    {v} = 4\n    raise ValueError(1)\nexcept ValueError:\n    print({v})"]).split("\n")]
        g = progs.Progs(self.r, hot=hot, hot_p=0.35)
        g.ints, g.assignable = ["x", "n", "k"] + (["i"] if self.p(0.5) else []), ["x", "k"]
        g.loopvars = ["j", "e", "i"] if self.p(0.2) else ["j", "e"]
        out = [f"for {v} in {self.ch(['range(n)', 'range(3)', 'range(n)', 'range(1, 5)', 'range(len(lst))', 'lst', 'range(4, 0, -1)'])}:"] + ind(g.block(2, True, self.ch([1, 2, 3])))
        if self.p(0.1):
            out += ["else:"] + ind(["print(i)"])
        r = self.r.random()
        if r < 0.2:
            out += [self.ch(["print(i)", "return i", "x = i"])]
        elif r < 0.3:
            out = ["for j in range(2):"] + ind(out + (["print(i)"] if self.p(0.3) else []))
        if self.p(0.5):
            out = ["i = 0"] + out
        return out

    # ------------------------------------------------ iterated structures

    def iterated(self):
        S = self.ch(["lst", "lst", "other", "d", "st"])

        def hot():
            return [l for l in self.ch([f"{S}.append(1)", f"{S}.remove(e)", f"{S}.pop()", f"{S}.insert(0, 1)", f"{S}.extend([1, 2])", f"{S}.clear()", f"{S}.sort()", f"{S}.count(1)", f"{S}.index(1)", f"{S}.copy()", f"print({S}.pop(0))", f"x = {S}.pop(0)", f"{S} = {S}[:]",
                                        f"{S} = [1, 2]", f"{S} += [1]", f"{S}[0] = 1", f"del {S}[0]", f"d[e] = 1", f"st.add(e)", "st.discard(e)", "d.pop(e)", "d.update({1: 2})", f"other = {S}\nother.append(3)", f"{S}.append(e)\nbreak", f"{S}.append(e)\nreturn x", f"for j in other:\n    {S}.append(j)\n    break",
                                        f"def inner():\n    {S}.append(1)\ninner()", f"def inner({S}):\n    {S}.append(1)\ninner([])", f"y = [{S}.append(1) for {S} in mat]", f"f({S}.append)", f"{S}.append", f"if x:\n    {S} = list(other)\n{S}.append(2)", f"for {S} in mat:\n    {S}.append(1)", f"{S}.reverse()",
                                        f"{S}.keys()", "print(d.get(1))", "d.setdefault(e, 1)", "print(d.values())", "x = st.union(lst)", f"{S}[1:].append(2)", "o.items.append(1)", f"{S}, other = other, {S}"]).split("\n")]
        g = progs.Progs(self.r, hot=hot, hot_p=0.45)
        g.ints, g.assignable, g.loopvars = ["x", "n", "k", "e"], ["x", "k"], ["j", "k"]
        it = self.ch([S] * 8 + [f"{S}[:]", f"list({S})", f"sorted({S})", f"enumerate({S})"])
        pre = {"d": ["d = {1: 2, 2: 3, 3: 4}"], "st": ["st = {1, 2, 3}"]}.get(S, [])
        if not pre and self.p(0.5):
            pre = [f"{S} = {self.ch(['[1, 2, 3]', 'list(other)', 'other', '[x, n, k]'])}"]
        pre = ["d = {1: 2}", "st = {5}"] * (self.p(0.6) and not pre) + pre
        out = [f"for e in {it}:"] + ind(g.block(2, True, self.ch([1, 2, 3])))
        if self.p(0.1):
            out = ["for k in range(2):"] + ind(out)
        return pre + out

    def function(self):
        out = ["i = j = e = 0"] if self.p(0.7) else ["j = e = 0"]
        for _ in range(self.ch([1, 1, 1, 2])):
            k = self.ch(["infinite", "infinite", "infinite", "ranges", "leaving", "leaving", "control", "control", "iterated"])
            more = getattr(self, k)()
            if more[0].startswith("global"):
                out = [more[0]] + out
                more = more[1:]
            out += more
        if self.p(0.4):
            out += [self.ch(["return x", "return lst", "print(n, k)"])]
        return out


def function(i, body):
    return [f"def fun{i}({progs.PARAMS}):"] + ind(body)


def generate(rng):
    funcs = []
    while len(funcs) < 6:
        f = G(rng).function()
        if progs.parses(function(0, f)) and not any("yield" in l for l in f if rng.random() < 0.9):
            funcs.append(f)
    return {"funcs": funcs}


def render(case):
    lines, start = list(HELPER_LINES), {}
    for i, f in enumerate(case["funcs"]):
        start[i] = len(lines)
        lines += function(i, f) + ["", ""]
    return "\n".join(lines) + "\n", start


# ------------------------------------------------------------------ instrumentation


def stmt(text):
    return ast.parse(text).body[0]


class Around(ast.NodeTransformer):
    """Statements before, after, at the start of the body of one statement; and its test."""

    def __init__(self, target, before=(), after=(), body=()):
        self.target, self.before, self.after, self.body = target, before, after, body

    def visit(self, node):
        node = self.generic_visit(node)
        if node is not self.target:
            return node
        if self.body:
            node.body = [stmt(t) for t in self.body] + node.body
        return [stmt(t) for t in self.before] + [node] + [stmt(t) for t in self.after]


class Anywhere(ast.NodeTransformer):
    """Every path a run may take: conditions are left to chance, failing statements are passed over."""

    def visit_If(self, node):
        self.generic_visit(node)
        node.test = ast.Call(ast.Name("coin__", ast.Load()), [node.test], [])
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        node.iter = ast.Call(ast.Name("some__", ast.Load()), [node.iter], [])
        return node

    def visit_While(self, node):
        self.generic_visit(node)
        node.test = ast.Call(ast.Name("coin__", ast.Load()), [node.test], [])
        return node

    def simple(self, node):
        return ast.Try([node], [ast.ExceptHandler(ast.Name("Exception", ast.Load()), None, [ast.Pass()])], [], [])

    visit_Expr = visit_Assign = visit_AugAssign = visit_Delete = simple


class Events:
    """Events in order, written by the instrumented function."""

    def __init__(self):
        self.events = []

    def env(self, log):
        def note(kind, *a):
            self.events.append((kind,) + a)

        def test(v):
            self.events.append(("test", bool(v)))
            return v

        class Ctx:
            def __enter__(self):
                return 1

            def __exit__(self, *a):
                return False

        def bye(*a):
            raise SystemExit2
        return {"note__": note, "test__": test, "ctx": Ctx, "exit": bye, "poison__": lambda v: 1000003}


class SystemExit2(Exception):
    pass


def run(code, seed, limit=200):
    ev = Events()
    out, log, args = progs.run(code, seed, ev.env, limit=limit)
    return ev.events, (out, log, args)


SEEDS = range(40)
MUTATORS = {"append", "remove", "pop", "insert", "extend", "clear", "sort", "reverse", "add", "discard", "update", "popitem", "setdefault", "difference_update", "intersection_update", "symmetric_difference_update"}


def loops_at(fn, p):
    return [n for n in ast.walk(fn) if isinstance(n, (ast.For, ast.While)) and (n.lineno, n.col_offset) == (p["line"], p["column"])]


def build(tree):
    ast.fix_missing_locations(tree)
    helpers = ast.parse(HELPERS)
    return progs.code_of(ast.fix_missing_locations(ast.Module(helpers.body + tree.body, [])))


def scope_of(fn, node):
    """The innermost function containing the node."""
    best = fn
    for n in ast.walk(fn):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not node and any(k is node for k in ast.walk(n)):
            if n is not fn and any(k is n for k in ast.walk(best)):
                best = n
    return best


def check(p, fn_text):
    """(why the claim is wrong or None, how many runs reached the place)."""
    tree = ast.parse(fn_text)
    fn = tree.body[0]
    code, text = p["code"], p["text"]
    if code in ("R6309", "R6310", "R6606", "E9996"):
        loops = loops_at(fn, p)
        if len(loops) != 1:
            return "there is no loop", 0
        loop = loops[0]
        if code in ("R6309", "R6310"):
            if not isinstance(loop, ast.While):
                return "there is no while loop", 0
            loop.test = ast.Call(ast.Name("test__", ast.Load()), [loop.test], [])
            Around(loop, ["note__('enter')"], ["note__('after')"]).visit(tree)
        else:
            Around(loop, ["note__('enter')"], [], ["note__('body')"]).visit(tree)
        prog = build(tree)
        reached = 0
        for seed in SEEDS:
            events, res = run(prog, seed)
            if code in ("R6309", "R6310"):
                was = False
                for e in events:
                    if e[0] == "enter":
                        was, reached = False, reached + 1
                    elif e == ("test", False) and (was or code == "R6309"):
                        return f"for seed {seed} the condition becomes false", reached
                    elif e == ("test", True):
                        was = True
                    elif e[0] == "after" and (was or code == "R6309"):
                        return f"for seed {seed} the loop is left", reached
            else:
                counts = []
                for e in events:
                    if e[0] == "enter":
                        counts.append(0)
                        reached += 1
                    else:
                        counts[-1] += 1
                most = 0 if "no iterations" in text else 1
                if any(c > most for c in counts):
                    return f"for seed {seed} the loop makes {counts[:6]} iterations", reached
                if code == "R6606" and most == 1 and 0 in counts[:-1]:
                    return f"for seed {seed} the loop makes {counts[:6]} iterations", reached
        return None, reached
    if code == "R6306":
        name = text.split("control variable ")[1].rstrip(".")
        inner = [n for n in ast.walk(fn) if isinstance(n, ast.For) and any(isinstance(t, ast.Name) and (t.lineno, t.col_offset) == (p["line"], p["column"]) for t in ast.walk(n.target))]
        if len(inner) != 1 or name not in [t.id for t in ast.walk(inner[0].target) if isinstance(t, ast.Name)]:
            return "there is no for loop with this variable", 0
        outer = [n for n in ast.walk(fn) if isinstance(n, ast.For) and n is not inner[0] and isinstance(n.target, ast.Name) and n.target.id == name and any(k is inner[0] for st in n.body for k in ast.walk(st))]
        if not any(same_variable(fn, n, inner[0], name) for n in outer):
            return "there is no for loop around it whose control variable this is", 0
        return None, 1
    if code == "R6304":
        name = text.split("control variable ")[1].split(" of a for")[0]
        at = [n for n in ast.walk(fn) if getattr(n, "lineno", None) == p["line"] and getattr(n, "col_offset", None) == p["column"]]
        if not at:
            return "there is nothing at this position", 0
        stores = [t for n in at for t in ast.walk(n) if isinstance(t, ast.Name) and t.id == name and isinstance(t.ctx, (ast.Store, ast.Del))]
        if not stores:
            return "nothing there binds the variable", 0
        outer = [n for n in ast.walk(fn) if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and n.target.id == name and any(k in at for st in n.body for k in ast.walk(st))]
        if not any(same_variable(fn, n, stores[0], name) for n in outer):
            return "there is no for loop around it whose control variable this is", 0
        line = [n for n in ast.walk(fn) if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and n.lineno == p["line"]]
        if len(line) == 1 and sum(isinstance(t, ast.Name) and t.id == name and isinstance(t.ctx, ast.Store) for t in ast.walk(line[0])) == 1 and not any(isinstance(k, ast.NamedExpr) for k in ast.walk(line[0])):
            original = build(ast.parse(fn_text))
            Around(line[0], [], [f"{name} = poison__({name})"]).visit(tree)
        elif isinstance(at[0], ast.With) or any(isinstance(n, ast.With) for n in at):
            original = build(ast.parse(fn_text))
            Around(next(n for n in at if isinstance(n, ast.With)), [], [], [f"{name} = poison__({name})"]).visit(tree)
        else:
            return None, 1
        prog = build(tree)
        for seed in SEEDS:
            _, a = run(original, seed)
            if a[0] == "limit":
                continue
            _, b = run(prog, seed)
            if plain(a) != plain(b):
                return f"for seed {seed} another value there changes the run from {short(a)} to {short(b)}", 1
        return None, 1
    if code == "R6303":
        name = text.split("Iterated structure ")[1].split(" is being")[0]
        at = [n for n in ast.walk(fn) if isinstance(n, ast.Attribute) and (n.lineno, n.col_offset) == (p["line"], p["column"])]
        if len(at) != 1 or ast.unparse(at[0].value) != name:
            return "there is no use of a method of that structure", 0
        if at[0].attr not in MUTATORS:
            return f"{at[0].attr} modifies nothing", 0
        calls = [n for n in ast.walk(fn) if isinstance(n, ast.Call) and n.func is at[0]]
        outer = [n for n in ast.walk(fn) if isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and n.iter.id == name and any(k is at[0] for st in n.body for k in ast.walk(st))]
        if not calls or not outer:
            return "there is no call in a for loop over that structure", 0
        for k, loop in enumerate(outer):
            loop.iter = expr(f"iter__({k}, {name})")
        if scope_of(fn, at[0]) is not scope_of(fn, outer[0]) or any(isinstance(k, ast.FunctionDef) and k is not fn and any(isinstance(q, ast.Name) and q.id == name for q in ast.walk(k)) for k in ast.walk(fn)):
            return None, 0
        at[0].value = expr(f"at__({name})")
        Anywhere().visit(tree)
        prog = build(tree)
        same = differs = 0
        for seed in range(600):
            if seed >= len(SEEDS) and (same or differs <= 2):
                break
            current = {}
            hits = []

            def extra(log):
                env = Events().env(log)

                def it(k, v):
                    current[k] = v
                    return v

                def used(v):
                    hits.append(any(v is c for c in current.values()))
                    return v
                coins = random.Random(seed)
                env.update({"iter__": it, "at__": used, "coin__": lambda v: coins.random() < 0.5, "some__": lambda v: v if coins.random() < 0.6 else ()})
                return env
            progs.run(prog, seed, extra)
            same += sum(hits)
            differs += len(hits) - sum(hits)
        if differs > 2 and not same:
            return f"for all seeds the structure modified is another one ({differs} times)", differs
        return None, same
    return "unknown code", 0


def expr(text):
    return ast.parse(text, mode="eval").body


def same_variable(fn, loop, node, name):
    """Whether the name in the node is the variable of the loop: same function, or nonlocal through."""
    a, b = scope_of(fn, loop), scope_of(fn, node)
    if a is b:
        comp = [c for c in ast.walk(loop) if isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and any(k is node for k in ast.walk(c))]
        return not comp or isinstance(node, ast.Name) and any(isinstance(k, ast.NamedExpr) and k.target is node for c in comp for k in ast.walk(c))
    return isinstance(b, ast.FunctionDef) and any(isinstance(k, (ast.Nonlocal, ast.Global)) and name in k.names for k in ast.walk(b))


def short(res):
    return tuple(str(k)[:300] for k in res)


def plain(res):
    return re.sub(r" at 0x[0-9a-f]+", "", repr(res))


def run_case(case):
    src, start = render(case)
    res = lint.lint_source(src, ENABLE)
    viol, classes, checked = [], [], 0
    for p in res["problems"] or []:
        if p["code"] not in CODES:
            continue
        before = [k for k, s in start.items() if s < p["line"]]
        if not before:
            continue
        i = max(before)
        text = "\n".join(function(i, case["funcs"][i])) + "\n"
        why, reached = check({**p, "line": p["line"] - start[i]}, text)
        classes.append(p["code"] + ("" if reached else ":unreached"))
        checked += bool(reached)
        if why:
            viol.append((f"{p['code']}:{'differs' if 'seed' in why else 'unfit'}", f"{p['code']} on line {p['line'] - start[i]}: {p['text']}\n--- source\n{text}{why}"))
    return Outcome(viol, checked > 0, classes, max(checked, 1), note=[p["text"] for p in res["problems"] or []][:4])


def shrink(case):
    funcs = case["funcs"]
    if len(funcs) > 1:
        for f in funcs:
            yield {**case, "funcs": [f]}
        return
    for g in progs.smaller_functions(function(0, funcs[0]), keep=1):
        yield {**case, "funcs": [[l[4:] for l in g[1:]]]}
