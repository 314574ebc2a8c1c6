"""Random small programs with loops, and their execution with a limit on iterations and a log of effects."""
import ast
import random
import re
import signal


class Progs:
    """Statements over integer and list variables. Hooks add the statements and expressions a check is about."""

    def __init__(self, rng, ints=("i", "j", "k", "n", "x"), lists=("lst", "other"), hot=None, hot_expr=None, hot_p=0.3, flow=True, calls=True):
        self.r = rng
        self.ints, self.lists = list(ints), list(lists)
        self.assignable = list(ints)
        self.hot, self.hot_expr, self.hot_p = hot, hot_expr, hot_p
        self.flow, self.calls = flow, calls
        self.loopvars = ["j", "k", "e", "x"]

    def ch(self, seq):
        return seq[self.r.randrange(len(seq))]

    def p(self, x):
        return self.r.random() < x

    def var(self):
        return self.ch(self.ints)

    def expr(self, d=1):
        if self.hot_expr and self.p(self.hot_p):
            return self.hot_expr()
        r = self.r.random()
        if r < 0.45 or d <= 0:
            return self.var()
        if r < 0.6:
            return self.ch(["0", "1", "2", "3", "5", "-1"])
        if r < 0.85:
            op = self.ch(["+", "-", "*", "+", "%"])
            # products of variables in loops would grow beyond measure
            return f"{self.atom(d - 1)} {op} {self.atom(d - 1) if op != '*' and self.p(0.5) else self.ch('123')}"
        if r < 0.9 and self.calls:
            return f"f({self.expr(d - 1)})"
        if r < 0.94:
            return f"len({self.ch(self.lists)})"
        if r < 0.97:
            return f"sum({self.ch(self.lists)})"
        return f"({self.expr(d - 1)} if {self.cond(0)} else {self.var()})"

    def atom(self, d=0):
        e = self.expr(d)
        return e if re.fullmatch(r"[\w.]+|[\w.]+\([\w, .]*\)|\w+\[\w+\]|\(.*\)", e) and e.count("(") < 2 else f"({e})"

    def cond(self, d=1):
        r = self.r.random()
        if r < 0.7 or d <= 0:
            return f"{self.expr(0)} {self.ch(['<', '<=', '>', '>=', '==', '!='])} {self.expr(0)}"
        if r < 0.8:
            return f"{self.var()} % 2 == {self.ch('01')}"
        if r < 0.86:
            return self.ch([self.var(), self.ch(self.lists), f"not {self.var()}"])
        if r < 0.9:
            return f"{self.var()} in {self.ch(self.lists)}"
        return f"{self.cond(0)} {self.ch(['and', 'or'])} {self.cond(0)}"

    def simple(self, loop):
        if self.hot and self.p(self.hot_p):
            return self.hot()
        r = self.r.random()
        if r < 0.25:
            return [f"print({self.expr()})"]
        if r < 0.5:
            return [f"{self.ch(self.assignable)} {self.ch(['=', '=', '+=', '-='])} {self.expr()}"]
        if r < 0.6:
            return [f"{self.ch(self.lists)}.append({self.expr()})"]
        if r < 0.66 and self.calls:
            return [f"f({self.expr()})"]
        if r < 0.7:
            return [f"{self.ch(self.assignable)}, {self.ch(self.assignable)} = {self.expr(0)}, {self.expr(0)}"]
        if r < 0.76 and self.flow and loop:
            return [self.ch(["break", "continue"])]
        if r < 0.78 and self.flow:
            return [self.ch([f"return {self.expr()}", "return", "raise ValueError(1)"])]
        if r < 0.8:
            return ["pass"]
        return [f"print({self.expr(0)}, {self.expr(0)})"]

    def compound(self, depth, loop):
        r = self.r.random()
        if r < 0.6:
            out = [f"if {self.cond()}:"] + ind(self.block(depth - 1, loop))
            if self.p(0.2):
                out += [f"elif {self.cond()}:"] + ind(self.block(depth - 1, loop))
            if self.p(0.35):
                out += ["else:"] + ind(self.block(depth - 1, loop))
            return out
        if r < 0.75:
            v = self.ch(self.loopvars)
            out = [f"for {v} in range({self.ch(['2', '3', 'n', 'k', '1, 3', 'x, n'])}):"]
        elif r < 0.85:
            out = [f"for {self.ch(self.loopvars)} in {self.ch(self.lists)}:"]
        else:
            out = [f"while {self.cond()}:"]
        out += ind(self.block(depth - 1, True))
        if self.p(0.08):
            out += ["else:"] + ind(self.block(depth - 1, loop))
        return out

    def block(self, depth, loop, n=None):
        out = []
        for _ in range(n or self.ch([1, 1, 2, 2, 3])):
            out += self.compound(depth, loop) if depth > 0 and self.p(0.35) else self.simple(loop)
        return out


def ind(lines):
    return ["    " + l for l in lines]


def indent(l):
    return len(l) - len(l.lstrip())


def parses(lines):
    try:
        compile("\n".join(lines) + "\n", "<progs>", "exec")
        return True
    except (SyntaxError, ValueError):
        return False


# ------------------------------------------------------------------ execution


class Limit(BaseException):
    """Too many iterations."""


class Ticks(ast.NodeTransformer):
    """A call of tick at the start of every loop body."""

    def loop(self, node):
        self.generic_visit(node)
        tick = ast.copy_location(ast.Expr(ast.Call(ast.Name("tick__", ast.Load()), [], [])), node)
        node.body.insert(0, tick)
        return node

    visit_For = visit_While = visit_AsyncFor = loop


def code_of(tree_or_text):
    tree = ast.parse(tree_or_text) if isinstance(tree_or_text, str) else tree_or_text
    if isinstance(tree, (ast.FunctionDef, ast.stmt)):
        tree = ast.Module([tree], [])
    tree = Ticks().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, "<progs>", "exec")


class Obj:
    def __init__(self, items, n):
        self.items, self.n = items, n

    def __repr__(self):
        return f"Obj({self.items!r}, {self.n!r})"


def arguments(rng):
    """Values for the parameters o, lst, other, mat, s, n, k, x."""
    lists = lambda: [rng.randint(-3, 5) for _ in range(rng.choice([0, 1, 2, 3, 3, 4, 5]))]  # noqa
    return {"o": Obj(lists(), rng.randint(0, 4)), "lst": lists(), "other": lists(), "mat": [lists() + [1, 2, 3] for _ in range(4)], "s": "".join(rng.choice("abc") for _ in range(rng.randint(0, 4))),
            "n": rng.randint(-2, 6), "k": rng.randint(-2, 6), "x": rng.randint(-3, 7)}


PARAMS = "o, lst, other, mat, s, n, k, x"


def run(code, seed, extra=None, limit=200):
    """(outcome, log, final arguments); the outcome is 'limit' when an execution is too long."""
    rng = random.Random(seed)
    log = []
    left = [limit]

    def tick():
        left[0] -= 1
        if left[0] < 0:
            raise Limit

    def f(v):
        log.append(("f", repr(v)))
        return v

    feed = [str(rng.randint(-2, 6)) for _ in range(40)]

    def inp():
        log.append("input")
        return feed.pop()

    def show(*a):
        log.append(("print", repr(a)))

    env = {"__builtins__": {"input": inp, "print": show, "int": int, "len": len, "range": range, "sum": sum, "abs": abs, "enumerate": enumerate, "ValueError": ValueError, "max": max, "min": min,
                            "str": str, "list": list, "reversed": reversed, "zip": zip, "sorted": sorted, "Exception": Exception, "IndexError": IndexError, "float": float, "isinstance": isinstance,
                            "__build_class__": __build_class__, "__name__": "m", "any": any, "all": all, "set": set, "dict": dict, "tuple": tuple, "bool": bool},
           "f": f, "tick__": tick}
    if extra:
        env.update(extra(log))
    args = arguments(rng)

    def too_long(*_):
        raise Limit
    old = signal.signal(signal.SIGALRM, too_long)
    before = signal.setitimer(signal.ITIMER_REAL, 10)[0]
    try:
        return _run(code, env, args, log)
    finally:
        signal.setitimer(signal.ITIMER_REAL, max(before - 0.1, 0.01) if before else 0)
        signal.signal(signal.SIGALRM, old)


def _run(code, env, args, log):
    try:
        exec(code, env)
        fun = next(v for key, v in env.items() if key.startswith("fun"))
        out = ("value", repr(fun(**args)))
    except Limit:
        return "limit", log, None
    except RecursionError:
        return "limit", log, None
    except ValueError as e:
        if str(e) != "1":
            out = ("implicit", type(e).__name__)
        else:
            out = ("exception", type(e).__name__)
    except (OverflowError, MemoryError):
        return "limit", log, None
    except Exception as e:  # noqa
        out = ("implicit", type(e).__name__)
    try:
        return out, log, repr(args)
    except (ValueError, MemoryError):
        return "limit", log, None


# ------------------------------------------------------------------ shrinking


def smaller_functions(lines, keep=0):
    """Versions of a function's text with blocks, lines or parts of lines removed."""
    for a in range(keep, len(lines)):
        e = a + 1
        while e < len(lines) and indent(lines[e]) > indent(lines[a]):
            e += 1
        seen = []
        for g in (lines[:a] + lines[e:], lines[:a] + [l[4:] for l in lines[a + 1:e]] + lines[e:], lines[:a] + [lines[a][:indent(lines[a])] + "pass"] + lines[e:]):
            if g not in seen and (len(g) < len(lines) or g[a].strip() == "pass" != lines[a].strip()) and parses(g):
                seen.append(g)
                yield g
        for s in smaller_line(lines[a]):
            g = lines[:a] + [s] + lines[a + 1:]
            if parses(g):
                yield g


def smaller_line(line):
    pad = line[:indent(line)]
    text = line.strip()
    for head, tail in (("if ", ":"), ("elif ", ":"), ("while ", ":"), ("return ", ""), ("print(", ")"), ("f(", ")")):
        if text.startswith(head) and text.endswith(tail) and len(text) > len(head) + len(tail):
            for s in smaller_expr(text[len(head):len(text) - len(tail)]):
                yield f"{pad}{head}{s}{tail}"
    m = re.match(r"(for \w+ in )(.*):$", text)
    if m:
        for s in smaller_expr(m.group(2)):
            yield f"{pad}{m.group(1)}{s}:"
    m = re.match(r"([\w.\[\]]+ (?:[-+*/%|&]|//)?= )(.*)$", text)
    if m:
        for s in smaller_expr(m.group(2)):
            yield f"{pad}{m.group(1)}{s}"


def smaller_expr(text):
    import copy

    try:
        tree = ast.parse(text, mode="eval")
    except SyntaxError:
        return
    nodes = list(ast.walk(tree))
    for idx, n in enumerate(nodes):
        if not isinstance(n, ast.expr):
            continue
        news = [k for k in ast.iter_child_nodes(n) if isinstance(k, ast.expr)]
        if not isinstance(n, (ast.Name, ast.Constant)):
            news.append(ast.Constant(1))
        for k in news:
            memo = {}
            t = copy.deepcopy(tree, memo)
            target, new = memo.get(id(n)), copy.deepcopy(k)

            class Q(ast.NodeTransformer):
                def visit(self, node):
                    return new if node is target else self.generic_visit(node)
            try:
                s = ast.unparse(Q().visit(t))
            except Exception:  # noqa
                continue
            if len(s) < len(text):
                yield s
