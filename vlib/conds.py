"""Pure conditions over numbers: generation near the recognised patterns, and exact evaluation."""
import ast
import itertools
import random
from fractions import Fraction

INTS = ["x", "y", "z"]
REALS = ["p", "q"]
FREE = ["u", "v"]  # parameters of unknown type
LISTS = ["xs"]
CMP = ["<", "<=", ">", ">=", "==", "!="]
INEQ = ["<", "<=", ">", ">="]
FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}


class CondGen:
    def __init__(self, rng, names=None, kinds=("int",)):
        self.r = rng
        self.kinds = kinds
        pool = []
        if "int" in kinds:
            pool += INTS
        if "real" in kinds:
            pool += REALS
        if "free" in kinds:
            pool += FREE
        k = rng.choice([1, 1, 2, 2, 3])
        self.names = names or rng.sample(pool, min(k, len(pool)))
        self.consts = [rng.randint(-6, 6) for _ in range(rng.choice([1, 2, 3]))]

    def ch(self, seq):
        return seq[self.r.randrange(len(seq))]

    def p(self, x):
        return self.r.random() < x

    def var(self):
        return self.ch(self.names)

    def const(self):
        r = self.r.random()
        if r < 0.6:
            c = self.ch(self.consts)
            if self.p(0.25):
                c = -c
        elif r < 0.9:
            c = self.r.randint(-5, 6)
        else:
            c = self.r.randint(-40, 40)
        if "real" in self.kinds and self.p(0.2):
            return self.ch([f"{c}.0", f"{c}.5", "0.25", "-0.5"])
        if self.p(0.03):
            return self.ch([f"{abs(c)} + 1", f"-({c})", f"2 * {abs(c)}", f"{abs(c)} - 1"])
        return str(c)

    # ------------------------------------------------------- expressions
    def term(self, d=1):
        """A non-constant numeric expression."""
        r = self.r.random()
        v = self.var()
        if r < 0.5 or d <= 0:
            return v
        if r < 0.58:
            return f"{v} {self.ch('+-')} {self.operand(d - 1)}"
        if r < 0.63:
            return f"{self.ch(['2', '3', '-1'])} * {self.par(self.term(d - 1))}"
        if r < 0.68:
            return f"-{self.par(self.term(d - 1))}"
        if r < 0.76:
            return f"abs({self.term(d - 1)})"
        if r < 0.8:
            return f"abs({self.term(d - 1)}) {self.ch('+-*')} {self.ch(['1', '2', '3', v])}"
        if r < 0.84 and self.kinds == ("int",):
            return f"{self.par(self.term(d - 1))} % {self.ch(['2', '2', '3', '4', '5', '7'])}"
        if r < 0.88 and self.kinds == ("int",):
            return f"{self.par(self.term(d - 1))} // {self.ch(['2', '3', '-2', '-3', '1', '5'])}"
        if r < 0.9:
            return f"{self.ch(['max', 'min'])}({self.operand(d - 1)}, {self.operand(d - 1)})"
        if r < 0.91:
            return f"{self.ch(['max', 'min'])}({self.operand(0)}, {self.operand(0)}) {self.ch('+-')} {self.operand(0)}"
        if r < 0.92:
            return self.ch(["len(xs)", "max(xs)", "min(xs)", "sum(xs)", "xs[0]", f"max(xs[0], {v})", f"max(xs) {self.ch('+-')} {v}"])
        if r < 0.94:
            return f"{v} {self.ch('*-+')} {self.ch(self.names)}"
        if r < 0.95:
            return f"({self.ch(self.names)} if {self.simple_cmp()} else {self.operand(0)})"
        if r < 0.96:
            return f"({self.ch(self.names)} {self.ch(['or', 'and'])} {self.operand(0)})"
        if r < 0.97:
            return f"{self.par(self.term(d - 1))} / {self.ch(['2', '4', '-2'])}"
        if r < 0.98:
            return f"(not {v})"
        if r < 0.99:
            return f"{v} ** 2"
        return f"({self.term(0)} {self.ch(CMP)} {self.operand(0)})"

    def operand(self, d=1):
        return self.term(d) if self.p(0.6) else self.const()

    def par(self, e):
        return e if e.isidentifier() or (e.endswith(")") and e.split("(")[0].isidentifier() and e.count("(") == 1) else f"({e})"

    def side(self, e):
        """An operand of a comparison: brackets for what binds less tightly."""
        return e

    # ------------------------------------------------------- comparisons
    def simple_cmp(self):
        return f"{self.var()} {self.ch(CMP)} {self.operand(0)}"

    def cmp_of(self, e, op, c):
        return f"{e} {op} {c}" if self.p(0.7) else f"{c} {FLIP[op]} {e}"

    def near_abs(self):
        """e < c and e > -c and friends."""
        e = self.term(2)
        c = self.r.randint(0, 6)
        cs = [str(c), str(-c) if self.p(0.8) else str(self.r.randint(-6, 6))]
        if self.p(0.3):
            cs.reverse()
        if self.p(0.1):
            cs = [k + ".0" if self.p(0.5) else k for k in cs]
        ops = [self.ch(["<", "<="]), self.ch([">", ">="])]
        if self.p(0.7):
            ops[1] = FLIP[ops[0]]
        parts = [self.cmp_of(e, o, k) for o, k in zip(ops, cs)]
        self.r.shuffle(parts)
        return parts

    def near_redundant(self):
        e = self.term(2)
        return [self.cmp_of(e, self.ch(INEQ), self.const()) for _ in range(self.ch([2, 2, 3, 4]))]

    def near_maxmin(self):
        e = self.term(1)
        op = self.ch(INEQ)
        parts = []
        for _ in range(self.ch([2, 2, 3])):
            o = op if self.p(0.85) else self.ch(INEQ)
            k = self.term(2) if self.p(0.85) else self.const()
            parts.append(self.cmp_of(e, o, k))
        return parts

    def near_mod(self):
        a, b = self.var(), self.var()
        if self.p(0.4):
            a = self.par(self.term(1))
        if self.p(0.3):
            b = self.par(self.term(1))
        m = self.ch([2, 2, 2, 3, 3, 4])
        parts = []
        kind = self.r.random()
        for i in range(m):
            if kind < 0.4:
                o1 = o2 = "=="
                r1 = r2 = i
            elif kind < 0.7:
                o1, o2 = "==", "!="
                r1 = r2 = i
            elif kind < 0.85:
                o1 = o2 = "=="
                r1, r2 = i, self.r.randrange(m)
            else:
                o1, o2 = self.ch(["==", "!="]), self.ch(["==", "!="])
                r1, r2 = self.r.randrange(m), self.r.randrange(m)
            if self.p(0.04):
                r1 = self.ch([m, -1, r1])
            if self.p(0.04):
                o1 = "!="
            l = [self.cmp_of(f"{a} % {m if self.p(0.98) else m + 1}", o1, r1), self.cmp_of(f"{b} % {m}", o2, r2)]
            if self.p(0.3):
                l.reverse()
            parts.append(f"({' and '.join(l)})" if self.p(0.3) else " and ".join(l))
        if kind >= 0.7:
            for _ in range(self.r.randrange(m * m)):
                parts.append(f"{a} % {m} == {self.r.randrange(m)} and {b} % {m} == {self.r.randrange(m)}")
        if self.p(0.08) and parts:
            parts.pop()
        self.r.shuffle(parts)
        return parts

    def atom(self):
        r = self.r.random()
        if r < 0.7:
            return self.cmp_of(self.term(1), self.ch(CMP), self.const())
        if r < 0.85:
            return self.cmp_of(self.term(1), self.ch(CMP), self.term(1))
        if r < 0.9:
            return f"not {self.cmp_of(self.term(0), self.ch(CMP), self.const())}"
        if r < 0.94:
            return self.var()
        if r < 0.97:
            return f"{self.operand(0)} {self.ch(CMP)} {self.var()} {self.ch(CMP)} {self.operand(0)}"
        if r < 0.985:
            return f"{self.const()} {self.ch(CMP)} {self.const()}"
        return self.ch(["True", "False", "1", "0"])

    def wrap(self, part, op):
        need = any(f" {o} " in part for o in ("and", "or")) and not (part.startswith("(") and part.count("(") == 1 and part.endswith(")"))
        if need and (op == "and" or self.p(0.3)):
            return f"({part})"
        return part

    def join(self, parts, op):
        return f" {op} ".join(self.wrap(p, op) for p in parts)

    def cond(self, d=2):
        r = self.r.random()
        op = self.ch(["and", "or"])
        if r < 0.2:
            parts = self.near_abs()
        elif r < 0.35:
            parts = self.near_redundant()
        elif r < 0.5:
            parts = self.near_maxmin()
        elif r < 0.62 and self.kinds == ("int",):
            parts = self.near_mod()
            op = "or" if self.p(0.95) else "and"
        else:
            parts = [self.atom() if d <= 0 or self.p(0.75) else self.sub(d - 1) for _ in range(self.ch([2, 2, 2, 3, 3, 4]))]
        if self.p(0.15):
            parts.insert(self.r.randint(0, len(parts)), self.atom())
        if self.p(0.08):
            parts.insert(self.r.randint(0, len(parts)), self.ch(parts))
        if d > 0 and self.p(0.12):
            parts.insert(self.r.randint(0, len(parts)), self.sub(d - 1))
        s = self.join(parts, op)
        if self.p(0.06):
            s = f"not ({s})"
        return s

    def sub(self, d):
        s = self.cond(d)
        return f"({s})" if self.p(0.9) or " " in s else s


def compiles_cond(text):
    try:
        ast.parse(text, mode="eval")
        return True
    except (SyntaxError, ValueError, RecursionError):
        return False


# ------------------------------------------------------------ exact evaluation


class Exact(ast.NodeTransformer):
    """Float constants and true division become exact rational arithmetic."""

    def visit_Constant(self, node):
        if isinstance(node.value, float):
            return ast.copy_location(ast.Call(ast.Name("_F", ast.Load()), [ast.Constant(repr(node.value))], []), node)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("_div", ast.Load()), [node.left, node.right], []), node)
        return node


def _div(a, b):
    return Fraction(a) / Fraction(b)


GLOBALS = {"_F": Fraction, "_div": _div, "abs": abs, "max": max, "min": min, "len": len, "sum": sum, "round": round, "__builtins__": {}}


def compiled(text, names):
    tree = ast.parse(f"lambda {', '.join(names)}: bool({text}\n)", mode="eval")
    tree = ast.fix_missing_locations(Exact().visit(tree))
    return eval(compile(tree, "<cond>", "eval"), {**GLOBALS, "bool": bool})


def names_in(*texts):
    res = set()
    for t in texts:
        for n in ast.walk(ast.parse(t, mode="eval")):
            if isinstance(n, ast.Name) and n.id not in GLOBALS:
                res.add(n.id)
    return sorted(res)


def has_int_operation(*texts):
    for t in texts:
        for n in ast.walk(ast.parse(t, mode="eval")):
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv, ast.Pow, ast.LShift, ast.RShift, ast.BitAnd, ast.BitOr, ast.BitXor)):
                return True
    return False


def int_operation_on_fractions(*texts):
    """Whether %, // or the like is applied to a quotient or a float."""
    for t in texts:
        for n in ast.walk(ast.parse(t, mode="eval")):
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mod, ast.FloorDiv)):
                for k in list(ast.walk(n.left)) + list(ast.walk(n.right)):
                    if (isinstance(k, ast.BinOp) and isinstance(k.op, ast.Div)) or (isinstance(k, ast.Constant) and isinstance(k.value, float)):
                        return True
    return False


def constants_in(*texts):
    res = set()
    for t in texts:
        for n in ast.walk(ast.parse(t, mode="eval")):
            if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                res.add(Fraction(repr(n.value)))
    return res


def grid(names, texts, limit=2000, ints_only=None):
    """Assignments over which conditions are compared: values around all constants."""
    rng = random.Random("|".join(texts))
    consts = constants_in(*texts)
    near = {Fraction(0), Fraction(1), Fraction(-1), Fraction(2), Fraction(-2)}
    for c in consts:
        for k in (c, -c):
            near.update((k - 1, k, k + 1))
    cl = sorted(consts)
    for a in cl[:6]:
        for b in cl[:6]:
            near.update((a + b, a - b, a * b if abs(a * b) < 200 else a))
            if b and b.denominator == 1:
                near.update((a / b, a / b + 1, a / b - 1))
    domains = []
    for n in names:
        real = n in REALS or (n in FREE and not ints_only)
        if n in LISTS:
            domains.append([list(range(k)) for k in range(0, 8)])
        elif real:
            vals = set(near)
            for v in list(near):
                vals.add(v + Fraction(1, 2))
                vals.add(v - Fraction(1, 3))
            domains.append(sorted(vals) + [Fraction(1000), Fraction(-1000)])
        else:
            vals = {int(v) for v in near if v.denominator == 1} | {v.__floor__() for v in near} | set(range(-4, 8)) | {100, -100}
            domains.append(sorted(vals))
    total = 1
    for d in domains:
        total *= len(d)
    if total <= limit:
        yield from itertools.product(*domains)
        return
    # variables close to one another matter for comparisons between variables
    for i in range(limit):
        if i % 3 == 0 and all(not isinstance(d[0], list) for d in domains):
            base = domains[0][rng.randrange(len(domains[0]))]
            yield tuple(base + rng.randint(-2, 2) for _ in domains)
        elif i % 3 == 1 and all(not isinstance(d[0], list) for d in domains):
            yield tuple(rng.randint(-7, 7) for _ in domains)
        else:
            yield tuple(d[rng.randrange(len(d))] for d in domains)


def evaluate(f, point):
    try:
        return f(*point)
    except (ZeroDivisionError, ValueError, OverflowError, TypeError, IndexError, AttributeError) as e:
        return type(e).__name__


def first_difference(a, b, names=None, limit=2000):
    """An assignment where the conditions have different values."""
    names = names if names is not None else names_in(a, b)
    fa, fb = compiled(a, names), compiled(b, names)
    ints_only = has_int_operation(a, b)
    for pt in grid(names, [a, b], limit, ints_only):
        va = evaluate(fa, pt)
        if isinstance(va, str):
            continue
        vb = evaluate(fb, pt)
        if va is not vb and not isinstance(vb, str):
            return dict(zip(names, [str(v) for v in pt])), va, vb
    return None


def first_point(text, want, names=None, limit=2000):
    """An assignment where the condition has the truth value wanted."""
    names = names if names is not None else names_in(text)
    f = compiled(text, names)
    for pt in grid(names, [text], limit, has_int_operation(text)):
        if evaluate(f, pt) is want:
            return dict(zip(names, [str(v) for v in pt]))
    return None


def prologue(names):
    """Statements giving the names their types; names of unknown type are parameters."""
    out = []
    for n in names:
        if n in INTS:
            out.append(f"{n} = int(input())")
        elif n in REALS:
            out.append(f"{n} = float(input())")
        elif n in LISTS:
            out.append(f"{n} = input().split()")
    return out


def params(names):
    return ", ".join(n for n in names if n in FREE)
