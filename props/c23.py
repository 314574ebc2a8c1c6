"""C23: ifs said to be able to be elifs are mutually exclusive."""
import ast
import copy
import random
import re

from props import c20
from vlib import conds, lint
from vlib.core import Outcome

CASES = {"quick": 1500, "thorough": 60000}
RULE = (
    "A case is a file of six functions with two to five consecutive ifs (some with elifs, the last sometimes with else) over integer variables read from input, their "
    "conditions drawn from intervals and residues of few terms, now and then from arbitrary conditions, their bodies assigning variables (plain, augmented, tuple, annotated, "
    "conditional), asserting, printing, returning, raising, calling functions that change globals, and nesting ifs and loops, at function level and in loops; or with an if standing "
    "in an else branch. Where the tool says that the next N ifs can be elifs, they are joined and both versions run on up to 500 assignments around all constants, comparing trace, result, "
    "final variables and exception. Non-trivial: at least one suggestion was executed."
)
ASSUMPTIONS = ["variables are integers, as the property says; divisions of variables are kept within values where floats are exact",
               "assignments for which the original raises implicitly (division by zero and the like) are skipped"]
ENABLE = ["use-if-elif-else", "use-if-elif-else-modifying", "use-elif"]
NAMES = ["x", "y", "z"]


def prepare():
    lint.preload()


class G(conds.CondGen):
    def __init__(self, rng):
        super().__init__(rng, kinds=("int",))
        self.names = rng.sample(NAMES, rng.choice([1, 1, 2, 2, 3]))
        if rng.random() < 0.08:
            self.names.append("gl")
        self.terms = [self.key_term() for _ in range(self.ch([1, 1, 1, 2]))]
        self.modifying = self.ch([0.0, 0.3, 0.6, 0.9])
        self.ending = self.ch([0.0, 0.0, 0.05, 0.2, 0.4])

    def key_term(self):
        r = self.r.random()
        v = self.var()
        if r < 0.55:
            return v
        if r < 0.7:
            return f"{v} % {self.ch('2345')}"
        if r < 0.78:
            return f"{v} {self.ch('+-')} {self.var()}"
        if r < 0.84:
            return f"{v} // {self.ch(['2', '3', '-2'])}"
        if r < 0.88:
            return f"abs({v})"
        if r < 0.92:
            return f"{v} * {self.var()}"
        if r < 0.95:
            return f"{v} / 2"
        if r < 0.97:
            return f"{v} ** 2"
        return self.ch([f"{v} % {self.var()}", f"2 * {v} - 1", f"-{v}", f"h({v})"])

    def exclusive(self, k):
        """k conditions that are often exclusive."""
        t = self.ch(self.terms)
        r = self.r.random()
        if "%" in t and r < 0.6:
            m = int(t.split()[-1]) if t.split()[-1].isdigit() else 3
            vals = list(range(m))
            self.r.shuffle(vals)
            res = [f"{t} == {vals[i % m]}" for i in range(k)]
        elif r < 0.5:
            cuts = sorted(self.r.sample(range(-6, 8), k - 1 if k > 1 else 1))
            res = []
            for i in range(k):
                lo = None if i == 0 else cuts[i - 1]
                hi = None if i == k - 1 else cuts[i] if i < len(cuts) else None
                parts = []
                if lo is not None:
                    parts.append(self.cmp_of(t, ">=", lo) if self.p(0.6) else self.cmp_of(t, ">", lo - (0 if self.p(0.3) else 1)))
                if hi is not None:
                    parts.append(self.cmp_of(t, "<", hi) if self.p(0.6) else self.cmp_of(t, "<=", hi - 1))
                res.append(" and ".join(parts) or f"{t} == {self.const()}")
            if self.p(0.5):
                self.r.shuffle(res)
        elif r < 0.85:
            vals = self.r.sample(range(-4, 6), k)
            res = [self.cmp_of(t, "==", v) for v in vals]
        else:
            other = self.ch(self.terms)
            res = [self.cmp_of(t, ["<", "==", ">"][i % 3], other if other != t else 3) for i in range(k)]
            self.r.shuffle(res)
        for i in range(k):
            q = self.r.random()
            if q < 0.15:
                res[i] = f"{self.wrap(res[i], 'and')} and {self.atom()}"
            elif q < 0.18:
                res[i] = f"not ({res[i]})"
            elif q < 0.2:
                res[i] = self.cond(1)
            elif q < 0.23:
                res[i] = self.ch([self.var(), f"not {self.var()}", self.cmp_of(self.term(1), self.ch(conds.CMP), self.const())])
        return res

    def val(self):
        r = self.r.random()
        v = self.ch(self.names if self.p(0.8) else NAMES)
        if r < 0.25:
            return str(self.r.randint(-6, 8))
        if r < 0.5:
            return f"{v} {self.ch('+-')} {self.r.randint(0, 6)}"
        if r < 0.6:
            return v
        if r < 0.68:
            return f"{v} {self.ch('+-*')} {self.ch(NAMES)}"
        if r < 0.74:
            return f"{self.ch(['2', '-1', '3'])} * {v}"
        if r < 0.8:
            return f"{v} {self.ch(['//', '%'])} {self.ch(['2', '3', '-2', '5'])}"
        if r < 0.83:
            return f"-{v}"
        if r < 0.86:
            return f"abs({v})"
        if r < 0.92:
            return f"{v} if {self.cmp_of(self.var(), self.ch(conds.CMP), self.const())} else {self.ch([str(self.r.randint(-5, 5)), v, f'{v} + 1'])}"
        if r < 0.94:
            return f"{v} / {self.ch(['2', '4'])}"
        if r < 0.96:
            return f"{v} // {self.ch(NAMES)}"
        if r < 0.97:
            return self.ch(["2.5", "0.5", "h(x)", "int(x)", f"max({v}, 1)", "True"])
        return f"h({v})"

    def stmt(self, d):
        r = self.r.random()
        v = self.ch(self.names if self.p(0.8) else NAMES)
        if self.p(self.ending) and d < 2:
            return [self.ch(["return x", "return", "raise ValueError", "@break", "@continue"])]
        if self.p(self.modifying):
            if r < 0.35:
                return [f"{v} = {self.val()}"]
            if r < 0.6:
                return [f"{v} {self.ch('+-+-*')}= {self.ch([str(self.r.randint(0, 5)), self.ch(NAMES)])}"]
            if r < 0.65:
                return [f"{v} {self.ch(['//', '%', '/', '**'])}= {self.ch('223')}"]
            if r < 0.7:
                a, b = self.r.sample(NAMES, 2)
                return [f"{a}, {b} = {self.ch([f'{b}, {a}', f'{a} + 1, {self.r.randint(-3, 5)}', f'{b}, 0'])}"]
            if r < 0.73:
                return [f"{v}: int = {self.val()}"]
            if r < 0.76:
                return [f"assert {self.cmp_of(self.var(), self.ch(conds.CMP), self.const())}"]
            if r < 0.79:
                return [self.ch([f"{v} = w = {self.val()}", f"w = {self.val()}", "bump()", f"{v} = int(input())", f"print(({v} := {v} + 1))"])]
            if r < 0.82:
                return [f"for {self.ch([v, 'k'])} in range(2):"] + ["    " + l for l in self.stmt(d - 1)]
            if d > 0:
                return self.nested(d - 1)
            return [f"{v} = {self.val()}"]
        if r < 0.5:
            return [f"print({self.ch(['1', '2', v, repr('a')])})"]
        if r < 0.6:
            return ["pass"]
        if r < 0.75 and d > 0:
            return self.nested(d - 1)
        if r < 0.85:
            return [f"w = {self.val()}"]
        return [f"w {self.ch('+-')}= 1"] if self.p(0.7) else [self.ch(["h(x)", "bump()", "print(x)", "x", "assert w < 9"])]

    def nested(self, d):
        c = self.ch([self.cmp_of(self.var(), self.ch(conds.CMP), self.const()), self.exclusive(1)[0]])
        res = [f"if {c}:"] + self.block(d)
        if self.p(0.3):
            res += [f"elif {self.exclusive(1)[0]}:"] + self.block(d)
        if self.p(0.4):
            res += ["else:"] + self.block(d)
        return res

    def block(self, d=1):
        res = []
        for _ in range(self.ch([1, 1, 2, 2, 3])):
            res += self.stmt(d)
        return ["    " + l for l in res]

    def ifs(self):
        res = []
        n = self.ch([2, 2, 2, 3, 3, 4])
        shape = [self.ch([1, 1, 1, 2, 3]) for _ in range(n)]
        total = sum(shape)
        cs = self.exclusive(min(total, 9))
        while len(cs) < total:
            cs.append(self.ch(cs))
        k = 0
        for i, m in enumerate(shape):
            for j in range(m):
                res += [f"{'el' if j else ''}if {cs[k]}:"] + self.block(self.ch([0, 1, 1, 2]))
                k += 1
            if self.p(0.3 if i == n - 1 else 0.02):
                res += ["else:"] + self.block(0)
        return res

    def function(self):
        body = self.ifs()
        if self.p(0.06):
            body = [f"if {self.cond(1)}:"] + self.block(1) + ["else:"] + ["    " + l for l in self.ifs()]
        elif self.p(0.06):
            body = [f"if {self.cond(1)}:"] + self.block(0) + ["else:"] + ["    " + l for l in self.nested(1)] + (["    print(7)"] if self.p(0.3) else [])
        if self.p(0.2):
            body = [self.ch(["for i in range(3):", "for y in (1, 4, 0):", "for x in range(-2, 3):"])] + ["    " + l for l in body]
            body = [l.replace("@", "") for l in body]
        else:
            body = [re.sub(r"@.*", "return y", l) for l in body]
        pro = [f"{n} = int(input())" for n in NAMES]
        if self.p(0.15):
            pro[self.r.randrange(3)] = self.ch(["z = len(input())", "y = 3", "z = abs(int(input())) % 5", "x = x0"])
        return pro + ["w = 0"] + body + ["print('end', x, y, z, w)", "return x + y"]


HEAD = """\
gl = int(input())


def h(k):
    return k % 3


def bump():
    global gl
    gl += 1


"""


def parses(f):
    try:
        compile(HEAD + "def f(x0):\n" + "\n".join("    " + l for l in f), "<c23>", "exec")
        return True
    except SyntaxError:
        return False


def generate(rng):
    funcs = []
    while len(funcs) < 6:
        f = G(rng).function()
        if parses(f) and not any("xs" in l for l in f):
            funcs.append(f)
    return {"funcs": funcs}


def render(case):
    lines, start = HEAD.rstrip("\n").split("\n") + ["", ""], {}
    for i, f in enumerate(case["funcs"]):
        lines.append(f"def fun{i}(x0):")
        start[i] = len(lines)
        lines += ["    " + l for l in f]
        lines += ["", ""]
    return "\n".join(lines) + "\n", start


def joined(ifs):
    """The ifs as one if/elif chain; an if alone in an else branch is as good as an elif."""
    first = ifs[0]
    last = first
    while True:
        while last.orelse and len(last.orelse) == 1 and isinstance(last.orelse[0], ast.If):
            last = last.orelse[0]
        ifs = ifs[1:]
        if not ifs:
            return first
        if last.orelse:
            return None
        last.orelse = [ifs[0]]


class Stop(Exception):
    pass


def run(code, point):
    inputs = list(point[:1])  # gl, at import
    log = []

    def feed():
        if not inputs:
            inputs.append(point[len(log) % len(point)])
        return str(inputs.pop(0))

    def show(*args):
        log.append(args)
        if len(log) > 200:
            raise Stop

    env = {"__builtins__": {"input": feed, "print": show, "int": int, "abs": abs, "len": len, "range": range, "max": max, "min": min, "ValueError": ValueError, "AssertionError": AssertionError}}
    try:
        exec(code, env)
        inputs[:] = [point[1], point[2], point[3]]
        fun = next(v for k, v in env.items() if k.startswith("fun"))
        out = ("value", fun(point[1]))
    except Exception as e:  # noqa
        out = ("exception", type(e).__name__)
    return out, log, env.get("gl")


def differ(old, new, text):
    head = ast.parse(HEAD).body
    a, b = (compile(ast.fix_missing_locations(ast.Module(head + [t], [])), "<c23>", "exec") for t in (old, new))
    pts = conds.grid(["x", "y", "z"], [text], 500)
    rng = random.Random(text)
    for pt in pts:
        full = (rng.randint(-3, 6),) + tuple(pt)
        ra = run(a, full)
        if ra[0][0] == "exception" and ra[0][1] not in ("ValueError", "AssertionError"):
            continue
        rb = run(b, full)
        if ra != rb:
            return f"for (gl, x, y, z) = {full} the original gives {ra}, the joined ifs {rb}"
    return None


def all_constants(fn):
    vals = sorted({n.value for n in ast.walk(fn) if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool)})
    return " + ".join(str(v) if v >= 0 else f"({v})" for v in vals[:14]) or "0"


def run_case(case):
    src, start = render(case)
    res = lint.lint_source(src, ENABLE)
    viol, classes, checked = [], [], 0
    for p in res["problems"] or []:
        if p["code"] not in ("R6223", "R6224", "R6605"):
            continue
        i = max(k for k, s in start.items() if s < p["line"])
        fn = next(n for n in ast.parse(src).body if getattr(n, "name", "") == f"fun{i}")
        old = copy.deepcopy(fn)
        tell = f"{p['code']} on line {p['line'] - start[i]} of the body: {p['text']}\n--- source\n{ast.unparse(fn)}"
        if p["code"] == "R6605":
            parent = [n for n in ast.walk(fn) if isinstance(n, ast.If) and len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If) and n.orelse[0].lineno == p["line"]]
            checked += 1
            classes.append("R6605")
            if not parent:
                viol.append(("R6605:not-alone", f"{tell}\nthere is no if alone in an else branch on that line"))
            elif parent[0].orelse[0].col_offset == parent[0].col_offset:
                viol.append(("R6605:elif-already", f"{tell}\nit is an elif already"))
            continue
        m = re.fullmatch(r"The next (\d+) if statements after this one can be elif statements\.", p["text"])
        block = next((v, k) for n in ast.walk(fn) for _, v in ast.iter_fields(n) if isinstance(v, list)
                     for k, s in enumerate(v) if isinstance(s, ast.If) and s.lineno == p["line"])
        siblings, k = block
        group = siblings[k:k + int(m.group(1)) + 1] if m else []
        if len(group) < 2 or len(group) != int(m.group(1)) + 1 or not all(isinstance(s, ast.If) for s in group):
            viol.append((p["code"] + ":too-few", f"{tell}\nthere are not so many ifs after it"))
            continue
        new = joined(group)
        checked += 1
        classes.append(p["code"])
        classes.append(f"joined:{len(group)}")
        if new is None:
            viol.append((p["code"] + ":else", f"{tell}\nan if before the last has an else branch"))
            continue
        siblings[k:k + len(group)] = [new]
        d = differ(old, fn, all_constants(old))
        if d:
            viol.append((p["code"] + ":differs", f"{tell}\n--- joined\n{ast.unparse(fn)}\n{d}"))
    return Outcome(viol, checked > 0, classes, max(checked, 1), note=[p["text"] for p in res["problems"] or []][:4])


def indent(l):
    return len(l) - len(l.lstrip())


def shrink(case):
    funcs = case["funcs"]
    if len(funcs) > 1:
        for f in funcs:
            yield {"funcs": [f]}
        return
    f = funcs[0]
    for k in range(len(f)):
        # a whole block, then one line
        e = k + 1
        while e < len(f) and indent(f[e]) > indent(f[k]):
            e += 1
        for g in {tuple(f[:k] + f[e:]), tuple(f[:k] + [l[4:] for l in f[k + 1:e]] + f[e:])}:
            if len(g) < len(f) and parses(list(g)):
                yield {"funcs": [list(g)]}
        m = re.match(r"(\s*)(if |elif )(.*):$", f[k])
        if m:
            for s in c20.smaller_conditions(m.group(3)):
                yield {"funcs": [f[:k] + [f"{m.group(1)}{m.group(2)}{s}:"] + f[k + 1:]]}
        m = re.match(r"(\s*)(\w+) = (.*)$", f[k])
        if m and not m.group(3).startswith("int("):
            for s in ("0", "x", "y + 1"):
                if len(s) < len(m.group(3)):
                    yield {"funcs": [f[:k] + [f"{m.group(1)}{m.group(2)} = {s}"] + f[k + 1:]]}
