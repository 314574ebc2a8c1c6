"""C24: loops rewritten as suggested behave as before."""
import ast
import copy

from vlib import lint, progs
from vlib.core import Outcome
from vlib.progs import ind

CASES = {"quick": 1500, "thorough": 60000}
RULE = (
    "A case is a file of six functions with one or two loops each: while loops counting towards a bound, endless loops left by a break, and loops over ranges that skip a value or index a list, "
    "an attribute, a row or a string, all with random bodies of assignments, calls, conditions, nested loops and early exits around the recognised patterns. Loops the tool says to rewrite are rewritten "
    "in the syntax tree - the condition moved into the while, bounds tightened by a step, elements or enumerate instead of indices - and both versions run on 40 inputs, comparing result, log of effects and "
    "final lists; a while loop said to be a for loop must, at its tests, count by one from its start towards a bound that stays the same. Non-trivial: at least one suggestion was executed."
)
ASSUMPTIONS = [
    "inputs on which the original runs for over 200 iterations or raises an exception of its own accord are skipped",
    "functions that are called change no variables of the loop",
    "the value of the control variable after a loop whose bounds are tightened is outside the property",
    "a while loop said to be a for loop is taken to be one over a range of integers; reads of the counter after its change and after the loop are adapted by hand",
]
ENABLE = ["no-while-true", "use-for-loop", "use-tighter-boundaries", "use-foreach", "use-enumerate"]
CODES = {"R6301", "R6302", "R6305", "R6307", "R6308"}


def prepare():
    lint.preload()


class G:
    def __init__(self, rng):
        self.r = rng

    def ch(self, seq):
        return seq[self.r.randrange(len(seq))]

    def p(self, x):
        return self.r.random() < x

    def endless(self):
        g = progs.Progs(self.r, hot_p=0.0)
        c = self.ch(["n > 3", "i == n", "x >= k", "not lst", "i > 2 or x == 1", "f(i) > 2", "len(other) > 3", "i", "not i < n", "int(input()) == 3", "(i := i + 1) > 3", "i < n < k", "x if n else k", "i not in lst"])
        ifbody = g.block(1, True) if self.p(0.5) else []
        last = "break" if self.p(0.9) else self.ch(["return i", "continue", "pass"])
        body = [f"if {c}:"] + ind(ifbody + [last])
        if self.p(0.2):
            body += [f"elif {g.cond()}:"] + ind(g.block(1, True))
        if self.p(0.2):
            body += ["else:"] + ind(g.block(1, True))
        if self.p(0.1):
            body = g.simple(True) + body
        rest = g.block(2, True)
        if self.p(0.8):
            rest += [self.ch(["i += 1", "i += 1", "n += 1", "x += 1", "other.append(x)"])]
        out = [f"while {self.ch(['True', 'True', 'True', '1', 'not False', '2', 'n == n'])}:"] + ind(body + rest)
        if self.p(0.1):
            out += ["else:"] + ind(g.simple(False))
        return ["i = " + self.ch(["0", "1", "n"])] + out

    def counting(self):
        v = self.ch(["i", "i", "i", "n", "x"])
        up = self.p(0.6)
        sign = "+" if up else "-"

        def change():
            r = self.r.random()
            if r < 0.6:
                return [f"{v} {sign}= 1"]
            if r < 0.8:
                return [f"{v} = {v} {sign} 1"]
            return [self.ch([f"{v} = 1 + {v}", f"{v} = 1 - {v}", f"{v} += 2", f"{v} -= 1", f"{v} += 1", f"{v} = {v} - -1", f"{v} -= -1", f"{v} = -1 + {v}", f"{v} {sign}= True", f"{v} = n", f"{v} = {v} * 1", f"{v} {sign}= x", f"{v}, k = {v} {sign} 1, k"])]
        extra = [0.0, 0.1, 0.3, 0.1][self.r.randrange(4)]
        g = progs.Progs(self.r, hot=change, hot_p=extra)
        g.assignable = [a for a in g.ints if a != v] if self.p(0.7) else g.ints
        if self.p(0.4):
            g.assignable = [a for a in g.assignable if a not in ("n", "k", v)] or ["j"]
        bound = self.ch(["n", "k", "len(lst)", "5", "n + 1", "lst[0]", "k - x", "o.n", "f(3)", "int(input())", "len(lst) - 1", "10 // 3", "max(n, k)", "n * 2", f"{v} + 1", "sum(other)", "len(o.items)", "0", "-3", "4 - k", "k or 3"])
        op = (self.ch(["<", "<=", "<"]) if up else self.ch([">", ">=", ">"])) if self.p(0.93) else self.ch(["<", ">", "!=", "=="])
        flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!=", "==": "=="}
        left = v if self.p(0.93) else self.ch([f"{v} * 2", f"{v} + 1", f"-{v}", f"abs({v})"])
        test = f"{left} {op} {bound}" if self.p(0.8) else f"{bound} {flip[op]} {left}"
        if self.p(0.04):
            test += self.ch([" and x > 0", " or x == 1", " < 9"])
        body = g.block(2, True, self.ch([1, 2, 2, 3]))
        r = self.r.random()
        if r < 0.75:
            body += change()
        elif r < 0.85:
            body = change() + body
        elif r < 0.95:
            body += [f"if {g.cond()}:"] + ind(g.block(1, True) + change()) + ["else:"] + ind(g.block(1, True) + change())
        else:
            body += change() + g.simple(True)
        out = [f"while {test}:"] + ind(body)
        if self.p(0.06):
            out += ["else:"] + ind(g.simple(False))
        pre = [f"{v} = {self.ch(['0', '1', 'n', 'len(lst)', '5', 'len(lst) - 1', 'k'])}"] if v == "i" or self.p(0.4) else []
        if "i" not in pre[:1] and v != "i":
            pre = ["i = 0"] + pre
        return pre + out

    def tighter(self):
        start = self.ch([None, "0", "1", "2", "n", "k + 1", "-2", "x - 1", "f(1)", "3"])
        stop = self.ch(["n", "5", "len(lst)", "7", "k", "n + 1", "k - x", "10", "0", "f(n)", "8"])
        step = self.ch([None, None, None, "1", "2", "-1", "3", "-2", "k", "2 - 1"])
        if step is not None and start is None:
            start = "0"
        args = ", ".join(a for a in (start, stop, step) if a is not None)
        r = self.r.random()
        if r < 0.4:
            val = start or "0"
        elif r < 0.8:
            try:
                val = str(int(stop) - int(step or 1))
            except ValueError:
                val = f"{stop} - {step or 1}"
        else:
            val = self.ch(["n", "0", "n - 1", "len(lst) - 1", "4", "k", stop])
        g = progs.Progs(self.r, hot_p=0.0)
        if self.p(0.7):
            g.assignable = ["j", "x"]
        if self.p(0.1) and val:
            val = f"({val})"
        test = f"i == {val}" if self.p(0.8) else f"{val} == i"
        if self.p(0.05):
            test = self.ch([f"not {test}", f"{test} or x > 3", f"i <= {val}", f"i != {val}"])
        leave = self.ch(["continue", "continue", "break"])
        body = [f"if {test}:"] + ind((g.simple(True) if self.p(0.1) else []) + [leave])
        if self.p(0.15):
            body += [self.ch(["else:", f"elif {g.cond()}:"])] + ind(g.block(1, True))
        if self.p(0.85):
            body += ["print(i)"]
        body += g.block(1, True)
        if self.p(0.05):
            body = g.simple(True) + body
        out = [f"for i in range({args}):"] + ind(body)
        if self.p(0.08):
            out += ["else:"] + ind(["print('done')"])
        return out

    def indexing(self):
        S = self.ch(["lst", "lst", "lst", "other", "o.items", "mat[0]", "s", "mat", "mat[k]"])
        row = S == "mat"
        el = lambda: f"{S}[i]" + (f"[{self.ch(['0', '1', 'k', 'i'])}]" if row else "")  # noqa
        use = self.ch([0.0, 0.0, 0.2])

        def expr():
            r = self.r.random()
            if r < 0.75 - use / 2:
                return el()
            return self.ch(["i", "i", f"len({S})", f"{S}[{self.ch(['j', '0', 'i - 1', 'i + 0', 'k'])}]", f"f({el()})", f"other[i]", f"len({S}[i:])", f"sum(lst[i] for i in range(len(lst)))", "(lambda: i)()", f"(lambda i: i)(2)", f"f({S})"]) if self.p(use + 0.03) else "x"

        def stmt():
            r = self.r.random()
            if r < 0.75:
                return [f"print({expr()})"]
            if r < 0.85:
                return [f"x {self.ch(['=', '+='])} {expr()}"]
            return [self.ch([f"{S}[i] = {expr()}", f"{S}[i] += 1", f"{S}.append(1)", f"{S}.pop(0)", f"{S}[0] = 3", f"del {S}[i]", "i += 1", f"{S} = [1, 2, 3, 4, 5, 6, 7]", f"{S}.insert(0, 7)", f"x, {S}[i] = 1, x", f"for {S}[i] in other:\n    print(x)", f"other.append({el()})",
                              f"{S}.reverse()", f"for i in range(2):\n    print({el()})", "i = 1", f"lst[i] = {el()}", f"other[i] = 2"])] if self.p(0.35) else [f"f({expr()})"]
        def lines_of(st):
            return [l for s in st for l in s.split("\n")]
        g = progs.Progs(self.r, hot=lambda: lines_of(stmt()), hot_expr=expr, hot_p=0.6)
        g.ints = ["j", "x", "n"]
        g.assignable = ["j", "x"]
        rng = f"range({self.ch(['', '', '', '', '0, '])}len({S}){self.ch(['', '', '', '', ' - 1', ' + 0'])})"
        if self.p(0.06):
            rng = self.ch([f"range(1, len({S}))", f"range(0, len({S}), 1)", f"range(0, len({S}), 2)", "range(n)", "range(len(other))", f"range(len({S})) if x else []", f"range(-0, len({S}), 1)"])
        out = [f"for i in {rng}:"] + ind(g.block(2, True, self.ch([1, 2, 2, 3])))
        if self.p(0.05):
            out += ["else:"] + ind(g.simple(False))
        r = self.r.random()
        if r < 0.12:
            out += [self.ch(["print(i)", "return i", f"x = {el()}", "for j in range(2):\n    i += 1".split("\n")[0] + "\n    i += 1"])]
            out = [l for s in out for l in s.split("\n")]
            if self.p(0.8):
                out = ["i = 0"] + out
        return out

    def function(self):
        out = ["i = j = e = 0"] if self.p(0.8) else ["j = e = 0"]
        for _ in range(self.ch([1, 1, 1, 2])):
            out += getattr(self, self.ch(["endless", "counting", "counting", "tighter", "indexing", "indexing"]))()
        r = self.r.random()
        if r < 0.1:
            out = ["for n in range(3):"] + ind(out)
        elif r < 0.15:
            out = ["if x > 0:"] + ind(out)
        if self.p(0.5):
            out += [self.ch(["return x, j", "return lst", "return x", "print(n, k)", "return i"])]
        return out


def function(i, body):
    return [f"def fun{i}({progs.PARAMS}):"] + ind(body)


def valid(body):
    return progs.parses(function(0, body))


def generate(rng):
    funcs = []
    while len(funcs) < 6:
        f = G(rng).function()
        if valid(f):
            funcs.append(f)
    return {"funcs": funcs}


def render(case):
    lines, start = [], {}
    for i, f in enumerate(case["funcs"]):
        start[i] = len(lines)
        lines += function(i, f) + ["", ""]
    return "\n".join(lines) + "\n", start


# ------------------------------------------------------------------ rewriting


class Replace(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, node):
        return self.new if node is self.old else self.generic_visit(node)


def expr(text):
    return ast.parse(text, mode="eval").body


def load(e):
    return ast.parse(ast.unparse(e), mode="eval").body


def range_args(call):
    a = [load(k) for k in call.args]
    if len(a) == 1:
        return ast.Constant(0), a[0], ast.Constant(1)
    return (a[0], a[1], ast.Constant(1)) if len(a) == 2 else tuple(a)


class Elements(ast.NodeTransformer):
    """Reads of structure[index] replaced, except where the index is another variable of that name."""

    def __init__(self, structure, index):
        self.structure, self.index = structure, index

    def visit_Subscript(self, node):
        if isinstance(node.ctx, ast.Load) and ast.unparse(node.value) == self.structure and isinstance(node.slice, ast.Name) and node.slice.id == self.index:
            return ast.Name("var__", ast.Load())
        return self.generic_visit(node)

    def own_scope(self, node):
        bound = {n.id for g in node.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        if self.index in bound:
            node.generators[0].iter = self.visit(node.generators[0].iter)
            return node
        return self.generic_visit(node)

    visit_ListComp = visit_GeneratorExp = visit_SetComp = visit_DictComp = own_scope

    def visit_Lambda(self, node):
        if self.index in [a.arg for a in node.args.args]:
            return node
        return self.generic_visit(node)


def rewrite(p, fn, loop):
    """Rewrites the loop in place; a text instead if the message does not fit."""
    text = p["text"]
    if p["code"] == "R6301":
        if not isinstance(loop, ast.While) or not isinstance(loop.body[0], ast.If) or not isinstance(loop.body[0].body[-1], ast.Break):
            return "no while loop that starts with an if ended by a break"
        first = loop.body[0]
        want = f"The while condition can be replaced with '<negated {ast.unparse(first.test)}>'"
        if text != want and ast.unparse(first.test) not in text and "(" not in ast.unparse(first.test):
            return f"the text should be {want}"
        loop.test = ast.UnaryOp(ast.Not(), first.test)
        loop.body = first.orelse + loop.body[1:] or [ast.Pass()]
        # runs when the condition ends the loop; a break among the statements ends them
        loop.orelse = [ast.For(ast.Name("once__", ast.Store()), expr("(0,)"), first.body[:-1], [])] if first.body[:-1] else []
        return None
    if p["code"] == "R6302":
        if not isinstance(loop, ast.For) or not isinstance(loop.iter, ast.Call) or ast.unparse(loop.iter.func) != "range":
            return "no loop over a range"
        if not isinstance(loop.body[0], ast.If):
            return "the loop does not start with an if"
        a, b, s = range_args(loop.iter)
        if "the first" in text:
            a = ast.BinOp(a, ast.Add(), s)
        elif "the last" in text:
            b = ast.BinOp(b, ast.Sub(), s)
        else:
            return "neither the first nor the last"
        loop.iter = ast.Call(ast.Name("range", ast.Load()), [a, b, s], [])
        loop.body = loop.body[0].orelse + loop.body[1:] or [ast.Pass()]
        return None
    if p["code"] in ("R6307", "R6308"):
        if not isinstance(loop, ast.For) or not isinstance(loop.iter, ast.Call) or ast.unparse(loop.iter.func) != "range":
            return "no loop over a range"
        stop = loop.iter.args[min(1, len(loop.iter.args) - 1)]
        structure, index = ast.unparse(stop.args[0]), ast.unparse(loop.target)
        named = structure.split("[")[0].split(".")[0]
        if p["code"] == "R6307":
            if f'"for var in {named}' not in text:
                return "another structure is named"
            loop.target = ast.Name("var__", ast.Store())
            loop.iter = load(stop.args[0])
        else:
            if f'"for {index}, var in enumerate({named}' not in text:
                return "another structure or index is named"
            loop.target = ast.Tuple([ast.Name(index, ast.Store()), ast.Name("var__", ast.Store())], ast.Store())
            loop.iter = ast.Call(ast.Name("enumerate", ast.Load()), [load(stop.args[0])], [])
        e = Elements(structure, index)
        loop.body = [e.visit(st) for st in loop.body]
        return None
    return "unknown"


def counted(fn, loop):
    """The while loop with its tests recorded."""
    cmp = loop.test
    if not isinstance(loop, ast.While) or not isinstance(cmp, ast.Compare) or len(cmp.ops) != 1:
        return "no while loop with one comparison"
    op = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}.get(type(cmp.ops[0]))
    if op is None:
        return "no comparison by < or >"
    loop.test = ast.Call(ast.Name("test__", ast.Load()), [cmp.left, ast.Constant(op), cmp.comparators[0]], [])

    class Enter(ast.NodeTransformer):
        def visit_While(self, node):
            self.generic_visit(node)
            return [ast.parse("enter__()").body[0], node] if node is loop else node
    Enter().visit(fn)
    return None


def recorder(log):
    runs = []

    def enter():
        runs.append([])

    def test(l, op, r):
        runs[-1].append((l, op, r))
        return {"<": l < r, "<=": l <= r, ">": l > r, ">=": l >= r}[op]
    log.append(runs)
    return {"enter__": enter, "test__": test}


def not_counting(runs):
    for tests in runs:
        if len(tests) < 2:
            continue
        ls, rs = [t[0] for t in tests], [t[2] for t in tests]
        ok = False
        for moving, still, up in ((ls, rs, tests[0][1] in ("<", "<=")), (rs, ls, tests[0][1] in (">", ">="))):
            step = 1 if up else -1
            if len(set(still)) == 1 and moving == [moving[0] + step * k for k in range(len(moving))]:
                ok = True
        if not ok:
            return [f"{a} {op} {b}" for a, op, b in tests][:8]
    return None


SEEDS = range(40)


def forget(tree, loop):
    """The control variable set to None after the loop, and the loop marked."""
    reset = ast.Assign([loop.target], ast.Constant(None))

    class After(ast.NodeTransformer):
        def visit_For(self, node):
            self.generic_visit(node)
            if node is not loop:
                return node
            if node.orelse:
                node.orelse.insert(0, reset)
            node.body.append(ast.Expr(ast.Constant("the loop")))
            return [node, copy.deepcopy(reset)]
    return After().visit(tree)



def check(p, fn_text):
    tree = ast.parse(fn_text)
    fn = tree.body[0]
    loops = [n for n in ast.walk(fn) if isinstance(n, (ast.For, ast.While)) and (n.lineno, n.col_offset) == (p["line"], p["column"])]
    if len(loops) != 1:
        return "there is no loop"
    if p["code"] == "R6302":
        # the value of the control variable after the loop is outside the property
        fn_text = ast.unparse(ast.fix_missing_locations(forget(tree, loops[0])))
        tree = ast.parse(fn_text)
        fn = tree.body[0]
        loops = [n for n in ast.walk(fn) if isinstance(n, ast.For) and getattr(n.body[-1], "value", None) is not None and ast.unparse(n.body[-1]) == "'the loop'"]
        loops[0].body.pop()
    original = progs.code_of(fn_text)
    if p["code"] == "R6305":
        why = counted(fn, loops[0])
        if why:
            return why
        code = progs.code_of(tree)
        for seed in SEEDS:
            out, log, _ = progs.run(code, seed, recorder)
            if out != "limit" and out[0] == "implicit":
                continue
            bad = not_counting(log[0])
            if bad:
                return f"for seed {seed} the tests are {bad}"
        return None
    why = rewrite(p, fn, loops[0])
    if why:
        return why
    ast.fix_missing_locations(tree)
    text = ast.unparse(tree)
    try:
        new = progs.code_of(text)
    except SyntaxError as e:
        return f"the rewritten function is invalid: {e}\n{text}"
    for seed in SEEDS:
        a = progs.run(original, seed)
        if a[0] == "limit" or a[0][0] == "implicit":
            continue
        b = progs.run(new, seed)
        if b[0] == "limit":
            b = progs.run(new, seed, limit=2000)
        if a != b:
            return f"for seed {seed} the original gives {short(a)}, the rewritten code {short(b)}\n--- rewritten\n{text}"
    return None


def short(res):
    return tuple(str(k)[:300] for k in res)


def run_case(case):
    src, start = render(case)
    res = lint.lint_source(src, ENABLE)
    viol, classes, checked = [], [], 0
    for p in res["problems"] or []:
        if p["code"] not in CODES:
            continue
        i = max(k for k, s in start.items() if s < p["line"])
        text = "\n".join(function(i, case["funcs"][i])) + "\n"
        classes.append(p["code"])
        checked += 1
        why = check({**p, "line": p["line"] - start[i]}, text)
        if why:
            viol.append((f"{p['code']}:{'differs' if 'seed' in why else 'unfit'}", f"{p['code']} on line {p['line'] - start[i]}: {p['text']}\n--- source\n{text}{why}"))
    return Outcome(viol, checked > 0, classes, max(checked, 1), note=[p["text"] for p in res["problems"] or []][:4])


def shrink(case):
    funcs = case["funcs"]
    if len(funcs) > 1:
        for f in funcs:
            yield {"funcs": [f]}
        return
    for g in progs.smaller_functions(function(0, funcs[0]), keep=1):
        yield {"funcs": [[l[4:] for l in g[1:]]]}
