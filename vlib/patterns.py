"""Blocks of code around the documented defect patterns, each meant to draw one of the tool's checks (or just miss it)."""

NAMES = ["count", "total", "value", "item_a", "num", "size", "res", "cur", "low", "high"]


class PatternGen:
    def __init__(self, rng):
        self.r = rng
        self.k = 0

    def ch(self, seq):
        return seq[self.r.randrange(len(seq))]

    def p(self, x):
        return self.r.random() < x

    def n(self, lo=-9, hi=20):
        return self.r.randint(lo, hi)

    def name(self):
        return self.ch(NAMES)

    def two(self):
        return self.r.sample(NAMES, 2)

    def fresh(self, base="tmp"):
        self.k += 1
        return f"{base}{self.k}"

    def cond(self):
        v = self.name()
        return self.ch([v, f"not {v}", f"{v} > {self.n()}", f"{v} == {self.n()}", f"{v} and {self.name()}", f"{v} < {self.name()}", f"{v} in (1, 2)", f"f({v})"])

    def cmp(self):
        return f"{self.name()} {self.ch(['<', '<=', '>', '>=', '==', '!='])} {self.n()}"

    def stmt(self):
        a, b = self.two()
        return self.ch([f"print({a})", f"{a} += {self.n(1)}", f"{a} = {b}", f"f({a})", f"{a} = {b} - {self.n(1)}", f"lst.append({a})"])

    def block(self, n=None):
        return [self.stmt() for _ in range(n or self.ch([1, 1, 2, 3]))]

    def ind(self, lines):
        return ["    " + l for l in lines]

    # ---------------------------------------------------------------- R62xx
    def R6201(self):
        c = self.cond()
        return self.ch([[f"if {c}:", "    return True", "else:", "    return False"], [f"if {c}:", "    return False", "return True"], [f"if {c}:", "    return True", "return False"]])

    def R6202(self):
        return [f"if {self.cmp()}:", f"    return {self.ch(['True', self.cmp()])}", f"return {self.ch(['False', self.cmp()])}"]

    def R6203(self):
        v = self.name()
        t, f = self.ch([("True", "False"), ("False", "True")])
        return [f"if {self.cond()}:", f"    {v} = {t}", "else:", f"    {v} = {f}"]

    def R6210(self):
        v = self.name()
        return [f"if {self.cmp()}:", f"    {v} = {self.ch(['True', self.cmp()])}", "else:", f"    {v} = {self.ch(['False', self.cmp()])}"]

    def R6204(self):
        return [f"{self.name()} = {self.ch(['True if {} else False', 'False if {} else True']).format(self.cmp())}"]

    def R6209(self):
        a, b = self.two()
        return [f"{self.name()} = {self.ch(['True', a, 'False'])} if {self.cmp()} else {self.ch([b, 'False', 'True'])}"]

    def R6205(self):
        return [f"if {self.cond()}:", "    pass", "else:"] + self.ind(self.block())

    def R6206(self):
        return self.ch([[f"if {self.cond()}:", f"    return {self.name()}", "else:", "    return"], [f"if {self.cond()}:", "    return None if f(1) else 2", "else:", "    return"]])

    def R6207(self):
        return [f"if {self.cond()}:", f"    if {self.cond()}:"] + self.ind(self.ind(self.block()))

    def R6208(self):
        b = self.ch([["return"], ["return 1"], [self.stmt(), "return None"], ["break"]])
        if b == ["break"]:
            return ["while f(1):"] + self.ind([f"if {self.cond()}:", "    break", f"if {self.cond()}:", "    break"] + self.block())
        return [f"if {self.cond()}:"] + self.ind(b) + [f"if {self.cond()}:"] + self.ind(b)

    def pure(self, text):
        return self.ch([[f"if {text}:"] + self.ind(self.block()), [f"return {text}"], [f"{self.name()} = {text}"], [f"while {text}:"] + self.ind(self.block() + ["int_a += 1"])])

    def intv(self):
        return self.ch(["int_a", "int_b", "len(lst)"])

    def R6211(self):
        v, c = self.intv(), self.n(1, 9)
        return self.pure(self.ch([f"{v} < {c} and {v} > -{c}", f"{v} >= {c} or {v} <= -{c}", f"-{c} <= {v} and {v} <= {c}"]))

    def R6212(self):
        v, c = self.intv(), self.n(1, 9)
        return self.pure(self.ch([f"{v} < {c} and {v} < {c + self.n(1, 3)}", f"{v} > {c} or {v} >= {c}", f"{v} > {c} and {v} >= {c - 2}"]))

    def R6213(self):
        v = self.intv()
        o = self.ch("<>")
        return self.pure(f"{v} {o} {self.name()} {self.ch(['and', 'or'])} {v} {o} {self.ch(['int_b', '5', 'lst[0]'])}")

    def R6214(self):
        v, c = self.intv(), self.n(0, 9)
        return self.pure(self.ch([f"{v} >= {c} and {v} <= {c}", f"{v} < {c} or {v} > {c}", f"{c} <= {v} and {c} >= {v}"]))

    def R6215(self):
        return self.pure("int_a % 2 == 0 and int_b % 2 == 0 or int_a % 2 == 1 and int_b % 2 == 1")

    def R6216(self):
        v, w, c = self.intv(), self.name(), self.n(0, 9)
        return self.pure(self.ch([f"{v} > {c} and ({v} > {c - 1} or {w})", f"{v} == {c} and {v} < {c + 2}", f"{v} < {c} or {v} == {c - 2}", f"{v} and {v} and {w}"]))

    def R6217(self):
        v, c = self.intv(), self.n(0, 9)
        return [f"if {v} > {c}:"] + self.ind(self.block()) + [f"elif {v} <= {c}:"] + self.ind(self.block()) + self.ch([["else:"], [f"elif {v} == {self.n()}:"]]) + self.ind(self.block())

    def R6218(self):
        v, c = self.intv(), self.n(0, 9)
        return [f"if {v} > {c}:"] + self.ind(self.block()) + [f"elif {v} == {c}:"] + self.ind(self.block()) + [f"elif {v} < {c}:"] + self.ind(self.block())

    def R6219(self):
        v, c = self.intv(), self.n(0, 9)
        return [f"if {v} > {c}:"] + self.ind(self.block()) + [f"elif {v} <= {c} and {v} > {c - 3}:"] + self.ind(self.block()) + self.ch([[], ["else:"] + self.ind(self.block())])

    def R6220(self):
        v, c = self.intv(), self.n(0, 9)
        return [f"if {v} > {c} and {v} < {c + 5}:"] + self.ind(self.block()) + [f"elif {v} <= {c}:"] + self.ind(self.block()) + ["else:"] + self.ind(self.block())

    def R6221(self):
        v, c = self.intv(), self.n(0, 9)
        return [f"if {v} > {c}:"] + self.ind(self.block()) + [f"elif {v} > {c + self.n(1, 4)}:"] + self.ind(self.block()) + ["else:"] + self.ind(self.block())

    def R6222(self):
        v, c = self.intv(), self.n(0, 9)
        return self.ch([[f"if {v} > {c} and {v} < {c}:"], [f"if {v} > {c} or {v} <= {c}:"], [f"while {v} == {c} and {v} == {c + 1}:"]]) + self.ind(self.block())

    def R6223(self):
        v, c = self.intv(), self.n(0, 9)
        return [f"if {v} == {c}:", "    print(1)", f"if {v} == {c + 1}:", "    print(2)", f"if {v} > {c + 2}:", "    f(3)"]

    def R6224(self):
        c = self.n(0, 9)
        return [f"if int_a > {c}:", f"    int_a += {self.n(0, 5)}", f"if int_a <= {c}:", f"    int_a -= {self.n(1, 5)}"]

    # ---------------------------------------------------------------- R63xx
    def R6301(self):
        return ["while True:", f"    if {self.cond()}:"] + self.ind(self.ind(self.ch([[], self.block(1)]) + ["break"])) + self.ind(self.block())

    def R6302(self):
        i, c = self.fresh("i"), self.n(2, 9)
        a, b, x = self.ch([("0", f"{c}", "0"), ("0", "int_a", "0"), ("1", "int_a", "int_a - 1"), ("0", f"{c}", f"{c - 1}"), ("int_b", "int_a", "int_b")])
        return [f"for {i} in range({a}, {b}):", f"    if {i} == {x}:", f"        {self.ch(['continue', 'break'])}"] + self.ind(self.block() + [f"print({i})"])

    def R6303(self):
        i = self.fresh("elem")
        return [f"for {i} in lst:", f"    if {i} > {self.n()}:", f"        lst.{self.ch(['append(1)', 'pop()', f'remove({i})'])}"] + self.ind(self.block())

    def R6304(self):
        i = self.fresh("i")
        return [f"for {i} in range({self.ch(['5', 'int_a', '1, int_a'])}):"] + self.ind(self.block() + [f"print({i})", self.ch([f"{i} += 1", f"{i} = 0"])])

    def R6305(self):
        i = self.fresh("i")
        return [f"{i} = 0", f"while {i} < {self.ch(['int_a', '10', 'len(lst)'])}:"] + self.ind(self.block() + [self.ch([f"{i} += 1", f"{i} = {i} + 1"])])

    def R6306(self):
        i = self.fresh("i")
        return [f"for {i} in range({self.n(2, 5)}):", f"    for {i} in range({self.n(2, 5)}):", f"        print({i})"] + self.ind(self.ch([[], self.block()]))

    def R6307(self):
        i = self.fresh("i")
        return [f"for {i} in range(len(lst)):", f"    print(lst[{i}])"] + self.ind(self.ch([[], [f"f(lst[{i}])"]]))

    def R6308(self):
        i = self.fresh("i")
        return [f"for {i} in range(len(lst)):", f"    print({i}, lst[{i}])"]

    def R6309(self):
        return [self.ch(["while True:", "while 1:"])] + self.ind(self.block())

    def R6310(self):
        return self.ch([["while int_a > 3:", "    int_a += 1"], ["while int_a > 0:", "    print(int_a)"], ["while int_a < int_b:", "    int_a -= 1"]])

    # ---------------------------------------------------------------- R66xx
    def R6601(self):
        a = self.ch(["lst", "obj.vals"])
        return self.ch([[f"{a}.extend([{self.name()}])"], [f"{a} += [{self.name()}]"], [f"{a}.extend([{self.n()}, ])"]])

    def R6602(self):
        a, b = self.two()
        return [f"{self.name()} = int({a} / {self.ch([b, '2'])})"]

    def R6603(self):
        return [f"if word.{self.ch(['isdigit', 'isnumeric'])}():"] + self.ind(self.block())

    def R6604(self):
        i = self.fresh("i")
        return self.ch([[f"for {i} in lst:", f"    if {i}:", "        break", "else:"], [f"while {self.cond()}:", "    if f(1):", "        break", "else:"]]) + self.ind(self.block())

    def R6605(self):
        return [f"if {self.cond()}:"] + self.ind(self.block()) + ["else:", f"    if {self.cond()}:"] + self.ind(self.ind(self.block()) + self.ch([[], ["else:"] + self.ind(self.block())]))

    def R6606(self):
        i = self.fresh("i")
        return [f"for {i} in range({self.ch(['1', '0', '5, 3', '5, 6', '3, 0, -5', '2, 2'])}):"] + self.ind(self.block())

    def R6607(self):
        a, b = self.two()
        return [f"{b} = {self.ch([f'{a} * {a}', f'{a} + {a}', f'{a} * {a} * {a}', f'obj.val + obj.val', f'lst[0] * lst[0]'])}"]

    def R6608(self):
        a, b = self.two()
        return [self.ch([f"{b} = {a} + 0", f"{b} = {a} * 1", f"{b} -= 0", f"{b} = 0 * {a}", f"{b} = {a} ** 1", f"{b} = {a} / 1", f"{b} = {a} % {a}", f"{b} = {a} // {a}", f"{b} *= 1"])]

    def R6609(self):
        v = self.ch(["int_a", "int_b"])
        return [self.ch([f"{v} = {v} + {self.n(1)}", f"{v} = {v} * {self.n(2)}", f"{v} = {self.n(2)} + {v}", f"{v} = {v} - int_a", f"{v}: int = {v} + 1"])]

    def R6610(self):
        return [f"{self.name()} = {self.ch(['[[]] * 3', '3 * [[0]]', '[{}] * int_a', '[list()] * 2', '[[0] * 3] * 3'])}"]

    def R6611(self):
        v, c = self.name(), self.n()
        return self.ch([[f"if {v} > {c}:"] + self.ind(self.block()) + [f"elif {v} <= {c}:"] + self.ind(self.block()),
                        [f"if {v}:"] + self.ind(self.block()) + [f"elif not {v}:"] + self.ind(self.block())])

    def R6612(self):
        return self.R6611() + ["else:"] + self.ind(self.block())

    def R6613(self):
        v = self.name()
        return [f"if {v} {self.ch(['is', 'is not'])} {self.ch(['True', 'False'])}:"] + self.ind(self.block())

    def R6614(self):
        return [f"{self.name()} = {self.ch(['ord(word[0]) - 97', 'ord(word[0]) - 48', 'ord(word) + 65', '96 + ord(word)', 'chr(ord(word[0]) - 97 + 3)'])}"]

    def R6615(self):
        return [f"if {self.ch(['ord(word) >= 97', '65 <= ord(word) <= 90', 'ord(word[0]) == 48', 'ord(word) < 58'])}:"] + self.ind(self.block())

    def R6616(self):
        return [f"if {self.cond()}:"] + self.ind(["print(1)", "print(2)", "print(3)", "print(4)"] + self.block()) + ["else:", "    return None"]

    def R6617(self):
        return [f"if {self.intv()} {self.ch(['in', 'not in'])} range({self.ch(['2', '3, 5', '1, 2', '1, 6, 2', '5, 5'])}):"] + self.ind(self.block())

    def R6618(self):
        return [f"if {self.intv()} {self.ch(['in', 'not in'])} range({self.ch(['20', '3, 15', 'int_b', '1, int_b', '9, 1, -1'])}):"] + self.ind(self.block())

    def R6619(self):
        return [f"if {self.intv()} {self.ch(['in', 'not in'])} range({self.ch(['0, 20, 2', '3, 25, 3', '1, int_b, 4', 'int_b, 30, 2'])}):"] + self.ind(self.block())

    # ------------------------------------------------------- basic, python_ta
    def R6401(self):
        return [f"global {self.ch(['GLOB', 'glob_b'])}", f"{self.ch(['GLOB', 'glob_b'])} = {self.n()}"]

    def R6702(self):
        return [f"print({i})" for i in range(self.ch([3, 60]))]

    def E9984(self):
        return self.ch([["for obj.val in lst:"], ["for lst[0] in range(3):"]]) + self.ind(self.block())

    def E9988(self):
        v = self.name()
        return [f"{v} = 1", f"{self.name()} = [{v} for {v} in lst]"]

    def E9996(self):
        i = self.fresh("i")
        return self.ch([[f"for {i} in lst:", f"    print({i})", f"    {self.ch(['break', 'return 1'])}"], [f"while {self.cond()}:", "    print(1)", f"    {self.ch(['break', 'return'])}"]])

    # ---------------------------------------------------------------- R65xx
    def R6501(self):
        b = self.block(self.ch([1, 2, 3]))
        return [f"if {self.cond()}:"] + self.ind(b) + self.ch([[], [f"elif {self.cond()}:"] + self.ind(b)]) + ["else:"] + self.ind(b)

    def R6502(self):
        b = [self.stmt() for _ in range(3)]
        x, y = self.block(1), self.block(1)
        parts = (b + x, b + y) if self.p(0.5) else (x + b, y + b)
        return [f"if {self.cond()}:"] + self.ind(parts[0]) + ["else:"] + self.ind(parts[1])

    def R6503(self):
        b = self.block(2) + ["return 1"]
        return [f"if {self.cond()}:"] + self.ind(b) + [f"if {self.cond()}:"] + self.ind(b)

    def R6504(self):
        b = self.block(self.ch([2, 3]))
        return [f"if {self.cond()}:"] + self.ind(b) + [f"elif {self.cond()}:"] + self.ind(b)

    def R6552(self):
        a = self.name()
        return [f"print({a}, {i})" for i in range(self.ch([3, 4, 5]))]

    def R6558(self):
        a = self.name()
        b = self.block(2)
        return [f"if {self.cond()}:"] + self.ind(b + [f"f({a}, 1)"]) + ["else:"] + self.ind(b + [f"f({a}, 2)"])

    def other(self):
        return self.block(self.ch([1, 2, 3]))


LOOP_ONLY = set()
CODES = sorted(k for k in vars(PatternGen) if k[0] in "RE" and k[1:].isdigit())
PLAIN = [c for c in CODES if not c.startswith("R65")]


def function(name, body):
    return [f"def {name}({', '.join(NAMES)}, lst, obj, word, f):", "    int_a = int(input())", "    int_b = len(lst)"] + ["    " + l for l in body] + [f"    return {NAMES[0]}, int_a, int_b"]


MODULE = ["GLOB = 1", "glob_b = [2]", "", ""]


def module(functions):
    lines = list(MODULE)
    for i, body in enumerate(functions):
        lines += function(f"fun{i}", body) + ["", ""]
    return "\n".join(lines).rstrip("\n") + "\n"
