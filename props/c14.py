"""C14: message translations keep the snippets and touch nothing else."""
import json
import os
import random
import re

from vlib import gen, lint, pyshrink
from vlib.core import Outcome, forked
from props import c08

CASES = {"quick": 900, "thorough": 30000}
RULE = (
    "A case is one or two problem-rich files (random programs, snippets triggering messages with arguments, expressions with quotes, braces, several lines) and a seed for translations. "
    "The files are linted with all checks of both linters without translations while the arguments of every message are recorded; then random templates (reordered, repeated, dropped, "
    "converted and surplus fields), word tables and unrelated entries are made for a random part of the reported codes and symbols, given by language file (command line or configuration file) or "
    "inside the configuration file, and everything is linted again. Every problem must be the recorded one with the template filled with the recorded arguments. "
    "Non-trivial: at least one message with arguments was translated and filled."
)
ASSUMPTIONS = [
    "a template without fields for a message without arguments is shown as it is",
    "the numbering of snippets of Flake8's messages is that of the documented list of patterns",
    "R0801 (duplicate-code) and F0002 (crash of pylint), whose texts pylint itself makes differently from run to run, are left out",
]

# documented list of Flake8's patterns (pinned version), with the codes missing from it
FLAKE8 = {
    "F401": "%r imported but unused", "F402": "import %r from line %r shadowed by loop variable", "F403": "'from %s import *' used; unable to detect undefined names",
    "F405": "%r may be undefined, or defined from star imports: %s", "F406": "'from %s import *' only allowed at module level", "F407": "future feature %s is not defined",
    "F501": "'...' % ... has invalid format string: %s", "F504": "'...' % ... has unused named argument(s): %s", "F505": "'...' % ... is missing argument(s) for placeholder(s): %s",
    "F507": "'...' % ... has %d placeholder(s) but %d substitution(s)", "F509": "'...' % ... has unsupported format character %r",
    "F521": "'...'.format(...) has invalid format string: %s", "F522": "'...'.format(...) has unused named argument(s): %s", "F523": "'...'.format(...) has unused arguments at position(s): %s",
    "F524": "'...'.format(...) is missing argument(s) for placeholder(s): %s", "F601": "dictionary key %r repeated with different values",
    "F602": "dictionary key variable %s repeated with different values", "F722": "syntax error in forward annotation %r", "F811": "redefinition of unused %r from line %r",
    "F821": "undefined name %r", "F822": "undefined name %r in __all__", "F823": "local variable %r %s referenced before assignment", "F831": "duplicate argument %r in function definition",
    "F841": "local variable %r is assigned to but never used", "F842": "local variable %r is annotated but never used", "E111": "indentation is not a multiple of %d",
    "E114": "indentation is not a multiple of %d (comment)", "E501": "line too long (%d > %d characters)", "E303": "too many blank lines (%d)",
    "E306": "expected %s blank line before a nested definition, found 0", "E301": "expected %s blank line, found 0", "E302": "expected %s blank lines, found %d",
    "E305": "expected %s blank lines after class or function definition, found %d", "E201": "whitespace after '%s'", "E202": "whitespace before '%s'", "E203": "whitespace before '%s'",
    "E211": "whitespace before '%s'", "E231": "missing whitespace after %r", "E242": "tab after '%s'", "E241": "multiple spaces after '%s'", "E712": "comparison to %s should be 'if%s cond:'",
    "E742": "ambiguous class definition '%s'", "E743": "ambiguous function definition '%s'", "E741": "ambiguous variable name '%s'", "W605": "invalid escape sequence '\\%s'",
    "W505": "doc line too long (%d > %d characters)", "C901": "%r is too complex (%d)", "E902": "%s", "E999": "%s",
}
# messages of flake8 without snippets (a documented pattern without fields, whatever the message)
SLOT = re.compile(r"%(?:\(\w+\))?[-+#0]*\d*(?:\.\d+)?[a-zA-Z]")
WORDS = ["před", "za {to}", "", "x", "{}", "%s", "'", "\\1", "ěšč\n"]

EXTRA = [
    "x{i} = 'a' + 'b' \\\n    + 'c'\nx{i} = x{i} + (1 +\n    2)",
    "def f{i}(a):\n    if a == '''x\ny''':\n        return True\n    return False",
    "def f{i}(a, b):\n    if a['} {0} {'] == b:\n        r = True\n    else:\n        r = False\n    return r",
    "def f{i}(lst, k):\n    lst = lst + ['{0}']\n    k = k + [{1: 2}]\n    lst += [x for x in k if x != 3]\n    lst = lst + [lst == k]\n    return lst, k",
    "def f{i}(s):\n    if ord(s) == 97:\n        return chr(97)\n    if ord(s) > ord('a') and ord(s) < 123:\n        return s == \"'\"\n    return 65 <= ord(s)",
    "GLOB{i} = 3\n\n\ndef g{i}():\n    global GLOB{i}\n    GLOB{i} += 1\n    return GLOB{i}",
    "TOTAL{i} = []\n\n\ndef h{i}():\n    TOTAL{i}.append(2)\n    print(TOTAL{i})\n    TOTAL{i}[0] = 3",
    "print('%s %d' % (1,), '%(a)s' % {{'b': 1}}, '%y' % 3, '{} {}'.format(1), '{a}'.format(b=2), '%' % 4)".replace("{{", "{").replace("}}", "}"),
    "import os, sys\nfrom json import *\nfrom __future__ import nonsense{i}\nimport logging\nlogging.info('%s %y', 1)\n'%y' % 3",
    "def f{i}(a, b):\n    x: int\n    if a:\n        print(1)\n        print(b)\n        x{i} = 1\n    else:\n        print(1)\n        print(b)\n        x{i} = 2\n    return a",
    "def f{i}(a):\n    if a:\n        print(2)\n        print(a)\n    elif a > 3:\n        print(3)\n        print(a)\n    else:\n        print(a)\n    while a > 3:\n        print(4)",
    "class A{i}:\n   def m(self,a,b ,c):\n      return a [0],b [1],{1 :2}\n   def m(self):\n      return '\\d'",
    "def f{i}():\n    l = 1\n    for os in range(3):\n        print(l)\n    try:\n        pass\n    except (ValueError, ValueError):\n        raise NotImplemented",
    "d{i} = {'a': 1, 'a': 2, l: 3, l: 4}\n__all__ = ['nic{i}']\n\n\ndef g{i}(I, O): return I == None, O == False, I != True",
    "for i in range(10):\n  for i in range(i):\n    print(i , i)\n  x{i} = [1,2,3]\n  if x{i} == [] and x{i}[0] == 'very long line' and len(x{i}) > 3 or not len(x{i}) or x{i} in (1,):\n   pass",
    "# pylint: disable=not-there\n# pylint: disable-msg=C0103\n# pylint: nonsense=C0103\nx{i} = 1",
    "foo = 1\nl = 2\nbar = foo\nbaz: int = bar + bar + bar\nx{i} = baz * baz * baz * (baz in [bar])",
    "def f{i}(n, xs):\n    while n > 0:\n        print(xs)\n    while True:\n        n -= 1\n        if n == 0:\n            break\n    return [x for x in xs if x in xs in xs]",
    "def f{i}(a, b, c):\n    if a > b and a > b:\n        return a - a\n    if a > 3 and a > 5 or (b == 3 and b >= 3):\n        return 0 + b * 1\n    return {'%s' % a: f'{b!r}', \"Use '%s'\": c}",
]


def prepare():
    lint.preload()
    c08.prepare()


def generate(rng):
    files = {}
    for name in rng.sample(["m.py", "sub/n.py"], rng.choice([1, 1, 2])):
        parts = []
        for _ in range(rng.randint(1, 5)):
            k = rng.random()
            parts.append(rng.choice(EXTRA) if k < 0.6 else rng.choice(c08.SNIPPETS[:-1] if rng.random() < 0.9 else c08.SNIPPETS) if k < 0.9 else gen.Gen(rng, wild=0.2).program(nfuncs=1, top=3))
        files[name] = rng.choice(["\n\n\n", "\n\n", "\n"]).join(p.replace("{i}", str(j)) for j, p in enumerate(parts)) + "\n"
    return {"files": files, "seed": rng.randrange(10 ** 9), "way": rng.choice(["cli", "file", "inside"]), "full": rng.random() < 0.4, "own": rng.random() < 0.2, "only": None}


def capture(root, paths, options):
    """check_code with every argument of pylint's messages recorded."""
    os.chdir(root)
    from pylint.lint import pylinter

    args_of = {}
    original = pylinter.PyLinter._add_one_message

    def recorded(self, message_definition, line, node, args, *rest, **kw):
        template = message_definition.msg
        slots = SLOT.findall(template)
        if args and slots:
            if isinstance(args, dict):
                pieces = [s % args for s in slots]
            else:
                pieces = [s % (a,) for s, a in zip(slots, args if isinstance(args, tuple) else (args,))]
            args_of.setdefault((message_definition.msgid, template % args), set()).add(tuple(pieces))
        return original(self, message_definition, line, node, args, *rest, **kw)

    pylinter.PyLinter._add_one_message = recorded
    return lint.call_check_code(paths, options), args_of


def plain(root, paths, options):
    os.chdir(root)
    return lint.call_check_code(paths, options)


def flake8_snippets(code, text):
    template = FLAKE8.get(code)
    if template is None:
        return ()
    parts = SLOT.split(template)
    slots = SLOT.findall(template)
    pattern = "".join(re.escape(p) + (r"(\d+)" if i < len(slots) and slots[i] == "%d" else "(.*)" if i < len(slots) else "") for i, p in enumerate(parts))
    m = re.fullmatch(pattern, text, re.S)
    return m.groups() if m else None


def snippets(problem, args_of):
    """possible tuples of snippets of a reported problem"""
    code, text = problem["code"], problem["text"]
    if problem["source"] == "flake8":
        s = flake8_snippets(code, text)
        return None if s is None else {s}
    m = re.fullmatch('Disallowed single-character variable name "(.*)", choose a more descriptive name', text)
    if code == "C0104" and m:
        return {m.groups()}
    return args_of.get((code, text), {()})


def make_template(r, n):
    if n == 0:
        return r.choice(["nic", "Zpráva", "", "%s nic", "%d %"])
    k = r.random()
    if k < 0.3:
        fields = ["{}"] * n
    elif k < 0.7:
        fields = ["{%d}" % i for i in (r.sample(range(n), n) if r.random() < 0.6 else [r.randrange(n) for _ in range(r.randint(0, 3))])]
    elif k < 0.85:
        fields = ["{%d%s}" % (r.randrange(n), r.choice(["!r", ":>12", "!s:<3", ":.3"])) for _ in range(r.randint(1, 2))]
    elif k < 0.93:
        fields = ["{}"] * r.randint(1, n)
    else:
        fields = ["{%d}" % i for i in range(n + 1)]
    out = r.choice(["", "Zpráva ", "%s "])
    for f in fields:
        out += f + r.choice([" ", ", ", "' ", " {{x}} ", "\n", ""])
    return out


def make_tables(case, problems, args_of):
    r = random.Random(case["seed"])
    ids = sorted({p["code"] for p in problems} | {p["symbol"] for p in problems if p["symbol"]})
    seen = {}
    for p in problems:
        for i in (p["code"], p["symbol"]):
            seen.setdefault(i, []).append(p)
    translations, words = {}, {}
    share = r.choice([0.3, 0.6, 0.95])
    for i in ids:
        if r.random() >= share:
            continue
        sn = [s for p in seen[i] for s in sorted(snippets(p, args_of) or {()})]
        n = len(sn[0])
        template = make_template(r, n)
        table = {}
        if n and r.random() < 0.5:
            for pos in r.sample(range(1, n + 1), r.randint(1, n)):
                table[str(pos)] = {w: r.choice(WORDS) for w in r.sample(sorted({s[pos - 1] for s in sn}), 1)}
                table[str(pos)]["nothing like it"] = "nope"
        if case.get("only") and i not in case["only"]:
            continue
        translations[i] = template
        if table:
            words[i] = table
    for other in r.sample(["E9999", "no-such-symbol", "C0103", "E501", "line-too-long", "unused-import"], 2):
        if other not in ids:
            translations[other] = "never {}"
            words[other] = {"1": {"x": "y"}}
    return translations, words


def toml_str(s):
    return json.dumps(s, ensure_ascii=False).replace("\x7f", "\\u007f")


def toml(translations, words, prefix):
    out = [f"[{prefix}]"] if prefix else []
    for i, t in translations.items():
        out.append(f"{toml_str(i)} = {toml_str(t)}")
    for i, table in words.items():
        for pos, ws in table.items():
            out.append(f"translated_extracts.{toml_str(i)}.{toml_str(pos)} = {{ " + ", ".join(f"{toml_str(w)} = {toml_str(t)}" for w, t in ws.items()) + " }")
    return "\n".join(out) + "\n"


def fill(template, sn, words):
    if not sn:
        return template
    sn = [words.get(str(i + 1), {}).get(s, s) for i, s in enumerate(sn)]
    try:
        return template.format(*sn)
    except (IndexError, KeyError, ValueError, AttributeError):
        return None


FIELDS = ("source", "enabled_by", "path", "line", "column", "code", "end_line", "end_column", "symbol")


def run_case(case):
    import shutil
    import tempfile

    root = os.path.realpath(tempfile.mkdtemp(prefix="t-"))
    try:
        enable = c08.OWN if case["own"] else ["all"]
        disable = "R0801,F0002,spelling" + ("" if case["full"] else ",I")
        base = 'config-file = "empty"\n{lang}flake8 = ["--ignore=X9", "--max-complexity=1", "--max-doc-length=5"]\n\n[pylint]\n' + f'enable = "{",".join(enable)}"\ndisable = "{disable}"\n'
        lint.write_tree(root, {**case["files"], "base.toml": base.replace("{lang}", "")})
        files = sorted(case["files"])
        first, args_of = forked(capture, root, files, ["config-file=base.toml"], timeout=120)
        if first["problems"] is None:
            return Outcome(classes=["failed"])
        translations, words = make_tables(case, first["problems"], args_of)
        options = ["config-file=base.toml"]
        if case["way"] == "inside":
            lint.write_tree(root, {"base.toml": base.replace("{lang}", "") + toml(translations, words, "language-translations")})
        elif case["way"] == "file":
            lint.write_tree(root, {"base.toml": base.replace("{lang}", 'language-file = "lang.toml"\n'), "lang.toml": toml(translations, words, "")})
        else:
            lint.write_tree(root, {"lang.toml": toml(translations, words, "")})
            options.append("language-file=lang.toml")
        second = forked(plain, root, files, options, timeout=120)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    viol, classes, filled = [], set(), 0
    broken = [m for _, m in second["log"] if "invalid TOML" in m or "translation" in m.lower() and "invalid translation" not in m]
    if broken:
        raise RuntimeError(f"the generated language file is rejected: {broken[:3]}\n{translations}\n{words}")
    if second["problems"] is None:
        return Outcome([("failed", f"linting fails with translations: {second['log']}\n{translations}")], True)
    a = [tuple(p[f] for f in FIELDS) for p in first["problems"]]
    b = [tuple(p[f] for f in FIELDS) for p in second["problems"]]
    if a != b:
        # pylint may report what it was asked by arguments in the problem itself; everything else must agree
        viol.append(("other fields", f"translations changed the set, order or other fields of problems:\nwithout only: {[x for x in a if x not in b][:4]}\nwith only: {[x for x in b if x not in a][:4]}\n{translations}"))
        return Outcome(viol, True)
    for p, q in zip(first["problems"], second["problems"]):
        ident = p["code"] if p["code"] in translations else p["symbol"]
        if ident not in translations:
            if q["text"] != p["text"]:
                viol.append(("untranslated:" + p["code"], f"a problem without translation changed from {p['text']!r} to {q['text']!r}"))
            continue
        sn = snippets(p, args_of)
        if sn is None:
            classes.add("unknown " + p["code"])
            continue
        template, table = translations[ident], words.get(ident, {})
        expected = set()
        for s in sn:
            e = fill(template, s, table)
            expected.add(p["text"] if e is None else e)
        if any(sn):
            filled += 1
        classes.add(("snippet " if any(sn) else "plain ") + p["source"])
        if q["text"] not in expected:
            sig = "text:" + p["code"]
            if p["source"] == "pylint" and ambiguous(p, template, table, q["text"]):
                sig = "ambiguous:" + p["code"]
            viol.append((sig, f"translation of {p['code']} {p['symbol']} {p['text']!r} by {template!r} with words {table} and snippets {sorted(sn)}\nshown as {q['text']!r}\nexpected {sorted(expected)}"))
    return Outcome(viol, nontrivial=filled > 0, classes=sorted(classes), evals=len(a), note=filled)


def message_templates():
    if not TEMPLATES:
        from pylint.lint import PyLinter

        linter = PyLinter()
        linter.load_default_plugins()
        linter.load_plugin_modules(list(lint.PLUGINS))
        TEMPLATES.update({m.msgid: m.msg for m in linter.msgs_store.messages})
    return TEMPLATES


TEMPLATES = {}


def ambiguous(problem, template, table, shown):
    """Whether what is shown fills the template with another way of reading the same message: every snippet as long as it can be."""
    message = message_templates()[problem["code"]]
    m = re.fullmatch("(.*)".join(re.escape(x.replace("%%", "%")) for x in SLOT.split(message)), problem["text"], re.S)
    if m is None:
        return False
    e = fill(template, m.groups(), table)
    return shown == (problem["text"] if e is None else e)


def known_match(finding, case, sig, text):
    return finding["id"] == "C14-ambiguous" and sig.startswith("ambiguous:") and sig[10:] not in ("R6609", "C0104")


def shrink(case):
    for name in sorted(case["files"]):
        if len(case["files"]) > 1:
            yield {**case, "files": {k: v for k, v in case["files"].items() if k != name}}
    for name, src in case["files"].items():
        for s in pyshrink.variants(src):
            yield {**case, "files": {**case["files"], name: s}}
