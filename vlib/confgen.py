"""Configuration worlds: generated TOML files, in-file lines and CLI options, with a reference model.

A world is a JSON-able dict
    confs  {path: {"base": ref|None, "entries": [[option, value], ...], "groups": {name: {linter: [[key, value], ...]}},
                   "trans": {id: text}, "extracts": {...}, "enabler": str|None, "implicit": bool}}
    pys    {path: [line, ...]}   line = {"opts": [[name, value], ...], "style": n} or {"code": text}
    cli    [[[name, value], ...], ...]
A ref is ["packaged", name] or ["file", path, "abs"|"rel"].
Values of options in lines and CLI are strings, None (no value) or refs.
Values in TOML are ["str", s], ["list", [s...]], ["int", n] or ["table", [[key, value]...]].

The model interprets the world directly; it shares no code with the tool.
"""
import json
import os
import shlex
import tomllib

LINTERS = ("pylint", "flake8")
SINGLE = {
    "config-file": "str",
    "allowed-onechar-names": "str",
    "disallowed-builtin-names": "list",
    "no-flake8": "bool",
    "ignore-infile-config-for": "list",
    "export-groups": "list",
    "set-groups": "list",
    "language-file": "str",
}
DEFAULTS = {
    "config-file": "default",
    "allowed-onechar-names": None,
    "disallowed-builtin-names": [],
    "no-flake8": False,
    "ignore-infile-config-for": [],
    "export-groups": [],
    "set-groups": [],
    "language-file": None,
}

PYLINT_NAMES = ["use-foreach", "C0103", "no-self-use", "R1714", "invalid-name", "W0622", "use-append", "R6609", "disallowed-name", "redefined-builtin", "unused-import", "E0601"]
FLAKE8_CODES = ["E225", "E211", "W291", "F401", "F841", "E302", "E501", "W292"]
GROUPS = ["extra", "enhancement", "python-specific", "Loud", "g1", "basics"]
FILE_NAMES = ["a.toml", "b.toml", "conf/c.toml", "conf/d.toml", "sub/deep/e.toml", "course config.toml"]


# ---------------------------------------------------------------- generation


def pick(rng, seq):
    return seq[rng.randrange(len(seq))]


def some(rng, seq, lo=1, hi=3):
    return [pick(rng, seq) for _ in range(rng.randint(lo, hi))]


def pylint_arg(rng):
    """(key, value-text) of one pylint argument"""
    k = rng.random()
    if k < 0.3:
        return ("enable", ",".join(some(rng, PYLINT_NAMES)))
    if k < 0.5:
        return ("disable", ",".join(some(rng, PYLINT_NAMES)))
    if k < 0.6:
        return ("enable", "all")
    if k < 0.72:
        return ("disable", "all")
    if k < 0.76:
        return ("enable", "noop")
    return pick(rng, [("bad-names-rgxs", "^[a-z]$"), ("good-names-rgxs", "^[A-Z]x$"), ("max-line-length", str(rng.randint(20, 120))),
                      ("max-args", str(rng.randint(1, 9))), ("allowed-redefined-builtins", "Id,Help"), ("max-module-lines", "100")])


def flake8_arg(rng):
    k = rng.random()
    if k < 0.4:
        return ("select", ",".join(some(rng, FLAKE8_CODES)))
    if k < 0.6:
        return ("extend-select", ",".join(some(rng, FLAKE8_CODES)))
    if k < 0.8:
        return ("ignore", ",".join(some(rng, FLAKE8_CODES)))
    return ("max-line-length", str(rng.randint(20, 120)))


def linter_arg(rng, linter):
    return pylint_arg(rng) if linter == "pylint" else flake8_arg(rng)


def single_value(rng, name, groups):
    if name == "allowed-onechar-names":
        return pick(rng, ["ijk", "abc", "", "ij k", "XyZ", "0=1"])
    if name == "disallowed-builtin-names":
        return ",".join(some(rng, ["sum", "len", "max", "List"], 0, 3))
    if name == "ignore-infile-config-for":
        return pick(rng, ["pylint", "flake8", "pylint,flake8", ""])
    if name == "export-groups":
        return ",".join(some(rng, groups))
    if name == "set-groups":
        return ",".join(some(rng, groups, 0 if rng.random() < 0.2 else 1, 3))
    raise AssertionError(name)


def gen_opts(rng, groups, refs, lang_refs, n, p_config=0.15, p_groups=0.2):
    """A list of [name, value] as they can stand in a file or on the command line."""
    res = []
    for _ in range(n):
        k = rng.random()
        if k < p_config and refs:
            res.append(["config-file", pick(rng, refs)])
        elif k < p_config + p_groups:
            res.append(["set-groups", single_value(rng, "set-groups", groups)])
        elif k < 0.65:
            linter = pick(rng, LINTERS)
            key, val = linter_arg(rng, linter)
            res.append([linter, f"--{key}={val}"])
        elif k < 0.7 and lang_refs:
            res.append(["language-file", pick(rng, lang_refs)])
        else:
            name = pick(rng, ["allowed-onechar-names", "disallowed-builtin-names", "no-flake8", "ignore-infile-config-for", "export-groups"])
            res.append([name, None if name == "no-flake8" else single_value(rng, name, groups)])
        if rng.random() < 0.06:
            res[-1][0] = res[-1][0].upper() if res[-1][0] != "config-file" else "config"
    return res


def toml_value(rng, text):
    if "," in text and rng.random() < 0.6:
        return ["list", text.split(",")]
    if text.isdecimal() and str(int(text)) == text and rng.random() < 0.6:
        return ["int", int(text)]
    if rng.random() < 0.1:
        return ["list", [text]]
    return ["str", text]


def gen_table(rng, linter, n):
    res, seen = [], set()
    for _ in range(n):
        key, val = linter_arg(rng, linter)
        if key in seen:
            continue
        seen.add(key)
        res.append([key, toml_value(rng, val)])
    return res


def gen_conf(rng, groups, base, lang_refs=(), p_groups=0.5, trans=()):
    entries = []
    names = ["pylint", "flake8", "allowed-onechar-names", "disallowed-builtin-names", "ignore-infile-config-for", "export-groups", "set-groups", "language-file"]
    rng.shuffle(names)
    for name in names:
        p = {"pylint": 0.75, "flake8": 0.6, "set-groups": p_groups, "language-file": 0.3 if lang_refs else 0}.get(name, 0.25)
        if rng.random() >= p:
            continue
        if name in LINTERS:
            if rng.random() < 0.35:
                key, val = linter_arg(rng, name)
                entries.append([name, ["str", f"--{key}={val}"]])
            else:
                entries.append([name, ["table", gen_table(rng, name, rng.randint(0, 4))]])
        elif name == "language-file":
            entries.append([name, ["ref", pick(rng, lang_refs)]])
        else:
            entries.append([name, toml_value(rng, single_value(rng, name, groups))])
    gdefs = {}
    for g in groups:
        if rng.random() < p_groups * 0.6:
            d = {}
            for linter in LINTERS:
                if rng.random() < 0.7:
                    d[linter] = gen_table(rng, linter, rng.randint(1, 3))
            if d:
                gdefs[g] = d
    tr = {}
    for t in trans:
        if rng.random() < 0.4:
            tr[t] = pick(rng, ["překlad %s" % t, "short", "T {0} {1}", ""])
    return {"base": base, "entries": entries, "groups": gdefs, "trans": tr, "enabler": pick(rng, [None, None, "course"]), "implicit": False}


def gen_ref_mode(rng, path):
    return ["file", path, pick(rng, ["abs", "rel", "rel"])]


def gen_confs(rng, groups, lang_refs=(), n=None, p_groups=0.5, trans=(), packaged=("empty", "default", "cs0")):
    names = list(FILE_NAMES)
    rng.shuffle(names)
    n = rng.randint(1, 4) if n is None else n
    confs = {}
    for i, name in enumerate(names[:n]):
        prev = list(confs)
        k = rng.random()
        if prev and k < 0.65:
            base = gen_ref_mode(rng, prev[-1] if rng.random() < 0.7 else pick(rng, prev))
        elif k < 0.8:
            base = ["packaged", pick(rng, packaged)]
        else:
            base = None
        confs[name] = gen_conf(rng, groups, base, lang_refs, p_groups, trans)
    return confs


CODE_LINES = [
    "x = 1", "def f(a):\n    return a", "# a comment", "", "print('x')", "import os",
    "y = 2  # edulint: pylint=--enable=decoy", "# this is not edulint: no-flake8", "s = '# edulint: set-groups=decoy'", "# edulint pylint=--enable=decoy",
]


def gen_lines(rng, groups, refs, lang_refs=(), n=None, **kw):
    lines = []
    for _ in range(rng.randint(0, 3) if n is None else n):
        lines.append({"opts": gen_opts(rng, groups, refs, lang_refs, rng.randint(1, 3), **kw), "style": rng.randrange(8)})
        if rng.random() < 0.4:
            lines.append({"code": pick(rng, CODE_LINES)})
    if rng.random() < 0.5:
        lines.insert(rng.randint(0, len(lines)), {"code": pick(rng, CODE_LINES)})
    return lines


def gen_cli(rng, groups, refs, lang_refs=(), n=None, **kw):
    return [gen_opts(rng, groups, refs, lang_refs, rng.randint(1, 2), **kw) for _ in range(rng.randint(0, 3) if n is None else n)]


# ---------------------------------------------------------------- rendering


def render_ref(ref, root, directory):
    if ref[0] == "packaged":
        return ref[1]
    if ref[0] == "raw":
        return ref[1]
    target = os.path.join(root, ref[1])
    if ref[2] == "abs":
        return target
    res = os.path.relpath(target, os.path.join(root, directory))
    # a bare word would name a packaged configuration; every file here has an extension
    return res


def render_opt(name, val, root, directory):
    if val is None:
        return name
    if isinstance(val, list):
        val = render_ref(val, root, directory)
    return f"{name}={val}"


def quote_opt(text, style):
    if style % 2 == 1 and "=" in text and '"' not in text and "\\" not in text and "$" not in text:
        name, val = text.split("=", 1)
        return f'{name}="{val}"'
    return shlex.quote(text)


PREFIXES = ["# edulint: ", "#edulint:", "  # edulint: ", "# # EduLint:   ", "## edulint: ", "# EDULINT: ", "#\tedulint: ", "# edulint: "]


def render_line(line, root, directory):
    if "code" in line:
        return line["code"]
    opts = [quote_opt(render_opt(n, v, root, directory), line["style"] + i) for i, (n, v) in enumerate(line["opts"])]
    sep = " " if line["style"] < 6 else "   "
    return PREFIXES[line["style"]] + sep.join(opts)


def render_py(lines, root, path):
    return "\n".join(render_line(l, root, os.path.dirname(path)) for l in lines) + "\n"


def render_cli(cli, root, cwd, style=0):
    return [" ".join(quote_opt(render_opt(n, v, root, cwd), style) for n, v in group) for group in cli]


def toml_scalar(val, root, directory):
    kind = val[0]
    if kind == "str":
        return json.dumps(val[1])
    if kind == "int":
        return str(val[1])
    if kind == "list":
        return "[" + ", ".join(json.dumps(v) for v in val[1]) + "]"
    if kind == "ref":
        return json.dumps(render_ref(val[1], root, directory))
    if kind == "table":
        return "{" + ", ".join(f"{k} = {toml_scalar(v, root, directory)}" for k, v in val[1]) + "}"
    if kind == "toml":
        return val[1]
    raise AssertionError(val)


def render_conf(conf, root, path):
    directory = os.path.dirname(path)
    out = []
    if conf["base"] is not None and not conf.get("base_last"):
        out.append(f"config-file = {json.dumps(render_ref(conf['base'], root, directory))}")
    if conf.get("enabler"):
        out.append(f"default-enabler-name = {json.dumps(conf['enabler'])}")
    for name, val in conf["entries"]:
        out.append(f"{name} = {toml_scalar(val, root, directory)}")
    if conf["base"] is not None and conf.get("base_last"):
        out.append(f"config-file = {json.dumps(render_ref(conf['base'], root, directory))}")
    out.extend(conf.get("raw_top", []))
    out.extend(conf.get("raw_mid", []))
    for g, d in conf["groups"].items():
        for linter, table in d.items():
            out.append(f"\n[translations.{g}.{linter}]")
            for k, v in table:
                out.append(f"{k} = {toml_scalar(v, root, directory)}")
    if conf.get("trans"):
        out.append("\n[language-translations]")
        out.extend(conf.get("raw_trans", []))
        for k, v in conf["trans"].items():
            out.append(f"{k} = {json.dumps(v)}")
    out.extend(conf.get("raw_bottom", []))
    return "\n".join(out) + "\n"


def write_world(world, root):
    for path, conf in world["confs"].items():
        full = os.path.join(root, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w", encoding="utf-8") as f:
            f.write(render_conf(conf, root, path))
    for path, lang in world.get("langs", {}).items():
        full = os.path.join(root, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w", encoding="utf-8") as f:
            f.write("".join(f"{k} = {json.dumps(v)}\n" for k, v in lang.items()))
    for path, lines in world["pys"].items():
        full = os.path.join(root, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        text = render_py(lines, root, path)
        enc = world.get("encoding")
        if enc == "crlf":
            text = text.replace("\n", "\r\n")
        with open(full, "wb") as f:
            if enc == "latin-1":
                f.write(("# -*- coding: latin-1 -*-\n# \xe9t\xe9\n" + text).encode("latin-1", "replace"))
            else:
                f.write(text.encode("utf-8-sig" if enc == "bom" else "utf-8"))


# ---------------------------------------------------------------- model


class Effective:
    """Settings of one source chain: a list of (option, text or None, source) in order."""

    def __init__(self):
        self.settings = []
        self.groups = {}
        self.trans = {}


def toml_text(val):
    if isinstance(val, bool):
        return str(val)
    if isinstance(val, (int, str)):
        return str(val)
    if isinstance(val, list):
        return ",".join(val)
    raise AssertionError(val)


def packaged_dict(name):
    from vlib.core import REPO

    with open(os.path.join(REPO, "edulint", "config", "files", name + ".toml"), "rb") as f:
        return tomllib.load(f)


def model_packaged(name):
    d = packaged_dict(name)
    eff = Effective()
    if name != "empty":
        base = model_packaged(d.get("config-file", "empty"))
        eff.settings, eff.groups, eff.trans = base.settings, base.groups, base.trans
    enabler = d.get("default-enabler-name", name)
    for key, val in d.items():
        if key in ("config-file", "translations", "language-translations", "default-enabler-name"):
            continue
        if isinstance(val, dict):
            for k, v in val.items():
                eff.settings.append((key, f"--{k}={toml_text(v)}", enabler))
        else:
            eff.settings.append((key, toml_text(val), enabler))
    for g, d2 in d.get("translations", {}).items():
        eff.groups[g] = {linter: [f"--{k}={toml_text(v)}" for k, v in t.items()] if isinstance(t, dict) else [toml_text(t)] for linter, t in d2.items()}
    eff.trans.update({k: v for k, v in d.get("language-translations", {}).items() if isinstance(v, str)})
    return eff


def stem(path):
    return os.path.splitext(os.path.basename(path))[0]


def model_text(val, root):
    kind = val[0]
    if kind in ("str", "int"):
        return str(val[1])
    if kind == "list":
        return ",".join(val[1])
    if kind == "ref":
        return os.path.join(root, val[1][1])
    raise AssertionError(val)


def model_chain(world, ref, root):
    """Effective settings of a configuration file and everything it inherits."""
    if ref[0] == "packaged":
        return model_packaged(ref[1])
    conf = world["confs"][ref[1]]
    base = model_chain(world, conf["base"] or ["packaged", "empty"], root)
    eff = Effective()
    eff.settings = list(base.settings)
    eff.groups = dict(base.groups)
    eff.trans = dict(base.trans)
    src = conf.get("enabler") or stem(ref[1])
    for name, val in conf["entries"]:
        if val[0] == "toml":  # malformed
            continue
        if val[0] == "table":
            for k, v in val[1]:
                if v[0] == "toml":
                    continue
                eff.settings.append((name, f"--{k}={model_text(v, root)}", src))
        else:
            eff.settings.append((name, model_text(val, root), src))
    for g, d in conf["groups"].items():
        eff.groups[g] = {linter: [f"--{k}={model_text(v, root)}" for k, v in t if v[0] != "toml"] for linter, t in d.items()}
    eff.trans.update(conf.get("trans") or {})
    return eff


ALIASES = {"config": "config-file"}


def line_settings(opts, source, root):
    res = []
    for name, val in opts:
        name = name.lower()
        name = ALIASES.get(name, name)
        if isinstance(val, list):
            val = val[1] if val[0] in ("packaged", "raw") else os.path.join(root, val[1])
        res.append((name, val, source))
    return res


def infile_settings(world, py, root):
    return [s for line in world["pys"][py] if "opts" in line for s in line_settings(line["opts"], "in-file", root)]


def cli_settings(world, root):
    return [s for group in world["cli"] for s in line_settings(group, "cmd", root)]


def last_ref(opts):
    res = None
    for name, val in opts:
        if ALIASES.get(name.lower(), name.lower()) == "config-file":
            res = val
    return res


def implicit_of(world, py):
    d = os.path.dirname(py)
    while True:
        for name in ("edulint.toml", ".edulint.toml"):
            cand = os.path.join(d, name) if d else name
            if cand in world["confs"]:
                return ["file", cand, "abs"]
        if not d:
            return None
        d = os.path.dirname(d)


def typed(name, text):
    kind = SINGLE[name]
    if kind == "list":
        return text.split(",") if text else []
    if kind == "bool":
        return True
    return text


def resolve_all(args):
    """Of enable/disable all only the last counts; it cancels opposite arguments before it."""
    low = [a.lower() for a in args]
    alls = [i for i, a in enumerate(low) if a in ("--enable=all", "--disable=all")]
    if not alls:
        return list(args)
    last = alls[-1]
    opposite = "--disable" if low[last] == "--enable=all" else "--enable"
    res = []
    for i, a in enumerate(args):
        if i in alls and i != last:
            continue
        if i < last and low[i].startswith(opposite) and low[i] != "--enable=noop":
            continue
        res.append(a)
    return res


def combine(settings, groups):
    """Settings in order -> {option: final value}"""
    res = dict(DEFAULTS)
    last = {}
    for i, (name, val, _src) in enumerate(settings):
        if name in SINGLE:
            res[name] = typed(name, val)
            last[name] = i
    args = {"pylint": [], "flake8": []}
    for i, (name, val, _src) in enumerate(settings):
        if name in args:
            args[name].append(val)
        if last.get(name) == i:
            # a packaged group named like an option goes with that option
            for g in (res["set-groups"] if name == "set-groups" else []) + [name]:
                for linter, vals in groups.get(g, {}).items():
                    args[linter].extend(vals)
    res["pylint"] = resolve_all(args["pylint"])
    res["flake8"] = args["flake8"]
    return res


def model_for(world, py, root, ignore_infile=False):
    """(final options, Effective of the chosen chain, all settings) the file is linted with."""
    cli_opts = [o for g in world["cli"] for o in g]
    in_opts = [] if ignore_infile else [o for l in world["pys"][py] if "opts" in l for o in l["opts"]]
    ref = last_ref(cli_opts)
    if ref is None:
        ref = last_ref(in_opts)
    if ref is None:
        ref = implicit_of(world, py)
    if ref is None:
        ref = ["packaged", "default"]
    eff = model_chain(world, ref, root)
    infile = [] if ignore_infile else infile_settings(world, py, root)
    settings = eff.settings + infile + cli_settings(world, root)
    final = combine(settings, eff.groups)
    final["config-file"] = ref[1] if ref[0] == "packaged" else os.path.join(root, ref[1])
    return final, eff, settings, ref


def enablers(final, eff, settings):
    """name -> source that enables it, by the rule of C17"""
    res = {}

    def add(option, val, src):
        prefixes = {"pylint": ("--enable=",), "flake8": ("--select=", "--extend-select=")}.get(option, ())
        for p in prefixes:
            if val.startswith(p):
                for name in val[len(p):].split(","):
                    res[name] = src

    set_options = [name for name, _, _ in settings]
    for g in final["set-groups"] + [n for n in SINGLE if n in set_options]:
        for linter, vals in eff.groups.get(g, {}).items():
            for v in vals:
                add(linter, v, g)
    for name, val, src in settings:
        if name in LINTERS:
            add(name, val, src)
        elif name == "ignore-infile-config-for" and val is not None:
            res["EDL001"] = src
    return res


def shrink_world(world):
    """Smaller worlds."""
    def copy():
        return json.loads(json.dumps(world))

    used = json.dumps([world["pys"], world["cli"], [c["base"] for c in world["confs"].values()], [c["entries"] for c in world["confs"].values()], world.get("langs")])
    for name in list(world["confs"]):
        if json.dumps(name) not in used or world["confs"][name].get("implicit"):
            w = copy()
            del w["confs"][name]
            if json.dumps(name) not in json.dumps([w["pys"], w["cli"], [c["base"] for c in w["confs"].values()]]):
                yield w
    for py in list(world["pys"]):
        if len(world["pys"]) > 1:
            w = copy()
            del w["pys"][py]
            yield w
        for i, line in enumerate(world["pys"][py]):
            w = copy()
            del w["pys"][py][i]
            yield w
            for j in range(len(line.get("opts", []))):
                if len(line["opts"]) > 1:
                    w = copy()
                    del w["pys"][py][i]["opts"][j]
                    yield w
            if line.get("style"):
                w = copy()
                w["pys"][py][i]["style"] = 0
                yield w
    for i, group in enumerate(world["cli"]):
        w = copy()
        del w["cli"][i]
        yield w
        for j in range(len(group)):
            if len(group) > 1:
                w = copy()
                del w["cli"][i][j]
                yield w
    for name, conf in world["confs"].items():
        if conf["base"] is not None:
            w = copy()
            w["confs"][name]["base"] = None
            yield w
        for i, (opt, val) in enumerate(conf["entries"]):
            w = copy()
            del w["confs"][name]["entries"][i]
            yield w
            if val[0] == "table":
                for j in range(len(val[1])):
                    w = copy()
                    del w["confs"][name]["entries"][i][1][1][j]
                    yield w
        for g, d in conf["groups"].items():
            w = copy()
            del w["confs"][name]["groups"][g]
            yield w
            for linter, t in d.items():
                for j in range(len(t)):
                    if len(t) > 1:
                        w = copy()
                        del w["confs"][name]["groups"][g][linter][j]
                        yield w
        for t in conf.get("trans") or {}:
            w = copy()
            del w["confs"][name]["trans"][t]
            yield w
        if conf.get("enabler"):
            w = copy()
            w["confs"][name]["enabler"] = None
            yield w
    for k, lang in (world.get("langs") or {}).items():
        for t in lang:
            w = copy()
            del w["langs"][k][t]
            yield w


class Scratch:
    """A fresh directory, optionally entered."""

    def __init__(self, cwd=""):
        self.cwd = cwd

    def __enter__(self):
        import tempfile

        self.root = os.path.realpath(tempfile.mkdtemp(prefix="w-"))
        self.old = os.getcwd()
        os.makedirs(os.path.join(self.root, self.cwd), exist_ok=True)
        os.chdir(os.path.join(self.root, self.cwd))
        return self.root

    def __exit__(self, *exc):
        import shutil

        os.chdir(self.old)
        shutil.rmtree(self.root, ignore_errors=True)


def options_of(iconfig):
    return {arg.option.to_name(): (list(arg.val) if isinstance(arg.val, tuple) else arg.val) for arg in iconfig.config}


def diff(expected, got, skip=()):
    return [f"{k}: expected {expected[k]!r}, got {got.get(k)!r}" for k in expected if k not in skip and expected[k] != got.get(k)]


def dump(world, root="ROOT"):
    out = []
    for path, conf in world["confs"].items():
        out.append(f"--- {path}\n{render_conf(conf, root, path)}")
    for path, lang in (world.get("langs") or {}).items():
        out.append(f"--- {path}\n{lang}")
    for path, lines in world["pys"].items():
        out.append(f"--- {path}\n{render_py(lines, root, path)}")
    out.append(f"--- options: {render_cli(world['cli'], root, world.get('cwd', ''))}")
    return "\n".join(out)
