"""C06: malformed configuration is rejected piecewise."""
import json
import os

from vlib import confgen as cg
from vlib import lint
from vlib.core import Outcome, Timeout
from props.c01 import normal
from props.c03 import TRANS, trans_dict

CASES = {"quick": 12000, "thorough": 100000}
RULE = (
    "A case is a well-formed world of two Python files with different configuration files, plus malformed parts injected anywhere: unknown options and "
    "linters, values of wrong TOML types, missing or superfluous values, unbalanced quotes, non-table groups and translations, broken templates, "
    "unreadable, missing, cyclic and syntactically broken configuration and language files. The options and translations must equal those of the "
    "model of the world without the malformed parts (files whose configuration cannot be loaded are left out); every 12th case is also linted. "
    "Non-trivial: at least one malformed part is present."
)
ASSUMPTIONS = ["a number given where a string is expected stands for its text, as the tool accepts it"]


def prepare():
    lint.preload()


WRONG = ["1.5", "1979-05-27", "[1, 2]", "[[\"a\"]]", "[true]", "{}", "{a = 1.5}", "[{a = 1}]", "[\"a\", 1]", "07:32:00", "nan"]
LINES = [
    "# edulint: unknown=3", "# edulint: config-file", "# edulint: no-flake8=true", "# edulint: 'unbalanced", '# edulint: pylint="--enable=x',
    "# edulint:", "# edulint: =", "# edulint: =x", "# edulint: pylint", "# edulint: set-groups", "# edulint: --enable=x", "# edulint: Pylint enable",
    "# edulint: disallowed_builtin_names=x", "# edulint: allowed-onechar-names no_flake8", "# edulint: \\", "# edulint: language-file", "# edulint: flake8 ==",
]
CLI = ["unknown=3", "config-file", "no-flake8=off", "'unbalanced", 'pylint="--x', "", "=", "=x", "pylint", "--enable=x", "\\", "export-groups", " ", "edulint=1", "groups=x"]
TEMPLATES = ["{", "}", "{5}", "{name}", "{0.x}", "{0[a]}", "{0!z}", "{0:d}", "{:}", "{}{}{}{}{}{}", "{0", "%s", "{{}"]
PROBLEMS = ["class C:\n    def f(self, a):\n        return a == 1 or a == 2", "import os", "def g(lst):\n    for i in range(len(lst)):\n        print(lst[i])", "max = 3", "x=1"]


def junk_toml(rng, conf):
    top, bottom = [], []
    present = {name for name, _ in conf["entries"]}
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if k < 0.15:
            top.append(rng.choice(["unknown-option = 1", "Unknown = {a = 1}", "x.y.z = 'a'", '"" = 3', '"a b" = []', "set_groups = 'extra'"]))
        elif k < 0.25 and conf["base"] is None and not any("config-file" in t for t in top):
            top.append("config-file = " + rng.choice(["5", "1.5", "[]", "['cs0']", "{a = 1}", "true"]))
        elif k < 0.3 and not conf.get("enabler") and not any("enabler" in t for t in top):
            top.append("default-enabler-name = " + rng.choice(["5", "[]", "{a = 1}", "1.5", "true"]))
        elif k < 0.35:
            top.append("no-flake8 = " + rng.choice(["true", "false", "'on'", "1"]))
        elif k < 0.55:
            name = rng.choice(["pylint", "flake8", "allowed-onechar-names", "disallowed-builtin-names", "ignore-infile-config-for", "export-groups", "set-groups", "language-file"])
            if name not in present:
                present.add(name)
                wrong = rng.choice(WRONG)
                conf["entries"].append([name, ["toml", wrong]])
        elif k < 0.7:
            tables = [v for _, v in conf["entries"] if v[0] == "table"]
            if tables:
                t = rng.choice(tables)
                key = f"junk{len(t[1])}"
                t[1].insert(rng.randint(0, len(t[1])), [key, ["toml", rng.choice(["1.5", "[1]", "{}", "{a = 1}", "[[]]", "1979-05-27"])]])
        elif k < 0.85:
            if not conf["groups"] and not any("translations." in b for b in bottom) and rng.random() < 0.4:
                top.append("translations = " + rng.choice(["5", "'extra'", "[]", "[{}]", "1.5", "{}", "{extra = 3}", "{extra = {pylint = 1.5}}", "{extra = {jslint = 'x'}}", "{extra = {pylint = [1]}}"]))
            elif not any(t.startswith("translations") for t in top):
                n = f"bad{len(bottom)}"
                bottom.append(rng.choice([f"[translations.{n}]\npylint = 1.5", f"[translations.{n}]\nunknown = 'x'", f"[translations.{n}.pylint]\na = 1.5\nb = [1]", f"[translations.{n}.unknown]\nenable = 'x'", f"[translations.{n}]"]))
        else:
            if not conf["trans"] and rng.random() < 0.4:
                top.append("language-translations = " + rng.choice(["5", "'cs'", "[]", "1.5", "{}", "{R1714 = 5}", "{R1714 = ['a']}", "{translated_extracts = 5}"]))
            elif conf["trans"]:
                bottom.append(rng.choice([
                    "[language-translations.translated_extracts]\nR1714 = 5", "[language-translations.translated_extracts.R1714]\n1 = 5\nfirst = {a = 'b'}",
                    "[language-translations.translated_extracts.R1714]\n1 = {a = 5}", "[language-translations.translated_extracts.C0103.x]\na = []",
                    "[language-translations.more]\na = 'b'",
                ]) if not any("language-translations" in b for b in bottom) else "")

    mid = []
    if conf["groups"]:
        if not any(t.startswith("translations") for t in top) and rng.random() < 0.4:
            mid.append("[translations]\n" + rng.choice(["first = 3", "first = 'a'", "first = []\nsecond = 1.5", "first = {}", "first = {pylint = 1.5}", "first = {unknown = 'x'}", "first = true"]))
        for g in conf["groups"]:
            if rng.random() < 0.3:
                mid.append(f"[translations.{g}.{rng.choice(['unknown', 'jslint', 'edulint2'])}]\nenable = 'x'")
        for d in conf["groups"].values():
            for t in d.values():
                if rng.random() < 0.3:
                    t.insert(rng.randint(0, len(t)), ["junk", ["toml", rng.choice(["1.5", "[1]", "{}", "{a = 1}", "1979-05-27"])]])
    conf["raw_mid"] = mid
    if conf["trans"] and rng.random() < 0.4:
        conf["raw_trans"] = [rng.choice(["a = 3", "W0611 = 1.5\nb = []", "R6001 = {x = 'y'}", "'' = true"])]

    def once(items):
        seen, res = set(), []
        for i in items:
            key = i.split("=")[0].split("\n")[0].strip()
            if key not in seen:
                seen.add(key)
                res.append(i)
        return res

    conf["raw_top"] = once(top)
    conf["raw_bottom"] = once(bottom)


BREAKS = ["missing", "syntax", "cycle", "binary", "directory", "self", "dup", "nul"]


def generate(rng):
    groups = ["extra", "g1"]
    langs = {"lang.toml": {t: f"L {t}" for t in TRANS}} if rng.random() < 0.4 else {}
    lang_refs = [cg.gen_ref_mode(rng, p) for p in langs]
    confs = cg.gen_confs(rng, groups, lang_refs, n=rng.choice([1, 2, 3]), p_groups=0.5, trans=TRANS, packaged=("empty", "cs0"))
    names = list(confs)
    for c in confs.values():
        if rng.random() < 0.6:
            junk_toml(rng, c)
        for t in c["trans"]:
            if rng.random() < 0.3:
                c["trans"][t] = rng.choice(TEMPLATES)
    second = cg.gen_conf(rng, groups, None, lang_refs, 0.5, TRANS)
    confs["second.toml"] = second
    refs = [cg.gen_ref_mode(rng, p) for p in names]
    pys = {}
    for i, (py, top) in enumerate((("m.py", names[-1]), ("sub/n.py", "second.toml"))):
        lines = [{"code": rng.choice(PROBLEMS)}, {"opts": [["config-file", cg.gen_ref_mode(rng, top)]], "style": rng.randrange(8)}]
        lines += cg.gen_lines(rng, groups, refs if i == 0 else [], lang_refs, p_config=0.05)
        for _ in range(rng.randint(0, 2)):
            lines.insert(rng.randint(0, len(lines)), {"code": rng.choice(LINES)})
        pys[py] = lines
    cli = cg.gen_cli(rng, groups, [], lang_refs)
    junk = [rng.choice(CLI) for _ in range(rng.randint(0, 2))]
    world = {"confs": confs, "langs": langs, "pys": pys, "cli": cli, "cwd": "", "junk": junk, "lint": rng.random() < 0.08, "break": None}
    if rng.random() < 0.25:
        world["break"] = [rng.choice(BREAKS), rng.choice(names + ["second.toml"] + list(langs))]
        if world["break"][1] in langs and world["break"][0] in ("cycle", "self"):
            world["break"][0] = "missing"
    return world


def depends(world, ref, broken):
    while True:
        if ref is None or ref[0] != "file":
            return False
        if ref[1] == broken:
            return True
        ref = world["confs"][ref[1]]["base"]


def apply_break(world, root):
    kind, name = world["break"]
    full = os.path.join(root, name)
    if kind == "missing":
        os.remove(full)
    elif kind == "directory":
        os.remove(full)
        os.mkdir(full)
    else:
        with open(full, "rb") as f:
            data = f.read()
        if kind == "syntax":
            data += b"\n[unclosed\n"
        elif kind == "binary":
            data = b"\xff\xfe\x00" + data
        elif kind == "dup":
            data = b"x = 1\nx = 2\n" + data
        elif kind == "nul":
            data = data + b"# \x00\n"
        elif kind in ("cycle", "self"):
            other = next((n for n in world["confs"] if n != name and depends(world, ["file", n, "abs"], name)), name) if kind == "cycle" else name
            target = os.path.relpath(os.path.join(root, other), os.path.dirname(full))
            lines = [l for l in data.decode().split("\n") if not l.startswith("config-file")]
            data = (f"config-file = {json.dumps(target)}\n" + "\n".join(lines)).encode()
        with open(full, "wb") as f:
            f.write(data)


def run_case(world):
    from edulint.config.config import get_cmd_args, get_config_many

    viol = []
    with cg.Scratch("") as root:
        cg.write_world(world, root)
        broken = None
        if world["break"]:
            apply_break(world, root)
            broken = world["break"][1]
        options = cg.render_cli(world["cli"], root, "", 0)
        for j, text in enumerate(world["junk"]):
            options.insert(min(j, len(options)), text)
        paths = [os.path.join(root, p) for p in world["pys"]]
        many = get_config_many(paths, get_cmd_args(options))
        got = {}
        for files, cfg, trans in many:
            for f in files:
                got[os.path.relpath(f, root)] = (normal(cg.options_of(cfg), root, ""), {k: t for k, (t, _) in trans_dict(trans).items()})
        for py in world["pys"]:
            opts, eff, _s, ref = cg.model_for(world, py, root)
            if broken is not None and depends(world, ref, broken):
                if py in got:
                    viol.append(("used-broken", f"{py} is configured although {broken} cannot be loaded: {got[py]}\n{cg.dump(world, root)}"))
                continue
            if py not in got:
                viol.append(("left-out", f"{py} is left out ({world['break']})\n{cg.dump(world, root)}"))
                continue
            trans = dict(eff.trans)
            if opts["language-file"] is not None:
                lang = os.path.relpath(os.path.normpath(os.path.join(root, opts["language-file"])), root)
                if lang != broken:
                    trans.update(world["langs"][lang])
            d = cg.diff(normal(opts, root, ""), got[py][0])
            if not d and trans != {k: v for k, v in got[py][1].items() if k not in ("more",)}:
                d = [f"translations: expected {trans}, got {got[py][1]}"]
            if d:
                viol.append(("effect", f"{py}: " + "; ".join(d) + f"\njunk {world['junk']} break {world['break']}\n{cg.dump(world, root)}"))
        if world["lint"] and not viol:
            from vlib.core import forked

            res = forked(lint.call_check_code, paths, options, timeout=120)
            errors = [m for lvl, m in res["log"] if "usage" in m.lower()]
            if res["problems"] is None and not errors:
                viol.append(("lint-failed", f"linting failed: {res['log']}\n{cg.dump(world, root)}"))
    junked = bool(world["junk"] or world["break"] or any(c.get("raw_top") or c.get("raw_bottom") or c.get("raw_mid") or c.get("raw_trans") for c in world["confs"].values()) or any("code" in l and l["code"] in LINES for ls in world["pys"].values() for l in ls))
    return Outcome(viol, junked, ["lint" if world["lint"] else "config", f"break:{world['break'][0]}" if world["break"] else "whole"], note=[world["junk"], world["break"]])


def shrink(world):
    for k, v in (("lint", False), ("break", None), ("junk", [])):
        if world[k]:
            w = json.loads(json.dumps(world))
            w[k] = v
            yield w
    for name, c in world["confs"].items():
        for part in ("raw_top", "raw_mid", "raw_trans", "raw_bottom"):
            for i in range(len(c.get(part, []))):
                w = json.loads(json.dumps(world))
                del w["confs"][name][part][i]
                yield w
    for w in cg.shrink_world(world):
        if all(any("opts" in l and l["opts"] and l["opts"][0][0] == "config-file" for l in ls) for ls in w["pys"].values()) and (not w["break"] or w["break"][1] in w["confs"] or w["break"][1] in w["langs"]):
            yield w
