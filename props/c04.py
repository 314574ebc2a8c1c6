"""C04: suppression comments are reported; in-file configuration can be shut out."""
import json
import os

from vlib import confgen as cg
from vlib import lint
from vlib.core import Outcome
from props.c01 import normal

CASES = {"quick": 4500, "thorough": 60000}
RULE = (
    "Two kinds of cases. options: a configuration world whose command line, configuration file (given or implicit) or in-file lines ignore in-file "
    "configuration; the resulting options must be those of the model without in-file lines. report: 1-3 files of random lines carrying suppression "
    "comments of both linters in many spellings among look-alikes, linted while ignoring a random set of linters set from a random source; the reported "
    "EDL001 problems (path, line, column, count) must be exactly those the generator planted. Non-trivial: in-file lines or comments to "
    "decide about are present."
)
ASSUMPTIONS = [
    "spellings that a linter would not honour (no space in #noqa, upper-case PYLINT) are not generated",
    "lines importing ib111 are exempt in the tool and not generated",
]


def prepare():
    lint.preload()


# (text, linters it belongs to -> [(offset of the comment in the text, kind)])
FLAKE8 = ["# noqa", "# NOQA", "# noqa: E501", "# noqa:E225,F401", "# NoQA : E1", "# flake8: noqa", "# flake8:noqa", "# Flake8: NOQA", "# flake8=noqa", "# flake8:  noqa: E501"]
PYLINT = [
    "# pylint: disable=unused-import", "# pylint:disable=all", "#pylint: disable=C0103", "# pylint:  disable = invalid-name", "# pylint: enable=R1714",
    "# pylint: disable-next=line-too-long", "# pylint: skip-file", "#  pylint: enable=all", "# because pylint: disable=C0103", "# type: ignore pylint: disable=E1",
    "# pylint: disable-msg=C0103", "# pylint: disable-all", "# why, pylint:skip-file",
]
DECOYS = [
    "# no qa", "# pylint is nice", "# flake8 would complain", "# disable=x", "# noq", "# pylint disable=x", "# skip-file", "# enable pylint: please", "",
    "# a comment", "#", "# edulint noqua", "# TODO: disable pylint", "# pylint: max-line-length=100", "# flake8: max-line-length=3",
]
CODE = ["x = 1", "def f():\n    return 1", "", "if True:\n    y = 2", "import os", "z = (1,\n     2)", "s = 'a # b'", "t = '#'", "lst = ['#', \"##\"]", "é = 'ěšč'", "\tif x: pass"]


def gen_file(rng):
    lines = []
    for _ in range(rng.randint(1, 10)):
        code = rng.choice(CODE).split("\n")
        k = rng.random()
        if k < 0.35:
            com, kind = rng.choice(FLAKE8), "flake8"
        elif k < 0.7:
            com, kind = rng.choice(PYLINT), "pylint"
        else:
            com, kind = rng.choice(DECOYS), None
        both = None
        if kind is not None and rng.random() < 0.1:
            both = rng.choice(PYLINT[:7] if kind == "flake8" else FLAKE8[:4])
        lines.append({"code": code, "com": com, "kind": kind, "both": both, "gap": rng.choice(["", " ", "  ", "\t"]), "string": rng.random() < 0.01})
    return lines


def expected_of(lines):
    """Text of the file and [(line, column, linter)]"""
    out, exp = [], []
    for l in lines:
        out.extend(l["code"][:-1])
        text = l["code"][-1] + l["gap"]
        if l["string"] and l["kind"] == "pylint":
            text += "u = '" + l["com"].replace("'", "") + "'"
        else:
            if l["kind"]:
                exp.append((len(out) + 1, len(text), l["kind"]))
            text += l["com"]
            if l["both"]:
                text += "  "
                exp.append((len(out) + 1, len(text), "pylint" if l["kind"] == "flake8" else "flake8"))
                text += l["both"]
        out.append(text)
    return "\n".join(out) + "\n", exp


def generate(rng):
    if rng.random() < 0.6:
        groups = ["g1", "extra"]
        confs = cg.gen_confs(rng, groups, n=rng.choice([1, 2]), p_groups=0.3)
        for c in confs.values():  # the ignoring is set by one source only
            c["entries"] = [e for e in c["entries"] if e[0] != "ignore-infile-config-for"]
        top = list(confs)[-1]
        refs = [cg.gen_ref_mode(rng, p) for p in confs] + [["packaged", "cs0"]]
        py = rng.choice(["m.py", "sub/m.py"])
        where = rng.choice(["cli", "cli", "conf-cli", "conf-implicit", "infile", "conf-base"])
        val = rng.choice(["edulint", "all", "edulint,pylint", "flake8,all", "pylint,flake8,edulint"])

        def strip(lines):
            for l in lines:
                if "opts" in l:
                    l["opts"] = [o for o in l["opts"] if o[0].lower() != "ignore-infile-config-for"] or [["allowed-onechar-names", "z"]]
            return lines

        lines = strip(cg.gen_lines(rng, groups, refs, n=rng.randint(1, 3), p_config=0.1))
        cli = [[o for o in g if o[0].lower() not in ("ignore-infile-config-for", "config-file", "config")] for g in cg.gen_cli(rng, groups, [])]
        cli = [g for g in cli if g]
        if where == "cli":
            cli.insert(rng.randint(0, len(cli)), [["ignore-infile-config-for", val]])
            if rng.random() < 0.4:
                cli.append([["config-file", cg.gen_ref_mode(rng, top)]])
        elif where in ("conf-cli", "conf-base"):
            target = top if where == "conf-cli" else list(confs)[0]
            confs[target]["entries"].append(["ignore-infile-config-for", cg.toml_value(rng, val)])
            if where == "conf-base" and target != top:
                confs[top]["base"] = cg.gen_ref_mode(rng, target)
            cli.append([["config-file", cg.gen_ref_mode(rng, top)]])
        elif where == "conf-implicit":
            confs["edulint.toml"] = dict(confs.pop(top), implicit=True)
            confs["edulint.toml"]["entries"].append(["ignore-infile-config-for", cg.toml_value(rng, val)])
            for l in lines:
                if "opts" in l:
                    l["opts"] = [o for o in l["opts"] if o[0].lower() not in ("config-file", "config")] or [["set-groups", "g1"]]
        else:
            lines.append({"opts": [["ignore-infile-config-for", val]], "style": rng.randrange(8)})
        if where in ("cli", "infile") and rng.random() < 0.4:
            n = os.path.join(rng.choice(["", os.path.dirname(py)]), rng.choice(["edulint.toml", ".edulint.toml"]))
            confs[n] = dict(cg.gen_conf(rng, groups, None, (), 0.3), implicit=True)
            confs[n]["entries"] = [e for e in confs[n]["entries"] if e[0] != "ignore-infile-config-for"]
        return {"kind": "options", "confs": confs, "langs": {}, "pys": {py: lines}, "cli": cli, "cwd": "", "where": where, "val": val}
    files = {n: gen_file(rng) for n in rng.sample(["a.py", "pkg/__init__.py", "pkg/b.py", "other/c.py"], rng.randint(1, 3))}
    return {
        "kind": "report",
        "files": files,
        "ignore": rng.choice([["pylint"], ["flake8"], ["pylint", "flake8"], ["all"], ["edulint"], ["edulint", "flake8"], []]),
        "where": rng.choice(["cli", "conf", "infile", "implicit"]),
        "given": rng.choice(["files", "dir"]),
        "rel": rng.random() < 0.5,
        "junk": rng.random() < 0.2,
    }


def run_options(world):
    from edulint.config.config import get_cmd_args, get_config_one

    (py,) = world["pys"]
    viol = []
    with cg.Scratch("") as root:
        cg.write_world(world, root)
        if world["where"] == "infile":
            only = json.loads(json.dumps(world))
            only["pys"][py] = [{"opts": [["ignore-infile-config-for", world["val"]]], "style": 0}]
            opts, eff, _s, ref = cg.model_for(only, py, root)
        else:
            opts, eff, _s, ref = cg.model_for(world, py, root, ignore_infile=True)
        got = get_config_one(os.path.join(root, py), get_cmd_args(cg.render_cli(world["cli"], root, "", 0)))
        if got is None:
            viol.append(("none", f"no configuration\n{cg.dump(world, root)}"))
        else:
            d = cg.diff(normal(opts, root, ""), normal(cg.options_of(got[0]), root, ""), skip=("config-file",))
            if d:
                viol.append((f"options:{world['where']}", f"ignored by {world['where']}: " + "; ".join(d) + f"\n{cg.dump(world, root)}"))
    return Outcome(viol, True, [world["where"]], note=world["val"])


def run_report(case):
    ignore = case["ignore"]
    val = ",".join(ignore)
    texts, exp = {}, {}
    where = case["where"]
    linters = {"pylint", "flake8"} if "all" in ignore else set(ignore)
    for name, lines in case["files"].items():
        text, marks = expected_of(lines)
        shift = 0
        if where == "infile":
            text = f"# edulint: ignore-infile-config-for={val}\n" + text
            shift = 1
        texts[name] = text
        exp[name] = sorted((ln + shift, col) for ln, col, kind in marks if kind in linters)
    strings = any(l["string"] and l["kind"] == "pylint" for ls in case["files"].values() for l in ls)
    options = ["no-flake8"]
    toml = f'no-flake8-placeholder = 1\nignore-infile-config-for = "{val}"\n'.split("\n", 1)[1]
    extra = dict(texts)
    if where == "cli":
        options += ["config-file=empty", f"ignore-infile-config-for={val}"]
    elif where == "conf":
        extra["conf/x.toml"] = toml
        options += ["config-file={root}/conf/x.toml"]
    elif where == "implicit":
        extra["edulint.toml"] = toml
    if case["junk"]:
        extra["pkg/notes.txt"] = "# noqa\n# pylint: disable=x\n"
        extra["other/x.pyx"] = "# noqa\n"
    if case["given"] == "dir":
        paths = ["." if case["rel"] else "{root}"]
    else:
        paths = [n if case["rel"] else "{root}/" + n for n in texts]
    import shutil
    import tempfile

    root = os.path.realpath(tempfile.mkdtemp(prefix="l-"))
    viol = []
    try:
        res = lint.forked_lint(extra, paths, [o.replace("{root}", root) for o in options], root=root)
        if res["problems"] is None:
            viol.append(("failed", f"linting failed: {res['log']}"))
        else:
            got = {n: [] for n in texts}
            stray = []
            for p in res["problems"]:
                if p["code"] != "EDL001":
                    continue
                rel = os.path.relpath(os.path.join(root, p["path"]), root)
                if rel in got:
                    got[rel].append((p["line"], p["column"]))
                else:
                    stray.append(p)
            if stray:
                viol.append(("stray", f"reported outside of the linted files: {stray}"))
            for n in texts:
                if sorted(got[n]) != exp[n]:
                    missing = [e for e in exp[n] if e not in got[n]]
                    more = [g for g in got[n] if g not in exp[n]]
                    sig = "string" if strings and not missing and all("u = '" in texts[n].split("\n")[ln - 1] for ln, _ in more) else ("missing" if missing else "extra" if more else "repeated")
                    shown = "\n".join(f"{i}: {l}" for i, l in enumerate(texts[n].split("\n"), 1))
                    viol.append((sig, f"{n}, ignoring {val} set by {where}: missing {missing}, unexpected {more}\n{shown}"))
                    break
    finally:
        shutil.rmtree(root, ignore_errors=True)
    return Outcome(viol, sum(len(e) for e in exp.values()) > 0, ["report:" + where], note=exp)


def run_case(case):
    return run_options(case) if case["kind"] == "options" else run_report(case)


def known_match(finding, case, sig, text):
    return sig == "string" and finding["id"] == "C04-string"


def shrink(case):
    if case["kind"] == "options":
        for w in cg.shrink_world(case):
            yield w
        return
    for n in list(case["files"]):
        if len(case["files"]) > 1:
            c = json.loads(json.dumps(case))
            del c["files"][n]
            yield c
        for i in range(len(case["files"][n])):
            if len(case["files"][n]) > 1:
                c = json.loads(json.dumps(case))
                del c["files"][n][i]
                yield c
            if len(case["files"][n][i]["code"]) > 1:
                c = json.loads(json.dumps(case))
                c["files"][n][i]["code"] = ["x = 1"]
                yield c
