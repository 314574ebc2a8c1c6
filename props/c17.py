"""C17: every problem names the configuration source that enabled it."""
import json
import os

from vlib import confgen as cg
from vlib import lint
from vlib.core import Outcome

CASES = {"quick": 2500, "thorough": 60000}
RULE = (
    "A case is a configuration world (files, groups, in-file lines, command line) whose sources enable overlapping sets of checks by code, symbol and in "
    "bulk for a file that triggers all of them; after linting, enabled_by of every problem must be the source the reference model names. "
    "Non-trivial: at least two problems are reported with different expected sources, or one of them named by two sources."
)
ASSUMPTIONS = [
    "a name given as code takes precedence over the same check given by symbol", "groups count as weaker than naming the check directly, and among several selected groups any is accepted",
]
CODE = '''import os


def fun(lst, unused):
    for i in range(len(lst)):
        print(lst[i])
    if lst == 1 or lst == 2:
        return True
    else:
        return False
    max = 3


class cls:
    def meth(self):
        x=1
        return 5
'''
PY = ["R6305", "use-foreach", "C0103", "invalid-name", "R1714", "consider-using-in", "W0622", "redefined-builtin", "W0612", "unused-variable", "W0611", "unused-import",
      "no-self-use", "R1705", "no-else-return", "W0613", "unused-argument", "W0101", "unreachable", "missing-module-docstring", "C0114"]
FL = ["E225", "F401", "F841", "W292"]


def prepare():
    lint.preload()


def args(rng, linter):
    if linter == "pylint":
        k = rng.random()
        if k < 0.65:
            return ("enable", ",".join(cg.some(rng, PY)))
        if k < 0.75:
            return ("disable", ",".join(cg.some(rng, PY)))
        return ("enable" if k < 0.85 else "disable", "all")
    return (rng.choice(["select", "extend-select", "extend-select"]), ",".join(cg.some(rng, FL + ["E", "F"])))


def table(rng, linter):
    res = {}
    for _ in range(rng.randint(1, 3)):
        k, v = args(rng, linter)
        res[k] = cg.toml_value(rng, v)
    return [[k, v] for k, v in res.items()]


def opts(rng, groups, n):
    res = []
    for _ in range(n):
        if rng.random() < 0.25:
            res.append(["set-groups", ",".join(cg.some(rng, groups, 1, 2))])
        elif rng.random() < 0.1:
            res.append(["ignore-infile-config-for", "pylint"])
        elif rng.random() < 0.1:
            res.append(["allowed-onechar-names", "q"])
        else:
            linter = rng.choice(["pylint", "pylint", "flake8"])
            k, v = args(rng, linter)
            res.append([linter, f"--{k}={v}"])
    return res


def generate(rng):
    groups = ["extra", "g1", "unused-group"]
    confs = {}
    for name in rng.sample(["a.toml", "b.toml", "conf/course.toml"], rng.randint(0, 3)):
        base = cg.gen_ref_mode(rng, list(confs)[-1]) if confs and rng.random() < 0.8 else rng.choice([None, ["packaged", "empty"], ["packaged", "default"]])
        entries = [[l, ["table", table(rng, l)] if rng.random() < 0.7 else ["str", "--%s=%s" % args(rng, l)]] for l in ("pylint", "flake8") if rng.random() < 0.75]
        if rng.random() < 0.2:
            entries.append(["set-groups", ["list", cg.some(rng, groups[:2], 1, 2)]])
        if rng.random() < 0.15:
            entries.append(["ignore-infile-config-for", ["str", "pylint"]])
        gd = {g: {l: table(rng, l) for l in ("pylint", "flake8") if rng.random() < 0.8} for g in groups if rng.random() < 0.5}
        confs[name] = {"base": base, "entries": entries, "groups": {g: d for g, d in gd.items() if d}, "trans": {}, "enabler": rng.choice([None, None, "school"]), "implicit": False}
    lines = [{"opts": opts(rng, groups[:2], rng.randint(1, 2)), "style": rng.randrange(8)} for _ in range(rng.randint(0, 2))]
    cli = [opts(rng, groups[:2], rng.randint(1, 2)) for _ in range(rng.randint(0, 2))]
    if confs:
        top = [["config-file", cg.gen_ref_mode(rng, list(confs)[-1])]]
        if rng.random() < 0.5:
            cli.append(top)
        else:
            lines.append({"opts": top, "style": 0})
    return {"confs": confs, "langs": {}, "pys": {"m.py": lines}, "cli": cli, "cwd": ""}


def child(world, root):
    os.chdir(root)
    cg.write_world(world, root)
    with open("m.py", "a", encoding="utf-8") as f:
        f.write("# pylint: enable=noop\n" + CODE)
    return lint.call_check_code(["m.py"], cg.render_cli(world["cli"], root, "", 0))


def run_case(world):
    from vlib.core import forked

    viol = []
    sources = set()
    double = False
    with cg.Scratch("") as root:
        res = forked(child, world, root)
        if res["problems"] is None:
            return Outcome([("failed", f"linting failed {res['log']}\n{cg.dump(world, root)}")], True)
        final, eff, settings, _ref = cg.model_for(world, "m.py", root)
        direct = {}
        for name, val, src in settings:
            for prefix in {"pylint": ("--enable=",), "flake8": ("--select=", "--extend-select=")}.get(name, ()):
                if val.startswith(prefix):
                    for n in val[len(prefix):].split(","):
                        double = double or n in direct
                        direct[n] = src
            if name == "ignore-infile-config-for":
                direct["EDL001"] = src
        bygroup = {}
        set_options = {name for name, _, _ in settings}
        for g, d in eff.groups.items():
            if g in final["set-groups"] or g in set_options:
                for linter, vals in d.items():
                    for v in vals:
                        for prefix in ("--enable=", "--select=", "--extend-select="):
                            if v.startswith(prefix):
                                for n in v[len(prefix):].split(","):
                                    bygroup.setdefault(n, set()).add(g)
        for p in res["problems"]:
            names = [p["code"]] + ([p["symbol"]] if p["symbol"] else [])
            ok = None
            for n in names:
                if n in direct:
                    ok = {direct[n]}
                elif n in bygroup:
                    ok = bygroup[n]
                if ok:
                    break
            ok = ok or {None}
            sources |= ok
            if p["enabled_by"] not in ok:
                viol.append(("enabler", f"{p['code']} {p['symbol']} says {p['enabled_by']!r}, expected {ok}\n{cg.dump(world, root)}"))
                break
    return Outcome(viol, len(sources) > 1 or (double and bool(sources)), ["sources%d" % len(sources)], note=sorted(map(str, sources)))


def shrink(world):
    return cg.shrink_world(world)
