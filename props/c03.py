"""C03: every file gets its own configuration, however files are grouped."""
import os

from vlib import confgen as cg
from vlib.core import Outcome

CASES = {"quick": 25000, "thorough": 80000}
RULE = (
    "A case is a directory tree of 1-8 Python files (packages, nested and empty directories, other files) with and without in-file "
    "configuration, implicit and explicit configuration files carrying message translations, language files shared between configurations, "
    "command-line options and a list of given paths (files, directories, nested and repeated, several spellings). get_config_many is compared "
    "file by file to get_config_one on that file alone and to the reference model; every Python file below must be covered. "
    "Non-trivial: at least two configurations and a given directory."
)
ASSUMPTIONS = ["no symbolic links; Python files end in .py"]
DIRS = ["", "pkg", "pkg/sub", "other", "other/x y", "deep/a/b"]
NAMES = ["a.py", "b.py", "__init__.py", "test_c.py"]
TRANS = ["R1714", "use-foreach", "W0622"]


def prepare():
    import edulint.config.config  # noqa


def generate(rng):
    groups = ["extra", "g1"]
    langs = {}
    for name in rng.sample(["lang.toml", "pkg/cs.toml"], rng.randint(0, 2)):
        langs[name] = {t: f"{name} {t}" for t in TRANS if rng.random() < 0.6}
    lang_refs = [cg.gen_ref_mode(rng, p) for p in langs]
    confs = cg.gen_confs(rng, groups, lang_refs, n=rng.choice([0, 1, 2, 3]), p_groups=0.3, trans=TRANS)
    refs = [cg.gen_ref_mode(rng, p) for p in confs] + [["packaged", "empty"], ["packaged", "cs0"]]
    for d in DIRS:
        if rng.random() < 0.15:
            name = os.path.join(d, rng.choice(["edulint.toml", ".edulint.toml"]))
            base = rng.choice([None, None] + refs)
            confs[name] = cg.gen_conf(rng, groups, base, lang_refs, 0.3, TRANS)
            confs[name]["implicit"] = True
    pys = {}
    dirs = rng.sample(DIRS, rng.randint(1, 4))
    shared = cg.gen_lines(rng, groups, refs, lang_refs, n=1, p_config=0.4)
    for _ in range(rng.randint(1, 8)):
        path = os.path.join(rng.choice(dirs), rng.choice(NAMES))
        k = rng.random()
        pys[path] = [{"code": "x = 1"}] if k < 0.45 else shared if k < 0.7 else cg.gen_lines(rng, groups, refs, lang_refs, p_config=0.3)
    given = []
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        if k < 0.3:
            given.append(rng.choice(sorted(pys)))
        elif k < 0.5:
            given.append("")
        else:
            given.append(os.path.dirname(rng.choice(sorted(pys))) if rng.random() < 0.7 else rng.choice(dirs).split("/")[0])
    return {
        "confs": confs, "langs": langs, "pys": pys, "cli": cg.gen_cli(rng, groups, refs, lang_refs, p_config=0.05),
        "cwd": rng.choice(["", "pkg", "elsewhere"]), "given": given, "spell": [rng.randrange(3) for _ in given],
        "junk": rng.random() < 0.3,
    }


def spell(root, cwd, path, style):
    full = os.path.join(root, path) if path else root
    if style == 0:
        return full
    rel = os.path.relpath(full, os.path.join(root, cwd))
    return rel if style == 1 else os.path.join(".", rel)


def files_below(path):
    if not os.path.isdir(path):
        return [path] if path.endswith(".py") else []
    return [os.path.join(d, f) for d, _, fs in os.walk(path) for f in fs if f.endswith(".py")]


def trans_dict(trans):
    return {k: (t.translation, t.extracts) for k, t in trans.items()}


def run_case(world):
    from edulint.config.config import get_cmd_args, get_config_many, get_config_one
    from props.c01 import normal

    viol = []
    configs = set()
    any_dir = False
    with cg.Scratch(world["cwd"]) as root:
        cg.write_world(world, root)
        for d in world["given"]:
            if not os.path.exists(os.path.join(root, d)):
                os.makedirs(os.path.join(root, d))
        if world["junk"]:
            for d in ("pkg", "other"):
                os.makedirs(os.path.join(root, d), exist_ok=True)
                with open(os.path.join(root, d, "data.txt"), "w") as f:
                    f.write("# edulint: no-flake8\n")
        args = get_cmd_args(cg.render_cli(world["cli"], root, world["cwd"], 0))
        given = [spell(root, world["cwd"], p, s) for p, s in zip(world["given"], world["spell"])]
        any_dir = any(os.path.isdir(g) for g in given)
        many = get_config_many(list(given), args)
        per_file = {}
        for paths, cfg, trans in many:
            val = (normal(cg.options_of(cfg), root, world["cwd"]), trans_dict(trans))
            configs.add(repr(val))
            for p in paths:
                for f in files_below(p):
                    per_file.setdefault(os.path.normpath(os.path.abspath(f)), []).append(val)
        expected_files = {os.path.normpath(os.path.abspath(f)) for g in given for f in files_below(g)}
        if set(per_file) != expected_files:
            viol.append(("coverage", f"given {given}: covered {sorted(per_file)}, expected {sorted(expected_files)}\n{cg.dump(world, root)}"))
        for f in sorted(expected_files & set(per_file)):
            vals = per_file[f]
            rel = os.path.relpath(f, root)
            if any(v != vals[0] for v in vals):
                viol.append(("several", f"{rel} has several configurations\n{cg.dump(world, root)}"))
                break
            alone = get_config_one(f, args)
            if alone is None:
                viol.append(("alone-none", f"{rel} has no configuration alone\n{cg.dump(world, root)}"))
                break
            aval = (normal(cg.options_of(alone[0]), root, world["cwd"]), trans_dict(alone[1]))
            if aval != vals[0]:
                d = cg.diff(aval[0], vals[0][0]) or [f"translations alone {aval[1]} together {vals[0][1]}"]
                viol.append(("alone", f"{rel}: alone vs together: " + "; ".join(d) + f"\ngiven {given}\n{cg.dump(world, root)}"))
                break
            opts, eff, settings, ref = cg.model_for(world, rel, root)
            trans = dict(eff.trans)
            if opts["language-file"] is not None:
                lang = os.path.relpath(os.path.normpath(os.path.join(root, world["cwd"], opts["language-file"])), root)
                trans.update(world["langs"][lang])
            d = cg.diff(normal(opts, root, world["cwd"]), vals[0][0])
            if not d and trans != {k: t for k, (t, _) in vals[0][1].items()}:
                d = [f"translations: expected {trans}, got {vals[0][1]}"]
            if d:
                viol.append(("model", f"{rel}: " + "; ".join(d) + f"\ngiven {given}\n{cg.dump(world, root)}"))
                break
    return Outcome(viol, len(configs) > 1 and any_dir, [f"configs{min(len(configs), 5)}", f"files{len(expected_files)}"], note=f"{len(configs)} configurations for {len(expected_files)} files")


def shrink(world):
    import json

    for i in range(len(world["given"])):
        if len(world["given"]) > 1:
            w = json.loads(json.dumps(world))
            del w["given"][i], w["spell"][i]
            yield w
    for k in ("junk", "cwd"):
        if world[k]:
            w = json.loads(json.dumps(world))
            w[k] = False if k == "junk" else ""
            yield w
    yield from cg.shrink_world(world)
