"""C05: configuration and language files are found where the documentation says."""
import json
import os

from vlib import confgen as cg
from vlib.core import Outcome
from props.c01 import normal, prepare  # noqa
from props.c03 import TRANS, spell, trans_dict

CASES = {"quick": 40000, "thorough": 120000}
DIRS = ["", "course", "course/hw 1", "course/hw 1/alice", "course/hw2", "course/hw2/bob/src"]
RULE = (
    "A case is a directory tree with implicit configuration files (both names) at random depths, explicit configuration files in other directories "
    "referring to each other and to language files by relative and absolute paths, one Python file at any depth, optionally naming its configuration, "
    "and a command line optionally doing so. Each case is resolved from three working directories with absolute and relative spellings of the file; all "
    "answers must equal the reference model. In half of the cases, files that references would reach if taken relative to the working directory are planted; sometimes the referenced file is missing. Non-trivial: an implicit file or a relative reference across directories is involved."
)
ASSUMPTIONS = ["a directory holds at most one implicit configuration file", "no implicit file stands above the scratch directory"]


def generate(rng):
    groups = ["g1"]
    langs = {name: {t: f"{name} {t}" for t in TRANS if rng.random() < 0.7} for name in rng.sample(["lang.toml", "course/cs.toml", "course/hw2/sk.toml"], rng.randint(0, 2))}
    lang_refs = [cg.gen_ref_mode(rng, p) for p in langs for _ in (0, 1)]
    names = rng.sample(["base.toml", "course/conf.toml", "course/hw2/special.toml", "course/hw 1/.hidden.toml", "course/edulint.conf.toml"], rng.randint(0, 3))
    confs = {}
    for n in names:
        base = cg.gen_ref_mode(rng, rng.choice(list(confs))) if confs and rng.random() < 0.6 else rng.choice([None, ["packaged", "cs0"]])
        confs[n] = cg.gen_conf(rng, groups, base, lang_refs, 0.2, TRANS)
    refs = [cg.gen_ref_mode(rng, p) for p in confs]
    d = rng.choice(DIRS)
    ancestors = [d]
    while ancestors[-1]:
        ancestors.append(os.path.dirname(ancestors[-1]))
    for a in DIRS:
        if rng.random() < (0.3 if a in ancestors else 0.15):
            n = os.path.join(a, rng.choice(["edulint.toml", ".edulint.toml"]))
            base = rng.choice([None, None] + refs)
            if base and base[0] == "file":
                base = cg.gen_ref_mode(rng, base[1])
            confs[n] = cg.gen_conf(rng, groups, base, lang_refs, 0.2, TRANS)
            confs[n]["implicit"] = True
    all_refs = [cg.gen_ref_mode(rng, p) for p in confs]
    py = os.path.join(d, rng.choice(["m.py", "edulint.py"]))
    lines = [{"opts": [["allowed-onechar-names", "q"]], "style": 0}] if rng.random() < 0.3 else [{"code": "x = 1"}]
    if all_refs and rng.random() < 0.35:
        lines.append({"opts": [["config-file", cg.pick(rng, all_refs)]], "style": rng.randrange(8)})
    if lang_refs and rng.random() < 0.25:
        lines.append({"opts": [["language-file", cg.pick(rng, lang_refs)]], "style": rng.randrange(8)})
    cli = []
    if all_refs and rng.random() < 0.25:
        cli.append([["config-file", cg.pick(rng, all_refs)]])
    if lang_refs and rng.random() < 0.15:
        cli.append([["language-file", cg.pick(rng, lang_refs)]])
    ignore = rng.random() < 0.15
    if ignore:
        cli.append([["ignore-infile-config-for", rng.choice(["edulint", "all", "pylint,edulint"])]])
    return {"confs": confs, "langs": langs, "pys": {py: lines}, "cli": cli, "cwds": [rng.choice(DIRS + ["elsewhere"]) for _ in range(3)],
            "spell": [rng.randrange(3) for _ in range(3)], "ignore": ignore, "decoys": rng.random() < 0.5,
            "missing": rng.choice(list(confs)) if confs and rng.random() < 0.1 else None}


def references(world):
    """(target, directory of the mentioning file) of every relative reference to a file"""
    res = []
    for name, c in world["confs"].items():
        refs = [c["base"]] + [v[1] for _, v in c["entries"] if v[0] == "ref"]
        res += [(r[1], os.path.dirname(name)) for r in refs if r and r[0] == "file" and r[2] == "rel"]
    for py, lines in world["pys"].items():
        res += [(v[1], os.path.dirname(py)) for l in lines if "opts" in l for _, v in l["opts"] if isinstance(v, list) and v[0] == "file" and v[2] == "rel"]
    return res


def write_decoys(world, root, cwd):
    """Files that a reference would reach if it were resolved against the working directory."""
    for target, d in references(world):
        text = os.path.relpath(os.path.join(root, target), os.path.join(root, d))
        p = os.path.normpath(os.path.join(root, cwd, text))
        rel = os.path.relpath(p, root)
        if rel.startswith("..") or os.path.basename(p) in ("edulint.toml", ".edulint.toml") or os.path.exists(p) or rel in world["confs"] or rel in world["langs"]:
            continue
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8") as f:
            f.write('pylint = "--enable=decoy"\nallowed-onechar-names = "decoy"\n' if target in world["confs"] else 'R1714 = "decoy"\n')


def depends(world, ref, broken):
    while ref is not None and ref[0] == "file":
        if ref[1] == broken:
            return True
        ref = world["confs"][ref[1]]["base"]
    return False


def run_case(world):
    from edulint.config.config import get_cmd_args, get_config_many, get_config_one

    (py,) = world["pys"]
    viol = []
    with cg.Scratch("") as root:
        cg.write_world(world, root)
        if world.get("missing") in world["confs"] and world["confs"][world["missing"]].get("implicit"):
            world["missing"] = None
        if world.get("missing"):
            os.remove(os.path.join(root, world["missing"]))
        opts, eff, _settings, ref = cg.model_for(world, py, root, ignore_infile=world["ignore"])
        for cwd, style in zip(world["cwds"], world["spell"]):
            full_cwd = os.path.join(root, cwd)
            os.makedirs(full_cwd, exist_ok=True)
            os.chdir(full_cwd)
            if world.get("decoys"):
                write_decoys(world, root, cwd)
            args = get_cmd_args(cg.render_cli(world["cli"], root, cwd, 0))
            path = spell(root, cwd, py, style)
            exp = normal(opts, root, "")
            trans = dict(eff.trans)
            if opts["language-file"] is not None:
                lang = os.path.relpath(opts["language-file"], root)
                trans.update(world["langs"][lang])
            got = get_config_one(path, args)
            where = f"from {cwd or '.'} as {path}"
            if world.get("missing") and depends(world, ref, world["missing"]):
                if got is not None:
                    viol.append(("missing", f"{where}: {world['missing']} does not exist, yet the file is configured: {got}\n{cg.dump(world, root)}"))
                    break
                continue
            if got is None:
                viol.append(("none", f"{where}: no configuration, expected {ref}\n{cg.dump(world, root)}"))
                break
            d = cg.diff(exp, normal(cg.options_of(got[0]), root, cwd))
            if not d and trans != {k: t for k, (t, _) in trans_dict(got[1]).items()}:
                d = [f"translations: expected {trans}, got {got[1]}"]
            if d:
                viol.append(("options", f"{where}: " + "; ".join(d) + f"\n{cg.dump(world, root)}"))
                break
    involved = ref[0] == "file"
    implicit = involved and world["confs"][ref[1]].get("implicit") and cg.implicit_of(world, py) == ["file", ref[1], "abs"]
    return Outcome(viol, involved or opts["language-file"] is not None, ["implicit" if implicit else ref[0], "ignore" if world["ignore"] else "infile"], evals=len(world["cwds"]), note=[py, ref])


def shrink(world):
    for k in ("decoys", "missing"):
        if world.get(k):
            w = json.loads(json.dumps(world))
            w[k] = None
            yield w
    for i in range(len(world["cwds"])):
        if len(world["cwds"]) > 1:
            w = json.loads(json.dumps(world))
            del w["cwds"][i], w["spell"][i]
            yield w
    for w in cg.shrink_world(world):
        if world["ignore"] and not any(o[0] == "ignore-infile-config-for" for g in w["cli"] for o in g):
            w["ignore"] = False
        yield w
