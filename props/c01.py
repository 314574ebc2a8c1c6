"""C01: effective options against a reference model of the documented combination rules."""
import os

from vlib import confgen as cg
from vlib.core import Outcome

CASES = {"quick": 50000, "thorough": 200000}
RULE = (
    "A case is a world of 1-4 inheriting configuration files (tables, inline tables, lists, strings), one Python file with 0-3 in-file "
    "configuration lines in eight spellings among decoys, and 0-3 command-line options; the options returned by get_config_one and "
    "get_config_many are compared to the reference model. Non-trivial: at least two sources set something and some option is set "
    "by two sources or linter arguments come from two sources."
)
ASSUMPTIONS = ["groups are covered by C02, ignoring of in-file lines by C04, malformed parts by C06"]


def prepare():
    import edulint.config.config  # noqa


def generate(rng):
    groups = ["g1"]
    confs = cg.gen_confs(rng, groups, n=rng.choice([0, 1, 2, 2, 3, 4]), p_groups=0.0)
    langs = {"lang.toml": {"R1714": "preklad"}} if rng.random() < 0.3 else {}
    refs = [cg.gen_ref_mode(rng, p) for p in confs] + [["packaged", "empty"], ["packaged", "default"], ["packaged", "cs1"]]
    lang_refs = [cg.gen_ref_mode(rng, p) for p in langs]
    if langs:
        for c in confs.values():
            if rng.random() < 0.3:
                c["entries"].append(["language-file", ["ref", lang_refs[0]]])
    py = rng.choice(["m.py", "sub/m.py", "deep/er/m.py"])
    cwd = rng.choice(["", "sub", "other dir"])
    world = {
        "confs": confs,
        "langs": langs,
        "pys": {py: cg.gen_lines(rng, groups, refs, lang_refs, p_groups=0.0, p_config=0.25)},
        "cli": cg.gen_cli(rng, groups, refs, lang_refs, p_groups=0.0, p_config=0.12),
        "cwd": cwd,
        "spelling": rng.choice(["abs", "rel"]),
        "encoding": rng.choice([None, None, None, "bom", "crlf", "latin-1"]),
    }
    # the most specific file is mentioned most of the time, so that chains get used
    if confs and rng.random() < 0.75:
        top = cg.gen_ref_mode(rng, list(confs)[-1])
        if rng.random() < 0.6:
            world["pys"][py].append({"opts": [["config-file", top]], "style": rng.randrange(8)})
        else:
            world["cli"].append([["config-file", top]])
    return world


def normal(options, root, cwd):
    res = dict(options)
    for k in ("config-file", "language-file"):
        v = res[k]
        if v is not None and ("/" in v or "." in v):
            res[k] = os.path.normpath(os.path.join(root, cwd, v))
    return res


def path_of(world, root, py):
    return os.path.join(root, py) if world["spelling"] == "abs" else os.path.relpath(os.path.join(root, py), os.path.join(root, world["cwd"]))


def run_case(world):
    from edulint.config.config import get_cmd_args, get_config_many, get_config_one

    (py,) = world["pys"]
    viol = []
    with cg.Scratch(world["cwd"]) as root:
        cg.write_world(world, root)
        expected, eff, settings, ref = cg.model_for(world, py, root)
        args = get_cmd_args(cg.render_cli(world["cli"], root, world["cwd"], 0))
        path = path_of(world, root, py)
        one = get_config_one(path, args)
        many = get_config_many([path], args)
        if one is None or len(many) != 1:
            viol.append(("none", f"no configuration returned\n{cg.dump(world, root)}"))
        else:
            exp = normal(expected, root, world["cwd"])
            for label, cfg in (("one", one[0]), ("many", many[0][1])):
                d = cg.diff(exp, normal(cg.options_of(cfg), root, world["cwd"]))
                if d:
                    keys = "/".join(sorted({x.split(":")[0] for x in d}))
                    viol.append((f"options:{keys}", f"get_config_{label}: " + "; ".join(d) + f"\n{cg.dump(world, root)}"))
                    break
    by = {}
    for name, val, src in settings:
        by.setdefault(name, set()).add(src)
    classes = [f"chain{len({s for _, _, s in eff.settings})}", "settings%d" % min(len(settings), 12), ref[0]]
    return Outcome(viol, any(len(v) > 1 for v in by.values()), classes, note={k: v for k, v in expected.items() if v})


def shrink(world):
    return cg.shrink_world(world)
