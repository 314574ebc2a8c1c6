"""C02: selecting groups equals writing their options out at the place of the effective selection."""
import json

from vlib import confgen as cg
from vlib.core import Outcome
from props.c01 import normal, path_of, prepare  # noqa

CASES = {"quick": 50000, "thorough": 150000}
RULE = (
    "A case is a world as in C01 whose configuration files define groups (overriding inherited ones, unknown names selected too) and whose sources "
    "select some of them. Checked: the returned options against the reference model, and against the same world with the selection "
    "replaced by the written-out arguments (both through the code under test). Non-trivial: a known group with options is in effect."
)
ASSUMPTIONS = ["a group is not named like an option"]


def generate(rng):
    groups = list(cg.GROUPS)
    rng.shuffle(groups)
    groups = groups[: rng.randint(1, 4)]
    confs = cg.gen_confs(rng, groups, n=rng.choice([1, 1, 2, 3, 4]), p_groups=0.8)
    refs = [cg.gen_ref_mode(rng, p) for p in confs] + [["packaged", "default"], ["packaged", "full"], ["packaged", "cs1"]]
    sel = groups + (["unknown"] if rng.random() < 0.4 else [])
    py = rng.choice(["m.py", "sub/m.py"])
    world = {
        "confs": confs,
        "langs": {},
        "pys": {py: cg.gen_lines(rng, sel, refs, p_config=0.05, p_groups=0.35)},
        "cli": cg.gen_cli(rng, sel, refs, p_config=0.03, p_groups=0.35),
        "cwd": rng.choice(["", "sub"]),
        "spelling": rng.choice(["abs", "rel"]),
    }
    if confs and rng.random() < 0.9:
        top = cg.gen_ref_mode(rng, list(confs)[-1])
        if rng.random() < 0.6:
            world["pys"][py].append({"opts": [["config-file", top]], "style": rng.randrange(8)})
        else:
            world["cli"].append([["config-file", top]])
    return world


def written_out(world, py, eff, selected):
    """The world with the effective selection replaced by what it stands for (None if it cannot be written there)."""
    w = json.loads(json.dumps(world))

    def expand(opts):
        for i in reversed(range(len(opts))):
            if opts[i][0].lower() == "set-groups":
                extra = [[linter, a] for g in selected for linter, args in eff.groups.get(g, {}).items() for a in args]
                opts[i:i + 1] = [["set-groups", ""]] + extra
                return True
        return False

    for group in reversed(w["cli"]):
        if expand(group):
            return w, "cli"
    for line in reversed(w["pys"][py]):
        if "opts" in line and expand(line["opts"]):
            return w, "infile"
    return None, None


def run_case(world):
    from edulint.config.config import get_cmd_args, get_config_one

    (py,) = world["pys"]
    viol = []
    with cg.Scratch(world["cwd"]) as root:
        cg.write_world(world, root)
        expected, eff, settings, ref = cg.model_for(world, py, root)
        path = path_of(world, root, py)

        def ask(w):
            got = get_config_one(path, get_cmd_args(cg.render_cli(w["cli"], root, w["cwd"], 0)))
            return None if got is None else normal(cg.options_of(got[0]), root, w["cwd"])

        got = ask(world)
        if got is None:
            viol.append(("none", f"no configuration returned\n{cg.dump(world, root)}"))
        else:
            d = cg.diff(normal(expected, root, world["cwd"]), got)
            if d:
                viol.append(("model", "; ".join(d) + f"\n{cg.dump(world, root)}"))
            out, where = written_out(world, py, eff, expected["set-groups"])
            if out is not None:
                cg.write_world(out, root)
                other = ask(out)
                d = [f"{k}: with groups {got[k]!r}, written out {other[k]!r}" for k in ("pylint", "flake8") if other is None or got[k] != other[k]]
                if d and not viol:
                    viol.append(("written-out", "; ".join(d) + f"\n{cg.dump(world, root)}"))
    known = [g for g in expected["set-groups"] if eff.groups.get(g)]
    return Outcome(viol, bool(known), [f"groups{len(known)}", "unknown" if len(known) < len(expected["set-groups"]) else "all-known", ref[0]], note=expected["set-groups"])


def shrink(world):
    return cg.shrink_world(world)
