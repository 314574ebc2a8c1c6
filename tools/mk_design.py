#!/usr/bin/env python3
"""Assembles DESIGN.md: the fixed text below, what the modules in props say of themselves, findings, planted bugs."""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.claims import CLAIMS  # noqa
from tools.design_text import INTRO, NOTES, FALSE_ALARMS, OUTRO, CAUGHT_NOTE  # noqa


def constants(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    na = {k["property"] if isinstance(k, dict) and "property" in k else k["id"]: k.get("reason", "") for k in json.load(open(os.path.join(HERE, "MANIFEST.json"))).get("not_applicable", [])}
    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    out = [INTRO]
    out.append("## Properties\n")
    for p in props:
        i = p["id"]
        out.append(f"### {i} — {p['title']}\n")
        if i not in CLAIMS:
            out.append(f"Not claimed. {na.get(i, '')}\n")
            continue
        c = constants(os.path.join(HERE, "props", i.lower() + ".py"))
        note = NOTES.get(i, {})
        out.append(f"*Technique*: {CLAIMS[i][0]}.\n")
        out.append(f"*Generated and checked*: {c.get('RULE', '')}\n")
        if note.get("oracle"):
            out.append(f"*Oracle*: {note['oracle']}\n")
        out.append(f"*Reach beyond the tests*: {note.get('why', '')}\n")
        cases = c.get("CASES", {})
        out.append(f"*Bounds and cost*: at most {cases.get('quick')} cases or about 55 s of search on 8 cores in the quick tier, {cases.get('thorough')} cases or 30 min in the thorough tier; {CLAIMS[i][1]}\n")
        if c.get("ASSUMPTIONS"):
            out.append("*Assumptions*: " + "; ".join(c["ASSUMPTIONS"]) + ".\n")
    out.append("## Known findings (genuine defects recorded, not repaired)\n")
    for f in known["findings"]:
        out.append(f"- **{f['property']} / {f['id']}**: {f['what']}" + (f" Not repaired: {f['why']}" if f.get("why") else ""))
    out.append("\n## Repaired defects\n")
    out.append(f"{len(known['fixed'])} `fix:` commits in /repo, each found by a check (or while writing one), each leaving the test suite unedited and passing. The property named is the one whose check found it.\n")
    for f in known["fixed"]:
        out.append("- " + f[len("fixed: "):])
    out.append("\n" + FALSE_ALARMS)
    out.append("## Planted bugs (seeded/)\n")
    out.append(CAUGHT_NOTE + "\n")
    out.append("| bug | property | needs | what it breaks |\n|---|---|---|---|")
    sd = os.path.join(HERE, "seeded")
    for name in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, name, "meta.json")))
        out.append(f"| {name} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
    out.append("\n" + OUTRO)
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))


if __name__ == "__main__":
    main()
