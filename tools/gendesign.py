"""Writes DESIGN.md from its parts, the check modules, the findings and the seeded bugs."""
import ast
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def rd(*p):
    return open(os.path.join(HERE, *p)).read()


def values(mod):
    out = {}
    tree = ast.parse(mod)
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            name = n.targets[0].id
            if name in ("RULE", "ASSUMPTIONS"):
                out[name] = ast.literal_eval(n.value)
            if name == "SUBS" and isinstance(n.value, ast.List):
                out["SUBS"] = []
                for c in n.value.elts:
                    k = {x.arg: x.value for x in c.keywords}
                    q = ast.literal_eval(k["quick"])
                    t = ast.literal_eval(k["thorough"]) if "thorough" in k else 12 * q
                    out["SUBS"].append((ast.literal_eval(c.args[0]), q, t))
    return out


def main():
    notes = dict(re.findall(r"## (C\d+)\n(.*?)(?=\n## |\Z)", rd("tools", "design_props.md"), re.S))
    o = [rd("tools", "design_head.md"), "## Properties and how they are decided\n"]
    for line in rd("properties.jsonl").splitlines():
        p = json.loads(line)
        v = values(rd("vlib", "props", p["id"].lower() + ".py"))
        o.append("### %s: %s\n" % (p["id"], p["title"]))
        o.append("Generated: %s.\n" % v["RULE"].rstrip("."))
        o.append(notes[p["id"]].strip() + "\n")
        if v.get("ASSUMPTIONS"):
            o.append("Bounds and tolerances: %s.\n" % "; ".join(v["ASSUMPTIONS"]))
        if "SUBS" in v:
            o.append("Cases (quick / thorough): %s. Beyond tests: %s.\n" % (
                ", ".join("%s %d / %d" % s for s in v["SUBS"]), p["why_tests_cant"]))
    o.append(rd("tools", "design_tail.md"))
    o.append("## Defects of naima found and repaired\n")
    o.append("Each is one `fix:` commit in /repo and an entry in `known_findings.json` (all are of "
             "status \"fixed\", which suppresses nothing; there are no unrepaired findings).\n")
    for f in json.loads(rd("known_findings.json"))["findings"]:
        o.append("* %s `%s`: %s" % (f["property"], f["commit"][:7], f["what"]))
    o.append("\n## Planted bugs and the checks that catch them\n")
    o.append("Full quick runs, VERIF_SEED=1 (`seeded/<id>/meta.json` says what each needs).\n")
    o.append("| bug | property | caught by |\n|---|---|---|")
    m = json.loads(rd("tools", "matrix.json")) if os.path.exists(
        os.path.join(HERE, "tools", "matrix.json")) else {}
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        meta = json.loads(rd("seeded", d, "meta.json"))
        o.append("| %s | %s | %s |" % (d, meta["property"], ", ".join(m.get(d, [])) or "?"))
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(o).rstrip() + "\n")


main()
