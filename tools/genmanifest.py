"""Writes MANIFEST.json: every property with a module in vlib/props is claimed."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    props = [json.loads(line) for line in f]
for p in props:
    pid = p["id"]
    mod = os.path.join(HERE, "vlib", "props", pid.lower() + ".py")
    if not os.path.exists(mod):
        na.append({"property": pid, "reason": "check not built yet"})
        continue
    tree = ast.parse(open(mod).read())
    vals = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            if node.targets[0].id in ("RULE", "ASSUMPTIONS", "TECHNIQUE"):
                vals[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({
        "property": pid,
        "quick_cmd": "/opt/venv/bin/python run.py %s --tier quick" % pid,
        "thorough_cmd": "/opt/venv/bin/python run.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": vals.get("TECHNIQUE", "property-based testing (Hypothesis): "
                              "generated inputs and call sequences against an "
                              "independent reference model and metamorphic relations"),
        "level": "exploration",
        "level_note": "Searches generated cases, shrinks any failure; shows absence of "
                      "violations only on the cases run. " + (
                          "Assumes: " + "; ".join(vals["ASSUMPTIONS"])
                          if vals.get("ASSUMPTIONS") else "No further assumptions."),
    })
man = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/setup_check.py",
    "checks": checks,
    "not_applicable": na,
    "notes": "See DESIGN.md. Checks import naima from /repo/src; nothing is built.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
