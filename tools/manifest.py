"""Writes MANIFEST.json from the property modules that exist."""
import ast
import json
import os

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(root, "properties.jsonl"))]
NA = {}
checks, na = [], []
TECH = ("forking symbolic execution of the real Python functions, every obligation decided by z3 "
        "within stated bounds")
for p in props:
    i = p["id"]
    f = os.path.join(root, "symreg", "props", i.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
        continue
    v = {}
    for node in ast.parse(open(f).read()).body:
        if isinstance(node, ast.Assign) and node.targets[0].id in (
                "BOUNDS", "ASSUME", "TECH", "NOTE"):
            try:
                v[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    note = ("z3 decides the property for every value within the bounds: %s. Assumes: %s."
            % (v["BOUNDS"]["quick"], "; ".join(v["ASSUME"])))
    checks.append({"property": i,
                   "quick_cmd": "./run.sh %s quick" % i,
                   "thorough_cmd": "./run.sh %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": v.get("TECH", TECH),
                   "level": "model_checking",
                   "level_note": note})
m = {"version": 1,
     "setup_cmd": "./setup.sh",
     "checks": checks,
     "not_applicable": na,
     "notes": "No hooks: the checks run /repo's code unchanged; the environment (random "
              "numbers, MIP solver, spanning trees) is replaced from outside."}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
