"""Writes MANIFEST.json from the properties and from the check modules that exist (technique and notes live there)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def constants(path):
    """TECHNIQUE / LEVEL / ASSUMPTIONS literals of a check module, without importing it."""
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    mod = os.path.join(HERE, "pbt", "props", p["id"].lower() + ".py")
    if not os.path.exists(mod):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    c = constants(mod)
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": c["TECHNIQUE"],
        "level": c.get("LEVEL", "exploration"),
        "level_note": c["NOTE"],
    })
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python tools/bootstrap.py",
           "checks": checks, "not_applicable": na,
           "notes": "Every check is generated-input search (Hypothesis) against an explicit oracle, run on /repo/src directly; "
                    "no hooks are needed in /repo."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not yet")
