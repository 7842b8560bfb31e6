"""Writes MANIFEST.json from properties.jsonl and the claimed list below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {"C18": "the tree-decomposition module needs graph_tool and gurobi, neither of which is available, so the code cannot be imported or run; its algorithm is a pure function of the model"}
HAVE = {f[:-3].upper() for f in os.listdir(os.path.join(V, "sim", "props")) if f.endswith(".py")}
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for p in PROPS:
    i = p["id"]
    if i in HAVE:
        checks.append({"property": i, "quick_cmd": "/opt/venv/bin/python sim/driver.py check " + i,
                       "thorough_cmd": "/opt/venv/bin/python sim/driver.py check " + i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": NOTES[i]["technique"], "level": "exploration", "level_note": NOTES[i]["note"]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, f, indent=1)
print(len(checks), "checks", [x["property"] for x in na])
