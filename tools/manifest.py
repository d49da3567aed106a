"""writes MANIFEST.json from the rule registry and tools/na.json"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pfsa.rules import registry, TECH
reg = registry()
na = json.load(open(os.path.join(V, "tools", "na.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, napp = [], []
for i in ids:
    if i in reg:
        tech, note = TECH.get(i, TECH["*"])
        checks.append({"property": i, "quick_cmd": "python3 -m pfsa.run " + i, "thorough_cmd": "VERIF_TIER=thorough python3 -m pfsa.run " + i,
                       "evidence_file": "evidence/%s.json" % i, "technique": tech, "level": "other", "level_note": note})
    else:
        napp.append({"property": i, "reason": na.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "python3 -m compileall -q pfsa >/dev/null 2>&1; true", "checks": checks, "not_applicable": napp,
           "notes": "All checks are one static analyser (pfsa/): an abstract interpreter that value-numbers the package's source over gated normal forms."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(napp), "not applicable:", [n["property"] for n in napp])
