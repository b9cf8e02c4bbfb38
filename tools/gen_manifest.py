"""Write MANIFEST.json from the table of claimed checks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IDS = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
m = {"version": 1, "setup_cmd": "python3 -m compileall -q engine checks check.py",
     "checks": [], "not_applicable": [],
     "notes": "Every check rebuilds the compiler driver and the typed MIR of /repo's current tree in a scratch directory it removes, then decides the property by static analysis; see DESIGN.md."}
for i in IDS:
    if i in CLAIMS:
        t, note = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "other", "level_note": note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "not claimed: no check decides it yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
