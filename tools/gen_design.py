"""Write DESIGN.md from design_head.md, the checks, the findings and the table of planted bugs."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
exec(open(os.path.join(HERE, "tools", "claims.py")).read())
P = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip() + "\n"]
for p in P:
    i = p["id"]
    out.append("### %s %s\n" % (i, p["title"]))
    if i in NA:
        out.append("Not applicable: %s\n" % NA[i])
        continue
    m = importlib.import_module("checks." + i.lower())
    out.append("*Method*: %s.\n" % CLAIMS[i][0].rstrip("."))
    out.append(m.EXPLANATION + "\n")
    out.append("*Oracle and bounds*: %s Quantifies over %s.\n" % (CLAIMS[i][1], p["quantifier"]["text"].rstrip(".")))
    out.append("*Why tests cannot*: %s.\n" % p["why_tests_cant"].rstrip("."))
    out.append("*Anchors*: %s.\n" % "; ".join("%s (%s)" % (a["name"], a["where"]) for a in p["anchors"]["mechanism"]))
out.append("## Genuine defects found\n")
fixed, find = [], []
for l in open(os.path.join(HERE, "known_findings.txt")):
    l = l.strip()
    if l.startswith("fixed: "):
        pid, c, what = l[len("fixed: property="):].split(" ", 2)
        fixed.append("- %s, commit %s: %s." % (pid, c, what.rstrip(".")))
    elif l.startswith("finding: property="):
        h, _, what = l[len("finding: property="):].partition(" | ")
        pid, _, key = h.partition(" ")
        find.append("- %s `%s`: %s." % (pid, key, what.rstrip(".")))
out.append("Repaired in /repo (one \"fix:\" commit each):\n\n" + "\n".join(fixed) + "\n")
out.append("Recorded, not repaired (`known_findings.txt`; the repair would change the public types or is not small):\n\n" + "\n".join(find) + "\n")
out.append("## Planted bugs\n")
C = json.load(open(os.path.join(HERE, "tools", "caught.json")))
out.append("%d planted bugs under `seeded/`, written from the properties' texts; each builds, passes the existing tests and has a demonstration. "
           "The check of the property it breaks reports it under the key given.\n" % len(C))
out.append("| bug | what it breaks | reported by | key |\n|---|---|---|---|")
for b in sorted(C):
    mj = json.load(open(os.path.join(HERE, "seeded", b, "meta.json")))
    out.append("| %s | %s | %s | `%s` |" % (b, mj["what_it_breaks"].replace("|", "/"), C[b][0], C[b][1][:90].replace("|", "/").replace("`", "'")))
out.append("\n" + open(os.path.join(HERE, "tools", "design_tail.md")).read())
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
