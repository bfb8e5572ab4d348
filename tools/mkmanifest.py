#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules (checks/cNN.py) and tools/na.py."""
import json, os, sys, re, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import na
checks, claimed = [], set()
for f in sorted(os.listdir(os.path.join(V, "checks"))):
    m = re.fullmatch(r"(c\d\d)\.py", f)
    if not m: continue
    vals = {}
    for n in ast.parse(open(os.path.join(V, "checks", f)).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "RULE", "ASSUME", "TECHNIQUE", "NOTE"):
            vals[n.targets[0].id] = ast.literal_eval(n.value)
    pid = m[1].upper(); claimed.add(pid)
    note = vals.get("NOTE") or (vals["RULE"] + (" Assumes: " + "; ".join(vals["ASSUME"]) + "." if vals.get("ASSUME") else ""))
    checks.append({"property": pid, "quick_cmd": "python3 check.py %s quick" % pid, "thorough_cmd": "python3 check.py %s thorough" % pid,
        "technique": vals["TECHNIQUE"], "level": vals["LEVEL"], "level_note": note})
allp = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
nas = [{"property": p, "reason": na.REASON.get(p, "not claimed yet: the check for this property is still being built")} for p in allp if p not in claimed]
json.dump({"version": 1, "setup_cmd": "python3 engine/setup.py", "checks": checks, "not_applicable": nas,
    "notes": "All checks read /repo's current sources (type-checked MIR, syntax trees or token streams); nothing from /repo is executed. See DESIGN.md."},
    open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in nas])
