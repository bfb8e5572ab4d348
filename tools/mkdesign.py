#!/usr/bin/env python3
"""Rewrites the generated parts of DESIGN.md: the per-property sections (from checks/*.py) and the table of planted bugs."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def consts(f):
    o = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "").isupper():
            try: o[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception: pass
    return o
COST = json.load(open(V + "/tools/cost.json"))
props = {json.loads(l)["id"]: json.loads(l) for l in open(V + "/properties.jsonl")}
out = []
for pid in sorted(props):
    f = f"{V}/checks/{pid.lower()}.py"
    out.append(f"### {pid} {props[pid]['title']}\n")
    if not os.path.exists(f):
        import importlib.util
        s = importlib.util.spec_from_file_location("na", V + "/tools/na.py"); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        out.append("Not applicable: " + m.REASON[pid] + ".\n"); continue
    c = consts(f)
    out.append(f"* Level: {c['LEVEL']}. Deciding method: {c['TECHNIQUE']}.")
    out.append(f"* Rule: {c['RULE']}")
    if c.get("ASSUME"): out.append("* Takes for granted / bounds: " + "; ".join(c["ASSUME"]) + ".")
    if c.get("NOTE"): out.append("* Oracle: " + c["NOTE"] + ".")
    n, t = COST.get(pid, ["?", "?"])
    out.append(f"* Cost (quick tier, 8 cores): {n} obligations, about {t} s.\n")
tab = ["| planted change | property | needs | caught by |", "|---|---|---|---|"]
res = json.load(open(V + "/tools/caught.json"))
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    tab.append(f"| {b} | {m['property']} | {m['needs']} | {res.get(b, '(not yet run)')} |")
s = open(V + "/DESIGN.md").read()
for tag, body in (("properties", "\n".join(out)), ("bugs", "\n".join(tab))):
    s = re.sub(rf"(<!-- {tag} -->\n).*?(<!-- /{tag} -->)", lambda m: m.group(1) + body + "\n" + m.group(2), s, flags=re.S)
open(V + "/DESIGN.md", "w").write(s)
