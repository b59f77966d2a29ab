#!/usr/bin/env python3
"""Writes DESIGN.md from bin/design_head.md, the properties, the checks, the findings and the planted bugs."""
import json, os, sys, glob
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
from checks import CHECKS
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
ev = {}
for p in P:
    f = V + "/evidence/" + p["id"] + ".json"
    if os.path.exists(f): ev[p["id"]] = json.load(open(f))
cost = json.load(open(H + "/cost.json")) if os.path.exists(H + "/cost.json") else {}
for k, e in ev.items():
    cost.setdefault(k, {})[e["tier"]] = {"s": e["wall_s"], "executions": e["coverage"]["executions"], "complete": e["coverage"]["exhaustive"],
                                         "scenarios": [[s["name"], s["executions"], s["bounds"]] for s in e["coverage"]["scenarios"]]}
json.dump(cost, open(H + "/cost.json", "w"), indent=0)
o = ["# The properties and how each is decided\n"]
for p in P:
    i = p["id"]; o.append("## %s — %s\n" % (i, p["title"])); o.append(p["statement"] + "\n")
    if i not in CHECKS: o.append("*Not claimed:* see MANIFEST.json.\n"); continue
    c = CHECKS[i]
    o.append("*Decided by:* %s (`%s`).\n" % (c["technique"], "`, `".join("harness/" + s for h in c["harness"] for s in h["src"])))
    o.append("*Enumerated:* %s.\n" % c["note"])
    if i in cost:
        for t in ("quick", "thorough"):
            if t in cost[i]:
                k = cost[i][t]; o.append("*%s:* %d executions in %.0f s, %s.\n" % (t.capitalize(), k["executions"], k["s"], "exhausted" if k["complete"] else "bounded by time"))
        for n, x, b in cost[i].get("quick", list(cost[i].values())[0])["scenarios"]: o.append("- %s (%d): %s" % (n, x, b))
        o.append("")
    o.append("*Taken as given:* %s.\n" % "; ".join(c.get("assumptions", [])))
    o.append("*Why the tests cannot settle it:* %s\n" % p["why_tests_cant"])
props = "\n".join(o)
f = ["# Findings\n", "Genuine defects met on the way; `fixed` ones are repaired by the named commit in /repo, the others are listed in known-findings.jsonl and printed as KNOWN-FINDING by the check.\n"]
for l in open(V + "/known-findings.jsonl"):
    l = l.strip()
    if l.startswith("fixed:"): f.append("- " + l)
    elif l.startswith("{"): d = json.loads(l); f.append("- known: property=%s %s: %s — %s" % (d["property"], d["scenario"], d["note"], d.get("what", "")))
f.append("\n# Planted bugs\n\n| id | property | needs | breaks | caught by the quick check |\n|---|---|---|---|---|")
res = json.load(open(H + "/caught.json")) if os.path.exists(H + "/caught.json") else {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    f.append("| %s | %s | %s | %s | %s |" % (i, d["property"], d["needs"], d["what_it_breaks"], res.get(i, "?")))
s = open(H + "/design_head.md").read().replace("PROPERTIES_PLACEHOLDER", props).replace("FINDINGS_PLACEHOLDER", "\n".join(f))
open(V + "/DESIGN.md", "w").write(s)
