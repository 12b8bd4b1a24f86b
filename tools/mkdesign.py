#!/usr/bin/env python3
"""Generates /verif/DESIGN.md from the prose below, properties.jsonl, the rules the checks state, known_findings.json and seeded/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(os.path.join(V, "tools", "design_text.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
man = json.load(open(os.path.join(V, "MANIFEST.json")))
claimed = {c["property"]: c for c in man["checks"]}
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
kf = json.load(open(os.path.join(V, "known_findings.json")))
out = [HEAD]
out.append("## Properties\n")
for p in props:
    i = p["id"]
    out.append("### %s — %s\n" % (i, p["title"]))
    if i in na:
        out.append("Not claimed: %s\n" % na[i])
        continue
    out.append("*Method:* %s.\n" % claimed[i]["technique"])
    d = DEC.get(i)
    if d:
        out.append(d.strip() + "\n")
    ev = os.path.join(V, "evidence", i + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))["coverage"]
        rules = e.get("rules", {})
        if rules:
            out.append("Rules decided:\n")
            for r, x in rules.items():
                out.append("- `%s`: %s" % (r, x.get("rule", "")))
            out.append("")
        if e.get("assumptions"):
            out.append("Assumptions: " + "; ".join(e["assumptions"]) + ".\n")
out.append("## Not applicable\n")
for i in sorted(na):
    out.append("- **%s**: %s" % (i, na[i]))
out.append("\n## Genuine defects found, repaired in /repo\n")
out.append("Each was shown against the real code before it was repaired; none is left as a known finding.\n")
for x in kf["fixed"]:
    out.append("- " + x)
for x in kf.get("findings", []):
    out.append("- known finding: " + json.dumps(x))
out.append("\n" + FALSE)
out.append("## Planted bugs (`seeded/`)\n")
out.append("| bug | property | what it needs | caught by |\n|---|---|---|---|")
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    j = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    out.append("| %s | %s | %s | %s |" % (n, j["property"], j["needs"].replace("|", "\\|"), ", ".join(CAUGHT.get(n, [j["property"]]))))
out.append("\n" + TAIL)
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print(sum(len(x) for x in out), "bytes")
