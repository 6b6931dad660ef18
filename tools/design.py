#!/usr/bin/env python3-vt
"""writes DESIGN.md from tools/design.in, the evidence files, known_findings.jsonl and seeded/*/meta.json"""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = {}
exec(open(os.path.join(V, "tools", "design_text.py")).read(), D)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
tab, txt = [], []
for p in props:
    i = p["id"]
    t = D["PROP"][i]
    ef = V + "/evidence/%s.json" % i
    cov = json.load(open(ef))["coverage"] if os.path.exists(ef) else {}
    tab.append("| %s | %s | %s | %s |" % (i, ", ".join(cov.get("functions_under_contract", [])), cov.get("discharged", "-"), t["bounded"]))
    txt.append("### %s %s\n\n%s\n" % (i, p["title"], t["how"].strip()))
fix = ["* " + json.loads(l)["what"] for l in open(V + "/known_findings.jsonl")]
bugs = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    b = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    bugs.append("| %s | %s | %s | %s |" % (b, d["property"], d["needs"], D["CAUGHT"].get(b, "?")))
s = open(V + "/tools/design.in").read()
for k, v in (("TABLE", tab), ("PROPS", txt), ("FIX", fix), ("BUGS", bugs)):
    s = s.replace("@@%s@@" % k, "\n".join(v))
s = s.replace("@@NOT@@", D["NOT"].strip())
open(V + "/DESIGN.md", "w").write(s)
