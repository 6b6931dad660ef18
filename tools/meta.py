#!/usr/bin/env python3-vt
"""Single source for properties.jsonl and MANIFEST.json.  Run: python3-vt tools/meta.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "lib/libfrencutils/"
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, claimed=True, level="proof", note="", technique=None):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))
    PROPS[-1]["_"] = (claimed, level, note, technique)


from props import *  # noqa

T = "contract-based deductive verification: contracts and loop invariants on the real C functions (clang IR extracted every run), obligations discharged by z3/cvc5; counterexamples replayed on the compiled code"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if k != "_"}) + "\n")
checks, na = [], []
for p in PROPS:
    claimed, level, note, tech = p["_"]
    if claimed:
        checks.append(dict(property=p["id"], quick_cmd="python3-vt check.py " + p["id"],
                           thorough_cmd="VERIF_TIER=thorough python3-vt check.py " + p["id"],
                           technique=tech or T, level=level, level_note=note))
    else:
        na.append(dict(property=p["id"], reason=note))
m = dict(version=1, setup_cmd="python3-vt tools/selftest.py", hooks=dict(guard="none", enable="no hooks are needed: /repo is compiled as it is", source_commits=[]),
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
