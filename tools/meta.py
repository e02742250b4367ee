#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl and /verif/MANIFEST.json from tools/props.py and tools/claims.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
from claims import CLAIMS, NOT_APPLICABLE, HOOKS, NOTES
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [p["id"] for p in PROPS]
assert len(set(ids)) == len(ids)
for p in PROPS:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks = []
for pid, c in CLAIMS.items():
    assert pid in ids, pid
    checks.append({"property": pid,
                   "quick_cmd": f"python3 bin/check {pid} --tier quick",
                   "thorough_cmd": f"python3 bin/check {pid} --tier thorough",
                   "evidence_file": f"evidence/{pid}.json",
                   "technique": c["technique"], "level": c.get("level", "model_checking"),
                   "level_note": c["note"]})
na = [{"property": p, "reason": NOT_APPLICABLE.get(p, "not yet claimed: its check is still being built")}
      for p in ids if p not in CLAIMS]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na, "notes": NOTES}
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(ids), "properties,", len(checks), "claimed,", len(na), "not claimed")

# the per-property table of DESIGN.md
import re, glob
D = open(V + "/DESIGN.md").read()
b, e = "<!-- table -->\n", "<!-- end of table -->"
rows = []
P = {p["id"]: p for p in PROPS}
for pid in ids:
    c = CLAIMS.get(pid)
    if not c: rows.append(f"**{pid}** {P[pid]['title']}: not claimed, {NOT_APPLICABLE.get(pid, '')}\n"); continue
    rows.append(f"**{pid}** {P[pid]['title']}\n"
                f"* specified, explored, bound: {c['technique']}.\n"
                f"* bounds: {c['note']}\n"
                f"* out of reach of the tests: {P[pid]['why_tests_cant']}\n")
if b in D and e in D:
    D = D[:D.index(b) + len(b)] + "\n".join(rows) + D[D.index(e):]
    open(V + "/DESIGN.md", "w").write(D)
