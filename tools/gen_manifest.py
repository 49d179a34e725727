#!/usr/bin/env python3
"""Source of MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "abstract interpretation of LLVM IR"
C = []
def claim(pid, technique, note):
    C.append(dict(property=pid, quick_cmd="python3 check.py %s" % pid, thorough_cmd="VERIF_TIER=thorough python3 check.py %s --thorough" % pid,
                  evidence_file="evidence/%s.json" % pid, technique=technique, level="other", level_note=note))
NA = {}
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
claimed = {c["property"] for c in C}
for p in props:
    assert (p in claimed) != (p in NA), p
json.dump({"version": 1, "setup_cmd": "python3 check.py --selftest", "checks": C,
           "not_applicable": [dict(property=p, reason=NA[p]) for p in props if p in NA],
           "notes": "Static analysis of /repo's current sources; see DESIGN.md. /repo carries no hooks, only fix: commits."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(C), "claimed", len(NA), "not applicable")
