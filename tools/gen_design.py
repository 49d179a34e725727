"""DESIGN.md from the claims, the checks' own explanations, known_findings.json and seeded/"""
import json, os, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import importlib
P = [json.loads(l) for l in open(V + "/properties.jsonl")]
M = json.load(open(V + "/MANIFEST.json"))
C = {c["property"]: c for c in M["checks"]}
NA = {x["property"]: x["reason"] for x in M["not_applicable"]}
out = [open(V + "/tools/design/01.md").read().rstrip(), "", "## 2. The properties, one by one", ""]
for p in P:
    i = p["id"]
    out.append("### %s — %s" % (i, p["title"])); out.append("")
    if i in NA: out += ["*Not applicable.* " + NA[i], ""]; continue
    m = importlib.import_module("checks." + i.lower())
    out += ["* **Method:** " + C[i]["technique"] + ".", "* **What is followed, against which oracle:** " + m.EXPLANATION, "* **Covers:** " + C[i]["level_note"]]
    if getattr(m, "ASSUMPTIONS", None): out.append("* **Assumes:** " + "; ".join(m.ASSUMPTIONS) + ".")
    out.append("* **Beyond the tests:** " + p["why_tests_cant"])
    out.append("")
t = open(V + "/tools/design/03.md").read()
F = [f["what"] for f in json.load(open(V + "/known_findings.json"))["findings"] if f["status"] == "fixed"]
t = t.replace("%FIXED%", "\n".join("* " + f.replace("fixed: property=", "") for f in F))
rows = []
caught = json.load(open(V + "/tools/design/caught.json")) if os.path.exists(V + "/tools/design/caught.json") else {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json") + glob.glob(V + "/extra-bugs/*/meta.json"), key=lambda x: x.split("/")[-2]):
    n = d.split("/")[-2]; m = json.load(open(d))
    rows.append("| %s | %s | %s: %s |" % (n, ", ".join(caught.get(n, [])) or "(missed)", m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
t = t.replace("%SEEDED%", "\n".join(rows))
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n" + t)
