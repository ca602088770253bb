"""DESIGN.md from tools/design_template.md, known_findings.jsonl and seeded/*/meta.json."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(V + "/tools/design_template.md").read()
fx = []
for l in open(V + "/known_findings.jsonl"):
    if l.strip():
        d = json.loads(l)
        fx.append("* %s — %s" % (d["property"], d["what"].split(" ", 2)[2] if d["what"].startswith("fixed:") else d["what"]))
miss = json.load(open(V + "/tools/missed.json"))
rows = ["| bug | breaks | needs | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f))
    b = os.path.basename(os.path.dirname(f))
    m = miss.get(b)
    c = d["property"] + (" (first missed: %s)" % m if m and not m.startswith("MISSED") else "")
    if m and m.startswith("MISSED"):
        c = m
    rows.append("| %s | %s | %s | %s |" % (b, d["what_it_breaks"], d["needs"], c))
more = open(V + "/tools/design_more.md").read() if os.path.exists(V + "/tools/design_more.md") else ""
open(V + "/DESIGN.md", "w").write(t.replace("@@FIXES@@", "\n".join(fx)).replace("@@BUGS@@", "\n".join(rows)).replace("@@MORE@@\n", more))
