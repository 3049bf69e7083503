"""writes DESIGN.md from tools/design.md: fills in the reasons, the repairs and the planted changes"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(os.path.join(V, "MANIFEST.json")))
titles = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l); titles[d["id"]] = d["title"]
na = "\n".join("* **%s %s**: %s." % (x["property"], titles[x["property"]], x["reason"]) for x in m["not_applicable"])
fx = []
for l in open(os.path.join(V, "known_findings.txt")):
    if l.startswith("fixed: "):
        _, p, c, t = l.strip().split(" ", 3)
        fx.append("* %s (%s): %s" % (p.split("=")[1], c, t))
caught = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
rows = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for n in sorted(os.listdir(os.path.join(V, "seeded"))):
    d = json.load(open(os.path.join(V, "seeded", n, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (n, d["property"], d["what_it_breaks"], d["needs"], caught.get(n, "?")))
s = open(os.path.join(V, "tools", "design.md")).read()
open(os.path.join(V, "DESIGN.md"), "w").write(s.replace("@NA@", na).replace("@FIXES@", "\n".join(fx)).replace("@SEEDS@", "\n".join(rows)))
