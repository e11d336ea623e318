"""DESIGN.md from design.tmpl.md, known_findings.json and seeded/."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(HERE, "tools", "design.tmpl.md")).read()
fx = []
for l in json.load(open(os.path.join(HERE, "known_findings.json")))["fixed"]:
    _, p, c, w = l.split(" ", 3)
    fx.append("* **%s** (%s): %s" % (p.split("=")[1], c, w))
res = json.load(open(os.path.join(HERE, "tools", "plant_results.json")))
rows = ["| plant | property | needs | caught by |", "|---|---|---|---|"]
root = os.path.join(HERE, "seeded")
for i in sorted(os.listdir(root)):
    m = json.load(open(os.path.join(root, i, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"],
                                           res.get(i, "")))
t = t.replace("@@FIXES@@", "\n".join(fx)).replace("@@PLANTS@@", "\n".join(rows))
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
