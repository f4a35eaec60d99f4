#!/usr/bin/env python3
# fills the table of planted bugs in DESIGN.md (between the two markers)
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | property | what it breaks | needs |", "|---|---|---|---|"]
for d in [x for k in ("seeded", "seeded-perl") for x in sorted(os.path.join(V, k, y) for y in os.listdir(os.path.join(V, k)))]:
    i = os.path.basename(d); m = json.load(open(d + "/meta.json")); c = lambda s: s.replace("|", "/").replace("\n", " ")
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], c(m["what_it_breaks"]), c(m["needs"])))
p = V + "/DESIGN.md"; t = open(p).read(); b = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
t = t.replace("@@SEEDS@@", b) if "@@SEEDS@@" in t else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: b, t, flags=re.S)
open(p, "w").write(t)
