#!/usr/bin/env python3
"""Writes DESIGN.md from DESIGN.in.md, known_findings.txt and seeded/*/meta.json."""
import json, os
V = "/verif/"
fixed = "".join("* **%s** `%s` %s\n" % (l.split("property=")[1][:3], l.split()[2], " ".join(l.split()[3:])) for l in open(V + "known_findings.txt") if l.startswith("fixed:"))
rows = ["| planted bug | property | what it breaks; what it needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(V + "tools/caught.json"))
for i in sorted(os.listdir(V + "seeded")):
    m = json.load(open(V + "seeded/%s/meta.json" % i))
    rows.append("| %s | %s | %s. *Needs:* %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], caught.get(i, "?")))
t = open(V + "tools/DESIGN.in.md").read().replace("@@FIXED@@", fixed.strip()).replace("@@SEEDS@@", "\n".join(rows))
open(V + "DESIGN.md", "w").write(t)
