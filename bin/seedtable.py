#!/usr/bin/env python3
"""Write the table of planted bugs into DESIGN.md (between the seeds markers)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| id | check that catches it | what it breaks | needs |", "|---|---|---|---|"]
missed = json.load(open(os.path.join(here, "bin", "missed.json")))
for i in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", i, "meta.json")))
    c = lambda s: " ".join(s.split()).replace("|", "\\|")
    rows.append(f"| {i} | {'none (missed): ' + missed[i] if i in missed else m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} |")
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
open(p, "w").write(s[:a] + "<!-- seeds -->\n" + "\n".join(rows) + "\n" + s[b:])
