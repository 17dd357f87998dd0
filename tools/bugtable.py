#!/usr/bin/env python3
"""Write the table of planted bugs in DESIGN.md, between its two marks."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {  # what missed it at first, and what was done
    "C01-set-days": "missed at first: memory was only measured for long strings",
    "C19-trim": "missed at first: strings that are nearly the same, but for what is around them, are now arguments",
    "C22-equals": "missed at first: equality of dates with parts left out is now judged",
    "C06-same-side": "missed at first: Typist has intervals whose sides are nearly the same (`kinintervals`)",
    "C18-lazy-season": "missed at first: processes whose first act is done by all clients at once, for each feature",
    "C18-month-memo": "C18 has the same texts in years that are a round number apart",
    "C20-cut-short": "long strings for errors",
    "C18-zone-memo": "missed at first: all texts about one month, with shifts, in one process",
    "C03-many": "missed at first: long texts (`longs`)",
}
rows = ["| bug | what breaks | what it needs | |", "|-|-|-|-|"]
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (d, m["what_it_breaks"], m["needs"], MISSED.get(d, "")))
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
a, rest = s.split("<!-- bugs -->\n", 1)
_, b = rest.split("<!-- end of bugs -->", 1)
open(f, "w").write(a + "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- end of bugs -->" + b)
