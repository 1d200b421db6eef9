#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (development only)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
head = s[:s.index("## 5. Planted bugs")]
rows = []
for i in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(V + "/seeded/%s/meta.json" % i))
    rows.append((m["property"], i, m["needs"], m["what_it_breaks"]))
rows.sort()
t = "## 5. Planted bugs\n\nEach was written from the text of the property, passes the stable tests and was confirmed with\n`tools/seed.py` (clean demo passes, patched demo fails, tests pass, check run). All are caught by\nthe quick check of the property named:\n\n| caught by | bug | needs | breaks |\n|---|---|---|---|\n"
t += "".join("| %s | `%s` | %s | %s |\n" % r for r in rows)
t += """
Besides these, several hundred one-line changes (operator swaps, bounds off by one, dropped
statements, made automatically) and about a hundred hand-written changes were tried in scratch
copies without being recorded. The hand-written ones that were missed at first all had one of
two shapes, and the workloads were extended accordingly: *state surviving a first use* (a selector,
estimator, metric or sampler used again with another population of the same size), now a step
"used before" in the workloads concerned; and *sizes* (beyond 16 objectives, 255 slots, 256
solutions, 32 literals), now cases marked "large" in most units.
"""
open(p, "w").write(head + t)
