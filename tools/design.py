#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.  Not part of any check."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
first = {"kepler-late-revolutions": "missed at first: time spans now reach 400 revolutions", "efpa-d2-lift-left": "missed at first: the state left behind is now judged",
	"grid-last-sample": "missed at first: durations now need not be a multiple of the step", "qplot-neg-bank": "missed at first: searches without a solution added",
	"density-last-measured": "missed at first: measurements now include the start of the climb"}
for b in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
	m = json.load(open(os.path.join(ROOT, "seeded", b, "meta.json")))
	rows.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], m["property"] + (" (%s)" % first[b] if b in first else "")))
p = os.path.join(ROOT, "DESIGN.md")
s = open(p).read()
s = re.sub(r"(<!-- planted -->\n).*?(<!-- /planted -->)", lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), s, flags=re.S)
open(p, "w").write(s)
