#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the text in tools/design/*.md, and the table of planted bugs."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
text = open(os.path.join(ROOT, "tools/design/design.md")).read()
rows = []
notes = {}
p = os.path.join(ROOT, "tools/design/missed.json")
if os.path.exists(p):
    notes = json.load(open(p))
for d in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append((m["property"], i, m["needs"], notes.get(i, "at once")))
rows.sort()
t = ["| property | planted bug | what it needs to show | caught by the property's check |", "|---|---|---|---|"]
t += [f"| {a} | {b} | {c} | {d} |" for a, b, c, d in rows]
open(os.path.join(ROOT, "DESIGN.md"), "w").write(text.replace("@PARSER@", open(os.path.join(ROOT, "tools/design/parser.md")).read().strip()).replace("@COMPILER@", open(os.path.join(ROOT, "tools/design/compiler.md")).read().strip()).replace("@BUGS@", "\n".join(t)))
