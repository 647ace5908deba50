#!/usr/bin/env python3
"""Rewrite the list of planted bugs at the end of DESIGN.md."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in (root / "seeded").iterdir():
    m = json.loads((d / "meta.json").read_text())
    rows.append("| %s | %s | %s |" % (m["property"], d.name, m["what_it_breaks"].replace("|", "/")))
t = (root / "DESIGN.md").read_text()
mark = "<!-- seeds -->\n"
t = t.split(mark)[0].rstrip() + "\n\n" + mark + "| caught by | id | effect |\n|---|---|---|\n" + "\n".join(sorted(rows)) + "\n"
(root / "DESIGN.md").write_text(t)
