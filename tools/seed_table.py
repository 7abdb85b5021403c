#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md."""
import json, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
head, mark, _ = (root / "DESIGN.md").read_text().partition("<!-- table: tools/seed_table.py -->\n")
rows = ["| change | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    cell = lambda s: " ".join(str(s).split()).replace("|", "/")
    rows.append(f"| {d.name} | {m['property']} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} |")
(root / "DESIGN.md").write_text(head + mark + "\n".join(rows) + "\n")
