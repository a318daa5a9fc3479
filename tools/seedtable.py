#!/usr/bin/env python3
"""write section 4 of DESIGN.md: the planted bugs and the checks that catch them (from seeded/*/meta.json)"""
import json, pathlib, re
root = pathlib.Path(__file__).resolve().parent.parent
rows = []
for d in sorted((root / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    first = re.split(r"(?<=[.;])\s", m["what_it_breaks"].strip())[0].replace("|", "/")
    rows.append(f"| {d.name} | {m['property']} | {first} |")
design = root / "DESIGN.md"
text = design.read_text()
head = "## 4. Planted bugs and the checks that catch them"
text = text.split(head)[0].rstrip() + f"""

{head}

Each is confirmed (`tools/mkseed.py check`: stable tests pass with it, its demonstration fails with it only) and was run
against the quick check of its property: all of those below are caught.

| bug | caught by | what it breaks |
|---|---|---|
""" + "\n".join(rows) + "\n"
design.write_text(text)
