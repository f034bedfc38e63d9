#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (from seeded/*/meta.json and tools/tried.json, the results of tools/seeds.py try)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
tried = json.loads((V / "tools/tried.json").read_text()) if (V / "tools/tried.json").exists() else {}
rows = []
for d in sorted((V / "seeded").iterdir()):
    m = json.loads((d / "meta.json").read_text())
    rows.append((m["property"], d.name, m["needs"], tried.get(d.name, "not tried")))
t = "| property | bug | needs | caught by |\n|---|---|---|---|\n" + "".join(f"| {p} | {n} | {w.replace('|', '/')} | {c} |\n" for p, n, w, c in sorted(rows))
s = (V / "DESIGN.md").read_text()
a, b = "<!-- bugs -->\n", "<!-- /bugs -->"
s = s[: s.index(a) + len(a)] + t + s[s.index(b) :]
(V / "DESIGN.md").write_text(s)
