#!/usr/bin/env python3
"""Adds the fix: commits of /repo to known_findings.json (run by hand after a fix commit)."""
import json, subprocess, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
MAP = [("CSS code is self", "P10"), ("stabilizers of a CSS", "P10"), ("ColorCode", "P11"), ("bicycle", "P11"), ("color code", "P11"),
 ("stabilizer code", "P09"), ("stabilizer equivalent", "P09"), ("stabilizer generators", "P09"),
 ("X and Z checks in place", "P01"), ("needed check matrices", "P01"), ("setting a check matrix", "P01"),
 ("two-sided", "P02"), ("UFHeuristic can be reset", "P04"), ("UFHeuristic starts", "P04"), ("UFHeuristic", "P03"), ("UFDecoder", "P02"), ("reject a syndrome", "P02"),
 ("word error rate", "P05"), ("Pauli's", "P07"), ("rejects classically", "P08"), ("reject controlled", "P08"), ("classical registers", "P08"), ("idle qubits", "P08"),
 ("Q5", "P06"), ("Q7", "P06"), ("Q9", "P06"), ("surface codes decode", "P06"), ("barriers", "P06")]
extra = V / "tools" / "fixed_map.json"
if extra.exists(): MAP = [tuple(x) for x in json.loads(extra.read_text())] + MAP
f = V / "known_findings.json"
d = json.loads(f.read_text())
known = [e for e in d["findings"] if e["status"] == "known"]
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "d878024..HEAD"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix:"): sys.exit("not a fix: " + l)
    pid = next((p for k, p in MAP if k in s), None)
    if pid is None: sys.exit("no property for " + l)
    out.append({"id": h, "property": pid, "status": "fixed", "commit": h, "what": s[5:], "line": f"fixed: property={pid} {h} {s[5:]}"})
f.write_text("{\"findings\": [\n " + ",\n ".join(json.dumps(e) for e in known + out) + "\n]}\n")
