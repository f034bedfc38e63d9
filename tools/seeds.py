#!/usr/bin/env python3
"""Planting bugs: tools/seeds.py add SPEC.py -> seeded/<id>/; tools/seeds.py try <id> [check ids] runs the checks against it.

A SPEC file defines id, property, needs, breaks, edits = [(file, old, new)], demo (python source; exit 0 = fine)."""

import json, os, re, shutil, subprocess, sys
from pathlib import Path

V = Path(__file__).resolve().parent.parent
W = Path(f"/tmp/bw-{os.getpid()}")


def fresh():
    if W.exists():
        shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", str(W)])


def original(f, patch):
    """All lines the patch removes are lines of the original repository (not of the fixes added since)."""
    root = "d878024"
    for l in patch.splitlines():
        if l.startswith("-") and not l.startswith("---") and l[1:].strip():
            old = subprocess.check_output(["git", "-C", "/repo", "show", f"{root}:{f}"], text=True).splitlines()
            if l[1:] not in old:
                print("  NOT ORIGINAL:", f, l)


def add(spec):
    top = {}
    exec(Path(spec).read_text(), top)
    for ns in top.get("specs", [top]):
        fresh()
        bad = [(f, old) for f, old, new in ns["edits"] if (W / f).read_text().count(old) != 1]
        if bad:
            print("FAILED", ns["id"], bad)
            continue
        for f, old, new in ns["edits"]:
            (W / f).write_text((W / f).read_text().replace(old, new))
            original(f, subprocess.check_output(["git", "-C", str(W), "diff", "--", f], text=True))
        d = V / "seeded" / ns["id"]
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(subprocess.check_output(["git", "-C", str(W), "diff"], text=True))
        (d / "demo.py").write_text(ns["demo"].lstrip())
        (d / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        (d / "meta.json").write_text(json.dumps({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, indent=1) + "\n")
        print("added", ns["id"])


def tryit(sid, checks):
    fresh()
    d = V / "seeded" / sid
    subprocess.check_call(["git", "-C", str(W), "apply", str(d / "patch.diff")])
    meta = json.loads((d / "meta.json").read_text())
    env = {**os.environ, "VERIF_REPO": str(W)}
    for c in checks or [meta["property"]]:
        r = subprocess.run(["python3", str(V / "run.py"), c, "--tier", "quick"], cwd=V, env=env, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        if v:
            import fcntl
            with open(V / "tools/tried.lock", "w") as l:
                fcntl.flock(l, fcntl.LOCK_EX)
                f = V / "tools/tried.json"
                t = json.loads(f.read_text()) if f.exists() else {}
                t[sid] = v[0].split("replay=")[1].rsplit("/", 1)[-1].removesuffix(".json").replace("-", ": ", 1)
                f.write_text(json.dumps(t, indent=0, sort_keys=True) + "\n")
        print(sid, c, "rc", r.returncode, v or r.stdout[-300:] + r.stderr[-500:], flush=True)
    shutil.rmtree(W, ignore_errors=True)


if sys.argv[1] == "add":
    for s in sys.argv[2:]:
        add(s)
elif sys.argv[1] == "try":
    tryit(sys.argv[2], sys.argv[3:])
elif sys.argv[1] == "all":
    for d in sorted((V / "seeded").iterdir()):
        tryit(d.name, [])
