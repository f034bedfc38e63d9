#!/usr/bin/env python3
"""run.py <PROPERTY> [--tier quick|thorough] [--replay FILE] [--only SUBCHECK] | run.py --selftest"""

import os
import sys
import time

T0 = time.time()
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != "/opt/venv" and os.path.exists(PY) and os.environ.get("VERIF_REEXEC") != "1":
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(PY, [PY, *sys.argv])
for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS", "RAYON_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["QISKIT_PARALLEL"] = "FALSE"
os.environ["QISKIT_SUPPRESS_1_0_IMPORT_ERROR"] = "1"
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])

import argparse
import importlib.util
import warnings
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.dont_write_bytecode = True
sys.path.insert(0, str(HERE / "lib"))
warnings.simplefilter("ignore")


def load_prop(pid: str):
    import build
    import env

    env.setup_hypothesis()
    path = HERE / "checks" / f"{pid}.py"
    needs_cpp = "CPP = True" in path.read_text()
    env.load(build.build() if needs_cpp else None)
    spec = importlib.util.spec_from_file_location(f"check_{pid}", path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[spec.name] = mod
    spec.loader.exec_module(mod)
    return mod.PROP


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--selftest", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        import json

        import env

        env.setup_hypothesis()
        json.loads((HERE / "MANIFEST.json").read_text())
        json.loads((HERE / "known_findings.json").read_text())
        for line in (HERE / "properties.jsonl").read_text().splitlines():
            json.loads(line)
        print("selftest ok")
        return 0
    import harness

    try:
        prop = load_prop(a.prop)
    except BaseException:
        import traceback

        traceback.print_exc()
        print("HARNESS ERROR (not a violation): the code under test could not be built or loaded")
        return 2
    return harness.main(prop, a.tier, a.seed, a.replay, only=a.only, t0=T0)


if __name__ == "__main__":
    sys.exit(main())
