"""Build the C++ part of /repo (extension pyqecc) and the probe extension from /repo's current working tree.

Everything is compiled out of tree into /verif/.build/<hash>, where the hash covers every C++ source and header of
/repo and the flags.  mqt-core (not part of the repository under test) comes from the static libraries of the image,
or is compiled from /opt/deps if they are missing.
"""

from __future__ import annotations

import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent
DEPS = Path("/opt/deps/mqt_core-2.7.0")
IRLIB = Path("/opt/build/py/_deps/mqt-core-build/src/ir/libmqt-core-ir.a")
PYLIB = Path("/opt/build/py/_deps/mqt-core-build/src/libmqt-core-python.a")
EXPORT = Path("/opt/build/py/_deps/mqt-core-build/src/ir")
PYBIND = "/opt/venv/lib/python3.12/site-packages/pybind11/include"


class BuildError(Exception):
    pass


def _sources() -> list[Path]:
    src = REPO / "src"
    out = sorted(src.glob("*.cpp")) + sorted((src / "ecc").glob("*.cpp")) + sorted((src / "python").glob("*.cpp"))
    return out


def _probe() -> Path:
    return VERIF / "cpp" / "probe.cpp"


def _flags() -> list[str]:
    return [
        "-DMQT_CORE_IR_STATIC_DEFINE", "-DZ3_FOUND", "-Dpyqecc_EXPORTS",
        f"-I{REPO}/include", f"-I{DEPS}/include/mqt-core", f"-I{EXPORT}",
        "-isystem", "/usr/include/python3.12", "-isystem", PYBIND,
        "-O1", "-DNDEBUG", "-fPIC", "-fvisibility=hidden", "-std=c++17", "-w",
    ]  # fmt: skip


def _hash() -> str:
    h = hashlib.sha256()
    for f in [*_sources(), *sorted((REPO / "include").rglob("*")), _probe()]:
        if f.is_file():
            h.update(str(f).encode())
            h.update(f.read_bytes())
    h.update(" ".join(_flags()).encode())
    h.update(Path(__file__).read_bytes())
    return h.hexdigest()[:20]


def _run(cmd: list[str]) -> None:
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd[:1] + cmd[-3:]) + "\n" + p.stderr[-4000:])


def _deps_libs(out: Path) -> list[str]:
    if IRLIB.exists() and PYLIB.exists():
        return [str(PYLIB), str(IRLIB)]
    # fallback: compile mqt-core's IR from its sources
    files = sorted((DEPS / "src" / "ir").rglob("*.cpp")) + sorted((DEPS / "src" / "python" / "qiskit").glob("*.cpp"))
    objs = []
    with ThreadPoolExecutor(8) as ex:
        futs = []
        for i, f in enumerate(files):
            o = out / f"dep{i}.o"
            objs.append(str(o))
            futs.append(ex.submit(_run, ["g++", *_flags(), "-c", str(f), "-o", str(o)]))
        for fu in futs:
            fu.result()
    return objs


def build() -> Path:
    """Return the directory that holds pyqecc and qprobe for the current tree."""
    root = VERIF / ".build"
    root.mkdir(exist_ok=True)
    with (root / "lock").open("w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = _hash()
        out = root / h
        if (out / "done").exists():
            return out
        # keep the cache small
        olds = sorted((d for d in root.iterdir() if d.is_dir()), key=lambda d: d.stat().st_mtime)
        for d in olds[:-2]:
            shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        out.mkdir()
        srcs = _sources()
        jobs = []
        core = []
        for s in srcs:
            o = out / (s.parent.name + "_" + s.name + ".o")
            jobs.append((s, o))
            if s.parent.name != "python":
                core.append(str(o))
        binds = [str(o) for s, o in jobs if s.parent.name == "python"]
        po = out / "probe.o"
        with ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(_run, ["g++", *_flags(), "-c", str(s), "-o", str(o)]) for s, o in jobs]
            probe = ex.submit(_run, ["g++", *_flags(), "-c", str(_probe()), "-o", str(po)])
            for fu in futs:
                fu.result()
            libs = _deps_libs(out)
            f1 = ex.submit(_run, ["g++", "-shared", "-o", str(out / "pyqecc.so"), *binds, *core, *libs, "-flto=auto", "-s"])
            try:
                # the probe looks at internal helpers; if their interface changed, what depends on it is skipped
                probe.result()
                own = [o for o in core if Path(o).name.startswith("src_")]
                _run(["g++", "-shared", "-o", str(out / "qprobe.so"), str(po), *own, "-s"])
            except BuildError as e:
                (out / "probe.log").write_text(str(e))
            f1.result()
        for o in out.glob("*.o"):
            o.unlink()
        (out / "done").write_text("ok")
        return out


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print(e, file=sys.stderr)
        sys.exit(2)
