"""Make the code of /repo importable exactly as it stands in the working tree.

* Python sources come from /repo/src (the editable-install finder is removed, so new files are seen as well);
* the extension module is the one lib/build.py compiled from the current C++ sources;
* Hypothesis comes from the image's verification venv (nothing else is taken from there).
"""

from __future__ import annotations

import importlib.util
import os
import sys
import types
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent


def setup_python() -> None:
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    sys.meta_path[:] = [f for f in sys.meta_path if "editable" not in type(f).__module__]
    src = str(REPO / "src")
    if src not in sys.path:
        sys.path.insert(0, src)
    for k in [k for k in sys.modules if k == "mqt" or k.startswith("mqt.")]:
        del sys.modules[k]


def load_ext(path: Path, name: str):
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules[name] = mod
    spec.loader.exec_module(mod)
    return mod


def setup_hypothesis() -> None:
    try:
        import hypothesis  # noqa: F401
    except ImportError:
        extra = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        sys.path.append(extra)
        import hypothesis  # noqa: F401
        import hypothesis.strategies  # noqa: F401
        import sortedcontainers  # noqa: F401

        sys.path.remove(extra)


def load(build_dir: Path | None):
    """Import mqt.qecc from the working tree, with the freshly built extension."""
    setup_python()
    if build_dir is not None:
        load_ext(build_dir / "pyqecc.so", "mqt.qecc.pyqecc")
    else:
        # properties of the pure-Python packages do not need the extension, only its names
        class Stub(types.ModuleType):
            def __getattr__(self, name):
                if name.startswith("__"):
                    raise AttributeError(name)
                return type(name, (), {})

        sys.modules["mqt.qecc.pyqecc"] = Stub("mqt.qecc.pyqecc")
    if not (REPO / "src/mqt/qecc/_version.py").exists():  # generated by the package build, not tracked
        v = types.ModuleType("mqt.qecc._version")
        v.version = "0+unknown"
        sys.modules[v.__name__] = v
    import mqt.qecc  # noqa: F401


def load_probe(build_dir: Path):
    p = build_dir / "qprobe.so"
    return load_ext(p, "qprobe") if p.exists() else None
