"""Small property-based-testing harness on top of Hypothesis.

A property is a list of Sub-checks.  Each sub-check has a generator of JSON-able cases and a check that runs one case
against the real code and an oracle.  Cases run in forked children (one per sub-check and shard) so that a crash, a hang
or a runaway allocation of the code under test is itself an observation, tied to the case that caused it.

Outcome of a case:
  * returns a label (str)        -> evaluated, non-trivial (by the rule of the sub-check)
  * returns None / False         -> evaluated, trivial
  * raises Skip                  -> outside the domain (counted as excluded, with its reason)
  * raises Violation, or any exception that passed through a frame of /repo -> the property is violated
  * any other exception          -> error of the harness itself (exit 2, never a VIOLATION line)
"""

from __future__ import annotations

import contextlib
import ctypes
import hashlib
import io
import json
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
from collections import Counter
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGFPE, signal.SIGBUS, signal.SIGILL}


class Violation(Exception):
    pass


class Skip(Exception):
    pass


class _Budget(BaseException):
    pass


class _Fail(Exception):
    """What Hypothesis sees for a failing case (a single type, so that shrinking is free to move between messages)."""


def require(cond: Any, msg: str | Callable[[], str] = "condition violated") -> None:
    if not bool(cond):
        raise Violation(msg() if callable(msg) else msg)


def sut(fn: Callable, *args, **kw):
    """Call compiled code of the system under test: any exception it raises is the system's."""
    try:
        return fn(*args, **kw)
    except (Violation, Skip):
        raise
    except Exception as e:
        raise Violation(f"{getattr(fn, '__name__', fn)} raised {type(e).__name__}: {e}") from e


@dataclass
class Sub:
    name: str
    check: Callable[[Any], Any]
    strategy: Callable[[], Any] | None = None  # -> hypothesis strategy
    cases: Callable[[str], Any] | None = None  # tier -> iterable of cases (exhaustive enumeration)
    quick: int = 100
    thorough: int = 2000
    shards: tuple[int, int] = (1, 8)
    timeout: float = 100.0  # seconds one case may take before it counts as a hang
    rule: str = ""
    nondet: bool = False  # the code under test draws randomness we do not control
    mem_gb: float = 6.0


@dataclass
class Finding:
    id: str
    what: str
    demo: Callable[[], bool]  # True if the defect is present


@dataclass
class Prop:
    id: str
    subs: list[Sub]
    cpp: bool = False
    findings: list[Finding] = field(default_factory=list)
    assumptions: list[str] = field(default_factory=list)
    budget: tuple[float, float] = (240.0, 780.0)


def case_key(case: Any) -> str:
    return json.dumps(case, sort_keys=True, separators=(",", ":"), default=_default)


def _default(o):
    import numpy as np

    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, np.bool_):
        return bool(o)
    raise TypeError(type(o))


def case_seed(case: Any, salt: str = "") -> int:
    return int(hashlib.sha256((salt + case_key(case)).encode()).hexdigest()[:15], 16)


def seed_case(case: Any) -> None:
    import numpy as np

    s = case_seed(case)
    random.seed(s)
    np.random.seed(s % 2**32)


def _from_repo(e: BaseException) -> bool:
    src = (str(REPO / "src"), str(REPO / "scripts"))
    seen = set()
    while e is not None and id(e) not in seen:
        seen.add(id(e))
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(src):
                return True
            tb = tb.tb_next
        e = e.__cause__ or e.__context__
    return False


class Outcome:
    def __init__(self):
        self.evals = 0
        self.nontrivial: set[str] = set()
        self.labels: Counter = Counter()
        self.excluded: Counter = Counter()
        self.samples: list = []
        self.fail: dict | None = None
        self.error: str | None = None
        self.stopped = False


# The checks run without any of these on correct results: what they read is not what it should be.
MALFORMED = (AttributeError, LookupError, TypeError, ValueError, ArithmeticError, AssertionError, FileNotFoundError, RuntimeError, SystemExit)


def run_one(sub: Sub, case: Any, out: Outcome) -> None:
    """Run one case; raises _Fail for a violation, _Harness for an error of ours."""
    seed_case(case)
    sink = io.StringIO()
    try:
        with contextlib.redirect_stdout(sink), contextlib.redirect_stderr(sink):
            label = sub.check(case)
    except Skip as e:
        out.excluded[str(e) or "skipped"] += 1
        return
    except Violation as e:
        _record(out, case, str(e))
        raise _Fail from None
    except MemoryError as e:
        _record(out, case, f"MemoryError: {e}")
        raise _Fail from None
    except (Exception, SystemExit) as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        if _from_repo(e):
            _record(out, case, "".join(traceback.format_exception(e)[-6:])[-3000:])
            raise _Fail from None
        if isinstance(e, MALFORMED):
            _record(out, case, "the result is malformed: " + "".join(traceback.format_exception(e)[-6:])[-3000:])
            raise _Fail from None
        out.error = f"{sub.name}: {case_key(case)[:1500]}\n{traceback.format_exc()[-4000:]}"
        raise _Budget from None
    out.evals += 1
    if label:
        k = case_key(case)
        h = hashlib.sha256(k.encode()).hexdigest()[:16]
        if h not in out.nontrivial:
            out.nontrivial.add(h)
            out.labels[str(label)] += 1
            if len(out.samples) < 2 and len(k) < 1500:
                out.samples.append({"sub": sub.name, "case": case, "label": str(label)})


def _record(out: Outcome, case: Any, msg: str) -> None:
    k = case_key(case)
    if out.fail is None or len(k) < len(out.fail["key"]):
        out.fail = {"key": k, "case": case, "error": msg}


def run_task(sub: Sub, tier: str, seed: int, shard: int, nshards: int, deadline: float, hb: int | None) -> Outcome:
    out = Outcome()

    def beat(case: Any) -> None:
        if time.time() > deadline:
            out.stopped = True
            raise _Budget
        if hb is not None:
            b = case_key(case).encode()
            os.ftruncate(hb, 0)
            os.pwrite(hb, b, 0)

    try:
        if sub.cases is not None:
            for i, case in enumerate(sub.cases(tier)):
                if i % nshards != shard:
                    continue
                beat(case)
                with contextlib.suppress(_Fail):
                    run_one(sub, case, out)
                if out.fail is not None:
                    break
        else:
            import hypothesis
            from hypothesis import HealthCheck, Phase, given, settings
            from hypothesis.internal.conjecture import engine

            engine.MAX_SHRINKING_SECONDS = 25
            n = sub.quick if tier == "quick" else sub.thorough
            n = max(1, -(-n // nshards))
            hseed = int(hashlib.sha256(f"{seed}/{sub.name}/{shard}".encode()).hexdigest()[:12], 16)

            @hypothesis.seed(hseed)
            @settings(
                max_examples=n, database=None, deadline=None, derandomize=False, print_blob=False,
                report_multiple_bugs=False, phases=[Phase.generate, Phase.shrink],
                suppress_health_check=list(HealthCheck),
            )
            @given(sub.strategy())
            def test(case):
                beat(case)
                run_one(sub, case, out)

            test()
    except _Budget:
        pass
    except Exception:
        if out.fail is None:
            out.error = f"{sub.name}: {traceback.format_exc()[-4000:]}"
    return out


# ------------------------------------------------------------------------------------------------ processes
@dataclass
class _Task:
    sub: Sub
    shard: int
    nshards: int
    pid: int = 0
    dir: Path = Path()
    start: float = 0.0


def _child(fn: Callable[[], dict], d: Path, mem_gb: float) -> int:
    pid = os.fork()
    if pid:
        return pid
    try:
        os.setpgid(0, 0)
        with contextlib.suppress(Exception):
            ctypes.CDLL(None).prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG: end with the process that started this one
        lim = int(mem_gb * 2**30)
        with contextlib.suppress(Exception):
            resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
        with contextlib.suppress(Exception):
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        w = d / "cwd"
        w.mkdir()
        os.chdir(w)
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        res = fn()
        (d / "out.tmp").write_text(json.dumps(res, default=_default))
        (d / "out.tmp").rename(d / "out.json")
        os._exit(0)
    except BaseException:
        with contextlib.suppress(BaseException):
            (d / "child_error").write_text(traceback.format_exc())
        os._exit(3)


def _kill(pid: int) -> None:
    for f in (os.killpg, os.kill):
        with contextlib.suppress(OSError):
            f(pid, signal.SIGKILL)


def _reap(pid: int) -> None:
    """End what a finished child left running (helper processes of the code under test)."""
    with contextlib.suppress(OSError):
        os.killpg(pid, signal.SIGKILL)


def _ser(o: Outcome) -> dict:
    return {
        "evals": o.evals, "nontrivial": sorted(o.nontrivial), "labels": dict(o.labels), "excluded": dict(o.excluded),
        "samples": o.samples, "fail": o.fail, "error": o.error, "stopped": o.stopped,
    }  # fmt: skip


def solo(sub: Sub, case: Any, root: Path, timeout: float, tries: int = 1) -> dict | None:
    """Run one case in its own child; -> None if it passes, else {'error':…} (violation) or {'harness':…}."""
    for t in range(tries):
        d = Path(tempfile.mkdtemp(dir=root))

        def go() -> dict:
            o = Outcome()
            with contextlib.suppress(_Fail, _Budget):
                run_one(sub, case, o)
            return _ser(o)

        pid = _child(go, d, sub.mem_gb)
        end = time.time() + timeout
        st = None
        while time.time() < end:
            p, s = os.waitpid(pid, os.WNOHANG)
            if p:
                st = s
                _reap(pid)
                break
            time.sleep(0.01)
        if st is None:
            _kill(pid)
            os.waitpid(pid, 0)
            return {"error": f"does not terminate within {timeout:.0f} s", "hang": True}
        if os.WIFSIGNALED(st):
            sig = os.WTERMSIG(st)
            if sig in CRASH:
                return {"error": f"process crashed with signal {signal.Signals(sig).name}"}
            return {"harness": f"child ended by signal {sig}"}
        if not (d / "out.json").exists():
            return {"harness": (d / "child_error").read_text() if (d / "child_error").exists() else "child died"}
        r = json.loads((d / "out.json").read_text())
        if r["fail"]:
            return {"error": r["fail"]["error"]}
        if r["error"]:
            return {"harness": r["error"]}
        shutil.rmtree(d, ignore_errors=True)
    return None


def shrink_crash(sub: Sub, case: Any, root: Path) -> Any:
    """Greedy structural minimisation of a crashing or hanging case (drop list elements), each try in a child."""
    end = time.time() + 20

    def variants(c):
        if isinstance(c, list):
            for i in range(len(c)):
                yield c[:i] + c[i + 1 :]
            for i in range(len(c)):
                for v in variants(c[i]):
                    yield [*c[:i], v, *c[i + 1 :]]
        elif isinstance(c, dict):
            for k in c:
                for v in variants(c[k]):
                    yield {**c, k: v}

    progress = True
    while progress and time.time() < end:
        progress = False
        for v in variants(case):
            if time.time() > end:
                break
            r = solo(sub, v, root, 5)
            if r and "error" in r and ("signal" in r["error"]):
                case = v
                progress = True
                break
    return case


def main(prop: Prop, tier: str, seed: int, replay: str | None = None, workers: int | None = None, only: str | None = None,
         t0: float | None = None) -> int:  # fmt: skip
    t0 = t0 or time.time()
    root = Path(tempfile.mkdtemp(prefix=f"verif-{prop.id}-"))
    try:
        if replay:
            return _replay(prop, replay, root)
        return _main(prop, tier, seed, root, workers or os.cpu_count() or 4, only, t0)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _replay(prop: Prop, path: str, root: Path) -> int:
    r = json.loads(Path(path).read_text())
    if r["subcheck"].startswith("finding:"):
        f = next(f for f in prop.findings if "finding:" + f.id == r["subcheck"])
        res = {"error": f.what} if _demo(f, root) else None
    else:
        sub = next(s for s in prop.subs if s.name == r["subcheck"])
        res = solo(sub, r["case"], root, 2 * sub.timeout, 60 if sub.nondet else 1)
    if res is None:
        print("replay: the case passes")
        return 0
    if "harness" in res:
        print("harness error:", res["harness"])
        return 2
    print(res["error"])
    print(f"VIOLATION property={prop.id} replay={path}")
    return 1


def _demo(f: Finding, root: Path) -> bool:
    sub = Sub(name=f.id, check=lambda _c: require(not f.demo(), f.what))
    r = solo(sub, [], root, 100)
    if r and "harness" in r:
        raise RuntimeError(r["harness"])
    return r is not None


def load_known(pid: str) -> set[str]:
    p = VERIF / "known_findings.json"
    if not p.exists():
        return set()
    return {e["id"] for e in json.loads(p.read_text())["findings"] if e["property"] == pid and e["status"] == "known"}


def _main(prop: Prop, tier: str, seed: int, root: Path, workers: int, only: str | None, t0: float) -> int:
    known = load_known(prop.id)
    deadline = time.time() + prop.budget[0 if tier == "quick" else 1]
    tasks: list[_Task] = []
    for sub in prop.subs:
        if only and only not in sub.name:
            continue
        ns = sub.shards[0 if tier == "quick" else 1]
        tasks += [_Task(sub, i, ns) for i in range(ns)]
    tasks.sort(key=lambda t: t.shard)
    running: list[_Task] = []
    total = Outcome()
    persub: dict[str, dict] = {s.name: {"evaluations": 0, "nontrivial": set(), "labels": Counter(), "excluded": Counter(),
                                        "samples": [], "stopped": False} for s in prop.subs}  # fmt: skip
    violations: list[dict] = []
    errors: list[str] = []
    suspects: list[tuple[Sub, Any, str]] = []
    queue = list(tasks)
    while (queue or running) and not violations:
        while queue and len(running) < workers:
            t = queue.pop(0)
            t.dir = Path(tempfile.mkdtemp(dir=root))
            t.start = time.time()
            hb = os.open(t.dir / "hb", os.O_RDWR | os.O_CREAT)
            s, i, n = t.sub, t.shard, t.nshards
            t.pid = _child(lambda: _ser(run_task(s, tier, seed, i, n, deadline, hb)), t.dir, t.sub.mem_gb)
            os.close(hb)
            running.append(t)
        time.sleep(0.02)
        for t in list(running):
            p, st = os.waitpid(t.pid, os.WNOHANG)
            cur = None
            if not p:
                last = max(t.start, (t.dir / "hb").stat().st_mtime)
                if time.time() - last > t.sub.timeout:
                    _kill(t.pid)
                    os.waitpid(t.pid, 0)
                    running.remove(t)
                    with contextlib.suppress(ValueError):
                        cur = json.loads((t.dir / "hb").read_text())
                    if cur is None:
                        errors.append(f"{t.sub.name}: no case within the time limit")
                    else:
                        suspects.append((t.sub, cur, "hang"))
                continue
            running.remove(t)
            _reap(t.pid)
            o = t.dir / "out.json"
            if os.WIFSIGNALED(st):
                sig = os.WTERMSIG(st)
                with contextlib.suppress(ValueError):
                    cur = json.loads((t.dir / "hb").read_text())
                if cur is not None and sig in CRASH:
                    suspects.append((t.sub, cur, "crash"))
                else:
                    errors.append(f"{t.sub.name}: child ended by signal {sig}")
                continue
            if not o.exists():
                errors.append(f"{t.sub.name}: " + ((t.dir / "child_error").read_text() if (t.dir / "child_error").exists() else "child died"))
                continue
            r = json.loads(o.read_text())
            ps = persub[t.sub.name]
            ps["evaluations"] += r["evals"]
            ps["nontrivial"] |= set(r["nontrivial"])
            ps["labels"].update(r["labels"])
            ps["excluded"].update(r["excluded"])
            ps["samples"] += r["samples"]
            ps["stopped"] |= r["stopped"]
            if r["fail"]:
                violations.append({"sub": t.sub.name, "case": r["fail"]["case"], "error": r["fail"]["error"]})
            elif r["error"]:
                errors.append(r["error"])
            shutil.rmtree(t.dir, ignore_errors=True)
    for t in running:
        _kill(t.pid)
        os.waitpid(t.pid, 0)
    hard_end = t0 + (820 if tier == "quick" else 7200)
    hangs = 0
    for sub, case, kind in suspects[:4]:
        if kind == "hang":
            hangs += 1
            if hangs > 1 or violations:
                continue
        limit = max(20.0, min(2 * sub.timeout, hard_end - time.time()))
        r = solo(sub, case, root, limit, 1 if kind == "hang" else 20 if sub.nondet else 2)
        if r is None:
            errors.append(f"{sub.name}: unconfirmed {kind} of {case_key(case)[:500]}")
        elif "harness" in r:
            errors.append(r["harness"])
        else:
            if kind == "crash" and not sub.nondet:
                case = shrink_crash(sub, case, root)
            violations.append({"sub": sub.name, "case": case, "error": r["error"]})
    fin = {}
    for f in prop.findings if not only else []:
        present = _demo(f, root)
        fin[f.id] = present
        if present and f.id in known:
            print(f"KNOWN-FINDING: property={prop.id} {f.what}")
        elif present:
            violations.append({"sub": "finding:" + f.id, "case": None, "error": f.what})
    # ---------------------------------------------------------------- evidence
    rules = "; ".join(f"[{s.name}] {s.rule}" for s in prop.subs)
    ev = sum(p["evaluations"] for p in persub.values())
    nt = sum(len(p["nontrivial"]) for p in persub.values())
    evidence = {
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": nt, "rule": rules,
            "samples": [s for p in persub.values() for s in p["samples"][:2]] or ["none"],
            "subchecks": {
                k: {"evaluations": p["evaluations"], "distinct_nontrivial": len(p["nontrivial"]),
                    "classes": dict(p["labels"].most_common(40)), "excluded": dict(p["excluded"]), "budget_hit": p["stopped"]}
                for k, p in persub.items()
            },
            "findings_present": fin,
        },
        "assumptions": prop.assumptions, "wall_s": round(time.time() - t0, 1), "violations": len(violations),
    }  # fmt: skip
    if not only:
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{prop.id}.json").write_text(json.dumps(evidence, indent=1, default=_default))
    for k, p in persub.items():
        if only and only not in k:
            continue
        print(f"  {k}: {p['evaluations']} cases, {len(p['nontrivial'])} distinct non-trivial"
              + (f", excluded {dict(p['excluded'])}" if p["excluded"] else "") + (" (time budget hit)" if p["stopped"] else ""))  # fmt: skip
        if only or os.environ.get("VERIF_VERBOSE"):
            print("    ", dict(p["labels"].most_common(30)))
    print(f"{prop.id} {tier} seed={seed}: {ev} cases, {nt} non-trivial, {time.time() - t0:.1f} s")
    seen = set()
    for i, v in enumerate(violations):
        if v["sub"] in seen:
            continue
        seen.add(v["sub"])
        (VERIF / "replays").mkdir(exist_ok=True)
        rp = VERIF / "replays" / f"{prop.id}-{v['sub'].replace(':', '_').replace('/', '_').replace(' ', '_')}.json"
        rp.write_text(json.dumps({"property": prop.id, "subcheck": v["sub"], "case": v["case"], "error": v["error"]}, default=_default))
        print(f"--- {v['sub']}: {v['error'][:2500]}\n    case: {case_key(v['case'])[:1500]}")
        print(f"VIOLATION property={prop.id} replay={rp}")
    if violations:
        return 1
    if errors:
        print("HARNESS ERROR (not a violation):", *errors[:3], sep="\n")
        return 2
    if ev == 0:
        print("HARNESS ERROR (not a violation): nothing was evaluated")
        return 2
    return 0
