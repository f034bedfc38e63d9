"""P26: the evaluation of state preparation circuits: stored circuits are what their names say, the script runs what it is asked for."""

import contextlib
import inspect
import io
import math
import random
import runpy
import signal
import sys
from pathlib import Path

import numpy as np
import stim
from hypothesis import strategies as st
from qiskit import QuantumCircuit

import env
import prep
from checks import P17
from checks.P19 import layered, reference
from harness import Prop, Skip, Sub, Violation, require
from mqt.qecc import CSSCode
from mqt.qecc.codes import HexagonalColorCode, SquareOctagonColorCode
from mqt.qecc.ft_stateprep import LutDecoder, NoisyNDFTStatePrepSimulator, heuristic_prep_circuit

EVAL = env.REPO / "src/mqt/qecc/ft_stateprep/eval"
SCRIPT = EVAL / "estimate_logical_error_rate.py"


def make_code(name, d=None):
    if name in ("surface", "rotated_surface_d3", "rotated_surface_d5"):
        return CSSCode.from_code_name("surface", d or (5 if name.endswith("5") else 3))
    if name == "cc_4_8_8":
        return SquareOctagonColorCode(d or 5)
    if name == "cc_6_6_6":
        return HexagonalColorCode(d or 5)
    return CSSCode.from_code_name(name)


def as_case(code, zero, method):
    return {"hx": np.asarray(code.Hx).astype(int).tolist(), "hz": np.asarray(code.Hz).astype(int).tolist(), "zero": zero, "d": code.distance,
            "dx": code.x_distance, "dz": code.z_distance, "det": False, "method": method, "full": False}  # fmt: skip


def judge(code, qc, zero, ft, method):
    """The circuit is a preparation of the state; with verification: fault tolerant for the errors that spread."""
    case = as_case(code, zero, method)
    o = prep.ops(qc)
    if not ft:
        require(all(g in ("h", "cx", "barrier") for g, _, _ in o), "a circuit without verification measures")
        require(all(q < code.n for _, qs, _ in o for q in qs), "a circuit without verification uses ancillas")
        P17.noiseless(case, o, code.n, max(qc.num_qubits, code.n))
        return 0
    return P17.judge(case, o, code.n, qc.num_qubits, qc.num_clbits)[0]


def stored_cases(tier):
    for f in sorted((EVAL / "circuits").glob("*/*.qasm")):
        yield {"code": f.parent.name, "file": f.name}


def check_stored(c):
    zero, ft = c["file"].startswith("zero"), "_non_ft_" not in c["file"]
    try:
        qc = QuantumCircuit.from_qasm_file(str(EVAL / "circuits" / c["code"] / c["file"]))
    except Exception as e:
        raise Violation(f"not an OpenQASM circuit: {str(e)[:200]}")
    require(qc.num_qubits >= make_code(c["code"]).n, "too few qubits")
    heavy = judge(make_code(c["code"]), qc, zero, ft, "naive" if c["file"].endswith("naive.qasm") else "stored")
    return ("ft" if ft else "not ft") if heavy or not ft else None


def stim_cases(tier):
    for f in sorted((EVAL / "circuits").glob("*/*.stim")):
        yield {"code": f.parent.name, "file": f.name}


def check_stim(c):
    """The stim circuits are circuits of the same kind."""
    path = EVAL / "circuits" / c["code"] / c["file"]
    try:
        s = stim.Circuit.from_file(str(path)).flattened()
    except ValueError as e:
        raise Violation(f"not a stim circuit: {str(e)[:200]}")
    n = make_code(c["code"]).n
    qc = QuantumCircuit(max(n, s.num_qubits), max(1, s.num_measurements))
    m = 0
    for i in s:
        t = [x.value for x in i.targets_copy()]
        if i.name == "CX":
            for a, b in zip(t[::2], t[1::2]):
                qc.cx(a, b)
        elif i.name in ("MR", "M"):
            for q in t:
                qc.measure(q, m)
                m += 1
        elif i.name not in ("TICK", "QUBIT_COORDS"):
            require(i.name == "H", lambda: f"operation {i.name} in a circuit of Hadamards, CNOTs and measurements")
            for q in t:
                qc.h(q)
    zero, ft = c["file"].startswith("zero"), "_non_ft_" not in c["file"]
    if s.num_qubits > n and not ft:
        raise Violation("a circuit without verification uses ancillas")
    heavy = judge(make_code(c["code"]), qc, zero, ft, "naive" if c["file"].endswith("naive.stim") else "stored")
    require(path.with_suffix(".qasm").exists(), "there is no OpenQASM circuit of this name")
    return ("ft" if ft else "not ft") if heavy or not ft else None


# ------------------------------------------------------------------------------------------------- script
SMALL = ["steane", "shor", "surface", "tetrahedral", "hamming", "carbon"]


@st.composite
def gen(draw, big=False):
    name = draw(st.sampled_from(["cc_4_8_8", "cc_6_6_6", "surface5"] if big else [*SMALL, "cc_4_8_8", "cc_6_6_6"]))
    c = {"code": name, "d": None, "p": draw(st.sampled_from([0.03] if big or name == "cc_4_8_8" else [0.02, 0.05, 0.1])), "seed": draw(st.integers(0, 10**6)), "n": draw(st.sampled_from([40, 150, None])), "serial": draw(st.booleans())}
    if name == "surface5":
        c.update(code="surface", d=5)
    elif name == "surface" and draw(st.booleans()):
        c["d"] = 3
    if name == "cc_6_6_6" and not big:
        c["d"] = 3  # distance 5 takes minutes
    elif name.startswith("cc"):
        c["d"] = draw(st.sampled_from([3, 3, 5, None]))
    state = draw(st.sampled_from(["zero", "plus", None]))
    circ = draw(st.sampled_from(["exact", "heuristic", None, None]))
    ver = draw(st.sampled_from(["exact", "heuristic", "naive", "none", None]))
    d = as_distance(c)
    zero = state != "plus"
    e = circ == "exact"
    if e and not stored(c, zero, e, ver):
        circ, e = None, False  # exact synthesis takes too long for a check
    if ver in ("exact", None) and not stored(c, zero, e, ver) and d > 3:
        ver = "heuristic"
    if ver == "naive" and (d > 3 or (c["code"] == "tetrahedral" and zero)):
        ver = "heuristic"  # hardly anything is accepted; three X errors: flagged measurements are documented for two
    if ver != "none" and c["code"] in ("tetrahedral", "hamming", "carbon"):
        c["p"] = min(c["p"], (0.002 if c["serial"] else 0.01) if ver == "naive" else 0.02)  # with more noise hardly anything is accepted
    elif ver == "naive":
        c["p"] = min(c["p"], 0.02 if c["serial"] else 0.05)
    return {**c, "state": state, "circ": circ, "ver": ver}


def as_distance(c):
    return c["d"] or {"surface": 3, "cc_4_8_8": 5, "cc_6_6_6": 5}.get(c["code"], 3)


def stored_file(c, zero, exact, ver):
    """The file of the stored circuit, if there is one (so that nothing has to be searched for)."""
    n = c["code"] if c["code"] != "surface" else f"rotated_surface_d{as_distance(c)}"
    if c["code"].startswith("cc") and as_distance(c) != 5:
        return None
    s = f"{'zero' if zero else 'plus'}_" + (f"non_ft_{'opt' if exact else 'heuristic'}" if ver == "none" else f"ft_{'opt' if exact else 'heuristic'}_{ {'exact': 'opt', None: 'opt'}.get(ver, ver)}")
    f = EVAL / "circuits" / n / f"{s}.qasm"
    return f if f.exists() else None


def stored(c, zero, exact, ver):
    return stored_file(c, zero, exact, ver) is not None


class Slow(BaseException):
    """The script is given up."""


def run_script(argv):
    """-> (text printed, arguments of the simulators constructed, results)."""
    seen = []
    sig = inspect.signature(NoisyNDFTStatePrepSimulator.__init__)
    orig = NoisyNDFTStatePrepSimulator.__init__

    def init(self, *a, **k):
        b = sig.bind(self, *a, **k)
        b.apply_defaults()
        seen.append(dict(b.arguments))
        orig(self, *a, **k)

    out = io.StringIO()
    old = sys.argv

    def alarm(*_):
        raise Slow

    prev = signal.signal(signal.SIGALRM, alarm)
    signal.alarm(100)
    NoisyNDFTStatePrepSimulator.__init__ = init
    try:
        sys.argv = [str(SCRIPT), *argv]
        with contextlib.redirect_stdout(out):
            runpy.run_path(str(SCRIPT), run_name="__main__")
    except Slow:
        return None, seen
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, prev)
        sys.argv = old
        NoisyNDFTStatePrepSimulator.__init__ = orig
    return out.getvalue(), seen


def wrong(code, zero, s, idx):
    """Share of the given (accepted) samples that are decoded to a wrong logical state."""
    if not len(s):
        return 0.0
    syn = s[:, [idx["z" if zero else "x", i] for i in range(len(code.Hz if zero else code.Hx))]].astype(np.int8)
    data = s[:, [idx["d", q] for q in range(code.n)]].astype(int)
    dec = LutDecoder(code)
    uniq, inv = np.unique(syn, axis=0, return_inverse=True)
    est = np.array([dec.decode_x(u) if zero else dec.decode_z(u) for u in uniq])[inv.reshape(-1)]
    L = np.asarray(code.Lz if zero else code.Lx).astype(int)
    return ((data + est) @ L.T % 2).any(axis=1).mean()


def check_script(c):
    r = random.Random(c["seed"])
    opts = [["-p", str(c["p"])] if r.random() < 0.5 else ["--p_error", str(c["p"])]]
    if c["n"] is not None:
        opts.append(["-n" if r.random() < 0.5 else "--n_errors", str(c["n"])])
    if c["d"] is not None:
        opts.append(["-d", str(c["d"])])
    if c["serial"]:
        opts.append(["--no_parallel_gates"])
    opts += [[x] for x in ({"zero": "--zero_state", "plus": "--plus_state"}.get(c["state"]), {"exact": "--exact_circ", "heuristic": "--heuristic_circ"}.get(c["circ"]),
                           {"exact": "--exact_ver", "heuristic": "--heuristic_ver", "naive": "--naive_ver", "none": "--no_ver"}.get(c["ver"])) if x]  # fmt: skip
    r.shuffle(opts)
    argv = [c["code"]] + [x for o in opts for x in o]
    text, seen = run_script(argv)
    if text is None and not seen:
        raise Skip("synthesis takes long")
    code = make_code(c["code"], c["d"])
    zero, ft = c["state"] != "plus", c["ver"] != "none"
    require(len(seen) == 1, lambda: f"{len(seen)} simulations")
    a = seen[0]
    got = a["code"]
    require(got.n == code.n and got.distance == code.distance and np.array_equal(np.asarray(got.Hx) % 2, np.asarray(code.Hx) % 2) and np.array_equal(np.asarray(got.Hz) % 2, np.asarray(code.Hz) % 2), lambda: f"a code with {got.n} qubits and distance {got.distance} is evaluated")
    require(a["p"] == c["p"], lambda: f"simulated with an error rate of {a['p']}")
    require(bool(a["zero_state"]) == zero, "simulated for the wrong state")
    require(bool(a["parallel_gates"]) != c["serial"], "parallel instead of serial gates or vice versa")
    qc = a["state_prep_circ"] if "state_prep_circ" in a else next(v for v in a.values() if isinstance(v, QuantumCircuit))
    heavy = judge(code, qc, zero, ft, "naive" if c["ver"] == "naive" else "script")
    f = stored_file(c, zero, c["circ"] == "exact", c["ver"])
    if f is not None:

        def counts(q):
            return {g: sum(x == g for x, _, _ in prep.ops(q)) for g in ("h", "cx", "measure")}

        want = counts(QuantumCircuit.from_qasm_file(str(f)))
        require(counts(qc) == want, lambda: f"{f.name} is stored for these options ({want}), a circuit with {counts(qc)} is simulated")
    if c["ver"] == "naive" and code.distance > 2:
        o = prep.ops(qc)
        require(sum(g == "measure" for g, _, _ in o) >= 1, "the naive verification measures nothing")
    if c["circ"] == "exact" and not ft:
        cx = sum(g == "cx" for g, _, _ in prep.ops(qc))
        ref = sum(g == "cx" for g, _, _ in prep.ops(heuristic_prep_circuit(code, zero_state=zero).circ))
        require(cx <= ref, lambda: f"the exact circuit uses {cx} CNOTs, a heuristic one {ref}")
    want_n = 500 if c["n"] is None else c["n"]
    # statistics of an independent simulation
    ref, keys = reference(qc, code.n, (np.asarray(code.Hx).astype(int).tolist(), np.asarray(code.Hz).astype(int).tolist()), zero, c["p"], not c["serial"], layered(qc))
    N = 20000
    s = ref.compile_sampler(seed=c["seed"]).sample(N)
    idx = {k: i for i, k in enumerate(keys)}
    ok = ~s[:, [i for k, i in idx.items() if k[0] == "v"]].any(axis=1)
    ca = ok.mean()
    e = wrong(code, zero, s[ok], idx)
    if text is None:
        if ca * e * 300000 < want_n:
            raise Skip("too few errors to be found in the time given")
        raise Violation(f"no result within 100 s, about {want_n / (ca * e):.0f} shots are needed")
    lines = [x for x in text.splitlines() if x.strip()]
    require(len(lines) == 1, lambda: f"printed {text!r}")
    vals = [float(x) for x in lines[0].split(",")]
    require(len(vals) == 4, lambda: f"printed {text!r}")
    pl, ra, num, shots = vals
    require(num >= want_n and shots > 0, lambda: f"stopped after {num} errors, {want_n} asked for")
    acc = round(ra * shots)
    require(acc > 0 and math.isclose(pl, num / acc / code.k, rel_tol=1e-6), lambda: f"printed {lines[0]}: {num} errors in {acc} accepted shots, k = {code.k}")
    if ok.sum() < 20:
        return "hardly anything accepted"
    sd = math.sqrt(max(ca * (1 - ca), 1e-4) * (1 / N + 1 / shots))
    require(abs(ra - ca) <= 7 * sd + 1e-3, lambda: f"acceptance rate {ra}, {ca} expected")
    got = num / acc
    sd = math.sqrt(max(e * (1 - e), 1e-4) * (1 / max(1, ok.sum()) + 1 / acc)) + e / math.sqrt(num)  # the run stops after a number of errors
    require(abs(got - e) <= 7 * sd + 2e-3, lambda: f"logical error rate {got} per accepted shot, {e} expected")
    return f"{c['code']} {c['ver'] or 'default'}" if heavy or not ft else f"{c['code']} harmless"


@st.composite
def gen_bad(draw):
    return {"code": draw(st.sampled_from(["golay", "Steane", "cc_4_8", "cc", "", "bb", "stean", "422"])), "seed": draw(st.integers(0, 10**6))}


def check_bad(c):
    try:
        run_script([c["code"], "-p", "0.1", "-n", "10"])
    except (ValueError, SystemExit):
        return "refused"
    require(False, f"code {c['code']!r} is accepted")
    return None


PROP = Prop(
    "P26",
    [
        Sub("stored circuits", check_stored, cases=stored_cases, shards=(2, 4), timeout=200, rule="every stored circuit; non-trivial: some single fault causes a too heavy error, or the circuit is not meant to be fault tolerant"),
        Sub("stored stim circuits", check_stim, cases=stim_cases, shards=(2, 4), timeout=200, rule="every stored circuit; as above"),
        Sub("script", check_script, strategy=gen, quick=120, thorough=2000, shards=(6, 8), timeout=200, nondet=True, rule="every case: options in any order; circuit, noise and statistics against an independent simulation"),
        Sub("script, larger codes", check_script, strategy=lambda: gen(big=True), quick=0, thorough=40, shards=(0, 6), timeout=800, nondet=True, rule="every case: color codes of distance 3 and 5, surface code of distance 5"),
        Sub("unknown codes", check_bad, strategy=gen_bad, quick=20, thorough=40, rule="every case"),
    ],
    assumptions=["exact synthesis is only asked for where a circuit is stored", "fault tolerance of stored circuits is judged for the errors that spread (X errors for |0>, Z errors for |+>)",
                 "statistical comparisons use 7 standard deviations"],
)
