"""P08: encoding keeps the registers of the circuit, and what cannot be encoded is rejected.

CPP = True
"""

CPP = True

import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import ecc
import eccsim
from harness import Prop, Skip, Sub, Violation, case_seed, require

CODES = sorted(ecc.SUP)
NAMES = ["a", "b", "q", "c", "d", "m0", "reg", "meas", "z9", "qecc", "qeccX", "qeccZ", "qeccX1", "encode", "q_", "c_"]
TAKEN = ("qecc", "encode", "decode")


@st.composite
def gen_regs(draw):
    code = draw(st.sampled_from(CODES))
    names = list(draw(st.permutations(NAMES)))
    nq, nc = draw(st.integers(1, 2)), draw(st.integers(1, 3))
    qregs = [[names.pop(), draw(st.integers(1, 2 if code != "Q18Surface" else 1))] for _ in range(nq)]
    cregs = [[names.pop(), draw(st.integers(1, 3))] for _ in range(nc)]
    n, ncl = sum(s for _, s in qregs), sum(s for _, s in cregs)
    ops = draw(ecc.st_gates(code, n, 4, ("t", "tdg", "h", "s", "sdg")))
    bits = list(draw(st.permutations(range(ncl))))
    qs = list(draw(st.permutations(range(n))))[: draw(st.integers(0, min(n, ncl)))]
    for q in qs:
        ops = [*ops, ["measure", [q], [bits.pop()]]]
    return {"code": code, "qregs": qregs, "cregs": cregs, "ops": ops, "freq": draw(st.sampled_from([0, 1, 3])), "file": draw(st.booleans())}


def check_regs(case):
    code, ops, freq = case["code"], case["ops"], case["freq"]
    n, ncl = sum(s for _, s in case["qregs"]), sum(s for _, s in case["cregs"])
    qc = ecc.circuit(n, ncl, ops, case["qregs"], case["cregs"])
    before = [(i.operation.name, [qc.find_bit(x).index for x in i.qubits]) for i in qc.data]
    clash = any(s.startswith(TAKEN) for s, _ in case["cregs"])
    try:
        c, r = ecc.apply(qc, code, freq, rejectable=clash)
    except ValueError:
        return f"{code}: register name rejected"
    require(before == [(i.operation.name, [qc.find_bit(x).index for x in i.qubits]) for i in qc.data], "the circuit was changed")
    pos = 0
    got = list(c.cregs.items())
    for i, (s, size) in enumerate(case["cregs"]):
        require(i < len(got) and got[i] == (s, (pos, size)), f"classical registers {got} do not start with {case['cregs']}")
        pos += size
    red, anc = ecc.RED[code], ecc.ANC[code]
    require(c.nq == n * red + anc, f"{c.nq} qubits, expected {n * red + anc}")
    bits, _ = eccsim.run(c, np.random.default_rng(case_seed(case)))
    ecc.follow(n, ncl, ops, bits)
    if case["file"]:
        from qiskit import qasm2

        with tempfile.TemporaryDirectory() as d:
            Path(d, "c.qasm").write_text(qasm2.dumps(qc))
            try:
                c2, _ = ecc.apply(d + "/c.qasm", code, freq, rejectable=clash)
            except ValueError:
                raise Violation("the file is rejected but the circuit is not") from None
        require(c2.ops == c.ops and c2.cregs == c.cregs and c2.nq == c.nq, "the encoded circuit depends on how it is handed over")
    return f"{code}, {len(case['cregs'])} registers" if any(o[0] == "measure" for o in ops) and len(ops) > 1 else None


# ------------------------------------------------------------------------- files with statements on whole registers
@st.composite
def gen_text(draw):
    code = draw(st.sampled_from(CODES))
    size = draw(st.integers(1, 3 if code != "Q18Surface" else 2))
    names = list(draw(st.permutations(["a", "b", "q", "c", "m0", "z9"])))
    nq = draw(st.integers(1, 2 if size < 3 else 1))
    qregs = [[names.pop(), size] for _ in range(nq)]
    cregs = [[names.pop(), size] for _ in range(draw(st.integers(1, 2)))]
    ops = []
    gates = [g for g in ecc.SUP[code] if g not in ("t", "tdg", "h", "s", "sdg", "cx", "cy", "cz", "ccx")]
    for _ in range(draw(st.integers(0, 5))):
        reg = draw(st.integers(0, nq - 1))
        ops.append([draw(st.sampled_from(gates)), reg, draw(st.one_of(st.integers(0, size - 1), st.integers(0, size - 1), st.integers(0, size - 1), st.just(-1)))])
    order = list(draw(st.permutations(range(len(cregs)))))
    meas = []
    for c, reg in zip(order, draw(st.permutations(range(nq)))):
        meas.append([reg, c, draw(st.sampled_from([-1, -1, -1, 0]))])
    return {"code": code, "qregs": qregs, "cregs": cregs, "ops": ops, "meas": meas, "freq": draw(st.sampled_from([0, 0, 1, 2])),
            "barrier": draw(st.booleans())}  # fmt: skip


def check_text(case):
    """Measurements of whole registers are accepted and give every bit its qubit; gates on whole registers may be rejected."""
    from mqt.qecc import apply_ecc

    code, qr, cr = case["code"], case["qregs"], case["cregs"]
    size = qr[0][1]
    n, ncl = size * len(qr), size * len(cr)
    lines = ["OPENQASM 2.0;", 'include "qelib1.inc";', *(f"qreg {s}[{m}];" for s, m in qr), *(f"creg {s}[{m}];" for s, m in cr)]
    ideal = [0] * n
    whole = False
    for g, r, i in case["ops"]:
        lines.append(f"{g} {qr[r][0]}{'' if i < 0 else f'[{i}]'};")
        whole |= i < 0 and size > 1
        for j in range(size) if i < 0 else [i]:
            ideal[r * size + j] ^= g in "xy"
    if case["barrier"]:
        lines.append(f"barrier {qr[0][0]};")
    want = [0] * ncl
    for r, c, i in case["meas"]:
        suf = "" if i < 0 else f"[{i}]"
        lines.append(f"measure {qr[r][0]}{suf} -> {cr[c][0]}{suf};")
        for j in range(size) if i < 0 else [i]:
            want[c * size + j] = ideal[r * size + j]
    with tempfile.TemporaryDirectory() as d:
        Path(d, "c.qasm").write_text("\n".join(lines) + "\n")
        try:
            r = apply_ecc(d + "/c.qasm", code, case["freq"])
        except ValueError as e:
            require(whole, f"the file {lines} is rejected: {e}")
            return "gate on a whole register rejected"
    try:
        c = eccsim.parse(r["circ"])
    except eccsim.QasmError as e:
        raise Violation(f"the encoded circuit is not a valid circuit: {e}") from e
    bits, _ = eccsim.run(c, np.random.default_rng(case_seed(case)))
    require(list(bits[:ncl]) == want, f"classical bits {bits[:ncl]}, expected {want} for {lines}")
    return f"{code}, {'whole registers' if any(m[2] < 0 for m in case['meas']) else 'single bits'}" if any(want) else None


# ------------------------------------------------------------------------- operations a code may not support
EXTRA = {"h": 1, "swap": 2, "ccx": 3, "ccz": 3, "ch": 2, "cs": 2, "csdg": 2, "sx": 1, "rx": 1, "p": 1, "cp": 2, "iswap": 2, "reset": 1,
         "id": 1, "cx0": 2, "cz0": 2, "ct": 2, "ccy": 3, "ccx0": 3, "cif": 1, "u": 1, "cswap": 3, "c3x": 4,
         "x": 1, "y": 1, "z": 1, "s": 1, "sdg": 1, "t": 1, "tdg": 1, "cx": 2, "cy": 2, "cz": 2, "rz": 1, "ry": 1, "crz": 2, "sxdg": 1,
         "csx": 2, "rzz": 2, "dcx": 2, "c3z": 4, "cy0": 2, "cs0": 2}  # fmt: skip


@st.composite
def gen_any(draw):
    code = draw(st.sampled_from(CODES))
    n = draw(st.integers(1, 4 if code != "Q18Surface" else 2))
    pre = draw(ecc.st_gates(code, n, 4, ("t", "tdg")))
    post = draw(ecc.st_gates(code, n, 2, ("t", "tdg")))
    kinds = [k for k, v in EXTRA.items() if v <= n]
    known = [k for k in kinds if k in ecc.SUP["Id"] and k not in ecc.SUP[code]]  # supported by other codes
    e = draw(st.sampled_from(known if known and draw(st.booleans()) else kinds))
    extra = [e, list(draw(st.permutations(range(n))))[: EXTRA[e]]]
    fill = [["x", [q]] for q in range(n) if draw(st.booleans())] if "x" in ecc.SUP[code] else []
    return {"code": code, "n": n, "ops": [*fill, *pre, extra, *post], "extra": e, "freq": draw(st.sampled_from([0, 0, 1, 2]))}


def make_gate(name):
    from qiskit.circuit import library as L

    g = {"h": L.HGate, "swap": L.SwapGate, "ccx": L.CCXGate, "ccz": L.CCZGate, "ch": L.CHGate, "cs": L.CSGate, "csdg": L.CSdgGate,
         "sx": L.SXGate, "iswap": L.iSwapGate, "id": L.IGate, "cswap": L.CSwapGate, "c3x": L.C3XGate, "x": L.XGate, "y": L.YGate,
         "z": L.ZGate, "s": L.SGate, "sdg": L.SdgGate, "t": L.TGate, "tdg": L.TdgGate, "cx": L.CXGate, "cy": L.CYGate,
         "cz": L.CZGate}.get(name)  # fmt: skip
    if g:
        return g()
    return {"rx": lambda: L.RXGate(0.3), "p": lambda: L.PhaseGate(0.7), "cp": lambda: L.CPhaseGate(0.7), "cx0": lambda: L.CXGate(ctrl_state=0),
            "cz0": lambda: L.CZGate(ctrl_state=0), "ct": lambda: L.TGate().control(1), "ccy": lambda: L.YGate().control(2),
            "ccx0": lambda: L.CCXGate(ctrl_state=1), "rz": lambda: L.RZGate(0.6), "ry": lambda: L.RYGate(0.5), "crz": lambda: L.CRZGate(0.5), "sxdg": L.SXdgGate,
            "csx": L.CSXGate, "rzz": lambda: L.RZZGate(0.4), "dcx": L.DCXGate, "c3z": lambda: L.ZGate().control(3), "cy0": lambda: L.CYGate(ctrl_state=0), "cs0": lambda: L.SGate().control(1, ctrl_state=0), "u": lambda: L.UGate(0.4, 0.2, 0.9)}[name]()  # fmt: skip


def check_any(case):
    from qiskit import QuantumCircuit

    code, n, ops, freq = case["code"], case["n"], case["ops"], case["freq"]
    if code == "Q18Surface" and freq and any(o[0] == "h" for o in ops):
        raise Skip("Q18Surface with Hadamard and periodic correction (listed finding)")
    qc = QuantumCircuit(n, n)
    for name, t in ops:
        if name == "reset":
            qc.reset(t[0])
        elif name == "cif":
            qc.x(t[0]).c_if(0, 1)
        else:
            qc.append(make_gate(name), t)
    qc.measure(range(n), range(n))
    e = case.get("extra") or next(o[0] for o in ops if o[0] in EXTRA)
    from mqt.qecc import apply_ecc

    try:
        text = apply_ecc(qc, code, freq)["circ"]
    except ValueError:
        return f"{e}: rejected"
    except Exception as x:  # noqa: BLE001
        raise Violation(f"{code}: {e}: apply_ecc raised {type(x).__name__}: {x}") from x
    if "cif" in [o[0] for o in ops]:
        raise Violation("a classically controlled operation is accepted, although its condition cannot be kept")
    try:
        c = eccsim.parse(text)
    except eccsim.QasmError as x:
        if code == "Id":
            raise Skip("operation outside the simulated set (identity code)") from None
        raise Violation(f"{code}: {e}: {x}") from None
    rng = np.random.default_rng(case_seed(case))
    dense = any(o[0] in ("t", "tdg", "ch") or o[0].startswith("cc") for o in c.ops)
    try:
        if dense and c.nq > 14:
            raise eccsim.NotStabilizer
        bits, _ = eccsim.run(c, rng, dense=dense)
    except eccsim.NotStabilizer:
        try:
            bits, _ = eccsim.run(c, rng, sparse=True)
        except eccsim.TooLarge:
            raise Skip("superposition of too many basis states") from None
    # ideal execution with qiskit's own definition of every gate
    v = np.zeros((2,) * n, complex)
    v[(0,) * n] = 1
    for name, t in ops:
        if name == "reset":
            raise Skip("reset accepted")
        m = make_gate(name).to_matrix().reshape((2,) * (2 * len(t)))
        k = len(t)
        ax = list(reversed(t))  # qiskit: the first operand is the least significant bit
        v = np.moveaxis(np.tensordot(m, v, axes=(list(range(k, 2 * k)), ax)), list(range(k)), ax)
    p = abs(v[tuple(bits[:n])]) ** 2
    require(p > 1e-9, f"{code} accepts {e} but produces the impossible outcome {bits[:n]}")
    return f"{e}: encoded"


@st.composite
def gen_args(draw):
    return {"code": draw(st.text(alphabet="QShorSteane3579LaflmSurfcId ", max_size=10)), "n": draw(st.integers(1, 2)), "freq": draw(st.integers(0, 3))}


def check_args(case):
    from qiskit import QuantumCircuit

    qc = QuantumCircuit(case["n"], case["n"])
    qc.x(0)
    qc.measure(0, 0)
    try:
        ecc.apply(qc, case["code"], case["freq"], rejectable=True)
    except ValueError:
        require(case["code"] not in ecc.SUP, "a known code is rejected")
        return "unknown code rejected"
    require(case["code"] in ecc.SUP, f"unknown code {case['code']!r} is accepted")
    return "known code"


PROP = Prop(
    "P08",
    [
        Sub("registers", check_regs, strategy=gen_regs, quick=2500, thorough=30000, shards=(3, 8),
            rule="non-trivial: at least one gate and one measurement, or a register name that clashes with a code's own registers"),
        Sub("files", check_text, strategy=gen_text, quick=1000, thorough=10000, shards=(3, 8),
            rule="non-trivial: some bit has to be 1, or a gate on a whole register was rejected"),
        Sub("any operation", check_any, strategy=gen_any, quick=2500, thorough=40000, shards=(4, 8),
            rule="non-trivial: the circuit was rejected, or accepted and its outcome compared to the ideal one"),
        Sub("code names", check_args, strategy=gen_args, quick=200, thorough=2000, shards=(1, 1), rule="every case"),
    ],
    cpp=True,
    assumptions=["register names of the codes themselves (qecc*, encode) may be refused for classical registers of the circuit"],
)
