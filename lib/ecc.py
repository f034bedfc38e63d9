"""Shared pieces of the checks on the circuit-level error-correcting codes (P06-P08)."""

from __future__ import annotations

from hypothesis import strategies as st

import eccsim
from harness import Skip, Violation, require

SUP = {
    "Id": ["x", "y", "z", "h", "s", "sdg", "t", "tdg", "cx", "cy", "cz"],
    "Q3Shor": ["x", "y", "z", "s", "sdg", "t", "tdg", "cx", "cy", "cz", "ccx"],
    "Q5Laflamme": ["x", "y", "z"],
    "Q7Steane": ["x", "y", "z", "h", "s", "sdg", "t", "tdg", "cx", "cy", "cz"],
    "Q9Shor": ["x", "y", "z", "cx", "cy", "cz"],
    "Q9Surface": ["x", "y", "z", "h"],
    "Q18Surface": ["x", "y", "z", "h"],
}
RED = {"Id": 1, "Q3Shor": 3, "Q5Laflamme": 5, "Q7Steane": 7, "Q9Shor": 9, "Q9Surface": 9, "Q18Surface": 36}
ANC = {"Id": 0, "Q3Shor": 2, "Q5Laflamme": 4, "Q7Steane": 3, "Q9Shor": 8, "Q9Surface": 8, "Q18Surface": 0}
INV = {"s": "sdg", "sdg": "s", "t": "tdg", "tdg": "t"}
TWO = {"cx", "cy", "cz"}


def circuit(n, ncl, ops, qregs=None, cregs=None):
    """ops: [name, [qubits], [clbits]?]; qregs/cregs: [(name, size)]."""
    from qiskit import ClassicalRegister, QuantumCircuit, QuantumRegister

    if qregs is None and cregs is None:
        qc = QuantumCircuit(n, ncl)
    else:
        qc = QuantumCircuit(*[QuantumRegister(s, m) for m, s in qregs], *[ClassicalRegister(s, m) for m, s in cregs])
    for o in ops:
        if o[0] == "measure":
            qc.measure(o[1], o[2])
        elif o[0] == "barrier":
            qc.barrier(*([o[1]] if o[1] else []))
        else:
            getattr(qc, o[0])(*o[1])
    return qc


def apply(qc, code, freq, rejectable=False):
    from mqt.qecc import apply_ecc

    try:
        r = apply_ecc(qc, code, freq)
    except ValueError as e:
        if rejectable:
            raise
        raise Violation(f"a circuit of supported operations is rejected: {e}") from e
    except Exception as e:  # noqa: BLE001
        raise Violation(f"apply_ecc raised {type(e).__name__}: {e}") from e
    try:
        return eccsim.parse(r["circ"]), r
    except eccsim.QasmError as e:
        raise Violation(f"the encoded circuit is not a valid circuit: {e}") from e


def follow(n, ncl, ops, bits, start=0):
    """Replay the original circuit ideally and check that the observed classical bits are possible.

    A bit written by several measurements shows only the last one, so earlier ones may take either value: all branches
    are followed.  -> number of measurement results that were certain."""
    last = {}
    for i, o in enumerate(ops):
        if o[0] == "measure":
            for q, cb in zip(o[1], o[2]):
                last[cb] = (i, q)
    branches = [eccsim.DenseState(n, None)]
    certain = 0
    for i, o in enumerate(ops):
        if o[0] == "measure":
            for q, cb in zip(o[1], o[2]):
                new = []
                det = True
                for b in branches:
                    p = b.prob1(q)
                    det &= p < 1e-9 or p > 1 - 1e-9
                    for val in (0, 1):
                        if (p if val else 1 - p) < 1e-9 or (last[cb] == (i, q) and bits[start + cb] != val):
                            continue
                        c = eccsim.DenseState(n, None)
                        c.v = b.v.copy()
                        c._project(q, val)
                        new.append(c)
                require(new, f"classical bits {bits[start:start + ncl]} cannot come from the original circuit"
                        f" (measurement of qubit {q} into bit {cb})")
                branches = new[:16]
                certain += det
        elif o[0] != "barrier":
            for b in branches:
                b.gate(o[0], tuple(o[1]))
    for cb in range(ncl):
        if cb not in last:
            require(bits[start + cb] == 0, f"classical bit {cb} is never written by the original circuit but ends as 1")
    return certain


def st_gates(code, n, max_len, no=()):
    gs = [g for g in SUP[code] if g not in no and (n > 1 or g not in TWO) and (n > 2 or g != "ccx")]

    @st.composite
    def one(draw):
        g = draw(st.sampled_from(gs))
        if g == "ccx":
            return [g, list(draw(st.permutations(range(n))))[:3]]
        if g in TWO:
            a = draw(st.integers(0, n - 1))
            b = draw(st.integers(0, n - 2))
            return [g, [a, b + (b >= a)]]
        return [g, [draw(st.integers(0, n - 1))]]

    return st.lists(one(), max_size=max_len)


def inverse(ops):
    return [[INV.get(o[0], o[0]), o[1]] for o in reversed(ops)]
