"""Independent execution of OpenQASM circuits (the output of the ECC framework) on stabilizer or dense states.

Neither Aer nor the repository takes part: the circuit text is parsed here and executed on stim's tableau simulator or on
a dense numpy state.  Measurement outcomes of random results come from a given random generator.
"""

from __future__ import annotations

import re

import numpy as np
import stim

TOK = re.compile(r"(\w+)\[(\d+)\]")


class QasmError(Exception):
    """The emitted text is not a circuit in the supported OpenQASM 2 subset."""


class Circ:
    def __init__(self, nq, nc, ops, qregs, cregs):
        self.nq, self.nc, self.ops, self.qregs, self.cregs = nq, nc, ops, qregs, cregs


GATES1 = {"x", "y", "z", "h", "s", "sdg", "t", "tdg", "id"}


def parse(text: str) -> Circ:
    qregs: dict[str, tuple[int, int]] = {}
    cregs: dict[str, tuple[int, int]] = {}
    nq = nc = 0
    ops = []
    text = re.sub(r"//[^\n]*", "", text)
    stmts = [s.strip() for s in text.replace("\n", " ").split(";")]
    if not stmts or not stmts[0].startswith("OPENQASM 2.0"):
        raise QasmError("missing OPENQASM 2.0 header")
    for st in stmts[1:]:
        if not st or st.startswith("include"):
            continue
        m = re.fullmatch(r"(qreg|creg)\s+(\w+)\[(\d+)\]", st)
        if m:
            size = int(m[3])
            if m[2] in qregs or m[2] in cregs:
                raise QasmError(f"register {m[2]} declared twice")
            if m[1] == "qreg":
                qregs[m[2]] = (nq, size)
                nq += size
            else:
                cregs[m[2]] = (nc, size)
                nc += size
            continue
        cond = None
        m = re.match(r"if\s*\(\s*(\w+)\s*==\s*(\d+)\s*\)\s*", st)
        if m:
            if m[1] not in cregs:
                raise QasmError(f"condition on unknown register: {st}")
            cond = (*cregs[m[1]], int(m[2]))
            st = st[m.end() :]
        name = st.split()[0] if st.split() else ""
        rest = st[len(name) :]

        def qs(s):
            out = []
            for part in [p.strip() for p in s.split(",")]:
                mm = TOK.fullmatch(part)
                if mm:
                    if mm[1] not in qregs or int(mm[2]) >= qregs[mm[1]][1]:
                        raise QasmError(f"qubit {part} not declared")
                    out.append(qregs[mm[1]][0] + int(mm[2]))
                elif part in qregs:
                    out.extend(range(qregs[part][0], qregs[part][0] + qregs[part][1]))
                else:
                    raise QasmError(f"operand {part!r} in {st!r}")
            return out

        if name == "barrier":
            continue
        if name == "measure":
            a, b = rest.split("->")
            a, b = a.strip(), b.strip()
            if TOK.fullmatch(b):
                mm = TOK.fullmatch(b)
                if mm[1] not in cregs or int(mm[2]) >= cregs[mm[1]][1]:
                    raise QasmError(f"classical bit {b} not declared")
                cb = [cregs[mm[1]][0] + int(mm[2])]
            elif b in cregs:
                cb = list(range(cregs[b][0], cregs[b][0] + cregs[b][1]))
            else:
                raise QasmError(f"classical operand {b!r}")
            qb = qs(a)
            if len(qb) != len(cb):
                raise QasmError(f"size mismatch in {st!r}")
            for q, c in zip(qb, cb):
                ops.append(("measure", (q,), c, cond))
            continue
        targets = tuple(qs(rest))
        if len(set(targets)) != len(targets) and name not in ("reset",):
            raise QasmError(f"repeated operand in {st!r}")
        if name == "reset" or name in GATES1:
            for q in targets:
                ops.append((name, (q,), None, cond))
            continue
        if name in ("cx", "cy", "cz", "swap", "ccx", "ch"):
            if len(targets) != (3 if name == "ccx" else 2):
                raise QasmError(f"wrong number of operands: {st!r}")
            ops.append((name, targets, None, cond))
            continue
        mm = re.fullmatch(r"c{3,}([xyz])", name) or re.fullmatch(r"cc([yz])", name)
        if mm and len(targets) == len(name):
            ops.append((name, targets, None, cond))
            continue
        raise QasmError(f"unsupported statement {st!r}")
    return Circ(nq, nc, ops, qregs, cregs)


class NotStabilizer(Exception):
    pass


class StabState:
    def __init__(self, n, rng):
        self.s = stim.TableauSimulator(seed=int(rng.integers(2**31)))
        self.s.set_num_qubits(n)

    def gate(self, name, t):
        s = self.s
        if name == "id":
            return
        if name == "ccx":
            a, b, c = t
            for u, v in ((a, b), (b, a)):
                p = s.peek_z(u)
                if p == 1:
                    return
                if p == -1:
                    s.cx(v, c)
                    return
            # controls may be perfectly (anti-)correlated
            pa = stim.PauliString(s.num_qubits)
            pa[a] = pa[b] = "Z"
            e = s.peek_observable_expectation(pa)
            if e == -1:
                return
            if e == 1:
                s.cx(a, c)
                return
            raise NotStabilizer
        if name in ("t", "tdg") or name.startswith("cc"):
            raise NotStabilizer
        if name == "sdg":
            s.s_dag(*t)
            return
        getattr(s, name)(*t)

    def prob1(self, q):
        return {1: 0.0, -1: 1.0, 0: 0.5}[self.s.peek_z(q)]

    def measure(self, q):
        return int(self.s.measure(q))

    def reset(self, q):
        self.s.reset(q)

    def pauli(self, p, q):
        getattr(self.s, p.lower())(q)


_S2 = 1 / np.sqrt(2)
MAT = {
    "x": np.array([[0, 1], [1, 0]], complex),
    "y": np.array([[0, -1j], [1j, 0]]),
    "z": np.diag([1, -1]).astype(complex),
    "h": np.array([[_S2, _S2], [_S2, -_S2]], complex),
    "s": np.diag([1, 1j]),
    "sdg": np.diag([1, -1j]),
    "t": np.diag([1, np.exp(1j * np.pi / 4)]),
    "tdg": np.diag([1, np.exp(-1j * np.pi / 4)]),
}


class DenseState:
    def __init__(self, n, rng):
        self.n, self.rng = n, rng
        self.v = np.zeros((2,) * n, complex)
        self.v[(0,) * n] = 1

    def _apply(self, m, q, ctrl=()):
        idx = [slice(None)] * self.n
        for c in ctrl:
            idx[c] = 1
        i0, i1 = list(idx), list(idx)
        i0[q], i1[q] = 0, 1
        i0, i1 = tuple(i0), tuple(i1)
        a, b = self.v[i0].copy(), self.v[i1].copy()
        self.v[i0] = m[0, 0] * a + m[0, 1] * b
        self.v[i1] = m[1, 0] * a + m[1, 1] * b

    def gate(self, name, t):
        if name == "id":
            return
        if name == "swap":
            self.v = np.swapaxes(self.v, t[0], t[1]).copy()
        elif name.startswith("cc"):
            self._apply(MAT[name[-1]], t[-1], t[:-1])
        elif name in ("cx", "cy", "cz", "ch"):
            self._apply(MAT[name[1:]], t[1], t[:1])
        else:
            self._apply(MAT[name], t[0])

    def prob1(self, q):
        idx = [slice(None)] * self.n
        idx[q] = 1
        return float(np.sum(np.abs(self.v[tuple(idx)]) ** 2))

    def _project(self, q, o):
        idx = [slice(None)] * self.n
        idx[q] = 1 - o
        self.v[tuple(idx)] = 0
        self.v /= np.sqrt(np.sum(np.abs(self.v) ** 2))

    def measure(self, q):
        p = self.prob1(q)
        o = 1 if p > 1 - 1e-9 else 0 if p < 1e-9 else int(self.rng.random() < p)
        self._project(q, o)
        return o

    def reset(self, q):
        if self.measure(q):
            self.gate("x", (q,))

    def pauli(self, p, q):
        self.gate(p.lower(), (q,))


class TooLarge(Exception):
    pass


class SparseState:
    """Amplitudes of the basis states that have any (as integers, qubit q is bit q)."""

    LIMIT = 1 << 16

    def __init__(self, n, rng):
        assert n < 63
        self.n, self.rng = n, rng
        self.k, self.a = np.zeros(1, np.int64), np.ones(1, complex)

    def _apply(self, m, q, ctrl=()):
        on = np.ones(len(self.k), bool)
        for c in ctrl:
            on &= (self.k >> c & 1).astype(bool)
        k, a = self.k[on], self.a[on]
        b = k >> q & 1
        ks = [self.k[~on], k & ~(1 << q), k | (1 << q)]
        ks, inv = np.unique(np.concatenate(ks), return_inverse=True)
        al = np.concatenate([self.a[~on], m[0, b] * a, m[1, b] * a])
        amp = np.bincount(inv, al.real, len(ks)) + 1j * np.bincount(inv, al.imag, len(ks))
        keep = np.abs(amp) > 1e-9
        self.k, self.a = ks[keep], amp[keep]
        if len(self.k) > self.LIMIT:
            raise TooLarge

    def gate(self, name, t):
        if name == "id":
            return
        if name == "swap":
            for a, b in ((0, 1), (1, 0), (0, 1)):
                self._apply(MAT["x"], t[b], (t[a],))
        elif name.startswith("cc"):
            self._apply(MAT[name[-1]], t[-1], t[:-1])
        elif name in ("cx", "cy", "cz", "ch"):
            self._apply(MAT[name[1:]], t[1], t[:1])
        else:
            self._apply(MAT[name], t[0])

    def prob1(self, q):
        return float(np.sum(np.abs(self.a[(self.k >> q & 1) == 1]) ** 2))

    def measure(self, q):
        p = self.prob1(q)
        o = 1 if p > 1 - 1e-9 else 0 if p < 1e-9 else int(self.rng.random() < p)
        keep = (self.k >> q & 1) == o
        self.k, self.a = self.k[keep], self.a[keep] / np.sqrt(np.sum(np.abs(self.a[keep]) ** 2))
        return o

    def reset(self, q):
        if self.measure(q):
            self.gate("x", (q,))

    def pauli(self, p, q):
        self.gate(p.lower(), (q,))


def run(c: Circ, rng, dense=False, inject=None, sparse=False):
    """Execute; inject maps an operation index to a list of (pauli, qubit) applied just before it."""
    st = (SparseState if sparse else DenseState if dense else StabState)(c.nq, rng)
    bits = [0] * c.nc
    for i, (name, t, cb, cond) in enumerate(c.ops):
        if inject and i in inject:
            for p, q in inject[i]:
                st.pauli(p, q)
        if cond is not None:
            start, size, val = cond
            if sum(bits[start + j] << j for j in range(size)) != val:
                continue
        if name == "measure":
            bits[cb] = st.measure(t[0])
        elif name == "reset":
            st.reset(t[0])
        else:
            st.gate(name, t)
    return bits, st


def ideal_probs(n, gates, qubits):
    """P(outcome on the given qubits) of a unitary circuit [(name, targets)] on |0..0>, and the dense state."""
    st = DenseState(n, None)
    for name, t in gates:
        st.gate(name, tuple(t))
    p = np.abs(st.v) ** 2
    return p, st
