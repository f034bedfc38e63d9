"""P15: flagged stabilizer measurements measure the stabilizer and flag every dangerous spread of faults."""

import random

import numpy as np
import stim
from hypothesis import strategies as st
from qiskit import AncillaRegister, ClassicalRegister, QuantumCircuit, QuantumRegister

import gf2
import prep
from harness import Prop, Sub, require
from mqt.qecc.ft_stateprep import state_prep as S


def to_stim(o):
    c = stim.Circuit()
    for name, q, _ in o:
        c.append({"h": "H", "cx": "CX", "measure": "M", "reset": "R"}[name], list(q))
    return c


def apply(case):
    """Circuit with the measurements of the case; -> (circuit, [(stab, ancilla, clbit, ops range)])."""
    n = case["n"]
    k = len(case["meas"])
    qc = QuantumCircuit(QuantumRegister(n, "q"), AncillaRegister(k, "anc"), ClassicalRegister(k, "c"))
    spans = []
    for i, m in enumerate(case["meas"]):
        a = len(qc.data)
        stab = m["stab"] if case["form"] == "list" else np.array(m["stab"]) if case["form"] == "array" else [qc.qubits[q] for q in m["stab"]]
        w = len(stab)
        f = {"flag4": S.measure_flagged_4, "flag6": S.measure_flagged_6, "flag8": S.measure_flagged_8, "two": S.measure_stab_two_flagged}.get(m["fn"])
        if f is None or not {"flag4": w == 4, "flag6": w == 6, "flag8": w == 8, "two": w > 4}[m["fn"]]:
            S.measure_flagged(qc, stab, qc.qubits[n + i], qc.clbits[i], m["t"], m["z"])
        else:
            f(qc, stab, qc.qubits[n + i], qc.clbits[i], m["z"])
        spans.append((a, len(qc.data)))
    return qc, spans


@st.composite
def gen(draw):
    k = draw(st.integers(1, 3))
    wmax = draw(st.sampled_from([4, 8, 12, 16]))
    n = draw(st.integers(1, wmax))
    meas = []
    for _ in range(k):
        s = draw(st.permutations(range(n)))[: draw(st.integers(1, n))]
        meas.append({"stab": list(s), "t": draw(st.sampled_from([1, 2])), "z": draw(st.booleans()),
                     "fn": draw(st.sampled_from(["general", "general", "flag4", "flag6", "flag8", "two"]))})  # fmt: skip
    return {"n": n, "meas": meas, "form": draw(st.sampled_from(["list", "array", "qubits"])), "seed": draw(st.integers(0, 2**32))}


def check_function(case):
    """Outcomes on random stabilizer states against an ideal product measurement, flags stay 0, state as projected."""
    qc, _ = apply(case)
    n, k = case["n"], len(case["meas"])
    o = prep.ops(qc)
    require(all(g in ("h", "cx", "measure", "reset") for g, _, _ in o), f"operations {sorted({g for g, _, _ in o})}")
    cl = [c[0] for g, _, c in o if g == "measure"]
    require(len(set(cl)) == len(cl) == qc.num_clbits, "a classical bit is written twice or never")
    r = random.Random(case["seed"])
    for _ in range(3):
        sim = stim.TableauSimulator(seed=r.getrandbits(32))
        prepare = stim.Circuit()
        for _ in range(6 * n):
            prepare.append(r.choice(["H", "S", "X", "Z"]), [r.randrange(n)])
            if n > 1:
                prepare.append("CX", r.sample(range(n), 2))
        # purification: the data are entangled with n reference qubits in half of the runs
        N = qc.num_qubits
        sim.do(stim.Circuit(f"I {N + n - 1}"))
        if r.random() < 0.5:
            for q in range(n):
                sim.h(q)
                sim.cx(q, N + q)
        sim.do(prepare)
        ref = sim.copy()
        bits = [None] * qc.num_clbits
        for g, q, c in o:
            if g == "h":
                sim.h(*q)
            elif g == "cx":
                sim.cx(*q)
            elif g == "reset":
                sim.reset(*q)
            else:
                bits[c[0]] = sim.measure(q[0])
        require(not any(bits[k:]), f"flags {[int(b) for b in bits[k:]]} without any fault")
        for i, m in enumerate(case["meas"]):
            p = stim.PauliString(N + n)
            for q in m["stab"]:
                p[q] = "Z" if m["z"] else "X"
            try:
                ref.postselect_observable(p, desired_value=bits[i])
            except ValueError:
                require(False, f"measurement {i} gives {int(bits[i])}, which has probability zero")
        for q in range(n, N):  # ancillas may be in any state, they are disentangled by a reset
            sim.reset(q)
        require(sim.canonical_stabilizers() == ref.canonical_stabilizers(), "the data are not left in the projected state")
    return f"weights {sorted(len(m['stab']) for m in case['meas'])}"


@st.composite
def gen_ft(draw):
    w = draw(st.integers(1, 16))
    n = w + draw(st.integers(0, 2))
    fn = draw(st.sampled_from(["general", "general", "general", {4: "flag4", 6: "flag6", 8: "flag8"}.get(w, "two")]))
    t = 2 if fn != "general" else draw(st.sampled_from([1, 2]))
    return {"n": n, "meas": [{"stab": list(draw(st.permutations(range(n)))[:w]), "t": t, "z": draw(st.booleans()), "fn": fn}],
            "form": draw(st.sampled_from(["list", "array", "qubits"]))}  # fmt: skip


def check_ft(case):
    """Up to t faults in the gadget without a flag leave an error of weight at most the number of faults (modulo the stabilizer)."""
    qc, _ = apply(case)
    n = case["n"]
    m = case["meas"][0]
    o = prep.ops(qc)
    x, z, fl, desc = prep.faults(o, qc.num_qubits, qc.num_clbits)
    # faults of the type that spreads; the other type on the data stays where it is and is counted as well
    spread, other = (z, x) if m["z"] else (x, z)
    stab = sum(1 << q for q in m["stab"])
    singles = {}
    for e, f, d in zip(prep.pack(spread[:, :n]), prep.pack(fl[:, 1:]), desc):
        singles.setdefault((e, f), d)
    oth = prep.pack(other[:, :n])
    require(all(gf2.wt(v) <= 1 for v in oth), lambda: f"the other error type spreads: {next(d for v, d in zip(oth, desc) if gf2.wt(v) > 1)}")

    def weight(e):
        return min(gf2.wt(e), gf2.wt(e ^ stab))

    for (e, f), d in singles.items():
        require(f or weight(e) <= 1, f"without a flag, {d} leaves the error {gf2.to_list(e, n)}")
    if m["t"] == 2:
        by = {}
        for (e, f), d in singles.items():
            by.setdefault(f, []).append((e, d))
        for es in by.values():
            for i, (a, da) in enumerate(es):
                for b, db in es[i + 1 :]:
                    require(weight(a ^ b) <= 2, lambda: f"without a flag, {da} and {db} leave the error {gf2.to_list(a ^ b, n)}")
    return f"w={len(m['stab'])}, t={m['t']}" if len(m["stab"]) > 3 else None


def cases_unsupported(tier):
    for w in range(2, 10):
        for t in (3, 4, 7):
            for z in (True, False):
                yield {"w": w, "t": t, "z": z}


def check_unsupported(case):
    """More faults than supported: refused, or (if it is ever supported) the measurement still has to be right."""
    w = case["w"]
    c = {"n": w, "meas": [{"stab": list(range(w)), "t": case["t"], "z": case["z"], "fn": "general"}], "form": "list", "seed": 1}
    try:
        apply(c)
    except NotImplementedError:
        return "refused"
    check_function(c)
    check_ft({**c, "meas": [{**c["meas"][0], "t": 2}]})
    return "supported"


PROP = Prop(
    "P15",
    [
        Sub("function", check_function, strategy=gen, quick=800, thorough=20000, shards=(2, 8),
            rule="every case: one to three measurements on random stabilizer states, also entangled with references"),
        Sub("fault tolerance", check_ft, strategy=gen_ft, quick=500, thorough=6000, shards=(4, 8),
            rule="non-trivial: weight above three; every single fault and for t = 2 every pair of faults is enumerated"),
        Sub("unsupported", check_unsupported, cases=cases_unsupported, rule="every case"),
    ],
    assumptions=["circuit-level faults: any Pauli after a gate, wrong preparation, flipped measurement"],
)
