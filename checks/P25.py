"""P25: the command-line wrapper encodes, exports and simulates what it is asked to, with the noise it is asked for.

CPP = True
"""

CPP = True

import contextlib
import io
import os
import re
import sys
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import ecc
import eccsim
from harness import Prop, Skip, Sub, Violation, case_seed, require

# ------------------------------------------------------------------------------------------------------ noise model
PAULI = {"I": np.eye(2), "X": np.array([[0, 1], [1, 0]]), "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}
ONE = ["u1", "u2", "u3", "h", "id", "t", "tdg", "sdg", "rx", "ry", "rz", "s"]
NOISY = {**{g: 1 for g in ONE}, "cx": 2, "swap": 2, "cswap": 3}


def kraus(letter, p):
    if letter == "B":
        return [np.sqrt(1 - p) * PAULI["I"], np.sqrt(p) * PAULI["X"]]
    if letter == "P":
        return [np.sqrt(1 - p) * PAULI["I"], np.sqrt(p) * PAULI["Z"]]
    if letter == "D":
        return [np.sqrt(1 - 3 * p / 4) * PAULI["I"], *(np.sqrt(p / 4) * PAULI[x] for x in "XYZ")]
    return [np.array([[1, 0], [0, np.sqrt(1 - p)]]), np.array([[0, np.sqrt(p)], [0, 0]])]


def channel(rho, n, q, letters, p):
    """The channels one after the other on qubit q (qubit 0 is the least significant)."""
    r = rho.reshape((2,) * (2 * n))
    for c in letters:
        new = 0
        for k in kraus(c, p):
            a = n - 1 - q
            x = np.moveaxis(np.tensordot(k, r, axes=([1], [a])), 0, a)
            x = np.moveaxis(np.tensordot(k.conj(), x, axes=([1], [n + a])), 0, n + a)
            new = new + x
        r = new
    return r.reshape(2**n, 2**n)


def terms(letters):
    """Number of terms the error of one qubit has (the wrapper also builds the one of three qubits)."""
    k = 1
    for c in letters:
        k *= {"D": 4, "B": 2, "P": 2}.get(c, 1)
    return k


@st.composite
def gen_noise(draw):
    g = draw(st.sampled_from(sorted(NOISY)))
    n = draw(st.integers(NOISY[g], 3))
    certain = g == "cswap"
    return {"letters": "".join(draw(st.lists(st.sampled_from("BAP" if certain else "BDAP"), min_size=1, max_size=4).filter(lambda x: terms("".join(x)) <= 8))),
            "p": draw(st.sampled_from([0.0, 1.0, 1.0] if certain else [0.0, 1e-3, 0.1, 0.37, 0.5, 1.0])),
            "gate": g, "n": n, "qubits": list(draw(st.permutations(range(n))))[: NOISY[g]], "par": [draw(st.floats(-3, 3)) for _ in range(3)],
            "twice": draw(st.booleans()), "seed": draw(st.integers(0, 2**32))}  # fmt: skip


def check_noise(case):
    from qiskit import QuantumCircuit
    from qiskit.circuit import library as L
    from qiskit.quantum_info import DensityMatrix, Operator
    from qiskit_aer import AerSimulator

    from mqt.qecc.ecc_qiskit_wrapper import create_noise_model

    n, qs, p = case["n"], case["qubits"], case["p"]
    npar = {"u1": 1, "u2": 2, "u3": 3, "rx": 1, "ry": 1, "rz": 1}.get(case["gate"], 0)
    cls = {"u1": L.U1Gate, "u2": L.U2Gate, "u3": L.U3Gate, "h": L.HGate, "id": L.IGate, "t": L.TGate, "tdg": L.TdgGate, "sdg": L.SdgGate, "rx": L.RXGate,
           "ry": L.RYGate, "rz": L.RZGate, "s": L.SGate, "cx": L.CXGate, "swap": L.SwapGate, "cswap": L.CSwapGate}[case["gate"]]  # fmt: skip
    gate = cls(*case["par"][:npar])
    r = np.random.default_rng(case["seed"])
    a = r.normal(size=(2**n, 2**n)) + 1j * r.normal(size=(2**n, 2**n))
    rho = a @ a.conj().T
    rho /= np.trace(rho)
    try:
        model = create_noise_model(case["letters"], p)
    except Exception as e:  # noqa: BLE001
        raise Violation(f"create_noise_model raised {type(e).__name__}: {e}") from e
    method = "density_matrix"
    if case["gate"] == "cswap":  # not available on density matrices: certain errors on a basis state only
        method = "statevector"
        if p not in (0.0, 1.0) or "D" in case["letters"]:
            raise Skip("uncertain errors after cswap")
        rho = np.zeros((2**n, 2**n))
        rho[(i := case["seed"] % 2**n), i] = 1
    qc = QuantumCircuit(n)
    if method == "statevector":
        for q in range(n):
            if case["seed"] % 2**n >> q & 1:
                qc.append(L.YGate(), [q])  # noiseless, and x up to a phase
    else:
        qc.set_density_matrix(DensityMatrix(rho))
    for _ in range(1 + case["twice"]):
        qc.append(gate, qs)
    qc.save_density_matrix()
    got = np.asarray(AerSimulator(method=method, noise_model=model).run(qc, shots=1).result().data()["density_matrix"])
    u = QuantumCircuit(n)
    u.append(gate, qs)
    u = Operator(u).data
    for _ in range(1 + case["twice"]):
        rho = u @ rho @ u.conj().T
        for q in qs:
            rho = channel(rho, n, q, case["letters"], p)
    require(np.allclose(got, rho, atol=1e-6), f"the state after {case['gate']} on {qs} with {case['letters']} at {p} is wrong by {abs(got - rho).max():.2g}")
    return f"{case['gate']}" if p else None


@st.composite
def gen_unknown(draw):
    return {"letters": draw(st.text(alphabet="BDAPXbdq 1", min_size=1, max_size=4)), "p": draw(st.sampled_from([0.1, 0.5]))}


def check_unknown(case):
    from mqt.qecc.ecc_qiskit_wrapper import create_noise_model

    ok = set(case["letters"]) <= set("BDAP")
    if ok and terms(case["letters"]) > 8:
        raise Skip("too many terms")
    try:
        create_noise_model(case["letters"], case["p"])
    except ValueError:
        require(not ok, "a known noise model is rejected")
        return "unknown channel rejected"
    require(ok, f"the unknown noise model {case['letters']!r} is accepted")
    return "known channels"


# ------------------------------------------------------------------------------------------------------ command line
def main(argv):
    """Run the wrapper's main function; -> printed text."""
    from mqt.qecc import ecc_qiskit_wrapper as W

    out = io.StringIO()
    old, sys.argv = sys.argv, ["ecc_qiskit_wrapper", *argv]
    try:
        with contextlib.redirect_stdout(out):
            W.main()
    except SystemExit as e:
        raise Violation(f"the options {argv} are rejected: {e}") from None
    except ValueError:
        raise
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{argv}: {type(e).__name__}: {e}") from e
    finally:
        sys.argv = old
    return out.getvalue()


CODES = ["none"] * 4 + [*(c for c in ecc.SUP if c != "Id")]
TWO = {"cx", "cy", "cz", "swap"}
CLIFF = ["x", "y", "z", "h", "s", "sdg", "id", "cx", "cy", "cz", "swap"]


@st.composite
def gen_cli(draw):
    code = draw(st.sampled_from(CODES))
    n = draw(st.integers(1, {"none": 4, "Q18Surface": 1}.get(code, 2)))
    gates = [g for g in (CLIFF if code == "none" else ecc.SUP[code]) if g in CLIFF and (n > 1 or g not in TWO)]
    if code == "Q18Surface":
        gates = ["x", "z"]
    ops = []
    for _ in range(draw(st.integers(0, 14 if code == "none" else 8))):
        g = draw(st.sampled_from(gates))
        ops.append([g, list(draw(st.permutations(range(n))))[: 2 if g in TWO else 1]])
    mode = draw(st.sampled_from(["all", "all", "some", "some", "none"]))
    # more uses of a qubit than the default frequency
    long = code not in ("none", "Q18Surface") and ops and draw(st.integers(0, 5)) == 0
    if long:
        ops = ops * (120 // len(ops) + 1) * n
    # corrections with Toffoli gates cannot be run by the stabilizer simulator: only small ones are simulated
    fs = ["statevector", "None"] if code == "Q3Shor" else [None, "stabilizer", "stabilizer", *(["statevector", "None"] if code == "none" else [])]
    perm, keep, early = list(draw(st.permutations(range(n)))), draw(st.integers(1, n)), code == "none" and draw(st.booleans())
    if early and n > 1 and draw(st.booleans()):  # one measurement, then many gates on the other qubits
        mode, keep = "some", 1
        for _ in range(draw(st.integers(n, 3 * n))):
            ops.append([draw(st.sampled_from(["x", "y", "z", "h", "s"])), [draw(st.sampled_from(perm[1:]))]])
    return {"code": code, "n": n, "ops": ops, "measure": mode, "perm": perm, "keep": keep,
            "early": early, "export": bool(code == "Q9Shor" or long or draw(st.booleans())), "freq": draw(st.sampled_from([None, 0, 1, 2, 100])), "shots": draw(st.sampled_from([1, 20, 50] if code == "Q3Shor" else [1, 50, 400])),
            "seed": draw(st.integers(0, 1000)), "fs": draw(st.sampled_from(fs))}  # fmt: skip


def text_of(case):
    n = case["n"]
    lines = ["OPENQASM 2.0;", 'include "qelib1.inc";', f"qreg q[{n}];", f"creg c[{n}];"]
    lines += [f"{g} {','.join(f'q[{i}]' for i in t)};" for g, t in case["ops"]]
    meas = {"all": case["perm"], "some": case["perm"][: case["keep"]], "none": []}[case["measure"]]
    for i, q in enumerate(meas):
        at = len(lines)
        if case["early"]:  # as soon as the qubit is no longer used
            at = max([4, *(j + 1 for j, x in enumerate(lines) if f"q[{q}]" in x)])
        lines.insert(at, f"measure q[{q}] -> c[{i}];")
    return "\n".join(lines) + "\n", meas or list(range(n))


def ideal(case, meas):
    """Distribution of the measured bits (bit i belongs to qubit meas[i])."""
    s = eccsim.DenseState(case["n"], None)
    for g, t in case["ops"]:
        s.gate(g, tuple(t))
    p = {}
    v = np.abs(np.asarray(s.v)) ** 2
    for idx in np.ndindex(v.shape):
        key = tuple(idx[q] for q in meas)
        p[key] = p.get(key, 0) + float(v[idx])
    return {k: x for k, x in p.items() if x > 1e-9}


def printed(out):
    res = {}
    for m in re.finditer(r"^State \|([01]*)> probability (\S+)$", out, re.M):
        require(m.group(1) not in res, f"state {m.group(1)} is printed twice")
        res[m.group(1)] = float(m.group(2))
    return res


def check_cli(case):
    text, meas = text_of(case)
    n = case["n"]
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "in.qasm")
        Path(f).write_text(text)
        argv = ["-f", f, "-p", "0", "-n", str(case["shots"]), "-s", str(case["seed"]), "-ecc", case["code"]]
        if case["freq"] is not None:
            argv += ["-fq", str(case["freq"])]
        if case["fs"]:
            argv += ["-fs", case["fs"]]
        if case["export"]:
            argv += ["-e", os.path.join(d, "out.qasm")]
        out = main(argv)
        require(Path(f).read_text() == text, "the input file was changed")
        dist = ideal(case, meas)
        if case["export"]:
            require(not printed(out), "simulation results although only the export was asked for")
            enc = Path(d, "out.qasm").read_text()
            try:
                c = eccsim.parse(enc)
            except eccsim.QasmError as e:
                raise Violation(f"the exported file is not a valid circuit: {e}") from e
            code = case["code"] if case["code"] != "none" else "Id"
            if code != "Id":  # the circuit is the one the framework yields with the same options
                from mqt.qecc import apply_ecc

                from qiskit import QuantumCircuit

                qc = QuantumCircuit.from_qasm_str(text)
                if case["measure"] == "none":
                    qc.measure_all()
                ref = eccsim.parse(apply_ecc(qc, code, 100 if case["freq"] is None else case["freq"])["circ"])
                require(ref.ops == c.ops and ref.cregs == c.cregs, "the exported circuit is not the one with the given code and frequency")
            elif case["measure"] != "none":
                ref = eccsim.parse(text)
                require(ref.ops == c.ops and ref.cregs == c.cregs, "the exported circuit is not the given one")
            require(c.nq == n * ecc.RED[code] + ecc.ANC[code], f"{c.nq} qubits in the exported circuit")
            # classical register of the original circuit (a new one if nothing was measured)
            regs = list(c.cregs.items())
            name = "c" if case["measure"] != "none" else next((s for s, _ in regs if s.startswith("meas")), None)
            require(name in c.cregs, f"register missing in {regs}")
            start, size = c.cregs[name]
            require(size >= len(meas), f"register {name} has {size} bits")
            for k in range(2):
                bits, _ = eccsim.run(c, np.random.default_rng(case_seed(case) + k))
                key = tuple(bits[start : start + len(meas)])
                require(key in dist, f"the exported circuit yields {key}, which {text!r} cannot")
            return f"{case['code']} exported" if case["ops"] else None
        res = printed(out)
        if case["measure"] == "none" and case["code"] == "none":
            # measure_all adds a register after the circuit's own one, of which the outcomes are not shown
            require(res == {"0" * n: 1.0}, f"unmeasured register shows {res}")
            return None
        require(abs(sum(res.values()) - 1) < 1e-9, f"probabilities {res} do not add up to 1")
        for s, p in res.items():
            cnt = p * case["shots"]
            require(abs(cnt - round(cnt)) < 1e-6 and cnt > 0.5, f"probability {p} is no number of {case['shots']} shots")
            bits = [int(b) for b in reversed(s)]
            require(case["measure"] == "none" or len(bits) == n, f"outcome {s} for {n} classical bits")
            if case["measure"] == "none":
                continue
            require(not any(bits[len(meas) :]), f"outcome {s} sets a bit that is never written")
            require(tuple(bits[: len(meas)]) in dist, f"outcome {s} is impossible")
        if case["measure"] != "none":
            for key, q in dist.items():
                s = "".join(str(b) for b in reversed([*key, *[0] * (n - len(meas))]))
                require(case["shots"] * kl(res.get(s, 0.0), q) < np.log(2e10), f"outcome {s} has probability {res.get(s, 0.0)} in {case['shots']} shots, expected {q}")
        if case["measure"] == "none":
            return None
        require(main(argv) == out, "the same seed yields other results")
    return f"{case['code']} simulated" if case["ops"] else None


def kl(q, p):
    t = 0.0
    for a, b in ((q, p), (1 - q, 1 - p)):
        if a > 0:
            t += a * np.log(a / b) if b > 1e-12 else (0.0 if a < 1e-9 else np.inf)
    return max(t, 0.0)


@st.composite
def gen_flip(draw):
    n = draw(st.integers(1, 4))
    gs = ["x", "id", "s", "sdg", "cx", "swap", "z"]
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        g = draw(st.sampled_from([g for g in gs if n > 1 or g not in ("cx", "swap")]))
        ops.append([g, list(draw(st.permutations(range(n))))[: 2 if g in ("cx", "swap") else 1]])
    return {"n": n, "ops": ops, "m": draw(st.sampled_from(["B", "B", "BB", "P", "PB", "BP", "BBB"])), "p": draw(st.sampled_from([0.0, 1.0, 1.0])),
            "ecc": draw(st.sampled_from(["none", "None", "NONE"]))}  # fmt: skip


def check_flip(case):
    """Certain noise: outcomes are known exactly."""
    n = case["n"]
    b = [0] * n
    flips = case["m"].count("B") % 2 if case["p"] else 0
    for g, t in case["ops"]:
        if g == "x":
            b[t[0]] ^= 1
        elif g == "cx":
            b[t[1]] ^= b[t[0]]
        elif g == "swap":
            b[t[0]], b[t[1]] = b[t[1]], b[t[0]]
        if g in NOISY:
            for q in t:
                b[q] ^= flips
    lines = ["OPENQASM 2.0;", 'include "qelib1.inc";', f"qreg q[{n}];", f"creg c[{n}];"]
    lines += [f"{g} {','.join(f'q[{i}]' for i in t)};" for g, t in case["ops"]] + ["measure q -> c;"]
    with tempfile.TemporaryDirectory() as d:
        f = os.path.join(d, "in.qasm")
        Path(f).write_text("\n".join(lines) + "\n")
        out = main(["-f", f, "-p", str(case["p"]), "-n", "20", "-m", case["m"], "-ecc", case["ecc"], "-fs", "stabilizer"])
    want = "".join(map(str, reversed(b)))
    res = printed(out)
    require(res == {want: 1.0}, f"outcomes {res}, certain errors yield {want}")
    return "certain errors" if flips else None


# ------------------------------------------------------------------------------------------------------ printed results
@st.composite
def gen_print(draw):
    bits = draw(st.integers(1, 11))
    extra = draw(st.sampled_from([0, 1, 2, 4, 7, 12]))
    counts = {}
    rng = np.random.default_rng(draw(st.integers(0, 2**32)))
    for _ in range(draw(st.sampled_from([1, 2, 5, 40, 1500]))):
        k = " ".join([*("".join(map(str, rng.integers(0, 2, 3))) for _ in range(extra)), "".join(map(str, rng.integers(0, 2, bits)))])
        counts[k] = counts.get(k, 0) + int(rng.integers(1, 20))
    return {"counts": counts, "threshold": draw(st.sampled_from([0, 0, 0.01, 0.2, 0.5, 0.9]))}


def check_print(case):
    from mqt.qecc.ecc_qiskit_wrapper import print_simulation_results

    class R:
        def get_counts(self):
            return dict(case["counts"])

    n = sum(case["counts"].values())
    want = {}
    for k, v in case["counts"].items():
        want[k.split(" ")[-1]] = want.get(k.split(" ")[-1], 0) + v
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        print_simulation_results(R(), n, case["threshold"])
    res = printed(out.getvalue())
    require(list(res) == sorted(res), "states are not printed in order")
    for k, p in res.items():
        require(k in want and abs(p - want[k] / n) < 1e-9, f"state {k} has probability {p}, expected {want.get(k, 0) / n}")
    above = [k for k in sorted(want) if want[k] / n > case["threshold"]]
    if len(above) < 990:
        require(set(above) <= set(res), "a state above the threshold is missing")
    require(len(res) <= 1000 and len(set(res) - set(above)) <= 1, "states below the threshold are printed")
    return "several registers" if any(" " in k for k in case["counts"]) else "one register"


PROP = Prop(
    "P25",
    [
        Sub("noise channels", check_noise, strategy=gen_noise, quick=450, thorough=20000, shards=(3, 8),
            mem_gb=8.0, rule="non-trivial: error probability above 0; the state after a noisy gate against the composed channels"),
        Sub("unknown channels", check_unknown, strategy=gen_unknown, quick=200, thorough=2000, rule="every case"),
        Sub("command line", check_cli, strategy=gen_cli, quick=300, thorough=6000, shards=(3, 8), timeout=120,
            rule="non-trivial: at least one gate; exported circuits and noiseless simulations against the ideal distribution"),
        Sub("certain errors", check_flip, strategy=gen_flip, quick=200, thorough=4000, shards=(2, 8), timeout=120,
            rule="non-trivial: an odd number of certain bit flips after every gate"),
        Sub("printed results", check_print, strategy=gen_print, quick=300, thorough=4000, rule="every case"),
    ],
    cpp=True,
    assumptions=["noise is attached to the gates named in the wrapper's noise model; other gates are noiseless there",
                 "only the first classical register is shown, as in the documentation"],
)
