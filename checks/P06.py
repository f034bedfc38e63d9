"""P06: an encoded circuit has the classical outcomes of the original circuit.

CPP = True
"""

CPP = True

import numpy as np
from hypothesis import strategies as st

import ecc
import eccsim
from harness import Finding, Prop, Skip, Sub, Violation, case_seed, load_known, require

KNOWN = load_known("P06")
MID_BAD = {"Q5Laflamme", "Q7Steane", "Q9Surface", "Q18Surface"}


@st.composite
def gen(draw, dense=False, codes=None):
    code = draw(st.sampled_from(codes or sorted(ecc.SUP)))
    nmax = {"Q18Surface": 2}.get(code, 3)
    if dense:
        nmax = {"Id": 4, "Q3Shor": 4, "Q7Steane": 1, "Q9Shor": 1}[code]
    n = draw(st.integers(1, nmax))
    no = () if dense else ("t", "tdg")
    a = draw(ecc.st_gates(code, n, 6, no))
    mirror = draw(st.booleans())
    ops = list(a)
    if mirror:
        ops += draw(ecc.st_gates(code, n, 1, (*no, "h"))) + ecc.inverse(a)
    freq = draw(st.sampled_from([0, 1, 2, 3, 5, 100]))
    extra = draw(st.integers(0, 2))
    ncl = n + extra
    style = draw(st.sampled_from(["all", "each", "each+barrier", "some", "mid"]))
    perm = list(draw(st.permutations(range(ncl))))[:n]
    if style == "all":
        ops.append(["measure", list(range(n)), perm])
    elif style == "each":
        ops += [["measure", [q], [perm[q]]] for q in range(n)]
    elif style == "each+barrier":
        for q in range(n):
            ops += [["measure", [q], [perm[q]]], ["barrier", [] if draw(st.booleans()) else [q]]]
    elif style == "some":
        qs = [q for q in range(n) if draw(st.booleans())]
        if qs:
            ops.append(["measure", qs, [perm[q] for q in qs]])
    else:
        b = draw(ecc.st_gates(code, n, 3, no))
        qs = sorted(draw(st.sets(st.integers(0, n - 1), min_size=1)))
        ops += [["measure", qs, [draw(st.integers(0, ncl - 1)) for _ in qs] if len(qs) == 1 else [perm[q] for q in qs]], *b]
        ops.append(["measure", list(range(n)), perm])
    if draw(st.integers(0, 3)) == 0 and ops:
        ops.insert(draw(st.integers(0, len(ops))), ["barrier", []])
    if style != "mid" or all(o[0] in ("barrier", "measure") for o in b):
        style = "end"
    return {"code": code, "n": n, "ncl": ncl, "ops": ops, "freq": freq, "style": style, "shots": 2}


def check(case):
    code, n, ncl, ops, freq = case["code"], case["n"], case["ncl"], case["ops"], case["freq"]
    if "ecc-mid" in KNOWN and case["style"] == "mid" and code in MID_BAD:
        raise Skip("gates after a measurement (listed finding)")
    if "ecc-q18-h" in KNOWN and code == "Q18Surface" and freq and any(o[0] == "h" for o in ops):
        raise Skip("Q18Surface with Hadamard and periodic correction (listed finding)")
    qc = ecc.circuit(n, ncl, ops)
    c, r = ecc.apply(qc, code, freq)
    require(r.get("originalCircuitNumQubits", n) == n and r.get("numQubits", c.nq) == c.nq, "wrong qubit counts")
    require(list(c.cregs.items())[0][1] == (0, ncl) if ncl else True, "the original classical register is not the first one")
    rng = np.random.default_rng(case_seed(case))
    dense = any(o[0] in ("t", "tdg") for o in ops)
    if dense and c.nq > 17:
        raise Skip("too large for a dense simulation")
    certain = 0
    for _ in range(1 if dense and c.nq > 12 else case["shots"]):
        try:
            bits, _ = eccsim.run(c, rng, dense=dense)
        except eccsim.NotStabilizer:
            raise Skip("Toffoli on a superposition in the encoded circuit (cannot be simulated)") from None
        certain = ecc.follow(n, ncl, ops, bits)
    gates = sum(o[0] not in ("measure", "barrier") for o in ops)
    return f"{code}{' mid' if case['style'] == 'mid' else ''}" if certain and gates else None


# --------------------------------------------------------------------- outcome frequencies of random measurements
@st.composite
def gen_dist(draw):
    code = draw(st.sampled_from(sorted(ecc.SUP)))
    n = draw(st.integers(1, 2))
    ops = draw(ecc.st_gates(code, n, 5, ("t", "tdg")))
    return {"code": code, "n": n, "ops": ops, "freq": draw(st.sampled_from([0, 2]))}


def check_dist(case):
    code, n, ops, freq = case["code"], case["n"], case["ops"], case["freq"]
    if "ecc-q18-h" in KNOWN and code == "Q18Surface" and freq and any(o[0] == "h" for o in ops):
        raise Skip("Q18Surface with Hadamard and periodic correction (listed finding)")
    full = [*ops, ["measure", list(range(n)), list(range(n))]]
    c, _ = ecc.apply(ecc.circuit(n, n, full), code, freq)
    rng = np.random.default_rng(case_seed(case))
    shots = 48
    cnt = {}
    for _ in range(shots):
        try:
            bits, _ = eccsim.run(c, rng)
        except eccsim.NotStabilizer:
            raise Skip("Toffoli on a superposition in the encoded circuit (cannot be simulated)") from None
        k = tuple(bits[:n])
        cnt[k] = cnt.get(k, 0) + 1
    p, _ = eccsim.ideal_probs(n, ops, range(n))
    for idx in np.ndindex(*p.shape):
        obs, pr = cnt.get(tuple(int(i) for i in idx), 0), float(p[idx])
        # Hoeffding: deviation of 25 of 48 has probability < 5e-12
        require(abs(obs - shots * pr) <= 25 and not (pr < 1e-9 and obs), f"outcome {idx}: {obs} of {shots}, probability {pr}")
    return f"{code}, {int((p > 1e-9).sum())} outcomes" if ops else None


def demo_mid():
    for code, ops, freq in (
        ("Q7Steane", [["x", [0]], ["measure", [0], [1]], ["z", [0]], ["measure", [0], [0]]], 0),
        ("Q5Laflamme", [["x", [0]], ["measure", [0], [1]], ["z", [0]], ["measure", [0], [0]]], 0),
    ):
        c, _ = ecc.apply(ecc.circuit(1, 2, ops), code, freq)
        for i in range(8):
            bits, _ = eccsim.run(c, np.random.default_rng(i))
            try:
                ecc.follow(1, 2, ops, bits)
            except Violation:
                return True
    return False


def demo_q18():
    ops = [[g, [0]] for g in "hzyzzzhx"] + [["measure", [0], [0]]]
    c, _ = ecc.apply(ecc.circuit(1, 1, ops), "Q18Surface", 1)
    for i in range(200):
        bits, _ = eccsim.run(c, np.random.default_rng(i))
        if bits[0] != 1:
            return True
    return False


RULE = "non-trivial: at least one gate and at least one measurement whose ideal outcome is certain"
PROP = Prop(
    "P06",
    [
        Sub("outcomes", check, strategy=gen, quick=5000, thorough=60000, shards=(5, 8), rule=RULE),
        Sub("outcomes dense", check, strategy=lambda: gen(dense=True, codes=["Id", "Q3Shor", "Q7Steane"]), quick=320,
            thorough=4000, shards=(2, 8), rule=RULE),
        Sub("frequencies", check_dist, strategy=gen_dist, quick=300, thorough=5000, shards=(1, 8),
            rule="non-trivial: at least one gate; observed frequencies of 48 shots against the ideal probabilities"),
    ],
    cpp=True,
    findings=[
        Finding("ecc-mid", "gates after a measurement re-encode the qubits and lose their state (Q5Laflamme, Q7Steane, Q9Surface,"
                " Q18Surface), e.g. Q7Steane: x 0; measure 0->1; z 0; measure 0->0", demo_mid),
        Finding("ecc-q18-h", "Q18Surface corrects random syndromes after a Hadamard (it never measures the other check type), e.g."
                " h z y z z z h x measure with correction after every gate", demo_q18),
    ],
    assumptions=["the emitted OpenQASM text is executed by an independent simulator (stim tableau, or dense numpy for T gates)"],
)
