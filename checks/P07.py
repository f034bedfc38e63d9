"""P07: a single Pauli error on any data qubit of an encoded circuit is corrected.

CPP = True
"""

CPP = True

import numpy as np
from hypothesis import strategies as st

import ecc
import eccsim
from harness import Prop, Skip, Sub, Violation, case_seed, require

CODES = ["Q3Shor", "Q5Laflamme", "Q7Steane", "Q9Shor", "Q9Surface", "Q18Surface"]
# gates under which the claim is checked with the error anywhere in the circuit
MID = {
    "Q3Shor": ["x", "y", "z", "s", "sdg", "t", "tdg", "cx", "cy", "cz", "ccx"],
    "Q5Laflamme": ["x", "y", "z"],
    "Q7Steane": ["x", "y", "z", "h", "s", "sdg", "cx", "cy", "cz"],
    "Q9Shor": ["x", "y", "z", "cx", "cy", "cz"],
    "Q9Surface": ["x", "y", "z"],
    "Q18Surface": ["x", "y", "z"],
}
DATA = {c: range(ecc.RED[c]) for c in CODES}
DATA["Q18Surface"] = [1, 3, 5, 6, 8, 10, 13, 15, 17, 18, 20, 22, 25, 27, 29, 30, 32, 34]


def boundary(n, ops, i, code, freq):
    """Index in the encoded circuit that lies between original operations i-1 and i (after corrections following i-1)."""
    tail = [["measure", list(range(n)), list(range(n))]]
    a, _ = ecc.apply(ecc.circuit(n, n, [*ops[:i], ["x", [0]], ["x", [0]], *tail]), code, freq)
    b, _ = ecc.apply(ecc.circuit(n, n, [*ops[:i], ["z", [0]], ["x", [0]], *tail]), code, freq)
    k = 0
    while k < min(len(a.ops), len(b.ops)) and a.ops[k] == b.ops[k]:
        k += 1
    return k


def run(c, rng, inject):
    try:
        return eccsim.run(c, rng, inject=inject)
    except eccsim.NotStabilizer:
        return eccsim.run(c, rng, dense=True, inject=inject)


@st.composite
def gen(draw):
    code = draw(st.sampled_from(CODES))
    n = draw(st.sampled_from([1, 2, 3, 3] if code == "Q3Shor" else [1, 2]))
    gs = set(ecc.SUP[code]) - set(MID[code])
    a = draw(ecc.st_gates(code, n, 5, gs))
    if n == 3 and draw(st.booleans()):  # classical circuits with controls of all values
        a = [["x", [i]] for i in range(3) if draw(st.booleans())]
        for _ in range(draw(st.integers(1, 3))):
            g = draw(st.sampled_from(["ccx", "ccx", "cx", "cy", "y"]))
            a.append([g, list(draw(st.permutations(range(3))))[: {"ccx": 3, "y": 1}.get(g, 2)]])
    elif draw(st.booleans()):
        a = a + draw(ecc.st_gates(code, n, 2, gs | {"h"})) + ecc.inverse(a)
    at = draw(st.sampled_from([0, len(a)] + list(range(len(a) + 1))))
    return {"code": code, "n": n, "ops": a, "at": at, "freq": draw(st.sampled_from([0, 0, 1, 2, 3])), "q": draw(st.integers(0, n - 1))}


def check(case):
    code, n, ops, freq, q = case["code"], case["n"], case["ops"], case["freq"], case["q"]
    full = [*ops, ["measure", list(range(n)), list(range(n))]]
    c, _ = ecc.apply(ecc.circuit(n, n, full), code, freq)
    k = boundary(n, ops, case["at"], code, freq)
    require(k < len(c.ops), "the encoded circuit has no operation after the encoding")
    rng = np.random.default_rng(case_seed(case))
    certain = 0
    for j in DATA[code]:
        for p in "XYZ":
            bits, _ = run(c, rng, {k: [(p, q + j * n)]})
            try:
                certain = ecc.follow(n, n, full, bits)
            except Violation as e:
                raise Violation(f"{p} on data qubit {j} of logical qubit {q} before operation {case['at']}: {e}") from None
    return f"{code}, {'end' if case['at'] == len(ops) else 'start' if case['at'] == 0 else 'inside'}" if certain else None


@st.composite
def gen_many(draw):
    code = draw(st.sampled_from(["Q5Laflamme", "Q7Steane", "Q9Shor", "Q3Shor", "Q9Surface", "Q18Surface"]))
    n = draw(st.integers(1, 2))
    a = draw(ecc.st_gates(code, n, 5, set(ecc.SUP[code]) - set(MID[code]) | ecc.TWO | {"h", "ccx"}))
    errs = [[draw(st.integers(0, 40)), draw(st.sampled_from("XYZ"))] for _ in range((len(a) + 1) * n)]
    return {"code": code, "n": n, "ops": a, "errs": errs}


def check_many(case):
    """With a correction after every gate, one error per gate and logical qubit is corrected."""
    code, n, ops = case["code"], case["n"], case["ops"]
    full = [*ops, ["measure", list(range(n)), list(range(n))]]
    c, _ = ecc.apply(ecc.circuit(n, n, full), code, 1)
    inj = {}
    errs = list(case["errs"])
    for i in range(len(ops) + 1):
        k = boundary(n, ops, i, code, 1)
        for q in range(n):
            j, p = errs.pop() if errs else (0, "X")
            inj.setdefault(k, []).append((p, q + DATA[code][j % len(DATA[code])] * n))
    rng = np.random.default_rng(case_seed(case))
    bits, _ = run(c, rng, inj)
    ecc.follow(n, n, full, bits)
    return code if len(inj) > 1 else None


PROP = Prop(
    "P07",
    [
        Sub("one error", check, strategy=gen, quick=900, thorough=16000, shards=(6, 8),
            rule="non-trivial: some measurement outcome of the original circuit is certain; every data qubit of one logical"
            " qubit and every Pauli is tried at one position of the circuit"),
        Sub("an error per correction round", check_many, strategy=gen_many, quick=700, thorough=16000, shards=(2, 8),
            rule="non-trivial: at least two correction rounds, one error per logical qubit before each of them"),
    ],
    cpp=True,
    assumptions=["errors are injected between two operations of the original circuit, never inside a correction round"],
)
