"""P17: verified preparation circuits accept without faults and leave at most as many errors as faults when they accept."""

import random

import numpy as np
import stim
from hypothesis import strategies as st

import gf2
import prep
from checks.P14 import build, circuit, limit
from harness import Prop, Sub, require
from mqt.qecc import CSSCode
from mqt.qecc.codes import HexagonalColorCode, SquareOctagonColorCode
from mqt.qecc.ft_stateprep import (
    StatePrepCircuit,
    gate_optimal_verification_circuit,
    heuristic_prep_circuit,
    heuristic_verification_circuit,
    naive_verification_circuit,
)

T = 60


@st.composite
def gen(draw, methods=("heuristic", "optimal", "naive"), ds=(2, 3, 3, 4, 5)):
    m = draw(st.sampled_from(methods))
    d = draw(st.sampled_from(ds))
    nmax = 7 if d < 4 and m != "optimal" else 6
    if draw(st.booleans()):
        c = draw(circuit(nmax))
        c = {**c, "d": d}
        if m != "naive" and d < 4:
            c = {**c, "dx": d + draw(st.sampled_from([0, 0, 2, 4])), "dz": d + draw(st.sampled_from([0, 0, 2, 4]))}
    elif draw(st.booleans()) or d > 3:
        c = draw(prep.state_code(4, nmax, (d,)))
    else:
        c = draw(prep.named(["422", "642", "steane", "shor", "surface3", "toric2"] if m != "optimal" else ["422", "642", "steane", "surface3"], mix=m != "optimal"))
    c.setdefault("dx", c["d"])
    c.setdefault("dz", c["d"])
    if "cn" not in c:
        c = {**c, "zero": draw(st.booleans()), "opt": draw(st.booleans())}
    if m == "naive":  # larger distance for the errors that need no flags
        c["dz" if c["zero"] else "dx"] = c["d"] + draw(st.sampled_from([0, 0, 2, 4]))
    full = True if m == "naive" else draw(st.sampled_from([True, True, False]))
    return {**c, "method": m, "full": full, "det": draw(st.integers(0, 3)) == 0, "leaders": draw(st.booleans()), "cover": draw(st.sampled_from([1, 50, 10000]))}


def make(case):
    code = prep.np_code(case, CSSCode, x_distance=case["dx"], z_distance=case["dz"])
    if "cn" in case:
        sp = StatePrepCircuit(build(case), code, case["zero"], case["det"])
    else:
        sp = heuristic_prep_circuit(code, case["opt"], case["zero"])
        sp.set_error_detection(case["det"])
    if case["method"] == "heuristic":
        qc = heuristic_verification_circuit(sp, case["cover"], case["leaders"], full_fault_tolerance=case["full"])
    elif case["method"] == "optimal":
        qc = gate_optimal_verification_circuit(sp, T, T, full_fault_tolerance=case["full"])
    else:
        qc = naive_verification_circuit(sp)
    return code, sp, qc


def noiseless(case, o, n, N):
    xs, zs = prep.code_spaces(case, case["zero"])
    for seed in (1, 2):
        sim = stim.TableauSimulator(seed=seed)
        sim.do(stim.Circuit(f"I {N - 1}"))
        for i, (g, q, _) in enumerate(o):
            if g == "h":
                sim.h(*q)
            elif g == "cx":
                sim.cx(*q)
            elif g == "reset":
                sim.reset(*q)
            elif g == "measure":
                require(not sim.measure(q[0]), f"operation {i} measures 1 without any fault")
            else:
                require(g == "barrier", f"unexpected operation {g}")
        for v, t in [(v, "X") for v in xs] + [(v, "Z") for v in zs]:
            p = stim.PauliString(N)
            for q in range(n):
                if v >> q & 1:
                    p[q] = t
            require(sim.peek_observable_expectation(p) == 1, f"{t}{gf2.to_list(v, n)} does not stabilize the verified state")


def check(case):
    try:
        code, sp, qc = make(case)
    except NotImplementedError as e:
        de = case["dx"] if case["zero"] else case["dz"]
        t = de // 2 if case["det"] or case["d"] == 2 else (de - 1) // 2
        require(t > 2, f"refused although flags for {t} errors are needed only: {e}")
        return None
    n, N = code.n, qc.num_qubits
    o = prep.ops(qc)
    p = prep.ops(sp.circ)
    require([g for g in o if g[0] != "measure"][: len(p)] == p or o[: len(p)] == p, "the circuit does not start with the preparation circuit")
    require([qc.find_bit(q).index for q in qc.qregs[0]] == list(range(n)), "the data qubits are not the first register")
    cl = [c[0] for g, _, c in o if g == "measure"]
    require(sorted(cl) == list(range(qc.num_clbits)), "a classical bit is not written exactly once")
    heavy, t = judge(case, o, n, N, qc.num_clbits)
    return f"{case['method']} {'full' if case['full'] else 'one type'} t={t}" if heavy else None


def judge(case, o, n, N, ncl):
    """The circuit prepares the state and no accepted fault (pair of faults) leaves a heavier error; -> number of heavy errors, t."""
    noiseless(case, o, n, N)
    t = case["d"] // 2 if case["det"] or case["d"] == 2 else (case["d"] - 1) // 2
    x, z, m, desc = prep.faults(o, N, ncl)
    sig = prep.pack(m) if ncl else [0] * len(desc)
    xs, zs = prep.code_spaces(case, case["zero"])
    heavy = 0
    naive = case["method"] == "naive"
    for is_x, part, group, checks in ((True, x, xs, case["hz"]), (False, z, zs, case["hx"])):
        if not case["full"] and is_x != case["zero"]:
            continue
        cos = prep.Cosets(group, n)
        lim = limit(case, is_x)
        by = {}
        for e, s, d in zip(prep.pack(part[:, :n]), sig, desc):
            by.setdefault(s, {}).setdefault(cos.key(e), d)
        heavy += sum(cos.weight(e) > lim for es in by.values() for e in es)
        rows = gf2.ints(checks)
        for e, d in by[0].items() if 0 in by else ():
            if naive and not any(gf2.parity(e & r) for r in rows):
                continue  # logical operators are not measured
            require(cos.weight(e) <= lim, lambda: f"{d} is accepted and leaves the {'XZ'[not is_x]} error {gf2.to_list(e, n)} of weight {cos.weight(e)}")
        if naive:  # logical operators are not measured
            cos = prep.Cosets(gf2.nullspace(rows, n), n)
        if t >= 2:
            for es in by.values():
                keys = list(es)
                for i, a in enumerate(keys):
                    for b in keys[i + 1 :]:
                        require(cos.weight(a ^ b) <= 2 * lim, lambda: f"{es[a]} and {es[b]} are accepted and leave the {'XZ'[not is_x]} error "
                                f"{gf2.to_list(a ^ b, n)} of weight {cos.weight(a ^ b)}")  # fmt: skip
    return heavy, t


def gen_heur():
    return gen(("heuristic", "heuristic", "naive"))


def gen_opt():
    return gen(("optimal",), (2, 3, 3, 4))


def cases_large(tier):
    names = [("tetra", True), ("tetra", False), ("hex5", True)]
    if tier == "thorough":
        names += [("so5", False), ("hex5", False), ("so5", True), ("surf13", True), ("surf13", False)]
    for name, zero in names:
        for opt in (True, False) if tier == "thorough" else (True,):
            for full in (True, False) if tier == "thorough" else (True,):
                yield {"name": name, "zero": zero, "opt": opt, "full": full, "method": "heuristic", "det": False, "leaders": True, "cover": 10000 if full else 100}
    for name, zero in [("surf5", True), ("hex5", False), ("so5", True), ("surf5", False), ("hex5", True)][: 2 if tier == "quick" else 5]:
        yield {"name": name, "zero": zero, "opt": True, "full": True, "method": "naive", "det": False, "leaders": True, "cover": 1}


def check_large(case):
    name = case["name"]
    if name in prep.NAMED:
        hx, hz, d = prep.NAMED[name]
    elif name == "surf5":
        code = CSSCode.from_code_name("surface", 5)
        hx, hz, d = np.asarray(code.Hx).tolist(), np.asarray(code.Hz).tolist(), 5
    else:
        code = (HexagonalColorCode if name == "hex5" else SquareOctagonColorCode)(5)
        hx = hz = np.asarray(code.Hx).tolist()
        d = 5
    r = check({**case, "hx": [list(v) for v in hx], "hz": [list(v) for v in hz], "d": d, "dx": d, "dz": d})
    return f"{name} {r}" if r else None


PROP = Prop(
    "P17",
    [
        Sub("heuristic", check, strategy=gen_heur, quick=400, thorough=8000, shards=(4, 8), timeout=150,
            rule="non-trivial: some single fault causes a too heavy error, so that something has to be detected"),
        Sub("optimal", check, strategy=gen_opt, quick=120, thorough=2000, shards=(4, 8), timeout=150,
            rule="non-trivial: some single fault causes a too heavy error, so that something has to be detected"),
        Sub("larger codes", check_large, cases=cases_large, shards=(4, 8), timeout=400,
            rule="non-trivial: some single fault causes a too heavy error; 13 to 19 qubits, pairs of faults for distance 5"),
    ],
    assumptions=["circuit-level faults: any Pauli after a gate, wrong preparation, flipped measurement",
                 "the naive method measures checks only, so errors equal to logical operators pass it; only single faults are tried on it"],
)
