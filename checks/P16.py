"""P16: verification stabilizers detect every dangerous error class, and the optimal ones are optimal."""

import random

import numpy as np
from hypothesis import strategies as st

import gf2
import prep
from checks.P14 import build, circuit, classes, limit, single_faults
from harness import Prop, Skip, Sub, require
from mqt.qecc import CSSCode
from mqt.qecc.ft_stateprep import (
    StatePrepCircuit,
    gate_optimal_verification_circuit,
    gate_optimal_verification_stabilizers,
    heuristic_prep_circuit,
    heuristic_verification_circuit,
    heuristic_verification_stabilizers,
)

T = 60


def make(case):
    kw = {"x_distance": case["dx"], "z_distance": case["dz"]} if "dx" in case else {}
    code = prep.np_code(case, CSSCode, **kw)
    if "cn" in case:
        sp = StatePrepCircuit(build(case), code, case["zero"], case.get("det", False))
    else:
        sp = heuristic_prep_circuit(code, case["opt"], case["zero"])
        sp.set_error_detection(case.get("det", False))
    return code, sp


@st.composite
def gen(draw, dmax=5, nmax=8, names=("422", "642", "steane", "shor", "surface3", "toric2")):
    d = draw(st.sampled_from([2, 3, 3, 4, 5] if dmax == 5 else [2, 3]))
    if draw(st.booleans()):
        c = draw(circuit(nmax if d < 4 else 6))
        c = {**c, "d": d, "dx": d + draw(st.sampled_from([0, 0, 2])), "dz": d + draw(st.sampled_from([0, 0, 2]))}
    elif draw(st.booleans()):
        c = draw(prep.state_code(4, nmax if d < 4 else 6, (d,)))
        c = {**c, "zero": draw(st.booleans()), "opt": draw(st.booleans()), "dx": d, "dz": d}
    else:
        c = draw(prep.named(list(names)))
        c = {**c, "zero": draw(st.booleans()), "opt": draw(st.booleans()), "dx": c["d"], "dz": c["d"]}
    n = len(c["hx"][0])
    r = random.Random(draw(st.integers(0, 2**32)))
    add = None if draw(st.booleans()) else [gf2.to_list(r.getrandbits(n), n) for _ in range(draw(st.integers(0, 5)))]
    return {**c, "x": draw(st.booleans()), "add": add, "det": draw(st.booleans())}


def layers_of(case, sp, layers, what, missing_ok=False):
    """Common checks; -> (coset tables, list of wanted classes per layer, measurements per layer as integers)."""
    n = sp.num_qubits
    x = case["x"]
    xs, zs = prep.code_spaces(case, case["zero"])
    cos = prep.Cosets(xs if x else zs, n)
    det = gf2.Span(zs if x else xs)
    singles = single_faults(prep.ops(sp.circ), n, x)
    add = [gf2.to_int(a) for a in case["add"] or []]
    t = case["d"] // 2 if case["det"] or case["d"] == 2 else (case["d"] - 1) // 2
    if missing_ok and len(layers) == 0 and t:
        return None
    require(len(layers) == t, f"{what}: {len(layers)} layers for {t} errors")
    out = []
    for k in range(1, t + 1):
        want = classes(singles, add, cos, k, k * limit(case, x))
        ms = []
        require(isinstance(layers[k - 1], (list, tuple, set, np.ndarray)), lambda: f"{what}: layer {k} is {layers[k - 1]!r}")
        for m in layers[k - 1]:
            m = np.asarray(m)
            require(m.shape == (n,) and set(int(b) for b in m) <= {0, 1}, f"{what}: measurement {m}")
            ms.append(gf2.to_int(m))
        require(all(m in det for m in ms), f"{what}: a measurement of layer {k} is not a stabilizer of the state")
        require(all(ms), f"{what}: layer {k} contains an empty measurement")
        if not want:
            require(not ms, f"{what}: layer {k} measures although there is nothing to detect")
        for v in want:
            require(any(gf2.parity(v & m) for m in ms), lambda: f"{what}: layer {k} does not detect {gf2.to_list(v, n)}")
        out.append((want, ms))
    return det, out


@st.composite
def gen_heur(draw):
    c = draw(gen())
    return {**c, "cover": draw(st.sampled_from([1, 5, 50, 10000])), "leaders": draw(st.booleans())}


def check_heur(case):
    code, sp = make(case)
    add = None if case["add"] is None else np.array(case["add"], dtype=np.int8).reshape(-1, code.n)
    layers = heuristic_verification_stabilizers(sp, case["x"], case["cover"], case["leaders"], add)
    _, out = layers_of(case, sp, layers, "heuristic")
    return f"{'zero' if case['zero'] else 'plus'} {'XZ'[not case['x']]}" if any(w for w, _ in out) else None


@st.composite
def gen_opt(draw):
    c = draw(gen(3, 7, ("422", "642", "steane", "toric2")))
    return {**c, "anc": draw(st.sampled_from([None, None, 1, 2, 3]))}


def cover_opt(group, errors, max_anc):
    """(minimum total weight, minimum number of elements at that weight) of a detecting set, by dynamic programming."""
    errors = list(errors)
    full = (1 << len(errors)) - 1
    best = {}
    for g in group:
        m = sum(1 << i for i, e in enumerate(errors) if gf2.parity(e & g))
        if m and (m not in best or best[m] > gf2.wt(g)):
            best[m] = gf2.wt(g)
    todo = {0: (0, 0)}  # mask -> (weight, number); one layer per ancilla
    res = None
    for a in range(1, (max_anc if max_anc is not None else len(errors)) + 1):
        nxt = {}
        for m, (w, c) in todo.items():
            for b, wb in best.items():
                k = m | b
                v = (w + wb, c + 1)
                if k not in nxt or nxt[k] > v:
                    nxt[k] = v
        if full in nxt and (res is None or nxt[full][0] < res[0]):
            res = (nxt[full][0], a)
        todo = nxt
        if res is not None and a >= res[0]:
            break
    return res


def check_opt(case):
    code, sp = make(case)
    add = None if case["add"] is None else np.array(case["add"], dtype=np.int8).reshape(-1, code.n)
    layers = gate_optimal_verification_stabilizers(sp, case["x"], T, T, case["anc"], add)
    r = layers_of(case, sp, layers, "optimal", missing_ok=case["anc"] is not None)
    xs, zs = prep.code_spaces(case, case["zero"])
    x = case["x"]
    group = gf2.Span(zs if x else xs).elements()
    if r is None:  # nothing found: some layer must be impossible
        cos = prep.Cosets(xs if x else zs, code.n)
        singles = single_faults(prep.ops(sp.circ), code.n, x)
        for k in range(1, sp.max_errors + 1):
            want = classes(singles, [gf2.to_int(a) for a in case["add"] or []], cos, k, k * limit(case, x))
            if want and cover_opt(group, want, case["anc"]) is None:
                return "impossible"
        require(False, f"no stabilizers found although {case['anc']} ancillas suffice")
    hit = 0
    for k, (want, ms) in enumerate(r[1]):
        if not want or len(want) > 14:
            continue
        require(case["anc"] is None or len(ms) <= case["anc"], f"{len(ms)} ancillas, {case['anc']} allowed")
        w, c = cover_opt(group, want, case["anc"])
        got = sum(gf2.wt(m) for m in ms)
        require(got == w, f"layer {k + 1} uses {got} CNOTs, {w} suffice")
        require(len(ms) == c, f"layer {k + 1} uses {len(ms)} ancillas and {got} CNOTs, {c} ancillas suffice")
        hit += 1
    return f"{'zero' if case['zero'] else 'plus'} {'XZ'[not case['x']]}" if hit else None


@st.composite
def gen_circ(draw):
    c = draw(gen(3, 7, ("422", "642", "steane", "toric2")))
    return {**c, "x": c["zero"], "add": None, "anc": draw(st.sampled_from([None, 1, 1, 2, 3])), "fn": draw(st.sampled_from(["optimal", "optimal", "heuristic"])),
            "cover": draw(st.sampled_from([1, 50, 10000])), "leaders": draw(st.booleans()), "given": draw(st.booleans())}  # fmt: skip


def check_circ(case):
    """The verification circuit for one type of errors consists of the preparation and one bit per verification stabilizer."""
    code, sp = make(case)
    n = code.n
    p = prep.ops(sp.circ)
    if case["fn"] == "optimal":
        qc = gate_optimal_verification_circuit(sp, T, T, case["anc"], False) if case["given"] else gate_optimal_verification_circuit(sp, min_timeout=T, max_timeout=T, max_ancillas=case["anc"], full_fault_tolerance=False)
    elif case["given"]:
        qc = heuristic_verification_circuit(sp, case["cover"], case["leaders"], False)
    else:
        qc = heuristic_verification_circuit(sp, max_covering_sets=case["cover"], find_coset_leaders=case["leaders"], full_fault_tolerance=False)
    o = prep.ops(qc)
    cost, bits = sum(g == "cx" for g, _, _ in o) - sum(g == "cx" for g, _, _ in p), sum(g == "measure" for g, _, _ in o)
    xs, zs = prep.code_spaces(case, case["zero"])
    x = case["x"]
    group = gf2.Span(zs if x else xs).elements()
    cos = prep.Cosets(xs if x else zs, n)
    singles = single_faults(p, n, x)
    t = case["d"] // 2 if case["det"] or case["d"] == 2 else (case["d"] - 1) // 2
    wants = [w for w in (classes(singles, [], cos, k, k * limit(case, x)) for k in range(1, t + 1)) if w]
    if not wants:
        require(bits == 0 and cost == 0, f"{bits} measurements with {cost} CNOTs although there is nothing to detect")
        return None
    if any(len(w) > 14 for w in wants):
        raise Skip("too many classes")
    if case["fn"] == "heuristic":
        require(bits >= 1 and cost >= sum(cover_opt(group, w, None)[0] for w in wants), f"{cost} CNOTs are fewer than needed")
        return "heuristic"
    best = [cover_opt(group, w, case["anc"]) for w in wants]
    if None in best:
        return "impossible"
    require(cost == sum(w for w, _ in best), f"{cost} CNOTs in the verification, {sum(w for w, _ in best)} suffice ({case['anc']} ancillas allowed per layer)")
    require(bits == sum(c for _, c in best), f"{bits} measurements, {sum(c for _, c in best)} suffice")
    return f"optimal, {'limited' if case['anc'] else 'not limited'}"


PROP = Prop(
    "P16",
    [
        Sub("heuristic", check_heur, strategy=gen_heur, quick=400, thorough=10000, shards=(3, 8), timeout=200,
            rule="non-trivial: there is something to detect; random circuits, codes, additional faults and parameters"),
        Sub("optimal", check_opt, strategy=gen_opt, quick=600, thorough=6000, shards=(5, 8), timeout=150,
            rule="non-trivial: a layer was compared with the exact optimum (at most 14 classes)"),
        Sub("circuits", check_circ, strategy=gen_circ, quick=300, thorough=4000, shards=(3, 8), timeout=150,
            rule="non-trivial: there is something to detect; CNOTs and measurements of the verification circuit against the exact optimum"),
    ],
    assumptions=["circuits consist of a layer of Hadamards followed by CNOTs", "searches get a time limit that the small instances do not reach"],
)
