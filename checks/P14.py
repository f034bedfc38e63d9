"""P14: fault sets contain exactly the error classes that the given number of faults can cause and that are too heavy."""

import random

import numpy as np
from hypothesis import strategies as st
from qiskit import QuantumCircuit

import gf2
import prep
from harness import Prop, Sub, require
from mqt.qecc import CSSCode
from mqt.qecc.ft_stateprep import StatePrepCircuit, heuristic_prep_circuit


@st.composite
def circuit(draw, nmax=7, wide=False):
    """Random H layer and CNOTs, and a code of which this circuit prepares |0>_L or |+>_L."""
    n = draw(st.integers(9, 13)) if wide else draw(st.integers(3, nmax))
    r = random.Random(draw(st.integers(0, 2**32)))
    h = sorted(r.sample(range(n), r.randint(1, 3 if wide else n - 1)))
    if draw(st.booleans()):  # only useful CNOTs at first
        cn = []
        live = set(h)
        for _ in range(r.randint(1, 2 * n)):
            a = r.choice(sorted(live))
            b = r.choice([q for q in range(n) if q != a])
            cn.append([a, b])
            live.add(b)
    else:
        cn = [r.sample(range(n), 2) for _ in range(r.randint(1, 2 * n))]
    xs = []
    for q in h:
        v = 1 << q
        for a, b in cn:
            if v >> a & 1:
                v ^= 1 << b
        xs.append(v)
    zs = gf2.nullspace(xs, n)
    zero = draw(st.booleans())
    xs, zs = prep.mix_rows(xs, r), prep.mix_rows(zs, r)
    if zero:
        zs = zs[: r.randint(1, len(zs))]
    else:
        xs = xs[: r.randint(1, len(xs))]
    return {"n": n, "h": h, "cn": cn, "zero": zero, "hx": [gf2.to_list(v, n) for v in xs], "hz": [gf2.to_list(v, n) for v in zs]}


def build(case):
    qc = QuantumCircuit(case["n"])
    for q in case["h"]:
        qc.h(q)
    for a, b in case["cn"]:
        qc.cx(a, b)
    return qc


def single_faults(o, n, x_errors):
    """Distinct non-zero X (Z) parts at the end of the circuit of all single faults in its preparations and gates."""
    x, z, _, _ = prep.faults(o, n, 0, meas=False)
    return sorted(set(prep.pack(x if x_errors else z)) - {0})


def classes(singles, extra, cos, k, limit):
    """Cosets of sums of exactly k errors with minimum weight above limit -> minimum weight."""
    sums = {0}
    for _ in range(k):
        sums = {a ^ b for a in sums for b in (*singles, *extra)}
    out = {}
    for v in sums:
        w = cos.weight(v)
        if w > limit:
            out[cos.key(v)] = w
    return out


def limit(case, x_errors):
    d = case["d"]
    de = case["dx"] if x_errors else case["dz"]
    return max((de - 1) // 2, 1) // max((d - 1) // 2, 1)


def compare(got, want, cos, n, what, unique=True):
    rows = [gf2.to_int(r) for r in np.asarray(got).reshape(-1, n).tolist()] if len(got) else []
    keys = [cos.key(v) for v in rows]
    miss = set(want) - set(keys)
    require(not miss, lambda: f"{what}: the class of {gf2.to_list(min(miss), n)} (minimum weight {want[min(miss)]}) is missing")
    extra = set(keys) - set(want)
    require(not extra, lambda: f"{what}: contains {gf2.to_list(min(extra), n)}, which these faults do not cause or which is not too heavy")
    require(all(gf2.wt(v) == want[k] for v, k in zip(rows, keys)), f"{what}: not reduced to minimum weight")
    require(len(set(rows)) == len(rows), f"{what}: duplicates")
    if unique:
        require(len(set(keys)) == len(keys), f"{what}: several representatives of one class")


@st.composite
def gen(draw):
    d = draw(st.sampled_from([2, 3, 3, 4, 5, 6]))
    wide = d < 6 and draw(st.integers(0, 5)) == 0
    c = draw(circuit(7 if d <= 4 else 6, wide))
    dx = d + draw(st.sampled_from([0, 0, 2, 4]))
    dz = d + draw(st.sampled_from([0, 0, 2, 4]))
    calls = draw(st.lists(st.sampled_from(["x1", "z1", "x2", "z2", "all", "X1", "Z1", "cx", "cz", "det", "corr"]), min_size=1, max_size=5))
    r = random.Random(draw(st.integers(0, 2**32)))
    add = [gf2.to_list(r.getrandbits(c["n"]), c["n"]) for _ in range(draw(st.integers(0, 3)))]
    if wide:  # light faults whose sums are heavy
        add = [[int(q in f) for q in range(c["n"])] for f in (r.sample(range(c["n"]), r.randint(2, 4)) for _ in range(draw(st.integers(2, 3))))]
        calls[-1] = draw(st.sampled_from(["cx", "cz"]))
    return {**c, "d": d, "dx": dx, "dz": dz, "calls": calls, "add": add, "det": draw(st.booleans())}


def check(case):
    n = case["n"]
    code = prep.np_code(case, CSSCode, x_distance=case["dx"], z_distance=case["dz"])
    qc = build(case)
    o = prep.ops(qc)
    sp = StatePrepCircuit(qc, code, case["zero"], case["det"])
    xs, zs = prep.code_spaces(case, case["zero"])
    cos = {True: prep.Cosets(xs, n), False: prep.Cosets(zs, n)}
    singles = {b: single_faults(o, n, b) for b in (True, False)}
    add = [gf2.to_int(a) for a in case["add"]]
    A = np.array(case["add"], dtype=np.int8).reshape(-1, n)
    det = case["det"]
    hit = set()

    def want(k, x, extra=()):
        return classes(singles[x], extra, cos[x], k, k * limit(case, x))

    def max_errors():
        return case["d"] // 2 if det or case["d"] == 2 else (case["d"] - 1) // 2

    for call in case["calls"]:
        t = max_errors()
        require(sp.max_errors == t, f"max_errors = {sp.max_errors} for distance {case['d']} (detection: {det})")
        if call in ("det", "corr"):
            det = call == "det"
            sp.set_error_detection(det)
        elif call == "all":
            sp.compute_fault_sets()
            for k in range(1, t + 1):
                for x, sets in ((True, sp.x_fault_sets), (False, sp.z_fault_sets)):
                    w = want(k, x)
                    compare(sets[k], w, cos[x], n, f"fault set of {k} {'XZ'[not x]} errors", unique=False)
                    hit |= {(k, x)} if w else set()
        elif call in ("cx", "cz"):
            x = call == "cx"
            sets = sp.combine_faults(A, x)
            for k in range(1, t + 1):
                w = want(k, x, add)
                compare(sets[k], w, cos[x], n, f"fault set of {k} {'XZ'[not x]} errors combined with {case['add']}", unique=False)
                hit |= {(k, x, "add")} if w else set()
        else:
            k, x = int(call[1]), call[0] in "xX"
            if k > t:
                continue
            reduce = call[0] in "xz"
            w = want(k, x)
            got = sp.compute_fault_set(k, x_errors=x, reduce=reduce)
            compare(got, w, cos[x], n, f"fault set of {k} {'XZ'[not x]} errors", unique=False)
            hit |= {(k, x)} if w else set()
    return f"t={max_errors()}" if hit else None


@st.composite
def gen_syn(draw):
    c = draw(st.one_of(prep.named(["422", "642", "steane", "shor", "surface3", "toric2"]), prep.state_code(4, 8)))
    return {**c, "zero": draw(st.booleans()), "opt": draw(st.booleans())}


def check_syn(case):
    """Synthesized circuits, fresh objects: one representative per class."""
    code = prep.np_code(case, CSSCode)
    n = code.n
    sp = heuristic_prep_circuit(code, case["opt"], case["zero"])
    o = prep.ops(sp.circ)
    case = {**case, "dx": case["d"], "dz": case["d"]}
    xs, zs = prep.code_spaces(case, case["zero"])
    hit = 0
    for x, st_ in ((True, xs), (False, zs)):
        cos = prep.Cosets(st_, n)
        w = classes(single_faults(o, n, x), (), cos, 1, limit(case, x))
        got = sp.compute_fault_set(1, x_errors=x)
        compare(got, w, cos, n, f"fault set of one {'XZ'[not x]} error")
        hit += len(w)
    return case["name"] if hit else None


PROP = Prop(
    "P14",
    [
        Sub("histories", check, strategy=gen, quick=500, thorough=4000, shards=(4, 8), timeout=200,
            rule="non-trivial: some fault set asked for is not empty; random circuits, distances and call histories"),
        Sub("synthesized", check_syn, strategy=gen_syn, quick=300, thorough=1500, shards=(4, 8), timeout=200,
            rule="non-trivial: a single fault causes a too heavy error"),
    ],
    assumptions=["circuits consist of a layer of Hadamards followed by CNOTs, as produced by the synthesis methods"],
)
