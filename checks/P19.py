"""P19: the noisy simulator of state preparation simulates the given circuit with the documented noise and counts what it samples."""

import math
import random

import numpy as np
import stim
from hypothesis import strategies as st
from qiskit import AncillaRegister, ClassicalRegister, QuantumCircuit, QuantumRegister
from qiskit.converters import circuit_to_dag, dag_to_circuit

import matplotlib
from matplotlib import pyplot as plt

import gf2
import prep
from checks.P14 import build, circuit
from harness import Prop, Skip, Sub, Violation, require
from mqt.qecc import CSSCode
from mqt.qecc.ft_stateprep import (
    LutDecoder,
    NoisyNDFTStatePrepSimulator,
    heuristic_prep_circuit,
    heuristic_verification_circuit,
    naive_verification_circuit,
)
from mqt.qecc.ft_stateprep import state_prep as S

matplotlib.use("Agg")
DATA = ["422", "642", "steane", "shor", "surface3", "toric2"]


# ------------------------------------------------------------------------------------------- reference noise model
def layered(qc):
    """Operations by earliest possible layer: [[(name, qubits)]]."""
    out = []
    for layer in circuit_to_dag(qc).layers():
        sub = dag_to_circuit(layer["graph"])
        out.append([(i.operation.name, [qc.find_bit(sub.qubits[sub.find_bit(q).index]).index for q in i.qubits]) for i in sub.data])
    return out


def reference(qc, n, code_checks, zero, p, parallel, layers):
    """Own noisy circuit; -> (stim circuit, measurement keys in order)."""
    N = max(qc.num_qubits, n)
    c = stim.Circuit()
    keys = []
    init = [False] * N
    plus = [False] * N
    seen = {}
    w = 2 * p / 3

    def idle(used):
        q = [i for i in range(qc.num_qubits) if init[i] and i not in used]
        if q and w > 0:
            c.append("DEPOLARIZE1", q, w)

    def start(q):
        if not init[q]:
            if plus[q]:
                c.append("H", [q])
                c.append("Z_ERROR", [q], w)
            else:
                c.append("X_ERROR", [q], w)
            init[q], plus[q] = True, False

    used = []
    for layer in layers:
        if parallel and used:
            idle(used)
        used = []
        for name, q in layer:
            if name == "h":
                if init[q[0]]:
                    c.append("H", q)
                    c.append("DEPOLARIZE1", q, w)
                else:
                    plus[q[0]] = not plus[q[0]]
                    continue
            elif name == "cx":
                start(q[0])
                start(q[1])
                c.append("CX", q)
                c.append("DEPOLARIZE2", q, p)
            elif name == "measure":
                c.append("X_ERROR", q, w)
                c.append("MR", q)
                keys.append(("v", q[0], seen.get(q[0], 0)))
                seen[q[0]] = seen.get(q[0], 0) + 1
                init[q[0]] = plus[q[0]] = False
            elif name == "reset":
                continue
            else:
                raise Skip(name)
            used += q
            if not parallel:
                idle(q)
    for q in range(n):  # qubits without any two-qubit gate are initialized as well
        start(q)
    a = N
    for t, rows in (("x", code_checks[0]), ("z", code_checks[1])):
        for i, row in enumerate(rows):
            if t == "x":
                c.append("H", [a])
            for q, b in enumerate(row):
                if b:
                    c.append("CX", [a, q] if t == "x" else [q, a])
            if t == "x":
                c.append("H", [a])
            c.append("MR", [a])
            keys.append((t, i))
    for q in range(n):
        c.append("M" if zero else "MX", [q])
        keys.append(("d", q))
    return c, keys


def mechanisms(c, keys, zero, state_rows, n):
    """Symptom sets of the circuit's error mechanisms -> probability."""
    c = c.copy()
    index = {k: i for i, k in enumerate(keys)}
    M = len(keys)
    names = []
    dets = [[k] for k in keys if k[0] != "d"] + [[("d", q) for q in range(n) if v >> q & 1] for v in state_rows]
    for j, d in enumerate(dets):
        c.append("DETECTOR", [stim.target_rec(index[k] - M) for k in d])
        names.append(d[0] if d[0][0] != "d" else ("p", j))
    for d in range(len(names)):
        if names[d][0] == "p":
            names[d] = ("p", d - (len(names) - len(state_rows)))
    out = {}
    for e in c.detector_error_model(approximate_disjoint_errors=True).flattened():
        if e.type == "error":
            s = set()
            for t in e.targets_copy():
                s ^= {names[t.val]}
            s = frozenset(s)
            p = e.args_copy()[0]
            out[s] = out.get(s, 0) * (1 - p) + p * (1 - out.get(s, 0))
    out.pop(frozenset(), None)
    return out


def sut_keys(sim, n, ncheck):
    """Keys of the simulator's measurements, from its circuit and its public index lists."""
    c = sim.stim_circ
    order = []
    for inst in c.flattened():
        if inst.name in ("M", "MR", "MX", "MRX", "MZ", "MRZ", "MY"):
            order += [t.value for t in inst.targets_copy()]
    keys = [None] * len(order)
    ver = set(sim.x_verification_measurements) | set(sim.z_verification_measurements)
    require(len(sim.x_measurements) == ncheck[0] and len(sim.z_measurements) == ncheck[1], "wrong numbers of check measurements")
    require(len(sim.data_measurements) == n, f"{len(sim.data_measurements)} data measurements for {n} qubits")
    lists = [("x", sim.x_measurements), ("z", sim.z_measurements), ("d", sim.data_measurements)]
    for t, l in lists:
        for i, j in enumerate(l):
            require(0 <= j < len(keys) and keys[j] is None and j not in ver, f"measurement {j} is listed twice or does not exist")
            keys[j] = (t, i)
    seen = {}
    for j in sorted(ver):
        require(j < len(order), f"verification measurement {j} does not exist")
        q = order[j]
        keys[j] = ("v", q, seen.get(q, 0))
        seen[q] = seen.get(q, 0) + 1
    require(None not in keys, "a measurement is in none of the lists")
    for q in range(n):
        require(order[sim.data_measurements[q]] == q, "data measurements do not follow the order of the qubits")
    return keys


# ------------------------------------------------------------------------------------------- cases
@st.composite
def gen(draw, dem=True):
    how = draw(st.sampled_from(["circuit", "state", "named", "named", "gadget"]))
    if how == "gadget" and draw(st.booleans()):  # a cat state has stabilizers of large weight
        n = draw(st.integers(6, 14))
        r = random.Random(draw(st.integers(0, 2**32)))
        zero = draw(st.booleans())
        pairs = [[r.randrange(i), i] for i in range(1, n)]
        ones, two = [[1] * n], [[int(q in e) for q in range(n)] for e in (pairs if draw(st.booleans()) else pairs[:3])]
        if zero:
            c = {"n": n, "h": [0], "cn": pairs, "zero": True, "hx": ones, "hz": two, "d": 3}
        else:
            c = {"n": n, "h": list(range(1, n)), "cn": [e[::-1] for e in pairs], "zero": False, "hx": two, "hz": ones, "d": 3}
    elif how == "circuit" or how == "gadget":
        c = {**draw(circuit(7)), "d": 3}
    elif how == "state":
        c = {**draw(prep.state_code(3, 7, (3,))), "zero": draw(st.booleans())}
    else:
        c = {**draw(prep.named(DATA)), "zero": draw(st.booleans())}
    c["ver"] = "none" if how == "gadget" else draw(st.sampled_from(["none", "heuristic", "heuristic", "naive", "one"]))
    if how == "gadget":
        c["t"] = draw(st.sampled_from([1, 2]))
        c["stabs"] = draw(st.lists(st.tuples(st.booleans(), st.integers(1, 255)), min_size=1, max_size=3))
        c["share"] = draw(st.booleans())
    return {**c, "p": draw(st.sampled_from([0.001, 0.01, 0.05, 0.1, 0.3])), "parallel": draw(st.booleans()), "how": how}


def make(case):
    code = prep.np_code(case, CSSCode)
    zero = case["zero"]
    n = code.n
    if "cn" in case:
        sp = S.StatePrepCircuit(build(case), code, zero)
    else:
        sp = heuristic_prep_circuit(code, True, zero)
    if case["how"] == "gadget":
        xs, zs = prep.code_spaces(case, zero)
        qc = QuantumCircuit(QuantumRegister(n, "q"))
        qc.compose(sp.circ, inplace=True)
        for i, (is_z, v) in enumerate(case["stabs"]):
            rows = zs if is_z else xs
            w = 0
            for j, r in enumerate(rows):
                if v >> (j % 8) & 1:
                    w ^= r
            if not w or gf2.wt(w) < 2:
                continue
            if case["share"]:  # one ancilla for all measurements
                if not qc.ancillas:
                    qc.add_register(AncillaRegister(1, "stab_anc"))
                qc.add_register(ClassicalRegister(1, f"stab_bit{i}"))
                a = qc.ancillas[0]
                if not is_z:
                    qc.h(a)
                for q in range(n):
                    if w >> q & 1:
                        qc.cx(q, a) if is_z else qc.cx(a, q)
                if not is_z:
                    qc.h(a)
                qc.measure(a, qc.clbits[-1])
                qc.reset(a)
                continue
            a, c = AncillaRegister(1, f"stab_anc{i}"), ClassicalRegister(1, f"stab_bit{i}")
            qc.add_register(a)
            qc.add_register(c)
            S.measure_flagged(qc, np.array([q for q in range(n) if w >> q & 1]), a[0], c[0], case["t"], is_z)
        return code, sp, qc
    if case["ver"] in ("heuristic", "one"):
        return code, sp, heuristic_verification_circuit(sp, full_fault_tolerance=case["ver"] == "heuristic")
    return code, sp, naive_verification_circuit(sp) if case["ver"] == "naive" else sp.circ


def check_model(case):
    code, sp, qc = make(case)
    n, zero, p = code.n, case["zero"], case["p"]
    ps = [f * p for f in case.get("before", [])] + [p]
    sim = NoisyNDFTStatePrepSimulator(qc, code, ps[0], zero, case["parallel"])
    for q in ps[1:]:
        sim.set_p(q)
    xs, zs = prep.code_spaces(case, zero)
    checks = (case["hx"], case["hz"])
    keys = sut_keys(sim, n, (len(checks[0]), len(checks[1])))
    rows = list(gf2.Span(zs if zero else xs).basis.values())
    try:
        got = mechanisms(sim.stim_circ, keys, zero, rows, n)
    except ValueError as e:
        raise Violation(f"a verification, check or stabilizer measurement is random without noise: {str(e)[:300]}")
    lays = layered(qc)
    orders = [lays] if case["parallel"] else [lays, [[(g, list(q))] for g, q, _ in prep.ops(qc)]]
    wants = []
    for lay in orders:
        c, k = reference(qc, n, checks, zero, p, case["parallel"], lay)
        wants.append(mechanisms(c, k, zero, rows, n))

    def diff(want):
        for s in set(got) | set(want):
            if abs(got.get(s, 0) - want.get(s, 0)) > 1e-9 + 1e-7 * want.get(s, 0):
                return f"errors with symptoms {sorted(s)} have probability {got.get(s, 0):.6g}, expected {want.get(s, 0):.6g}"
        return None

    diffs = [diff(w) for w in wants]
    require(None in diffs, lambda: diffs[0])
    return f"{case['how']} {case['ver']}{' serial' if not case['parallel'] else ''}" if got else None


@st.composite
def gen_stat(draw):
    c = {**draw(prep.named(["422", "642", "steane", "shor", "surface3"])), "zero": draw(st.booleans()), "how": "named"}
    if draw(st.booleans()):
        c = {**draw(prep.state_code(4, 6, (3,))), "zero": draw(st.booleans()), "how": "state"}
    shots = draw(st.sampled_from([1, 10, 40, 60, 1000, 8192, 20000]))
    p = draw(st.sampled_from([0.0, 0.01, 0.05, 0.1, 0.2] if shots not in (40, 60) else [0.2, 0.4]))
    return {**c, "ver": draw(st.sampled_from(["none", "heuristic", "one"] if shots not in (40, 60) else ["heuristic"])), "p": p, "parallel": draw(st.booleans()),
            "shots": shots, "batch": draw(st.sampled_from([1, 3] if shots in (40, 60) else [3, 700, 5000, 10**6])) if shots < 5000 else draw(st.sampled_from([2048, 5000, 10**6])),
            "min_errors": draw(st.sampled_from([None, None, 1, 40])), "again": draw(st.booleans())}  # fmt: skip


def check_stat(case):
    code, sp, qc = make(case)
    if code.k == 0:
        raise Skip("no logical qubit")
    n, zero, p = code.n, case["zero"], case["p"]
    sim = NoisyNDFTStatePrepSimulator(qc, code, p, zero, case["parallel"])
    if case["again"]:
        sim.set_p(min(1.0, p + 0.1))
        sim.logical_error_rate(10, 10, at_least_min_errors=False)
        sim.set_p(p)
    c, keys = reference(qc, n, (case["hx"], case["hz"]), zero, p, case["parallel"], layered(qc))
    sample = c.compile_sampler(seed=1).sample(20000)
    idx = {k: i for i, k in enumerate(keys)}
    acc = ~sample[:, [i for k, i in idx.items() if k[0] == "v"]].any(axis=1)
    s = sample[acc][:, [idx["z" if zero else "x", i] for i in range(len(case["hz"] if zero else case["hx"]))]].astype(np.int8)
    data = sample[acc][:, [idx["d", q] for q in range(n)]].astype(int)
    errs = np.zeros(0, dtype=bool)
    if len(s):
        dec = LutDecoder(code)
        uniq, inv = np.unique(s, axis=0, return_inverse=True)
        est = np.array([dec.decode_x(u) if zero else dec.decode_z(u) for u in uniq])[inv.reshape(-1)]
        L = np.asarray(code.Lz if zero else code.Lx).astype(int)
        errs = ((data + est) @ L.T % 2).any(axis=1)
    ra, pl = acc.mean(), errs.mean() if len(errs) else 0.0
    ref_n = len(errs)
    me = case["min_errors"]
    if me is not None and ra * pl < 0.002:
        me = None
    if me is None:
        out = sim.logical_error_rate(case["shots"], case["batch"], at_least_min_errors=False)
    else:
        out = sim.logical_error_rate(case["shots"], case["batch"], at_least_min_errors=True, min_errors=me)
    p_l, r_a, num, shots = out
    b = min(case["batch"], case["shots"])
    if me is None:
        require(shots == -(-case["shots"] // b) * b, f"{shots} shots reported, {case['shots']} in batches of {b} asked for")
    else:
        require(shots % b == 0 and shots >= b, f"{shots} shots in batches of {b}")
        require(num >= me, f"stopped after {num} errors, {me} asked for")
    require(0 <= r_a <= 1 and 0 <= num <= round(r_a * shots), f"acceptance {r_a}, {num} errors in {shots} shots")
    acc_n = r_a * shots
    require(abs(acc_n - round(acc_n)) < 1e-6 * max(1, shots), f"acceptance rate {r_a} is no fraction of {shots}")
    want = num / acc_n / code.k if acc_n else 0.0
    require(math.isclose(p_l, want, rel_tol=1e-6, abs_tol=1e-12), f"logical error rate {p_l}, but {num} errors in {acc_n:.0f} accepted shots for k = {code.k}")
    if p == 0:
        require(num == 0 and r_a == 1 and p_l == 0, f"without noise: {out}")

    def near(a, na, q, nq, what):
        pool = (a * na + q * nq) / (na + nq)
        sig = math.sqrt(max(pool * (1 - pool), 1e-4) / nq)
        ref = min(max(a, q - 7 * sig), q + 7 * sig)  # the value in the reference's confidence interval that fits best
        require(na * kl(a, min(max(ref, 1e-3), 1 - 1e-3)) <= math.log(2e10), f"{what} {a:.5f} in {na} samples, expected about {q:.5f}")

    near(r_a, shots, ra, 20000, "acceptance rate")
    if me is None and acc_n >= 500 and ref_n >= 500:
        near(p_l * code.k, round(acc_n), pl, ref_n, "logical error rate times k")
        near(num / acc_n, round(acc_n), pl, ref_n, "fraction of logical errors")
    return f"{case['ver']}" if num else None


def kl(q, p):
    return sum(a * math.log(a / b) for a, b in ((q, p), (1 - q, 1 - p)) if a > 0)


@st.composite
def gen_ft(draw):
    c = {**draw(prep.named(["steane", "shor", "surface3"])), "zero": draw(st.booleans())}
    return {**c, "ver": draw(st.sampled_from(["heuristic", "one"])), "parallel": draw(st.booleans()), "how": "named", "p": 0.01}


def check_ft(case):
    """No single error mechanism of the simulated circuit is accepted and decoded wrongly."""
    code, sp, qc = make(case)
    n, zero = code.n, case["zero"]
    sim = NoisyNDFTStatePrepSimulator(qc, code, case["p"], zero, case["parallel"])
    keys = sut_keys(sim, n, (len(case["hx"]), len(case["hz"])))
    L = [gf2.to_int([int(b) for b in r]) for r in np.asarray(code.Lz if zero else code.Lx)]
    mech = mechanisms(sim.stim_circ, keys, zero, L, n)
    t = "z" if zero else "x"
    m = len(case["hz"] if zero else case["hx"])
    hit = 0
    for s in mech:
        if any(k[0] == "v" for k in s):
            hit += 1
            continue
        syn = np.array([int((t, i) in s) for i in range(m)], dtype=np.int8)
        e = gf2.to_int([int(b) for b in (sim.decoder.decode_x(syn) if zero else sim.decoder.decode_z(syn))])
        for j, l in enumerate(L):
            require((("p", j) in s) == bool(gf2.parity(e & l)), f"the single error with symptoms {sorted(s)} is accepted and decoded to a logical error")
    return case["name"] if hit else None


@st.composite
def gen_plot(draw):
    c = {**draw(prep.named(["422", "steane", "shor", "surface3"])), "zero": draw(st.booleans()), "how": "named"}
    ps = st.lists(st.sampled_from([0.02, 0.04, 0.08, 0.15, 0.3]), min_size=1, max_size=4, unique=True)
    return {**c, "ver": draw(st.sampled_from(["none", "heuristic"])), "p": 0.05, "parallel": draw(st.booleans()),
            "runs": [{"ps": draw(ps), "name": draw(st.sampled_from([None, "a", "code b"])), "n": draw(st.sampled_from([None, 20, 700]))} for _ in range(draw(st.integers(1, 2)))]}  # fmt: skip


def check_plot(case):
    """The plotted curves are the rates at the given error rates."""
    code, sp, qc = make(case)
    n, zero = code.n, case["zero"]
    sim = NoisyNDFTStatePrepSimulator(qc, code, case["p"], zero, case["parallel"])
    plt.close("all")
    try:
        for r in case["runs"]:
            sim.plot_state_prep(r["ps"], name=r["name"], **({} if r["n"] is None else {"min_errors": r["n"]}))
        axes = plt.gcf().axes
        require(len(plt.get_fignums()) == 1 and len(axes) == 2, lambda: f"{len(axes)} axes")
        for ax, what in zip(axes, ("Logical error rate", "Acceptance rate")):
            require(ax.get_xscale() == ax.get_yscale() == "log", "the axes are not logarithmic")
            require(ax.get_ylabel() == what and "hysical" in ax.get_xlabel(), lambda: f"axes labelled {ax.get_xlabel()!r}, {ax.get_ylabel()!r}")
            require(len(ax.lines) == len(case["runs"]), lambda: f"{len(ax.lines)} curves")
            names = [r["name"] for r in case["runs"] if r["name"] is not None]
            leg = ax.get_legend()
            require(([] if leg is None else [t.get_text() for t in leg.get_texts()]) == names, lambda: f"legend instead of {names}")
        curves = [[(list(map(float, l.get_xdata())), list(map(float, l.get_ydata()))) for l in ax.lines] for ax in axes]
    finally:
        plt.close("all")
    L = np.asarray(code.Lz if zero else code.Lx).astype(int)
    dec = LutDecoder(code)
    for (x, pl), (x2, ra), r in zip(*curves, case["runs"]):
        require(sorted(x) == sorted(x2) == sorted(r["ps"]), lambda: f"points at {x}, {x2}")
        ra = dict(zip(x2, ra))
        for p, e in zip(x, pl):
            c, keys = reference(qc, n, (case["hx"], case["hz"]), zero, p, case["parallel"], layered(qc))
            s = c.compile_sampler(seed=1).sample(20000)
            idx = {k: i for i, k in enumerate(keys)}
            ok = ~s[:, [i for k, i in idx.items() if k[0] == "v"]].any(axis=1)
            s = s[ok]
            uniq, inv = np.unique(s[:, [idx["z" if zero else "x", i] for i in range(len(case["hz"] if zero else case["hx"]))]].astype(np.int8), axis=0, return_inverse=True)
            est = np.array([dec.decode_x(u) if zero else dec.decode_z(u) for u in uniq])[inv.reshape(-1)]
            we = ((s[:, [idx["d", q] for q in range(n)]] + est) @ L.T % 2).any(axis=1).mean()
            wa = ok.mean()
            for got, want, m, f in ((ra[p], wa, 20000, 1), (e, we, len(s), code.k)):
                require(abs(got * f - want) <= 7 * math.sqrt(max(want * (1 - want), 1e-3) * 1.3 / m) + 1e-3, lambda: f"{'acceptance' if f == 1 and m == 20000 else 'logical error'} rate {got} at p = {p}, about {want / f} expected")
    return case["ver"]


def gen_model():
    return st.builds(lambda c, b: {**c, "before": b}, gen(), st.lists(st.sampled_from([0.0, 0.5, 0.9, 0.999, 1.0, 1.0001, 1.01, 2.0]), max_size=3))


PROP = Prop(
    "P19",
    [
        Sub("noise model", check_model, strategy=gen_model, quick=400, thorough=8000, shards=(4, 8), timeout=150,
            rule="non-trivial: there are detectable errors; every error mechanism's symptoms and probability against an independent noisy circuit"),
        Sub("statistics", check_stat, strategy=gen_stat, quick=120, thorough=2000, shards=(3, 8), timeout=150, nondet=True,
            rule="non-trivial: logical errors were counted"),
        Sub("single errors", check_ft, strategy=gen_ft, quick=40, thorough=400, shards=(2, 8), timeout=150,
            rule="non-trivial: the verification rejects some error"),
        Sub("plot", check_plot, strategy=gen_plot, quick=40, thorough=400, shards=(3, 8), timeout=150, nondet=True,
            rule="every case: the plotted curves against an independent simulation at every point"),
    ],
    assumptions=["operations are scheduled as early as possible; in serial mode in schedule or program order",
                 "statistical comparisons use Chernoff bounds with failure probability 1e-10 and 7 standard deviations of the reference"],
)
