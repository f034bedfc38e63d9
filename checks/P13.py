"""P13: synthesized preparation circuits prepare exactly the requested logical state."""

from hypothesis import strategies as st

import gf2
import prep
from harness import Prop, Sub, require
from mqt.qecc import CSSCode
from mqt.qecc.codes import InvalidCSSCodeError
from mqt.qecc.ft_stateprep import depth_optimal_prep_circuit, gate_optimal_prep_circuit, heuristic_prep_circuit

T = 60  # generous, so that a loaded machine does not change the outcome


def check_circuit(case, sp, code, what):
    zero = case["zero"]
    n = len(case["hx"][0])
    require(sp is not None, f"{what}: no circuit")
    require(sp.zero_state is zero or sp.zero_state == zero, f"{what}: zero_state is {sp.zero_state}")
    require(sp.code is code, f"{what}: the circuit belongs to another code")
    o = prep.ops(sp.circ)
    require(sp.circ.num_qubits == n and sp.num_qubits == n, f"{what}: {sp.circ.num_qubits} qubits for {n}")
    require(all(g in ("h", "cx", "barrier") for g, _, _ in o), f"{what}: operations {sorted({g for g, _, _ in o})}")
    xs, zs = prep.code_spaces(case, zero)
    bad = prep.prepares(o, n, xs, zs)
    require(bad is None, f"{what}: not the state {'|0>' if zero else '|+>'} of the code: {bad}")
    # the stabilizers the object lists are those of the state
    gx, gz = gf2.ints(sp.x_checks.tolist()), gf2.ints(sp.z_checks.tolist())
    require(gf2.same_space(gx, xs) and gf2.same_space(gz, zs), f"{what}: x_checks/z_checks do not generate the stabilizers of the state")
    return o


def same_code(case, code):
    n = len(case["hx"][0])
    require(gf2.ints(code.Hx.tolist()) == gf2.ints(case["hx"]) and gf2.ints(code.Hz.tolist()) == gf2.ints(case["hz"]) and code.n == n,
            "synthesis changed the check matrices of the code")  # fmt: skip


@st.composite
def gen_heur(draw):
    c = draw(st.one_of(prep.named(list(prep.NAMED)), prep.random_code(2, 10, 6), prep.random_code(2, 7, 4), prep.state_code(3, 9)))
    return {**c, "zero": draw(st.booleans()), "opt": draw(st.booleans())}


def check_heur(case):
    code = prep.np_code(case, CSSCode)
    sp = heuristic_prep_circuit(code, optimize_depth=case["opt"], zero_state=case["zero"])
    o = check_circuit(case, sp, code, f"heuristic circuit (optimize_depth={case['opt']}, zero_state={case['zero']})")
    same_code(case, code)
    return case["name"] if sum(g == "cx" for g, _, _ in o) > 1 else None


@st.composite
def gen_opt(draw):
    c = draw(st.one_of(prep.named(["422", "surf2", "steane"]), prep.random_code(2, 6, 3), prep.random_code(3, 5, 3), prep.state_code(3, 6)))
    return {**c, "zero": draw(st.booleans()), "by": draw(st.sampled_from(["gates", "depth"]))}


_ORB = {}


def optimum(rows, n, layers):
    if (n, layers) not in _ORB:
        _ORB[n, layers] = prep.Orbit(n, layers)
    return _ORB[n, layers][rows]


def cx_depth(o, n):
    d = [0] * n
    for g, q, _ in o:
        if g == "cx":
            d[q[0]] = d[q[1]] = max(d[q[0]], d[q[1]]) + 1
    return max(d)


def check_opt(case):
    code = prep.np_code(case, CSSCode)
    n = code.n
    f = gate_optimal_prep_circuit if case["by"] == "gates" else depth_optimal_prep_circuit
    rows = gf2.ints(case["hx"] if case["zero"] else case["hz"])
    best = optimum(rows, n, case["by"] == "depth") if n <= 5 or (case["by"] == "gates" and n <= 6) else None
    easy = best is not None and n * best <= 16
    sp = f(code, zero_state=case["zero"], **({"min_timeout": T, "max_timeout": T} if easy else {"max_timeout": 2}))
    if not easy and sp is None:
        return "no result in time"
    o = check_circuit(case, sp, code, f"{case['by']}-optimal circuit (zero_state={case['zero']})")
    same_code(case, code)
    cost = sum(g == "cx" for g, _, _ in o) if case["by"] == "gates" else cx_depth(o, n)
    if easy:
        require(cost == best, f"{cost} {case['by']} although {best} suffice")
    return f"{case['by']}{', exact optimum' if easy else ''}" if cost > 1 else None


@st.composite
def gen_bound(draw):
    c = draw(st.one_of(prep.named(["422", "surf2"]), prep.random_code(3, 5, 3), prep.state_code(3, 5)))
    lo = draw(st.integers(1, 3))
    return {**c, "zero": draw(st.booleans()), "by": draw(st.sampled_from(["gates", "depth"])), "lo": lo, "hi": lo + draw(st.integers(0, 5))}


def check_bound(case):
    """With bounds on the search: a circuit is found exactly if one within the upper bound exists."""
    code = prep.np_code(case, CSSCode)
    n = code.n
    f, a = (gate_optimal_prep_circuit, "gates") if case["by"] == "gates" else (depth_optimal_prep_circuit, "depth")
    sp = f(code, zero_state=case["zero"], min_timeout=T, max_timeout=T, **{f"min_{a}": case["lo"], f"max_{a}": case["hi"]})
    best = optimum(gf2.ints(case["hx"] if case["zero"] else case["hz"]), n, a == "depth")
    if best > case["hi"]:
        require(sp is None, f"a circuit within {case['hi']} {a} is reported, the optimum is {best}")
        return "none"
    o = check_circuit(case, sp, code, f"{a}-bounded circuit")
    cost = sum(g == "cx" for g, _, _ in o) if a == "gates" else cx_depth(o, n)
    require(cost == best, f"{cost} {a} although {best} suffice (search from {case['lo']} to {case['hi']})")
    return "found" if best else None


@st.composite
def gen_bad(draw):
    c = draw(prep.random_code(2, 7, 4))
    return {**c, "drop": draw(st.sampled_from(["hx", "hz"])), "fn": draw(st.integers(0, 2))}


def check_bad(case):
    import numpy as np

    m = {k: (None if k == case["drop"] else np.array(case[k], dtype=np.int8)) for k in ("hx", "hz")}
    code = CSSCode(case["d"], m["hx"], m["hz"])
    f = [heuristic_prep_circuit, gate_optimal_prep_circuit, depth_optimal_prep_circuit][case["fn"]]
    for zero in (True, False):
        try:
            f(code, zero_state=zero)
        except (InvalidCSSCodeError, ValueError):
            continue
        require(False, f"{f.__name__} accepts a code without {case['drop']}")
    return case["drop"] + str(case["fn"])


PROP = Prop(
    "P13",
    [
        Sub("heuristic", check_heur, strategy=gen_heur, quick=600, thorough=20000, shards=(2, 8),
            rule="non-trivial: more than one CNOT"),
        Sub("optimal", check_opt, strategy=gen_opt, quick=160, thorough=1500, shards=(4, 8), timeout=150,
            rule="non-trivial: optimum above one; small instances (n * optimum <= 16) compared with a breadth-first search over all subspaces"),
        Sub("bounded", check_bound, strategy=gen_bound, quick=160, thorough=1500, shards=(2, 8), timeout=150,
            rule="non-trivial: a circuit needs gates, or none exists within the bound"),
        Sub("incomplete codes", check_bad, strategy=gen_bad, quick=30, thorough=300, rule="every case"),
    ],
    assumptions=["searches get a time limit that the small instances do not reach"],
)
