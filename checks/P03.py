"""P03: the union-find heuristic terminates with a well-formed estimate, and explains the syndrome where it is able to."""
CPP = True

import ufd
from harness import Prop, Sub, require, sut
from hypothesis import strategies as st
from ufd import B, I, b, msyn

from mqt.qecc import pyqecc as pq


def decode(hx, hz, syn, growth, one):
    c = sut(pq.Code, B(hz)) if one else sut(pq.Code, B(hx), B(hz))
    d = sut(pq.UFHeuristic)
    sut(d.set_code, c)
    sut(d.set_growth, ufd.GROWTH[growth])
    sut(d.decode, b(syn))
    return I(d.result.estimate), [int(i) for i in d.result.estim_vec_idxs]


def formed(h, syn, est, what):
    require(len(est) == len(h[0]), f"{what} estimate has length {len(est)}, expected {len(h[0])}")
    touched = ufd.tanner_touched(h, syn)
    require(all(i in touched for i, x in enumerate(est) if x), f"{what} estimate acts on qubits no violated check is connected to")


def run(hx, hz, x, z, growth, mode, exact):
    sx, sz = msyn(hz, x), msyn(hx, z)
    est, idx = decode(hx, hz, sx + sz if mode == "both" else sx, growth, mode == "one")
    n = len(hz[0])
    require(sorted(idx) == [i for i, v in enumerate(est) if v], f"index list {idx} does not match the estimate {est}")
    formed(hz, sx, est[:n], "X")
    if exact:
        require(msyn(hz, est[:n]) == sx, f"X estimate {est[:n]} has syndrome {msyn(hz, est[:n])}, given {sx}")
    if mode == "both":
        require(len(est) == 2 * n, f"two-sided estimate has length {len(est)}")
        formed(hx, sz, est[n:], "Z")
        if exact:
            require(msyn(hx, est[n:]) == sz, f"Z estimate {est[n:]} has syndrome {msyn(hx, est[n:])}, given {sz}")
    return est


@st.composite
def case_random(draw):
    hx, hz = draw(ufd.random_codes())
    n = len(hz[0])
    return {"hx": hx, "hz": hz, "x": draw(ufd.error(n)), "z": draw(ufd.error(n)),
            "growth": draw(st.sampled_from(ufd.UFH_GROWTHS)), "mode": draw(st.sampled_from(["one", "x", "both"]))}  # fmt: skip


def check_random(case):
    run(case["hx"], case["hz"], case["x"], case["z"], case["growth"], case["mode"], False)
    s = sum(msyn(case["hz"], case["x"]))
    return f"{case['growth']}/{case['mode']}/{min(s, 3)}" if s else None


# codes on which the peeling explains every syndrome, whatever the order in which it visits the qubits
EXACT = ["steane", "shor", "hex3", "so3", "golay", "hamming"]
SINGLE = ["toric3", "toric4", "toric5", "surf3", "rot3"]


@st.composite
def case_exact(draw):
    f = draw(st.sampled_from(EXACT))
    n = len(ufd.family(f)[1][0])
    return {"code": f, "perm": draw(st.integers(0, 10**6)), "x": sorted(draw(st.sets(st.integers(0, n - 1), max_size=4))),
            "z": sorted(draw(st.sets(st.integers(0, n - 1), max_size=4))),
            "growth": draw(st.sampled_from(ufd.UFH_GROWTHS)), "mode": draw(st.sampled_from(["x", "both"]))}  # fmt: skip


def vec(s, n):
    return [int(i in s) for i in range(n)]


def check_exact(case):
    hx, hz = ufd.permuted(case["code"], case["perm"])
    n = len(hz[0])
    run(hx, hz, vec(case["x"], n), vec(case["z"], n), case["growth"], case["mode"], True)
    return case["code"] + "/" + case["growth"] if case["x"] else None


def single_cases(tier):
    for perm in range(3 if tier == "quick" else 40):
        for f in SINGLE + EXACT:
            for q in range(len(ufd.family(f)[1][0])):
                for g in ("all", "invalid", "smallest"):
                    for t in "xz":
                        yield {"code": f, "perm": perm, "q": q, "growth": g, "type": t}


def check_single(case):
    f = case["code"]
    hx, hz = ufd.permuted(f, case["perm"])
    n = len(hz[0])
    e = vec([case["q"]], n)
    z = [0] * n
    x = case["type"] == "x"
    est = run(hx, hz, e if x else z, z if x else e, case["growth"], "both", True)
    if f.startswith("toric"):
        r = [a ^ c for a, c in zip(est, e + z if x else z + e)]
        require(not ufd.logical(hx, r[:n]) and not ufd.logical(hz, r[n:]), f"a single-qubit error is turned into the logical operator {r}")
    return f


PROP = Prop(
    "P03",
    [
        Sub("random", check_random, case_random, quick=16000, thorough=150000, shards=(4, 8), nondet=True, timeout=60,
            rule="random codes, errors of any weight, four growth variants, one- and two-sided: terminates, estimate well-formed and local; non-trivial: non-zero X syndrome"),
        Sub("exact", check_exact, case_exact, quick=10000, thorough=60000, shards=(4, 8), nondet=True, timeout=60,
            rule="small code families: the estimate has the given syndrome; non-trivial: non-zero X error"),
        Sub("single", check_single, cases=single_cases, shards=(2, 4), rule="every single-qubit error of the larger families: the estimate has the syndrome (and is right up to a stabiliser for toric codes)"),
    ],
    cpp=True,
    assumptions=["for heavier errors on larger codes the heuristic's peeling may not explain the syndrome; only termination and well-formedness are claimed there"],
)  # fmt: skip
