"""P02: the union-find decoder with Gaussian elimination explains every syndrome."""
CPP = True

import gens
import gf2
import ufd
from harness import Prop, Sub, Violation, require, sut
from hypothesis import strategies as st
from ufd import B, I, b, msyn

from mqt.qecc import pyqecc as pq


def decode(hx, hz, syn, growth, one):
    c = sut(pq.Code, B(hz)) if one else sut(pq.Code, B(hx), B(hz))
    d = sut(pq.UFDecoder)
    sut(d.set_code, c)
    sut(d.set_growth, ufd.GROWTH[growth])
    sut(d.decode, b(syn))
    return I(d.result.estimate), [int(i) for i in d.result.estim_vec_idxs]


def check_half(h, syn, est, what):
    require(len(est) == len(h[0]), f"{what} estimate has length {len(est)}, expected {len(h[0])}")
    require(msyn(h, est) == syn, f"{what} estimate {est} has syndrome {msyn(h, est)}, given {syn}")
    touched = ufd.tanner_touched(h, syn)
    require(all(i in touched for i, x in enumerate(est) if x), f"{what} estimate acts on qubits no violated check is connected to")


@st.composite
def case_random(draw):
    hx, hz = draw(ufd.random_codes())
    n = len(hz[0])
    return {"hx": hx, "hz": hz, "x": draw(ufd.error(n)), "z": draw(ufd.error(n)),
            "growth": draw(st.sampled_from(ufd.UFD_GROWTHS)), "mode": draw(st.sampled_from(["one", "x", "both"]))}  # fmt: skip


def check(hx, hz, x, z, growth, mode):
    sx, sz = msyn(hz, x), msyn(hx, z)
    syn = sx + sz if mode == "both" else sx
    est, idx = decode(hx, hz, syn, growth, mode == "one")
    n = len(hz[0])
    require(sorted(idx) == [i for i, v in enumerate(est) if v], f"index list {idx} does not match the estimate {est}")
    check_half(hz, sx, est[:n], "X")
    if mode == "both":
        require(len(est) == 2 * n, f"two-sided estimate has length {len(est)}")
        check_half(hx, sz, est[n:], "Z")
    return est


def check_random(case):
    check(case["hx"], case["hz"], case["x"], case["z"], case["growth"], case["mode"])
    sx = msyn(case["hz"], case["x"])
    return f"{case['growth']}/{case['mode']}/{min(sum(sx), 3)}" if sum(sx) else None


@st.composite
def case_family(draw):
    f = draw(st.sampled_from(sorted(ufd.FAM)))
    n = len(ufd.family(f)[1][0])
    return {"code": f, "x": sorted(draw(st.sets(st.integers(0, n - 1), max_size=8))),
            "z": sorted(draw(st.sets(st.integers(0, n - 1), max_size=4))),
            "growth": draw(st.sampled_from(ufd.UFD_GROWTHS)), "mode": draw(st.sampled_from(["x", "both"]))}  # fmt: skip


def vec(s, n):
    return [int(i in s) for i in range(n)]


def check_family(case):
    hx, hz = ufd.family(case["code"])
    n = len(hz[0])
    check(hx, hz, vec(case["x"], n), vec(case["z"], n), case["growth"], case["mode"])
    return case["code"] + "/" + case["growth"] if case["x"] else None


# every single-qubit error of the surface and toric codes is corrected up to a stabiliser, in any numbering of the qubits
def single_cases(tier):
    for perm in range(2 if tier == "quick" else 20):
        for f in ["toric3", "toric4", "toric5", "surf3", "surf4", "surf5"]:
            hx, hz = ufd.family(f)
            for q in range(len(hz[0])):
                for g in ufd.UFD_GROWTHS:
                    if f == "surf3" and g == "all":  # both ends of the error may reach a boundary, which is as light
                        continue
                    for t in "xz":
                        yield {"code": f, "perm": perm, "q": q, "growth": g, "type": t}


def check_single(case):
    hx, hz = ufd.permuted(case["code"], case["perm"])
    n = len(hz[0])
    e = vec([case["q"]], n)
    z = [0] * n
    est = check(hx, hz, e if case["type"] == "x" else z, z if case["type"] == "x" else e, case["growth"], "both")
    r = [a ^ c for a, c in zip(est, e + z if case["type"] == "x" else z + e)]
    require(not ufd.logical(hx, r[:n]) and not ufd.logical(hz, r[n:]), f"a single-qubit error is turned into the logical operator {r}")
    return case["code"]


# syndromes without an error are refused
@st.composite
def case_bad(draw):
    hz = draw(gens.matrix(mmax=6, nmax=7))
    for _ in range(draw(st.integers(1, 2))):
        i = draw(st.integers(0, len(hz) - 1))
        j = draw(st.integers(0, len(hz) - 1))
        hz.append([a ^ c for a, c in zip(hz[i], hz[j])])
    return {"hz": hz, "syn": draw(gens.bits(len(hz))), "growth": draw(st.sampled_from(ufd.UFD_GROWTHS))}


def check_bad(case):
    hz, syn = case["hz"], case["syn"]
    cols = gf2.Span(gf2.ints([list(c) for c in zip(*hz)]))
    sat = gf2.to_int(syn) in cols
    c = sut(pq.Code, B(hz))
    d = sut(pq.UFDecoder)
    sut(d.set_code, c)
    sut(d.set_growth, ufd.GROWTH[case["growth"]])
    try:
        d.decode(b(syn))
    except Exception as e:
        require(not sat, f"decode raised {type(e).__name__} ({e}) for a syndrome some error has")
        return "refused"
    est = I(d.result.estimate)
    require(sat, f"decode returned {est} for a syndrome that no error has")
    check_half(hz, syn, est, "X")
    return "decoded" if sum(syn) else None


PROP = Prop(
    "P02",
    [
        Sub("random", check_random, case_random, quick=16000, thorough=120000, shards=(4, 8), nondet=True, timeout=60,
            rule="random codes (dense, sparse, CSS, hypergraph products, disconnected), errors of any weight, four growth variants, one- and two-sided; non-trivial: non-zero X syndrome"),
        Sub("families", check_family, case_family, quick=6000, thorough=40000, shards=(4, 8), nondet=True, timeout=60,
            rule="known code families with errors up to weight 8; non-trivial: non-zero X error"),
        Sub("single", check_single, cases=single_cases, shards=(2, 4), nondet=True, rule="every single-qubit error of surface and toric codes, with permuted qubits and checks: corrected up to a stabiliser"),
        Sub("unsat", check_bad, case_bad, quick=8000, thorough=40000, shards=(2, 6), nondet=True, timeout=60,
            rule="arbitrary syndromes of redundant check matrices, refused iff no error has them; non-trivial: refused or non-zero"),
    ],
    cpp=True,
    assumptions=["codes up to 50 qubits", "the invalid-components growth of this decoder is unsupported and rejected"],
)  # fmt: skip
