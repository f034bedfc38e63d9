"""P12: the MaxSAT decoder finds minimum-weight corrections; its simulation reports the exact decoder statistics."""

import json
import math
import random
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import gf2
from harness import Prop, Skip, Sub, Violation, case_seed, require
from mqt.qecc.cc_decoder import decoder
from mqt.qecc.codes import HexagonalColorCode, SquareOctagonColorCode

_CODES = {}


def code(fam, d):
    if (fam, d) not in _CODES:
        _CODES[fam, d] = (HexagonalColorCode if fam == "hexagon" else SquareOctagonColorCode)(d)
    return _CODES[fam, d]


_MIN = {}


def min_weight(rows, n, syn):
    """Minimum number of switches for each syndrome (None if impossible); memoised enumeration of the kernel."""
    key = (tuple(rows), n)
    if key not in _MIN:
        ker = gf2.nullspace(rows, n)
        assert len(ker) <= 20
        vs = np.zeros(1, dtype=np.uint64)
        for b in ker:
            vs = np.concatenate([vs, vs ^ np.uint64(b)])
        _MIN[key] = (vs, {})
    vs, memo = _MIN[key]
    if syn not in memo:
        # one solution by elimination on the transposed system
        cols = [gf2.to_int([r >> j & 1 for r in rows]) for j in range(n)]
        piv = {}
        for j, c in enumerate(cols):
            comb = 1 << j
            while c:
                h = c.bit_length() - 1
                if h not in piv:
                    piv[h] = (c, comb)
                    break
                c ^= piv[h][0]
                comb ^= piv[h][1]
        s, sol = syn, 0
        while s:
            h = s.bit_length() - 1
            if h not in piv:
                sol = None
                break
            s ^= piv[h][0]
            sol ^= piv[h][1]
        if sol is None:
            memo[syn] = None
        else:
            x = vs ^ np.uint64(sol)
            memo[syn] = int(np.bitwise_count(x).min()) if hasattr(np, "bitwise_count") else int(_pop(x).min())
    return memo[syn]


def _pop(a):
    a = a.copy()
    c = np.zeros(a.shape, dtype=np.uint8)
    for _ in range(64):
        if not a.any():
            break
        c += (a & np.uint64(1)).astype(np.uint8)
        a >>= np.uint64(1)
    return c


def solve_all(l2s, s2l, n, patterns):
    rows = [gf2.to_int([int(j in l2s[i]) for j in range(n)]) for i in range(len(l2s))]
    problem = decoder.LightsOut(l2s, s2l)
    problem.preconstruct_z3_instance()
    nontriv = infeasible = 0
    for lights in patterns:
        lights = [bool(b) for b in lights]
        given = list(lights)
        best = min_weight(rows, n, gf2.to_int(lights))
        try:
            est, t1, t2 = problem.solve(given)
        except AssertionError:
            require(best is None, f"no solution found for {lights}, although {best} switches suffice")
            infeasible += 1
            continue
        require(best is not None, f"a solution is reported for the unsolvable pattern {lights}")
        require(given == lights, "solve() changes the list of lights")
        require(len(est) == n and set(est) <= {0, 1}, f"estimate {est}")
        v = gf2.to_int(est)
        require(gf2.syndrome(rows, v) == gf2.to_int(lights), f"the estimate {est} does not switch off {lights}")
        require(gf2.wt(v) == best, f"{gf2.wt(v)} switches for {lights}, {best} suffice")
        require(t1 >= 0 and t2 >= 0, "negative times")
        nontriv += gf2.wt(v) > 1
    return nontriv, infeasible


@st.composite
def gen_cc(draw):
    fam = draw(st.sampled_from(["hexagon", "square_octagon"]))
    d = draw(st.sampled_from([3, 5, 5, 7]))
    k = draw(st.integers(1, 4 if d < 7 else 2))
    n = len(code(fam, d).data_qubits)
    errs = [sorted(draw(st.sets(st.integers(0, n - 1), max_size=draw(st.sampled_from([2, 4, 10, n]))))) for _ in range(k)]
    return {"family": fam, "d": d, "errors": errs}


def check_cc(case):
    c = code(case["family"], case["d"])
    H = np.asarray(c.H)
    pats = []
    for e in case["errors"]:
        v = np.zeros(c.n, dtype=int)
        v[e] = 1
        pats.append([int(x) for x in H @ v % 2])
    nt, inf = solve_all(c.faces_to_qubits, c.qubits_to_faces, c.n, pats)
    require(inf == 0, "a syndrome of a color code was found unsolvable")
    return f"{case['family']}, d={case['d']}" if nt else None


@st.composite
def gen_any(draw):
    n = draw(st.integers(2, 9))
    tight = draw(st.booleans())  # (almost) as many lights as switches: solutions are (almost) unique and may be heavy
    if tight:
        n = min(n, 7)
    m = draw(st.integers(max(1, n - 1), n + 1) if tight else st.integers(1, 6))
    l2s = [sorted(draw(st.sets(st.integers(0, n - 1), min_size=2, max_size=n))) for _ in range(m)]
    if draw(st.booleans()):
        l2s = [draw(st.permutations(s)) for s in l2s]
    pats = [draw(st.lists(st.integers(0, 1), min_size=m, max_size=m)) for _ in range(draw(st.integers(1, 4)))]
    if tight:  # all switches pressed but a few
        off = [draw(st.sets(st.integers(0, n - 1), max_size=2)) for _ in range(3)]
        pats += [[sum(j not in o for j in s) % 2 for s in l2s] for o in off]
    return {"n": n, "lights": l2s, "patterns": pats}


def check_any(case):
    n = case["n"]
    l2s = dict(enumerate(case["lights"]))
    s2l = {j: [i for i in l2s if j in l2s[i]] for j in range(n)}
    nt, inf = solve_all(l2s, s2l, n, case["patterns"])
    return f"{'with' if inf else 'without'} unsolvable patterns" if nt else None


# ------------------------------------------------------------------------------------------------- larger color codes
@st.composite
def gen_large(draw):
    fam = draw(st.sampled_from(["hexagon", "square_octagon"]))
    d = draw(st.sampled_from([7, 9, 9, 11, 13]))
    n = len(code(fam, d).data_qubits)
    pos = st.one_of(st.integers(0, n - 1), st.integers(0, n - 1), st.integers(n - 6, n - 1), st.integers(0, 5))
    errs = [sorted(draw(st.sets(pos, min_size=1, max_size=(d - 1) // 2))) for _ in range(draw(st.integers(1, 3)))]
    return {"family": fam, "d": d, "errors": errs}


def lighter(rows, n, syn, w):
    """Whether fewer than w (at most five) columns sum to the syndrome: meet in the middle over pairs."""
    cols = [gf2.to_int([r >> j & 1 for r in rows]) for j in range(n)]
    single = set(cols)
    if w > 0 and syn == 0:
        return True
    if w > 1 and syn in single:
        return True
    if w > 2 and any(syn ^ c in single for c in cols):
        return True
    if w <= 3:
        return False
    pairs = {a ^ b for i, a in enumerate(cols) for b in cols[:i]}
    return any(syn ^ c in pairs for c in cols) or (w > 4 and any(syn ^ p in pairs for p in pairs))


def check_large(case):
    c = code(case["family"], case["d"])
    H = np.asarray(c.H)
    rows = gf2.ints(H.tolist())
    problem = decoder.LightsOut(c.faces_to_qubits, c.qubits_to_faces)
    problem.preconstruct_z3_instance()
    nt = 0
    for e in case["errors"]:
        v = np.zeros(c.n, dtype=int)
        v[e] = 1
        s = [int(x) for x in H @ v % 2]
        est, _, _ = problem.solve([bool(b) for b in s])
        x = gf2.to_int(est)
        require(gf2.syndrome(rows, x) == gf2.to_int(s), f"the estimate has another syndrome than the error {e}")
        require(gf2.wt(x) <= len(e), f"{gf2.wt(x)} switches for the syndrome of the error {e}")
        require(not lighter(rows, c.n, gf2.to_int(s), min(gf2.wt(x), 5)), f"fewer than {gf2.wt(x)} switches suffice for {e}")
        # at most (d-1)/2 errors are corrected by minimum-weight decoding
        r = x ^ gf2.to_int(v.tolist())
        require(bin(r).count("1") % 2 == 0, f"{e} is corrected up to a logical operator only")
        nt += len(e) > 1
    return f"{case['family']}, d={case['d']}" if nt else None


# ------------------------------------------------------------------------------------------------------ simulation
@st.composite
def gen_sim(draw):
    return {"family": draw(st.sampled_from(["hexagon", "square_octagon"])), "d": 3, "p": draw(st.sampled_from([0.0, 0.02, 0.1, 0.3, 0.5, 1.0])),
            "n": draw(st.sampled_from([1, 2, 7, 40, 101, 130, 260, 520, 1010])), "via": draw(st.sampled_from(["call", "run"])), "i": draw(st.integers(0, 10**6))}  # fmt: skip


def exact_rate(c, p):
    """Logical error rate of minimum-weight decoding (unique for the d=3 codes, checked here)."""
    rows = gf2.ints(np.asarray(c.H).tolist())
    sp = gf2.Span(rows)
    rep = {}
    n = c.n
    for v in gf2.by_weight(n):
        rep.setdefault(gf2.syndrome(rows, v), v)
        if len(rep) == 1 << len(rows):
            break
    tot = 0.0
    weights = set()
    for v in range(1 << n):
        r = v ^ rep[gf2.syndrome(rows, v)]
        if r not in sp:
            w = gf2.wt(v)
            tot += p**w * (1 - p) ** (n - w)
            if p**w * (1 - p) ** (n - w) > 0:
                weights.add(gf2.wt(r))
    return tot, weights


def check_sim(case):
    c = code(case["family"], case["d"])
    p, n = case["p"], case["n"]
    if case["via"] == "call":
        r = decoder.simulate_error_rate(c, p, n)
    else:
        out = Path("results") / str(case["i"])
        decoder.run(case["family"], case["d"], p, n, str(out))
        files = list(out.iterdir())
        require(len(files) == 1, f"files {files}")
        r = json.loads(files[0].read_text())
        files[0].unlink()
    require(r["lattice"] == case["family"] and r["distance"] == 3 and r["p"] == p, "settings in the result")
    (ler,), (eb,), (wt,) = r["logical_error_rates"], r["logical_error_rate_ebs"], r["min_wts_logical_err"]
    errs = ler * n
    require(abs(errs - round(errs)) < 1e-6 and 0 <= errs <= n, f"rate {ler} is not a count over {n}")
    require(abs(eb - math.sqrt(ler * (1 - ler) / n)) < 1e-9, f"error bar {eb}")
    want, weights = exact_rate(c, p)
    # Chernoff bound with failure probability 1e-10
    q = round(errs) / n
    require(kl(q, want) * n <= math.log(2e10), f"logical error rate {q} over {n} runs, exact value {want}")
    require(wt == -1 if errs == 0 else wt in weights and wt >= 3, f"smallest weight of a logical error {wt} with {errs} errors")
    for k in ("preconstr_time", "avg_constr_time", "avg_solve_time", "avg_total_time"):
        require(r[k] >= 0, k)
    require(abs(r["avg_total_time"] - r["avg_constr_time"] - r["avg_solve_time"]) < 1e-9, "total time")
    return f"p={p}" if n > 1 else None


def kl(q, p):
    t = 0.0
    for a, b in ((q, p), (1 - q, 1 - p)):
        if a > 0:
            if b <= 0:
                return math.inf
            t += a * math.log(a / b)
    return max(t, 0.0)


PROP = Prop(
    "P12",
    [
        Sub("color codes", check_cc, strategy=gen_cc, quick=200, thorough=6000, shards=(4, 8),
            rule="non-trivial: a correction of weight at least two was needed; several syndromes are decoded with one instance"),
        Sub("large color codes", check_large, strategy=gen_large, quick=60, thorough=3000, shards=(4, 8),
            rule="non-trivial: an error of weight at least two on a code up to distance 13; no lighter correction, and corrected"),
        Sub("lights out", check_any, strategy=gen_any, quick=400, thorough=8000, shards=(2, 8),
            rule="non-trivial: at least two switches were needed; arbitrary problems, also unsolvable patterns in between"),
        Sub("simulation", check_sim, strategy=gen_sim, quick=40, thorough=600, shards=(2, 8), nondet=True,
            rule="non-trivial: more than one run; rates against the exact logical error rate of minimum-weight decoding (d = 3)"),
    ],
    assumptions=["each light has at least two switches, as in every color code",
                 "statistical comparisons use a Chernoff bound with failure probability 1e-10"],
)
