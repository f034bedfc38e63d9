"""P11: the predefined code families have the parameters they are documented to have."""

import random

import numpy as np
from hypothesis import strategies as st

import gf2
from harness import Prop, Skip, Sub, Violation, case_seed, require
from mqt.qecc import CSSCode
from mqt.qecc.codes import HexagonalColorCode, InvalidCSSCodeError, LatticeType, SquareOctagonColorCode, construct_bb_code

NAMED = {  # name -> n, k, d, (x distance, z distance)
    "steane": (7, 1, 3, (3, 3)),
    "tetrahedral": (15, 1, 3, (7, 3)),
    "hamming": (15, 7, 3, (3, 3)),
    "shor": (9, 1, 3, (3, 3)),
    "carbon": (12, 2, 4, (4, 4)),
    "golay": (23, 1, 7, (7, 7)),
    "surface": (9, 1, 3, (3, 3)),
    "surface/3": (9, 1, 3, (3, 3)),
    "surface/5": (25, 1, 5, (5, 5)),
}
BB = {72: (12, 6), 90: (8, 10), 108: (8, 10), 144: (12, 12), 288: (12, 18)}


def mats(c):
    return gf2.ints(np.asarray(c.Hx).tolist()), gf2.ints(np.asarray(c.Hz).tolist()), c.n


def basis(rows):
    return list(gf2.Span(rows).basis.values())


def logicals(checks, stabs, n):
    """Basis of the logical operators modulo stabilizers."""
    sp = gf2.Span(stabs)
    return [v for v in gf2.nullspace(checks, n) if sp.add(v)]


def exact_distance(checks, stabs, n):
    """Minimum weight of a non-trivial logical operator (enumerating all of them)."""
    st_, lg = basis(stabs), logicals(checks, stabs, n)
    assert len(st_) + len(lg) <= 22
    vs = np.zeros(1, dtype=np.uint64)
    for b in st_:
        vs = np.concatenate([vs, vs ^ np.uint64(b)])
    best = n + 1
    for m in range(1, 1 << len(lg)):
        v = 0
        for i, b in enumerate(lg):
            if m >> i & 1:
                v ^= b
        best = min(best, int(popcount(vs ^ np.uint64(v)).min()))
    return best


def popcount(a):
    a = a.copy()
    c = np.zeros(a.shape, dtype=np.int64)
    while a.any():
        c += (a & np.uint64(1)).astype(np.int64)
        a >>= np.uint64(1)
    return c


def isd(checks, stabs, n, rng, iters, stop):
    """Random information sets: the lightest non-trivial logical operator found."""
    ker = gf2.nullspace(checks, n)
    sp = gf2.Span(stabs)
    best = None
    for _ in range(iters):
        perm = list(range(n))
        rng.shuffle(perm)
        rows = list(ker)
        done = []
        for c in perm:
            p = next((r for r in rows if r >> c & 1), None)
            if p is None:
                continue
            rows.remove(p)
            rows = [r ^ p if r >> c & 1 else r for r in rows]
            done = [r ^ p if r >> c & 1 else r for r in done]
            done.append(p)
            if not rows:
                break
        for v in done:
            w = gf2.wt(v)
            if (best is None or w < gf2.wt(best)) and v not in sp:
                best = v
        if best is not None and gf2.wt(best) <= stop:
            break
    return best


def css_ok(c, n, k):
    rx, rz, m = mats(c)
    require(m == n, f"n = {m}, documented {n}")
    require(np.asarray(c.Hx).shape[1] == n and np.asarray(c.Hz).shape[1] == n, "check matrices have a wrong width")
    require(all(gf2.parity(a & b) == 0 for a in rx for b in rz), "the checks do not commute")
    require(c.k == k and n - gf2.rank(rx) - gf2.rank(rz) == k, f"k = {c.k}, rank-based {n - gf2.rank(rx) - gf2.rank(rz)}, documented {k}")
    require(set(np.unique(c.Hx)) <= {0, 1} and set(np.unique(c.Hz)) <= {0, 1}, "check matrices are not binary")
    return rx, rz


def named_cases(_tier):
    r = random.Random(5)
    for name in NAMED:
        for _ in range(3):
            yield {"name": "".join(ch.upper() if r.random() < 0.5 else ch for ch in name)}


def check_named(case):
    name = case["name"].lower()
    n, k, d, (dx, dz) = NAMED[name]
    base, _, dist = case["name"].partition("/")
    c = CSSCode.from_code_name(base, int(dist)) if dist else CSSCode.from_code_name(base)
    rx, rz = css_ok(c, n, k)
    require((c.distance, c.x_distance, c.z_distance) == (d, dx, dz), f"distances {(c.distance, c.x_distance, c.z_distance)}")
    ex, ez = exact_distance(rz, rx, n), exact_distance(rx, rz, n)
    require((ex, ez) == (dx, dz), f"the lightest X and Z logical operators have weights {ex} and {ez}, documented {dx} and {dz}")
    return name


def check_unknown(case):
    name, d = case["name"], case["d"]
    known = name.lower() in NAMED and (name.lower() != "surface" or d in (None, 3, 5)) and "/" not in name
    known |= name.lower() in ("surface_3", "surface_5")
    try:
        c = CSSCode.from_code_name(name, d)
    except InvalidCSSCodeError:
        require(not known, f"{name}, {d} is rejected")
        return "rejected"
    require(known, f"{name}, distance {d} is accepted")
    css_ok(c, c.n, c.k)
    return "accepted"


def bb_cases(tier):
    for n in BB:
        for i in range(2 if tier == "quick" else 8):
            yield {"n": n, "i": i}


def check_bb(case, thorough=False):
    n = case["n"]
    k, d = BB[n]
    c = construct_bb_code(n)
    rx, rz = css_ok(c, n, k)
    require(c.distance == d, f"distance {c.distance}, documented {d}")
    require(len(rx) == n // 2 and len(rz) == n // 2, "number of checks")
    require(all(gf2.wt(r) == 6 for r in rx + rz), "a check does not have weight 6")
    for rows in (rx, rz):
        require(all(sum(r >> j & 1 for r in rows) == 3 for j in range(n)), "a qubit is not in exactly three checks of each type")
    rng = random.Random(case_seed(case))
    for checks, stabs, nm in ((rz, rx, "X"), (rx, rz, "Z")):
        v = isd(checks, stabs, n, rng, 400 if n < 100 else 120 if n < 200 else 12, d - 1)
        if v is not None:
            require(gf2.wt(v) >= d, lambda: f"{nm} logical operator of weight {gf2.wt(v)}: {gf2.to_list(v, n)}")
        if n == 72 and case["i"] == 0:
            require(v is not None and gf2.wt(v) == d, f"no logical operator of weight {d} was found (lightest: {gf2.wt(v)})")
    return f"bb {n}"


def check_bb_unknown(case):
    try:
        construct_bb_code(case)
    except InvalidCSSCodeError:
        require(case not in BB, f"size {case} is rejected")
        return "rejected"
    require(case in BB, f"size {case} is accepted")
    return "accepted"


def color_cases(tier):
    for fam in ("hexagon", "square_octagon"):
        for d in range(3, 16 if tier == "quick" else 22, 2):
            yield {"family": fam, "d": d}


def check_color(case):
    fam, d = case["family"], case["d"]
    c = (HexagonalColorCode if fam == "hexagon" else SquareOctagonColorCode)(d)
    n = (3 * d * d + 1) // 4 if fam == "hexagon" else (d * d + 2 * d - 1) // 2
    H = np.asarray(c.H)
    require(c.lattice_type == LatticeType(fam) and c.distance == d, "lattice type or distance")
    require(H.shape == ((n - 1) // 2, n), f"H has shape {H.shape}, expected {((n - 1) // 2, n)}")
    rx, rz = css_ok(c, n, 1)
    rh = gf2.ints(H.tolist())
    require(rx == rh and rz == rh, "the checks of the CSS code are not the faces")
    require(gf2.rank(rh) == (n - 1) // 2, "dependent faces")
    require(c.is_self_dual(), "not self-dual")
    sizes = {4, 6} if fam == "hexagon" else {4, 8}
    require({gf2.wt(r) for r in rh} <= sizes, f"face sizes {sorted({gf2.wt(r) for r in rh})}")
    require(all(gf2.wt(a & b) in (0, 2) for i, a in enumerate(rh) for b in rh[:i]), "two faces share neither no nor two qubits")
    # adjacency lists
    require(sorted(c.faces_to_qubits) == list(range(len(rh))) and sorted(c.qubits_to_faces) == list(range(n)), "adjacency keys")
    for f, qs in c.faces_to_qubits.items():
        require(len(set(qs)) == len(qs) and gf2.to_int([int(q in qs) for q in range(n)]) == rh[f], f"face {f} has qubits {qs}")
    for q, fs in c.qubits_to_faces.items():
        require(len(set(fs)) == len(fs) and sorted(fs) == [f for f in range(len(rh)) if rh[f] >> q & 1], f"qubit {q} has faces {fs}")
        require(1 <= len(fs) <= 3, f"qubit {q} is on {len(fs)} faces")
    require(len(c.data_qubits) == n and len(c.ancilla_qubits) == len(rh), "numbers of coordinates")
    # three-colourable: faces sharing an edge
    adj = [[b for b in range(len(rh)) if b != a and rh[a] & rh[b]] for a in range(len(rh))]
    require(colour(adj), "the faces are not three-colourable")
    L = gf2.ints(np.asarray(c.L).reshape(-1, n).tolist())
    sp = gf2.Span(rh)
    require(len(L) == 1 and gf2.syndrome(rh, L[0]) == 0 and L[0] not in sp, "L is not a logical operator")
    if len(rh) <= 18:
        e = exact_distance(rh, rh, n)
        require(e == d, f"the lightest logical operator has weight {e}, documented {d}")
    else:
        v = isd(rh, rh, n, random.Random(d), 60 if n < 150 else 12, d - 1)
        require(v is None or gf2.wt(v) >= d, lambda: f"logical operator of weight {gf2.wt(v)}: {gf2.to_list(v, n)}")
    # syndromes and logical errors
    r = random.Random(case_seed(case))
    for _ in range(30):
        v = r.getrandbits(n) if r.random() < 0.3 else 0
        for b in rh:
            if r.random() < 0.3:
                v ^= b
        if r.random() < 0.5:
            v ^= L[0]
        a = np.array(gf2.to_list(v, n))
        require([int(x) for x in c.get_syndrome(a)] == gf2.to_list(gf2.syndrome(rh, v), len(rh)), "syndrome")
        if gf2.syndrome(rh, v) == 0:
            require(c.check_if_logical_error(a) == (v not in sp), f"check_if_logical_error({gf2.to_list(v, n)}) = {c.check_if_logical_error(a)}")
    o = (HexagonalColorCode if fam == "hexagon" else SquareOctagonColorCode)(d)
    require(o == c and hash(o) == hash(c), "two codes of the same size differ")
    return f"{fam}, d={d}"


def colour(adj):
    col = {}
    order = []
    seen = set()
    for s in range(len(adj)):
        stack = [s]
        while stack:
            v = stack.pop(0)
            if v in seen:
                continue
            seen.add(v)
            order.append(v)
            stack += sorted(adj[v], key=lambda w: -len(adj[w]))
    import sys

    sys.setrecursionlimit(10000)
    steps = [0]

    def go():
        steps[0] += 1
        if steps[0] > 200000:
            raise Skip("colouring search too long")
        # most constrained uncoloured face first
        best, opts = None, None
        for v in order:
            if v not in col:
                o = [c for c in range(3) if all(col.get(w) != c for w in adj[v])]
                if best is None or len(o) < len(opts):
                    best, opts = v, o
                    if len(o) <= 1:
                        break
        if best is None:
            return True
        for c in opts:
            col[best] = c
            if go():
                return True
            del col[best]
        return False

    return go()


PROP = Prop(
    "P11",
    [
        Sub("named codes", check_named, cases=named_cases, shards=(2, 4), rule="every case: exact distances by enumeration of all logical operators"),
        Sub("unknown names", check_unknown, strategy=lambda: st.fixed_dictionaries({
            "name": st.one_of(st.sampled_from(["Steane", "surface", "Surface", "golay", "surface_3", "surface_7", "shor", "hamming"]),
                              st.text(alphabet="stean_surfcgoly35", max_size=8)),
            "d": st.sampled_from([None, 2, 3, 4, 5, 7])}), quick=300, thorough=3000, rule="every case"),
        Sub("bb codes", check_bb, cases=bb_cases, shards=(5, 8),
            rule="every case: ranks, weights and a randomised search for logical operators below the documented distance"),
        Sub("bb sizes", check_bb_unknown, cases=lambda t: range(0, 300, 1 if t != "quick" else 6), rule="every case"),
        Sub("color codes", check_color, cases=color_cases, shards=(4, 8),
            rule="every case: lattice structure, parameters; exact distance up to d = 7, randomised search above"),
    ],
)
