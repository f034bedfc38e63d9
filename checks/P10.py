"""P10: CSS codes: parameters, logical operators, syndromes, cosets and self-duality."""

import numpy as np
from hypothesis import strategies as st

import gens
import gf2
from harness import Prop, Skip, Sub, Violation, require
from mqt.qecc import CSSCode, StabilizerCode
from mqt.qecc.codes import InvalidCSSCodeError, InvalidStabilizerCodeError

DT = ["int8", "int64", "uint8"]


def arr(m, n, dt):
    return np.array(m, dtype=dt).reshape(len(m), n)


@st.composite
def gen(draw):
    hx, hz = draw(gens.css_pair(2, 10, 1, 5))
    n = len(hx[0])
    form = draw(st.sampled_from(["both", "both", "both", "x only", "z only", "self-dual", "empty x"]))
    if form == "x only":
        hz = None
    elif form == "z only":
        hx = None
    elif form == "empty x":
        hx = []
    elif form == "self-dual":
        hx = sorted(draw(self_orthogonal(n)))
        n = len(hx[0])
        hz = [list(r) for r in draw(st.permutations(hx))]
        k = draw(st.integers(0, 3))
        if k == 1 and len(hz) > 1:
            hz[0] = [a ^ b for a, b in zip(hz[0], hz[1])]
        elif k == 2:
            hz.append([a ^ b for a, b in zip(hz[0], hz[-1])])
        elif k == 3 and len(hz) > 1:
            hz[0] = hz[1]
    return {"n": n, "hx": hx, "hz": hz, "dt": draw(st.sampled_from(DT)), "v": [draw(gens.bits(n)) for _ in range(3)],
            "comb": [draw(st.integers(0, 2**12)) for _ in range(4)]}  # fmt: skip


@st.composite
def self_orthogonal(draw, n):
    import random

    n = max(n, 4)
    r = random.Random(draw(st.integers(0, 2**32)))
    rows = []
    for _ in range(draw(st.integers(1, 3))):
        ker = gf2.nullspace(rows, n) if rows else [1 << i for i in range(n)]
        for _ in range(20):
            v = 0
            for k in ker:
                if r.random() < 0.5:
                    v ^= k
            if v and gf2.parity(v) == 0:
                rows.append(v)
                break
    if not rows:
        rows = [3]
    return [gf2.to_list(x, n) for x in rows]


def pick(basis, mask):
    v = 0
    for i, b in enumerate(basis):
        if mask >> i & 1:
            v ^= b
    return v


def check(case):
    n, dt = case["n"], case["dt"]
    HX = None if case["hx"] is None else arr(case["hx"], n, dt)
    HZ = None if case["hz"] is None else arr(case["hz"], n, dt)
    rx, rz = gf2.ints(case["hx"] or []), gf2.ints(case["hz"] or [])
    c = CSSCode(1, HX, HZ)
    kx, kz = gf2.rank(rx), gf2.rank(rz)
    k = n - kx - kz
    require(c.n == n and c.k == k, f"[[{c.n}, {c.k}]] instead of [[{n}, {k}]]")
    require((c.distance, c.x_distance, c.z_distance) == (1, 1, 1), "distances")
    sx, sz = gf2.Span(rx), gf2.Span(rz)

    def same(m, rows, what):
        got = [] if m is None else [[int(b) for b in r] for r in np.asarray(m)]
        require(got == rows, f"{what} is {got}, expected {rows}")

    same(c.Hx, case["hx"] or [], "Hx")
    same(c.Hz, case["hz"] or [], "Hz")
    lx, lz = gf2.ints(np.asarray(c.Lx).tolist()), gf2.ints(np.asarray(c.Lz).tolist())
    require(len(lx) == k and len(lz) == k, f"{len(lx)} X and {len(lz)} Z logicals for k = {k}")
    require(all(gf2.syndrome(rz, v) == 0 for v in lx), "an X logical does not commute with the Z checks")
    require(all(gf2.syndrome(rx, v) == 0 for v in lz), "a Z logical does not commute with the X checks")
    require(gf2.rank(rx + lx) == kx + k, "the X logicals are not independent of each other and the stabilizers")
    require(gf2.rank(rz + lz) == kz + k, "the Z logicals are not independent of each other and the stabilizers")
    require(c.x_checks_as_pauli_strings() == ["".join("IX"[b] for b in r) for r in case["hx"] or []], "x check strings")
    require(c.z_checks_as_pauli_strings() == ["".join("IZ"[b] for b in r) for r in case["hz"] or []], "z check strings")
    require(c.x_logicals_as_pauli_strings() == ["".join("IX"[v >> i & 1] for i in range(n)) for v in lx], "x logical strings")
    require(c.z_logicals_as_pauli_strings() == ["".join("IZ"[v >> i & 1] for i in range(n)) for v in lz], "z logical strings")
    strings = c.x_checks_as_pauli_strings() + c.z_checks_as_pauli_strings()
    require(c.stabs_as_pauli_strings() == strings, "stabilizer strings")
    if strings:
        require(StabilizerCode(strings) == c, "not equal to the stabilizer code with the same generators")
    both = bool(case["hx"]) and bool(case["hz"])
    if both:
        want = gf2.same_space(rx, rz)
        require(c.is_self_dual() == want, f"is_self_dual() = {c.is_self_dual()}, expected {want}")
    # syndromes, stabilizers, logical errors, cosets
    seen = set()
    for name, rows, span, checks, basis in (("x", rx, sx, rz, lx), ("z", rz, sz, rx, lz)):
        stab = list(span.basis.values())
        vs = [gf2.to_int(v) for v in case["v"]]
        norm = [pick(stab, m) ^ pick(basis, m >> 5) for m in case["comb"]]
        vs += [pick(stab, case["comb"][0]), 0, *norm]
        A = [np.array(gf2.to_list(v, n), dtype=dt) for v in vs]
        for v, a in zip(vs, A):
            want = gf2.to_list(gf2.syndrome(rows, v), len(rows))
            got = getattr(c, f"get_{name}_syndrome")(a)
            require([int(b) for b in np.asarray(got).ravel()] == want, f"get_{name}_syndrome({gf2.to_list(v, n)}) = {got}, expected {want}")
            got = getattr(c, f"check_if_{name}_stabilizer")(a)
            require(got == (v in span), f"check_if_{name}_stabilizer({gf2.to_list(v, n)}) = {got}")
            if gf2.syndrome(checks, v) == 0:
                got = getattr(c, f"check_if_logical_{name}_error")(a)
                require(got == (v not in span), f"check_if_logical_{name}_error({gf2.to_list(v, n)}) = {got}")
                seen.add(("log", v not in span))
        for v, a in zip(vs, A):
            for w, b in zip(vs, A):
                got = getattr(c, f"stabilizer_eq_{name}_error")(a, b)
                want = (v ^ w) in span
                require(got == want, f"stabilizer_eq_{name}_error({gf2.to_list(v, n)}, {gf2.to_list(w, n)}) = {got}")
                if v != w:
                    seen.add(("eq", want))
    same(c.Hx, case["hx"] or [], "Hx after the queries")
    same(c.Hz, case["hz"] or [], "Hz after the queries")
    return f"k={k}" if len(seen) == 4 else None


@st.composite
def gen_rej(draw):
    hx, hz = draw(gens.css_pair(2, 8, 1, 4))
    n = len(hx[0])
    what = draw(st.sampled_from(["flip", "columns", "none", "distance", "valid", "nothing"]))
    d = [1, None, None]
    if what == "flip":
        i, j = draw(st.integers(0, len(hz) - 1)), draw(st.integers(0, n - 1))
        hz[i][j] ^= 1
    elif what == "columns":
        hz = [r + [0] for r in hz] if draw(st.booleans()) else [r[:-1] for r in hz]
    elif what == "nothing":
        hx = hz = None
    elif what == "distance":
        d = [draw(st.integers(-1, 4)), draw(st.sampled_from([None, 1, 2, 3, 4])), draw(st.sampled_from([None, 1, 2, 3, 4]))]
    return {"what": what, "hx": hx, "hz": hz, "d": d}


def check_rej(case):
    hx, hz, (d, dx, dz) = case["hx"], case["hz"], case["d"]
    if hx is None:
        want = False
    elif len(hx[0]) != len(hz[0]):
        want = False
    else:
        want = all(gf2.parity(a & b) == 0 for a in gf2.ints(hx) for b in gf2.ints(hz))
        want &= d > 0 and (d if dx is None else dx) >= d and (d if dz is None else dz) >= d
    try:
        c = CSSCode(d, *(None if h is None else np.array(h, dtype=np.int8) for h in (hx, hz)), x_distance=dx, z_distance=dz)
    except (InvalidCSSCodeError, InvalidStabilizerCodeError):
        require(not want, "a valid code is rejected")
        return f"{case['what']}: rejected"
    require(want, "an invalid code is accepted")
    require((c.distance, c.x_distance, c.z_distance) == (d, dx or d, dz or d), "distances are not kept")
    return f"{case['what']}: accepted"


@st.composite
def gen_eq(draw):
    import random

    hx, hz = draw(gens.css_pair(2, 8, 1, 4))
    r = random.Random(draw(st.integers(0, 2**32)))

    def mix(h):
        h = [list(x) for x in h]
        for _ in range(r.randrange(6)):
            i, j = r.randrange(len(h)), r.randrange(len(h))
            if i != j:
                h[i] = [a ^ b for a, b in zip(h[i], h[j])]
        if r.random() < 0.3:
            h.append([a ^ b for a, b in zip(h[0], h[-1])])
        r.shuffle(h)
        return h

    hx2, hz2 = mix(hx), mix(hz)
    how = draw(st.sampled_from(["mix", "mix", "drop", "permute", "exchange"]))
    if how == "drop" and len(hx2) > 1:
        hx2.pop()
    elif how == "permute":
        p = list(range(len(hx[0])))
        r.shuffle(p)
        hx2, hz2 = [[x[i] for i in p] for x in hx2], [[x[i] for i in p] for x in hz2]
    elif how == "exchange":
        hx2, hz2 = hz2, hx2
    return {"a": [hx, hz], "b": [hx2, hz2]}


def check_eq(case):
    a, b = case["a"], case["b"]
    ca, cb = (CSSCode(1, np.array(x, dtype=np.int8), np.array(z, dtype=np.int8)) for x, z in (a, b))
    want = gf2.same_space(gf2.ints(a[0]), gf2.ints(b[0])) and gf2.same_space(gf2.ints(a[1]), gf2.ints(b[1]))
    require((ca == cb) == want and (cb == ca) == want, f"equality is {ca == cb}, expected {want}")
    if want:
        require(hash(ca) == hash(cb), "equal codes have different hashes")
    return ("equal" if want else "different") if a != b else None


PROP = Prop(
    "P10",
    [
        Sub("algebra", check, strategy=gen, quick=2500, thorough=40000, shards=(5, 8),
            rule="non-trivial: equivalent and inequivalent different errors, logical and trivial residuals were all asked"),
        Sub("rejection", check_rej, strategy=gen_rej, quick=1500, thorough=20000, shards=(1, 8), rule="every case"),
        Sub("equality", check_eq, strategy=gen_eq, quick=1500, thorough=20000, shards=(1, 8), rule="non-trivial: different matrices"),
    ],
)
