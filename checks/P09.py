"""P09: stabilizer codes: parameters, syndromes, equality and equivalence, and what is rejected."""

import numpy as np
import stim
from hypothesis import strategies as st

import gf2
from gens import css_pair
from harness import Prop, Skip, Sub, Violation, require
from mqt.qecc import CSSCode, StabilizerCode
from mqt.qecc.codes import HexagonalColorCode, InvalidStabilizerCodeError, SquareOctagonColorCode

# ---------------------------------------------------------------------------------------------- Pauli oracle (stim)


def ps(s):
    """'-XIZ' -> stim.PauliString"""
    return stim.PauliString(s)


def txt(p, plus=False):
    sign = "-" if p.sign == -1 else "+" if plus else ""
    return sign + "".join("IXYZ"[p[i]] for i in range(len(p)))


def sympl(s):
    """-> integer with the x bits and the z bits."""
    p = ps(s)
    x, z = p.to_numpy()
    return gf2.to_int([int(b) for b in x] + [int(b) for b in z])


def group(gens):
    """All elements of the generated group {unsigned text: sign} (the group must be commuting and free of -I)."""
    n = len(ps(gens[0]))
    elems = {"I" * n: stim.PauliString(n)}
    for g in gens:
        g = ps(g)
        if txt(abs_(g)) in elems:
            continue
        elems.update({txt(abs_(e * g)): e * g for e in list(elems.values())})
    return {k: int(v.sign.real) for k, v in elems.items()}


def abs_(p):
    q = stim.PauliString(len(p))
    for i in range(len(p)):
        q[i] = p[i]
    return q


@st.composite
def clifford_rows(draw, n, signs=True):
    """A random symplectic frame: images of Z_i and X_i under a random Clifford circuit."""
    t = stim.TableauSimulator()
    t.set_num_qubits(n)
    tab = stim.Tableau(n)
    for _ in range(draw(st.integers(0, 4 * n))):
        g = draw(st.sampled_from(["H", "S", "CX", "CZ", "X", "Z"] if signs else ["H", "S", "CX", "CZ"]))
        q = draw(st.integers(0, n - 1))
        if g in ("CX", "CZ"):
            if n == 1:
                continue
            r = draw(st.integers(0, n - 2))
            tab.append(stim.Tableau.from_named_gate(g), [q, r + (r >= q)])
        else:
            tab.append(stim.Tableau.from_named_gate(g), [q])
    return [txt(tab.z_output(i)) for i in range(n)], [txt(tab.x_output(i)) for i in range(n)]


def mix(draw, rows, extra):
    """Another generating set of the same group: products of rows (with the right signs), possibly dependent ones."""
    if not rows:
        return []
    rows = [ps(r) for r in rows]
    for _ in range(draw(st.integers(0, 2 * len(rows)))):
        i, j = draw(st.integers(0, len(rows) - 1)), draw(st.integers(0, len(rows) - 1))
        if i != j:
            rows[i] = rows[i] * rows[j]
    for _ in range(extra):
        sel = [r for r in rows if draw(st.booleans())] or [rows[0]]
        p = sel[0]
        for q in sel[1:]:
            p = p * q
        if p.weight:
            rows.append(p)
    return [txt(r) for r in draw(st.permutations(rows))]


def fmt(draw, rows, n):
    """Present generators as strings (with or without explicit signs) or as a binary matrix."""
    style = draw(st.sampled_from(["str", "str+", "bin"]))
    if style == "str+":
        rows = [r if r[0] == "-" else "+" + r if draw(st.booleans()) else r for r in rows]
    return style, rows


def rawbin(rows, n):
    out = []
    for r in rows:
        x, z = ps(r).to_numpy()
        out.append([int(b) for b in x] + [int(b) for b in z] + [int(ps(r).sign == -1)])
    return np.array(out, dtype=np.int8)


def make(style, rows, n, **kw):
    return StabilizerCode(rawbin(rows, n) if style == "bin" else list(rows), **kw)


PAULI = st.sampled_from("IXYZ")


@st.composite
def gen(draw):
    n = draw(st.integers(1, 6))
    r = draw(st.integers(1, n))
    zs, xs = draw(clifford_rows(n))
    gens = mix(draw, zs[:r], draw(st.integers(0, 2)))
    style, gens = fmt(draw, gens, n)
    kl = draw(st.integers(0, n - r))
    errs = ["".join(draw(st.lists(PAULI, min_size=n, max_size=n))) for _ in range(3)]
    return {"n": n, "r": r, "style": style, "gens": gens, "lz": zs[r : r + kl], "lx": list(draw(st.permutations(xs[r : r + kl]))),
            "errs": errs, "pick": [draw(st.integers(0, 63)) for _ in range(3)]}  # fmt: skip


def check(case):
    n, r, gens = case["n"], case["r"], case["gens"]
    kw = {"Lz": case["lz"], "Lx": case["lx"]} if case["lz"] else {}
    c = make(case["style"], gens, n, distance=2, **kw)
    require(c.n == n, f"n = {c.n}, expected {n}")
    require(c.k == n - r, f"k = {c.k}, expected {n - r}")
    require(c.distance == 2, "distance")
    plain = [g.lstrip("+") for g in gens]
    require(c.stabs_as_pauli_strings() == plain, lambda: f"stabilizers {c.stabs_as_pauli_strings()} instead of {plain}")
    grp = group(gens)
    members = sorted(grp)
    picks = [members[p % len(members)] for p in case["pick"]]
    tests = case["errs"] + picks + [("-" if grp[p] < 0 else "") + p for p in picks]
    for e in tests:
        want = [int(not ps(g).commutes(ps(e))) for g in gens]
        got = [int(b) for b in c.get_syndrome(e)]
        require(got == want, f"syndrome of {e}: {got}, expected {want}")
        require([int(b) for b in c.get_syndrome(rawbin([e], n)[0])] == want, f"syndrome of {e} given as a vector")
    yes = no = 0
    prods = [txt(abs_(ps(a) * ps(b))) for a in case["errs"] for b in picks]
    for a in tests + prods:
        for b in tests + prods:
            same = txt(abs_(ps(a) * ps(b))) in grp  # signs are global phases
            got = c.stabilizer_equivalent(a, b)
            require(got == same, f"stabilizer_equivalent({a}, {b}) = {got}, expected {same}")
            yes += same and a != b
            no += not same
    return f"n={n}, k={n - r}, {case['style']}" if yes and no else None


# ------------------------------------------------------------------------------------------------- equality and hash
@st.composite
def gen_eq(draw):
    n = draw(st.integers(1, 5))
    r = draw(st.integers(1, n))
    zs, xs = draw(clifford_rows(n))
    a = mix(draw, zs[:r], draw(st.integers(0, 1)))
    how = draw(st.sampled_from(["same", "same", "sign", "other", "fewer", "more qubits", "swap"]))
    b = list(zs[:r])
    if how == "sign":
        i = draw(st.integers(0, r - 1))
        b[i] = txt(ps(b[i]) * -1)
    elif how == "other":
        b = draw(clifford_rows(n))[0][:r]
    elif how == "fewer":
        b = b[:-1] or b
    elif how == "more qubits":
        b = [g + "I" for g in b]
    elif how == "swap":
        i = draw(st.integers(0, r - 1))
        b[i] = xs[i]
    b = mix(draw, b, draw(st.integers(0, 1)))
    return {"n": n, "a": fmt(draw, a, n), "b": fmt(draw, b, len(ps(b[0])))}


def check_eq(case):
    (sa, a), (sb, b) = case["a"], case["b"]
    ca, cb = make(sa, a, 0), make(sb, b, 0)
    want = group(a) == group(b)
    require((ca == cb) == want and (cb == ca) == want, f"{a} == {b} gives {ca == cb}, expected {want}")
    require((ca != cb) == (not want), "!= disagrees with ==")
    if want:
        require(hash(ca) == hash(cb), f"{a} and {b} are equal but have different hashes")
        require(len({ca, cb}) == 1, "equal codes are different in a set")
    return f"{'equal' if want else 'different'}" if sorted(a) != sorted(b) else None


# ------------------------------------------------------------------------------- equality and hash of the subclasses
@st.composite
def gen_cls(draw):
    fam = draw(st.sampled_from(["css", "css", "hexagon", "square_octagon"]))
    base = list(draw(css_pair(nmin=2, nmax=8, rmin=1, rmax=4))) if fam == "css" else draw(st.sampled_from([3, 5]))
    variants = [
        {"cls": draw(st.sampled_from(["css", "css", "stab", "hexagon", "square_octagon"])),
         "ops": draw(st.lists(st.tuples(st.integers(0, 1), st.integers(0, 30), st.integers(0, 30)), max_size=5)),
         "flip": draw(st.one_of(st.none(), st.none(), st.none(), st.integers(0, 5)))}
        for _ in range(3)
    ]  # fmt: skip
    return {"fam": fam, "base": base, "variants": variants}


COLOR = {"hexagon": HexagonalColorCode, "square_octagon": SquareOctagonColorCode}


def check_cls(case):
    if case["fam"] == "css":
        hx, hz = (np.array(h, dtype=np.int8) for h in case["base"])
        first = CSSCode(2, hx, hz)
    else:
        first = COLOR[case["fam"]](case["base"])
        hx = hz = np.array(first.H, dtype=np.int8)
    objs = [(first, [hx, hz])]
    for v in case["variants"]:
        m = [np.array(hx), np.array(hz)]
        for t, i, j in v["ops"]:  # other rows of the same spaces
            i, j = i % len(m[t]), j % len(m[t])
            if i != j:
                m[t][i] = (m[t][i] + m[t][j]) % 2
        if v["flip"] is not None:  # another space (if it is allowed)
            m[1] = m[1][: max(1, len(m[1]) - 1)]
        if v["cls"] in COLOR:
            o = COLOR[v["cls"]](case["base"] if isinstance(case["base"], int) else 3)
            objs.append((o, [np.array(o.H, dtype=np.int8)] * 2))
        elif v["cls"] == "stab":
            rows = [txt_bits(r, "X") for r in m[0]] + [txt_bits(r, "Z") for r in m[1]]
            objs.append((StabilizerCode(rows), m))
        else:
            objs.append((CSSCode(2, m[0], m[1]), m))
    spaces = [(len(m[0][0]), [gf2.ints(h.tolist()) for h in m]) for _, m in objs]
    same = [[na == nb and all(gf2.same_space(x, y) for x, y in zip(ha, hb)) for nb, hb in spaces] for na, ha in spaces]
    eq = ne = 0
    for i, (a, _) in enumerate(objs):
        for j, (b, _) in enumerate(objs):
            require((a == b) == same[i][j], f"{type(a).__name__} == {type(b).__name__} gives {a == b}, same stabilizer group: {same[i][j]}")
            if same[i][j]:
                require(hash(a) == hash(b), f"equal {type(a).__name__} and {type(b).__name__} have different hashes")
                eq += i != j
            else:
                ne += 1
    return f"{case['fam']}, {'with' if ne else 'no'} different ones" if eq else None


def txt_bits(row, p):
    return "".join(p if b else "I" for b in row)


# --------------------------------------------------------------------------------------------------- what is rejected
@st.composite
def gen_rej(draw):
    n = draw(st.integers(1, 5))
    if draw(st.booleans()):
        r = draw(st.integers(1, n))
        zs, xs = draw(clifford_rows(n))
        gens = mix(draw, zs[:r], draw(st.integers(0, 1)))
        kl = draw(st.integers(0, n - r))
        lz, lx = zs[r : r + kl], xs[r : r + kl]
    else:
        gens = ["".join(draw(st.lists(PAULI, min_size=n, max_size=n))) for _ in range(draw(st.integers(1, 3)))]
        lz = lx = []
    what = draw(st.sampled_from(["none", "generator", "commutation", "-I", "length", "letter", "lz", "lx", "drop lz", "drop lx", "swap pair",
                                 "dup", "extra", "extra x", "wrong pair", "length l", "length lx", "length both", "empty", "distance"]))  # fmt: skip
    i = draw(st.integers(0, 10))
    p = "".join(draw(st.lists(PAULI, min_size=n, max_size=n)))
    gens, lz, lx = list(gens), list(lz), list(lx)
    dist = 1
    if what == "generator":
        gens.append(p)
    elif what == "commutation":
        gens[i % len(gens)] = p
    elif what == "-I":
        gens.append(txt(ps(gens[0]) * -1))
    elif what == "length":
        gens[i % len(gens)] += "X"
    elif what == "letter":
        g = gens[i % len(gens)]
        gens[i % len(gens)] = g[:-1] + draw(st.sampled_from("ABxyz?-+"))
    elif what == "lz" and lz:
        lz[i % len(lz)] = p
    elif what == "lx" and lx:
        lx[i % len(lx)] = p
    elif what == "drop lz" and lz:
        lz.pop(i % len(lz))
    elif what == "drop lx" and lx:
        lx.pop(i % len(lx))
    elif what == "dup" and lz:
        lz[i % len(lz)] = lz[0]
    elif what == "extra":
        lz.append(p)
        lx.append(draw(st.sampled_from([p, *lx])))
    elif what == "wrong pair" and len(lx) > 1:
        lx[0] = txt(ps(lx[0]) * ps(lx[1]))
    elif what == "extra x":
        lx.append(p)
    elif what == "length l" and lz:
        lz = [z + "I" for z in lz]
    elif what == "length lx" and lz:
        lx = [z + "I" for z in lx]
    elif what == "length both" and lz:
        lz, lx = [z + "I" for z in lz], [z + "I" for z in lx]
    elif what == "empty":
        gens = []
    elif what == "distance":
        dist = draw(st.integers(-2, 1))
    return {"n": n, "what": what, "gens": gens, "lz": lz or None, "lx": lx or None, "dist": dist}


def valid(case):
    gens, lz, lx = case["gens"], case["lz"], case["lx"]

    def okp(s):
        body = s[1:] if s[:1] in ("+", "-") else s
        return len(body) > 0 and set(body) <= set("IXYZ")

    if not gens or not all(okp(s) for s in gens) or case["dist"] <= 0:
        return False
    ln = [len(s.lstrip("+-")) for s in gens]
    if len(set(ln)) != 1:
        return False
    n = ln[0]
    P = [ps(g) for g in gens]
    if not all(a.commutes(b) for a in P for b in P):
        return False
    # -I in the group?
    elems = {"I" * n: stim.PauliString(n)}
    for g in P:
        k = txt(abs_(g))
        if k in elems:
            if elems[k].sign != g.sign:
                return False
            continue
        elems.update({txt(abs_(e * g)): e * g for e in list(elems.values())})
    k = n - (len(elems).bit_length() - 1)
    if (lz is None) != (lx is None):
        return False
    if lz is None:
        return True
    if any(len(s.lstrip("+-")) != n for s in [*lz, *lx]) or len(lz) > k or len(lx) > k:
        return False
    Z, X = [ps(s) for s in lz], [ps(s) for s in lx]
    if not all(a.commutes(b) for a in P for b in Z + X):
        return False
    m = [[int(not a.commutes(b)) for b in X] for a in Z]
    return len(Z) == len(X) and all(sum(r) == 1 for r in m) and all(sum(c) == 1 for c in zip(*m))


def check_rej(case):
    want = valid(case)
    try:
        StabilizerCode(case["gens"], distance=case["dist"], Lz=case["lz"], Lx=case["lx"])
        got = True
    except InvalidStabilizerCodeError:
        got = False
    require(got == want, f"{case['gens']}, Lz={case['lz']}, Lx={case['lx']}, distance {case['dist']}: {'accepted' if got else 'rejected'}")
    return f"{case['what']}: {'valid' if want else 'invalid'}"


# ------------------------------------------------------------------------------------------------ Pauli arithmetic
@st.composite
def gen_pauli(draw):
    n = draw(st.integers(1, 9))
    word = lambda: "".join(draw(st.lists(st.sampled_from("IXYZ"), min_size=n, max_size=n)))  # noqa: E731
    return {"a": [draw(st.sampled_from(["", "+", "-"])) + word() for _ in range(draw(st.integers(1, 4)))], "b": [word() for _ in range(draw(st.integers(1, 4)))],
            "dtype": draw(st.sampled_from(["int8", "int64"])), "bad": draw(st.text(alphabet="IXYZixyz+- 01", max_size=5))}  # fmt: skip


def check_pauli(c):
    """Conversions and (anti)commutation of the helper functions, as far as they exist, against stim."""
    import mqt.qecc.codes.stabilizer_code as S

    def fn(name):
        return getattr(S, name, None)

    A, B = [ps(x) for x in c["a"]], [ps(x) for x in c["b"]]
    n = len(A[0])

    def vec(p, sign=True):
        x, z = p.to_numpy()
        return [int(b) for b in x] + [int(b) for b in z] + ([int(p.sign == -1)] if sign else [])

    if f := fn("pauli_to_binary"):
        for s, p in zip(c["a"], A):
            require(np.asarray(f(s)).tolist() == vec(p), lambda: f"pauli_to_binary({s}) = {np.asarray(f(s)).tolist()}")
    if f := fn("paulis_to_binary"):
        require(np.asarray(f(c["a"])).tolist() == [vec(p) for p in A], "paulis_to_binary")
    if f := fn("binary_to_pauli_string"):
        for p in A:
            require(f(np.array(vec(p))) == txt(p), lambda: f"binary_to_pauli_string({vec(p)}) = {f(np.array(vec(p)))}")
    if f := fn("pauli_to_symplectic_vec"):
        require(np.asarray(f(c["a"][0])).tolist() == vec(A[0], False), "pauli_to_symplectic_vec")
    if f := fn("get_n_qubits_from_pauli"):
        require(all(f(s) == n and f(np.array(vec(p))) == n for s, p in zip(c["a"], A)), "get_n_qubits_from_pauli")
    if f := fn("is_pauli_string"):
        require(all(f(s) for s in [*c["a"], *c["b"]]), "a Pauli string is not recognised")
        rest = c["bad"][1:] if c["bad"][:1] in ("+", "-") else c["bad"]
        require(bool(f(c["bad"])) == (rest != "" and set(rest) <= set("IXYZ")), lambda: f"is_pauli_string({c['bad']!r}) = {f(c['bad'])}")
    ma, mb = (np.array([vec(p, False) for p in x], dtype=c["dtype"]) for x in (A, B))
    anti = [[int(not p.commutes(q)) for q in B] for p in A]
    for i, p in enumerate(ma):
        for j, q in enumerate(mb):
            for name, want in (("symplectic_inner_product", anti[i][j]), ("commute", not anti[i][j]), ("anti_commute", bool(anti[i][j]))):
                if f := fn(name):
                    require(f(p, q) == want, lambda: f"{name}({c['a'][i]}, {c['b'][j]}) = {f(p, q)}")
    if f := fn("symplectic_matrix_product"):
        require(np.asarray(f(ma, mb)).tolist() == anti, lambda: f"symplectic_matrix_product: {np.asarray(f(ma, mb)).tolist()} instead of {anti}")
    if f := fn("symplectic_matrix_mul"):
        require(np.asarray(f(ma, mb[0])).tolist() == [r[0] for r in anti], "symplectic_matrix_mul")
    if f := fn("all_commute"):
        require(f(ma, mb) == (not any(map(any, anti))), "all_commute")
    if f := fn("multiply_paulis"):
        for s, q in zip(c["b"], B):
            com = [p for p in A if p.commutes(q)]
            if com:
                got = np.asarray(f(np.array([vec(p) for p in com]), np.array(vec(q)))).tolist()
                require(got == [vec(p * q) for p in com], lambda: f"products of {[str(p) for p in com]} with {s}: {got}")
    return "pauli" if any(map(any, anti)) else None


PROP = Prop(
    "P09",
    [
        Sub("parameters and syndromes", check, strategy=gen, quick=1500, thorough=30000, shards=(3, 8),
            rule="non-trivial: equivalent (but different) and inequivalent operator pairs were both asked"),
        Sub("equality", check_eq, strategy=gen_eq, quick=2000, thorough=40000, shards=(2, 8),
            rule="non-trivial: the two generator lists differ as lists"),
        Sub("equality of subclasses", check_cls, strategy=gen_cls, quick=400, thorough=6000, shards=(1, 4),
            rule="non-trivial: two different objects (CSS, color or general stabilizer codes) have the same group"),
        Sub("Pauli arithmetic", check_pauli, strategy=gen_pauli, quick=500, thorough=10000, shards=(1, 4), rule="non-trivial: some pair anticommutes"),
        Sub("rejection", check_rej, strategy=gen_rej, quick=2500, thorough=40000, shards=(2, 8), rule="every case"),
    ],
    assumptions=["whether a negative sign of a stabilizer matters for the equivalence of two errors is left open"],
)
