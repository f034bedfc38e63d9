"""Codes, circuits and Pauli-frame fault enumeration for the state-preparation checks (independent of the package)."""

from __future__ import annotations

import random
from itertools import combinations

import numpy as np
from hypothesis import strategies as st

import gens
import gf2

R_SURF3_X = [[0, 0, 0, 1, 0, 0, 1, 0, 0], [1, 1, 0, 1, 1, 0, 0, 0, 0], [0, 0, 0, 0, 1, 1, 0, 1, 1], [0, 0, 1, 0, 0, 1, 0, 0, 0]]
R_SURF3_Z = [[1, 1, 0, 0, 0, 0, 0, 0, 0], [0, 1, 1, 0, 1, 1, 0, 0, 0], [0, 0, 0, 1, 1, 0, 1, 1, 0], [0, 0, 0, 0, 0, 0, 0, 1, 1]]
TETRA_X = [[int((i + 1) >> b & 1) for i in range(15)] for b in range(4)]
_T = [gf2.to_int(r) for r in TETRA_X]
TETRA_Z = [gf2.to_list(a & b, 15) for i, a in enumerate(_T) for b in _T[i + 1 :]] + TETRA_X
CC5 = [  # 4.8.8 colour code, distance 5 (own layout, 17 qubits), see selfcheck()
]


def five(n, m):
    return [[1] * n for _ in range(m)]


NAMED = {
    "422": ([[1] * 4], [[1] * 4], 2),
    "642": ([[1] * 6], [[1] * 6], 2),
    "steane": (gens.STEANE, gens.STEANE, 3),
    "shor": (gens.SHOR_X, gens.SHOR_Z, 3),
    "surface3": (R_SURF3_X, R_SURF3_Z, 3),
    "tetra": (TETRA_X, TETRA_Z, 3),
    "toric2": (*gens.toric(2), 2),
    "surf2": (*gens.surface(2), 2),
    "surf13": (*gens.surface(3), 3),
}


def mix_rows(rows, r):
    rows = list(rows)
    for _ in range(2 * len(rows)):
        i, j = r.randrange(len(rows)), r.randrange(len(rows))
        if i != j:
            rows[i] ^= rows[j]
    return rows


@st.composite
def named(draw, names, mix=True):
    name = draw(st.sampled_from(names))
    hx, hz, d = NAMED[name]
    n = len(hx[0])
    perm = list(range(n))
    hx, hz = gf2.ints(hx), gf2.ints(hz)
    how = draw(st.sampled_from(["plain", "perm", "mixed", "both", "swap"]))
    r = random.Random(draw(st.integers(0, 2**32)))
    if how in ("perm", "both", "swap"):
        r.shuffle(perm)
    if mix and how in ("mixed", "both"):
        hx, hz = mix_rows(hx, r), mix_rows(hz, r)
    if how == "swap":
        hx, hz = hz, hx

    def perm_row(v):
        row = gf2.to_list(v, n)
        return [row[perm[i]] for i in range(n)]

    return {"name": name, "hx": [perm_row(v) for v in hx], "hz": [perm_row(v) for v in hz], "d": d}


@st.composite
def random_code(draw, nmin=2, nmax=8, rmax=4, redundant=True, d=(1, 2, 3)):
    hx, hz = draw(gens.css_pair(nmin, nmax, 1, rmax, redundant))
    return {"name": "random", "hx": hx, "hz": hz, "d": draw(st.sampled_from(list(d)))}


@st.composite
def state_code(draw, nmin=4, nmax=8, d=(3,)):
    """A code obtained from a random CSS state: all Z stabilizers of the state are split into checks and logicals."""
    n = draw(st.integers(nmin, nmax))
    r = random.Random(draw(st.integers(0, 2**32)))
    h = sorted(r.sample(range(n), r.randint(1, n - 1)))
    cnots = []
    for _ in range(draw(st.integers(n, 3 * n))):
        a, b = r.sample(range(n), 2)
        cnots.append((a, b))
    xs = []
    for q in h:
        v = 1 << q
        for a, b in cnots:
            if v >> a & 1:
                v ^= 1 << b
        xs.append(v)
    zs = gf2.nullspace(xs, n)
    k = r.randint(0, max(0, len(zs) - 1))
    zs = mix_rows(zs, r)
    return {"name": "state", "hx": [gf2.to_list(v, n) for v in mix_rows(xs, r)], "hz": [gf2.to_list(v, n) for v in zs[: len(zs) - k]],
            "d": draw(st.sampled_from(list(d)))}  # fmt: skip


def np_code(case, cls, **kw):
    hx = np.array(case["hx"], dtype=np.int8)
    hz = np.array(case["hz"], dtype=np.int8)
    return cls(case["d"], hx, hz, **kw)


def code_spaces(case, zero):
    """(X stabilizers, Z stabilizers) of the state |0..0>_L or |+..+>_L, as integer rows."""
    n = len(case["hx"][0])
    hx, hz = gf2.ints(case["hx"]), gf2.ints(case["hz"])
    return (hx, gf2.nullspace(hx, n)) if zero else (gf2.nullspace(hz, n), hz)


# ---------------------------------------------------------------------------------------------------- circuits
def ops(qc):
    """[(name, qubits, clbits)] with indices."""
    out = []
    for inst in qc.data:
        out.append((inst.operation.name, tuple(qc.find_bit(q).index for q in inst.qubits), tuple(qc.find_bit(c).index for c in inst.clbits)))
    return out


def final_stabilizers(oplist, n):
    """Stabilizer tableau of an H/CX circuit on |0..0>, as (x, z, sign) triples."""
    xs, zs, sg = [0] * n, [1 << i for i in range(n)], [0] * n
    for name, q, _ in oplist:
        if name == "h":
            b = 1 << q[0]
            for i in range(n):
                if xs[i] & b and zs[i] & b:
                    sg[i] ^= 1
                x, z = bool(xs[i] & b), bool(zs[i] & b)
                xs[i] = xs[i] & ~b | (b if z else 0)
                zs[i] = zs[i] & ~b | (b if x else 0)
        elif name == "cx":
            c, t = q
            for i in range(n):
                xc, zc, xt, zt = xs[i] >> c & 1, zs[i] >> c & 1, xs[i] >> t & 1, zs[i] >> t & 1
                if xc and zt and not (xt ^ zc):
                    sg[i] ^= 1
                xs[i] ^= xc << t
                zs[i] ^= zt << c
        elif name != "barrier":
            raise ValueError(name)
    return list(zip(xs, zs, sg))


def prepares(oplist, n, xstab, zstab):
    """Does the circuit prepare the state stabilized by exactly + the given X and Z types?"""
    rows = final_stabilizers(oplist, n)
    # every wanted stabilizer must be in the group with sign +
    piv = []
    for x, z, s in rows:
        piv.append([x | z << n, x, z, s])

    def mul(a, b):
        # sign of product of Paulis in X^x Z^z form with hermitian phase bookkeeping: CSS-like generators expected
        s = a[3] ^ b[3]
        # i-powers: count of anticommuting Y contributions
        k = 0
        for j in range(n):
            xa, za, xb, zb = a[1] >> j & 1, a[2] >> j & 1, b[1] >> j & 1, b[2] >> j & 1
            if xa and za:
                k += zb - xb
            elif xa:
                k += zb * (2 * xb - 1)
            elif za:
                k += xb * (1 - 2 * zb)
        return [a[0] ^ b[0], a[1] ^ b[1], a[2] ^ b[2], s ^ (k % 4 == 2)]

    basis = {}
    for p in piv:
        while p[0]:
            h = p[0].bit_length() - 1
            if h not in basis:
                basis[h] = p
                break
            p = mul(p, basis[h])
    for v, is_x in [(v, True) for v in xstab] + [(v, False) for v in zstab]:
        p = [v if is_x else v << n, v if is_x else 0, 0 if is_x else v, 0]
        while p[0]:
            h = p[0].bit_length() - 1
            if h not in basis:
                return f"{'X' if is_x else 'Z'}{gf2.to_list(v, n)} does not stabilize the state"
            p = mul(p, basis[h])
        if p[3]:
            return f"{'X' if is_x else 'Z'}{gf2.to_list(v, n)} has sign -1"
    return None


# ---------------------------------------------------------------------------------------------------- faults
def faults(oplist, n, ncl, after=True, init=True, meas=True, within=None):
    """All single faults of a Clifford circuit with measurements.

    Returns arrays x (F, n), z (F, n): Pauli frame at the end, m (F, ncl): flipped outcomes, and descriptions.
    Locations: preparation of each qubit, every one- and two-qubit Pauli after a gate, a flip of each measurement.
    within: predicate on the op index limiting the gate locations.
    """
    inj = []  # (op index the fault follows, or -1, x bits, z bits)
    if init:
        for q in range(n):
            inj.append((-1, {q: (1, 0)}, f"X on {q} at the start"))
            inj.append((-1, {q: (0, 1)}, f"Z on {q} at the start"))
    for i, (name, q, _) in enumerate(oplist):
        if within is not None and not within(i):
            continue
        if name in ("h", "reset"):
            for p in ((1, 0), (0, 1), (1, 1)):
                inj.append((i, {q[0]: p}, f"{'IZXY'[2 * p[0] + p[1]]} on {q[0]} after op {i} ({name} {q})"))
        elif name == "cx":
            for a in range(4):
                for b in range(4):
                    if a or b:
                        inj.append((i, {q[0]: (a >> 1, a & 1), q[1]: (b >> 1, b & 1)}, f"{'IZXY'[a]}{'IZXY'[b]} after op {i} (cx {q})"))
        elif name == "measure" and meas:
            inj.append((i - 1, {q[0]: (1, 0)}, f"flip of measurement {i} of qubit {q[0]}"))
    F = len(inj)
    x = np.zeros((F, n), dtype=bool)
    z = np.zeros((F, n), dtype=bool)
    m = np.zeros((F, ncl), dtype=bool)
    at = {}
    for k, (i, p, _) in enumerate(inj):
        at.setdefault(i, []).append(k)

    def put(i):
        for k in at.get(i, ()):
            for q, (a, b) in inj[k][1].items():
                x[k, q] ^= bool(a)
                z[k, q] ^= bool(b)

    put(-1)
    for i, (name, q, c) in enumerate(oplist):
        if name == "h":
            t = x[:, q[0]].copy()
            x[:, q[0]] = z[:, q[0]]
            z[:, q[0]] = t
        elif name == "cx":
            x[:, q[1]] ^= x[:, q[0]]
            z[:, q[0]] ^= z[:, q[1]]
        elif name == "measure":
            m[:, c[0]] ^= x[:, q[0]]
            z[:, q[0]] = False
        elif name == "reset":
            x[:, q[0]] = False
            z[:, q[0]] = False
        elif name != "barrier":
            raise ValueError(name)
        put(i)
    return x, z, m, [d for _, _, d in inj]


def pack(a):
    """Rows of a boolean matrix as Python integers."""
    return [int("".join("1" if b else "0" for b in row[::-1]) or "0", 2) for row in a]


class Cosets:
    """Minimum weights of cosets of a small row space, memoised."""

    def __init__(self, gens_, n):
        self.sp = gf2.Span(gens_)
        self.n = n
        vs = np.zeros(1, dtype=np.uint64)
        for b in self.sp.basis.values():
            vs = np.concatenate([vs, vs ^ np.uint64(b)])
        self.vs = vs
        self.memo = {}

    def key(self, v):
        return self.sp.normal(v)

    def weight(self, v):
        k = self.sp.normal(v)
        if k not in self.memo:
            self.memo[k] = int(np.bitwise_count(self.vs ^ np.uint64(k)).min()) if hasattr(np, "bitwise_count") else int(_pop(self.vs ^ np.uint64(k)).min())
        return self.memo[k]


def _pop(a):
    c = np.zeros(a.shape, dtype=np.uint8)
    for s in range(0, 64, 8):
        c += _T8[((a >> np.uint64(s)) & np.uint64(255)).astype(np.int64)]
    return c


_T8 = np.array([bin(i).count("1") for i in range(256)], dtype=np.uint8)


# ---------------------------------------------------------------------------------------------------- optimal circuits
class Orbit:
    """Exact minimum number of CNOTs / CNOT layers that take each subspace of GF(2)^n to a coordinate subspace."""

    def __init__(self, n, layers):
        self.n = n
        from collections import deque

        moves = [((i, j),) for i in range(n) for j in range(n) if i != j]
        if layers:
            moves = list(_matchings(list(range(n))))
        self.dist = {}
        todo = deque()
        for k in range(n + 1):
            for c in combinations(range(n), k):
                s = canon([1 << i for i in c])
                self.dist[s] = 0
                todo.append(s)
        while todo:
            s = todo.popleft()
            d = self.dist[s] + 1
            for mv in moves:
                t = []
                for v in s:
                    w = v
                    for i, j in mv:
                        if v >> i & 1:
                            w ^= 1 << j
                    t.append(w)
                t = canon(t)
                if t not in self.dist:
                    self.dist[t] = d
                    todo.append(t)

    def __getitem__(self, rows):
        return self.dist[canon(rows)]


def _matchings(free):
    """All nonempty sets of disjoint ordered pairs."""

    def rec(fr):
        if len(fr) < 2:
            yield ()
            return
        a, rest = fr[0], fr[1:]
        yield from rec(rest)
        for i, b in enumerate(rest):
            for m in rec(rest[:i] + rest[i + 1 :]):
                yield ((a, b), *m)
                yield ((b, a), *m)

    for m in rec(free):
        if m:
            yield m


def canon(rows):
    """Reduced row echelon form of the span as a sorted tuple."""
    b = {}
    for v in rows:
        for h in sorted(b, reverse=True):
            if v >> h & 1:
                v ^= b[h]
        if v:
            h = v.bit_length() - 1
            for k in b:
                if b[k] >> h & 1:
                    b[k] ^= v
            b[h] = v
    return tuple(sorted(b.values()))
