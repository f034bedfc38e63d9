"""Code families and helpers for the union-find decoders."""

from __future__ import annotations

import random

import gens
import gf2
import numpy as np
from hypothesis import strategies as st

from mqt.qecc import pyqecc as pq
from mqt.qecc.codes import CSSCode, HexagonalColorCode, SquareOctagonColorCode

GROWTH = {
    "all": pq.GrowthVariant.ALL_COMPONENTS, "invalid": pq.GrowthVariant.INVALID_COMPONENTS,
    "smallest": pq.GrowthVariant.SINGLE_SMALLEST, "random": pq.GrowthVariant.SINGLE_RANDOM,
    "qubit": pq.GrowthVariant.SINGLE_QUBIT_RANDOM,
}  # fmt: skip
UFD_GROWTHS = ["all", "smallest", "random", "qubit"]
UFH_GROWTHS = ["all", "invalid", "smallest", "random"]


def _named(nme):
    c = CSSCode.from_code_name(nme)
    return np.array(c.Hx).astype(int).tolist(), np.array(c.Hz).astype(int).tolist()


def _color(cls, d):
    m = np.array(cls(d).H).astype(int).tolist()
    return m, m


FAM = {
    "steane": lambda: (gens.STEANE, gens.STEANE), "shor": lambda: (gens.SHOR_X, gens.SHOR_Z),
    "golay": lambda: _named("Golay"), "hamming": lambda: _named("Hamming"), "tetra": lambda: _named("Tetrahedral"),
    "carbon": lambda: _named("Carbon"), "rot3": lambda: _named("Surface_3"), "rot5": lambda: _named("Surface_5"),
    "hex3": lambda: _color(HexagonalColorCode, 3), "hex5": lambda: _color(HexagonalColorCode, 5),
    "so3": lambda: _color(SquareOctagonColorCode, 3), "so5": lambda: _color(SquareOctagonColorCode, 5),
    "toric3": lambda: gens.toric(3), "toric4": lambda: gens.toric(4), "toric5": lambda: gens.toric(5),
    "surf3": lambda: gens.surface(3), "surf4": lambda: gens.surface(4), "surf5": lambda: gens.surface(5),
    "hgp": lambda: gens.hgp(gens.STEANE, gens.rep(3)),
}  # fmt: skip
_cache: dict = {}


def family(name):
    if name not in _cache:
        _cache[name] = FAM[name]()
    return _cache[name]


def permuted(f, perm):
    """The code with its qubits and checks relabelled by a seeded permutation (0: as is)."""
    hx, hz = family(f)
    if not perm:
        return hx, hz
    r = random.Random(perm)
    q = list(range(len(hz[0])))
    r.shuffle(q)
    hx, hz = [[row[i] for i in q] for row in hx], [[row[i] for i in q] for row in hz]
    r.shuffle(hx)
    r.shuffle(hz)
    return hx, hz


def B(m):
    return [[bool(x) for x in r] for r in m]


def b(v):
    return [bool(x) for x in v]


def I(v):
    return [int(x) for x in v]


def msyn(m, v):
    return [sum(x & y for x, y in zip(r, v)) % 2 for r in m]


@st.composite
def error(draw, n, wmax=None):
    if n == 0:
        return []
    k = draw(st.integers(0, 3))
    if k == 0:
        return draw(gens.bits(n))
    w = draw(st.integers(0, min(n, wmax or 5)))
    s = draw(st.sets(st.integers(0, n - 1), min_size=w, max_size=w))
    return [int(i in s) for i in range(n)]


@st.composite
def random_codes(draw):
    """(hx, hz): arbitrary (not necessarily orthogonal) sparse or dense checks, zero rows/columns, block structure."""
    k = draw(st.integers(0, 3))
    if k == 0:
        hz = draw(gens.matrix(mmax=7, nmax=9))
        n = len(hz[0])
        hx = [draw(gens.bits(n)) for _ in range(draw(st.integers(1, 4)))]
        return hx, hz
    if k == 1:
        return draw(gens.css_pair(nmax=14, rmax=8))
    if k == 2:
        # hypergraph products of small random matrices
        a = draw(gens.matrix(mmax=3, nmin=2, nmax=4))
        c = draw(gens.matrix(mmax=3, nmin=2, nmax=4))
        return gens.hgp(a, c)
    # disconnected blocks
    a = draw(gens.matrix(mmax=4, nmax=6))
    c = draw(gens.matrix(mmax=4, nmax=6))
    na, nc = len(a[0]), len(c[0])
    hz = [r + [0] * nc for r in a] + [[0] * na + r for r in c]
    hx = [[0] * (na + nc)]
    return hx, hz


def tanner_touched(hz, syn):
    """Qubits in the connected components of the Tanner graph that contain a violated check."""
    n = len(hz[0])
    seen, todo = set(), [i for i, s in enumerate(syn) if s]
    qs = set()
    seen |= set(todo)
    while todo:
        i = todo.pop()
        for q in range(n):
            if hz[i][q] and q not in qs:
                qs.add(q)
                for j in range(len(hz)):
                    if hz[j][q] and j not in seen:
                        seen.add(j)
                        todo.append(j)
    return qs


def logical(hx, r):
    return gf2.to_int(r) not in gf2.Span(gf2.ints(hx))
