"""Hypothesis strategies shared by the checks."""

from __future__ import annotations

import random

from hypothesis import strategies as st


def bits(n):
    return st.lists(st.integers(0, 1), min_size=n, max_size=n)


@st.composite
def matrix(draw, mmin=1, mmax=8, nmin=1, nmax=10, dens=True):
    m = draw(st.integers(mmin, mmax))
    n = draw(st.integers(nmin, nmax))
    if draw(st.booleans()):
        return [draw(bits(n)) for _ in range(m)]
    p = draw(st.sampled_from([0.15, 0.3, 0.5]))
    r = random.Random(draw(st.integers(0, 2**32)))
    return [[int(r.random() < p) for _ in range(n)] for _ in range(m)]


@st.composite
def css_pair(draw, nmin=2, nmax=10, rmin=1, rmax=6, redundant=True):
    """Random orthogonal pair (hx, hz) as lists of 0/1 rows."""
    import gf2

    n = draw(st.integers(nmin, nmax))
    r = random.Random(draw(st.integers(0, 2**32)))
    rx = draw(st.integers(rmin, min(rmax, n)))
    hx = [r.getrandbits(n) for _ in range(rx)]
    if draw(st.booleans()):
        hx = [x for x in hx if x] or [1]
    ker = gf2.nullspace(hx, n)
    rz = draw(st.integers(rmin, rmax))
    hz = []
    for _ in range(rz):
        v = 0
        for k in ker:
            if r.random() < 0.4:
                v ^= k
        hz.append(v)
    if draw(st.booleans()):
        sp = gf2.Span()
        hx = [x for x in hx if sp.add(x)]
        sp = gf2.Span()
        hz = [x for x in hz if sp.add(x)]
    if redundant and draw(st.integers(0, 3)) == 0 and hx:
        hx.append(hx[0] ^ hx[-1] if len(hx) > 1 else hx[0])
    if not hx:
        hx = [0]
    if not hz:
        hz = [0]
    return [gf2.to_list(x, n) for x in hx], [gf2.to_list(x, n) for x in hz]


STEANE = [[1, 0, 0, 1, 0, 1, 1], [0, 1, 0, 1, 1, 0, 1], [0, 0, 1, 0, 1, 1, 1]]
SHOR_Z = [[1, 1, 0, 0, 0, 0, 0, 0, 0], [0, 1, 1, 0, 0, 0, 0, 0, 0], [0, 0, 0, 1, 1, 0, 0, 0, 0],
          [0, 0, 0, 0, 1, 1, 0, 0, 0], [0, 0, 0, 0, 0, 0, 1, 1, 0], [0, 0, 0, 0, 0, 0, 0, 1, 1]]  # fmt: skip
SHOR_X = [[1, 1, 1, 1, 1, 1, 0, 0, 0], [0, 0, 0, 1, 1, 1, 1, 1, 1]]


def rep(n):
    return [[int(j in (i, i + 1)) for j in range(n)] for i in range(n - 1)]


def ring(n):
    return [[int(j in (i, (i + 1) % n)) for j in range(n)] for i in range(n)]


def hgp(a, b):
    """Hypergraph product (hx, hz) of two binary matrices."""
    ra, na, rb, nb = len(a), len(a[0]), len(b), len(b[0])
    n1, n2 = na * nb, ra * rb
    hx, hz = [], []
    for i in range(ra):
        for j in range(nb):
            row = [0] * (n1 + n2)
            for x in range(na):
                if a[i][x]:
                    row[x * nb + j] ^= 1
            for y in range(rb):
                if b[y][j]:
                    row[n1 + i * rb + y] ^= 1
            hx.append(row)
    for x in range(na):
        for y in range(rb):
            row = [0] * (n1 + n2)
            for j in range(nb):
                if b[y][j]:
                    row[x * nb + j] ^= 1
            for i in range(ra):
                if a[i][x]:
                    row[n1 + i * rb + y] ^= 1
            hz.append(row)
    return hx, hz


def toric(d):
    return hgp(ring(d), ring(d))


def surface(d):
    return hgp(rep(d), rep(d))
