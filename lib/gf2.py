"""Independent GF(2) linear algebra on Python integers (bit i = column i); no numpy, no ldpc."""

from __future__ import annotations

from itertools import combinations


def to_int(row) -> int:
    r = 0
    for i, b in enumerate(row):
        if int(b) & 1:
            r |= 1 << i
    return r


def ints(mat) -> list[int]:
    return [to_int(r) for r in mat]


def to_list(v: int, n: int) -> list[int]:
    return [(v >> i) & 1 for i in range(n)]


def parity(x: int) -> int:
    return bin(x).count("1") & 1


def wt(x: int) -> int:
    return bin(x).count("1")


class Span:
    """Row space of a set of vectors (reduced basis keyed by leading bit)."""

    def __init__(self, rows=()):
        self.basis: dict[int, int] = {}
        for r in rows:
            self.add(r)

    def reduce(self, v: int) -> int:
        while v:
            h = v.bit_length() - 1
            b = self.basis.get(h)
            if b is None:
                return v
            v ^= b
        return 0

    def normal(self, v: int) -> int:
        """Canonical coset representative."""
        for h in sorted(self.basis, reverse=True):
            if v >> h & 1:
                v ^= self.basis[h]
        return v

    def add(self, v: int) -> bool:
        v = self.reduce(v)
        if not v:
            return False
        self.basis[v.bit_length() - 1] = v
        return True

    def __contains__(self, v: int) -> bool:
        return self.reduce(v) == 0

    @property
    def rank(self) -> int:
        return len(self.basis)

    def elements(self):
        bs = list(self.basis.values())
        out = [0]
        for b in bs:
            out += [x ^ b for x in out]
        return out


def rank(rows: list[int]) -> int:
    return Span(rows).rank


def same_space(a: list[int], b: list[int]) -> bool:
    sa, sb = Span(a), Span(b)
    return sa.rank == sb.rank and all(x in sa for x in b)


def nullspace(rows: list[int], n: int) -> list[int]:
    """Basis of {v : rows·v = 0}."""
    piv: list[tuple[int, int]] = []  # (pivot column, row), fully reduced
    for r in rows:
        for c, p in piv:
            if r >> c & 1:
                r ^= p
        if r:
            c = (r & -r).bit_length() - 1
            piv = [(cc, pp ^ r if pp >> c & 1 else pp) for cc, pp in piv]
            piv.append((c, r))
    pc = {c for c, _ in piv}
    out = []
    for f in range(n):
        if f in pc:
            continue
        v = 1 << f
        for c, p in piv:
            if p >> f & 1:
                v |= 1 << c
        out.append(v)
    return out


def syndrome(rows: list[int], v: int) -> int:
    s = 0
    for i, r in enumerate(rows):
        if parity(r & v):
            s |= 1 << i
    return s


def by_weight(n: int, wmax: int | None = None):
    for w in range((n if wmax is None else wmax) + 1):
        for c in combinations(range(n), w):
            v = 0
            for i in c:
                v |= 1 << i
            yield v


def min_coset_weight(v: int, gens: list[int], cap: int | None = None) -> int:
    """Smallest weight of v + <gens> (enumeration of the span, up to 2^22 elements)."""
    sp = Span(gens)
    best = wt(v)
    x = v
    bs = list(sp.basis.values())
    # Gray code walk
    for i in range(1, 1 << len(bs)):
        x ^= bs[(i & -i).bit_length() - 1]
        w = wt(x)
        if w < best:
            best = w
            if best == 0:
                break
    return best


def distance(hx: list[int], hz: list[int], n: int, which: str) -> int:
    """Minimum weight of a logical operator of the given type ('x': commutes with hz, not in <hx>)."""
    checks, stabs = (hz, hx) if which == "x" else (hx, hz)
    sp = Span(stabs)
    for v in by_weight(n):
        if v and syndrome(checks, v) == 0 and v not in sp:
            return wt(v)
    return n + 1
