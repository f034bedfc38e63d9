"""P28: lifted products of protographs are the codes they are said to be."""

import contextlib
import io
import os
import random
import runpy
import sys
import tempfile

import numpy as np
from hypothesis import strategies as st

import env
import gf2
from harness import Prop, Sub, Violation, require

SRC = os.path.join(env.REPO, "scripts", "numerics", "code_construct")
sys.path.insert(0, SRC)
sys.dont_write_bytecode = True  # the folder is part of the repository
import ldpc.protograph as pt  # noqa: E402
import lifted_hgp  # noqa: E402


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as out, contextlib.redirect_stderr(io.StringIO()):
        yield out


# An entry is a tuple of exponents: the polynomial over GF(2) that is the sum of those powers.
@st.composite
def gen_proto(draw, dims, top, rich):
    m, n = draw(dims), draw(dims)
    entry = st.tuples(st.integers(0, top))
    if rich:
        entry = st.one_of(entry, st.just(()), st.lists(st.integers(0, top), max_size=3, unique=True).map(tuple))
    return [[list(draw(entry)) for _ in range(n)] for _ in range(m)]


@st.composite
def gen_case(draw):
    lift = draw(st.integers(1, 9))
    rich = draw(st.booleans())
    top = draw(st.sampled_from([max(lift - 1, 0), 15]))
    dims = st.integers(1, 3 if lift <= 5 else 2)
    a = draw(gen_proto(dims, top, rich))
    b = draw(st.one_of(st.none(), gen_proto(dims, top, rich), gen_proto(dims, top, rich)))
    return {"lift": lift, "a": a, "b": b}


def to_pt(p):
    arr = np.empty((len(p), len(p[0])), dtype=object)
    for i, row in enumerate(p):
        for j, e in enumerate(row):
            arr[i, j] = pt.RingOfCirculantsF2(tuple(e))
    return pt.array(arr)


def content(p):
    return [[sorted(int(c) for c in e.coefficients) for e in row] for row in p]


# --- an independent lifting: entry (row block i, row r) -> the columns (j, (r + e) mod L), counted modulo two
def lift(p, size, transpose=False):
    m, n = len(p), len(p[0])
    out = np.zeros((m * size, n * size), dtype=np.int64)
    for i in range(m):
        for j in range(n):
            for e in p[i][j]:
                for r in range(size):
                    out[i * size + r, j * size + (r + e) % size] ^= 1
    return out.T.copy() if transpose else out


def lift_left(a_bin, am, an, other, size):
    """The lifted kron(A, I_other): block (i, t), (j, t) is the block (i, j) of A."""
    out = np.zeros((am * other * size, an * other * size), dtype=np.int64)
    for i in range(am):
        for j in range(an):
            blk = a_bin[i * size : (i + 1) * size, j * size : (j + 1) * size]
            for t in range(other):
                out[(i * other + t) * size : (i * other + t + 1) * size, (j * other + t) * size : (j * other + t + 1) * size] = blk
    return out


def lift_right(b_bin, other):
    """The lifted kron(I_other, B)."""
    m, n = b_bin.shape
    out = np.zeros((other * m, other * n), dtype=np.int64)
    for t in range(other):
        out[t * m : (t + 1) * m, t * n : (t + 1) * n] = b_bin
    return out


def expected(case):
    a, size = case["a"], case["lift"]
    b = case["b"] if case["b"] is not None else a
    am, an, bm, bn = len(a), len(a[0]), len(b), len(b[0])
    la, lb = lift(a, size), lift(b, size)
    return {
        "hx1": lift_left(la, am, an, bn, size),
        "hx2": lift_right(lb.T, am),
        "hz1": lift_right(lb, an),
        "hz2": lift_left(la.T, an, am, bm, size),
    }


def rank(m):
    return gf2.rank([int("".join(map(str, r)), 2) for r in m.tolist()])


def same(x, y):
    x, y = np.asarray(x), np.asarray(y)
    return x.shape == y.shape and bool((x == y).all())


def check_lifted(case):
    e = expected(case)
    a = to_pt(case["a"])
    b = None if case["b"] is None else to_pt(case["b"])
    ca, cb = content(a), None if b is None else content(b)
    with quiet():
        q = lifted_hgp.LiftedHgp(case["lift"], a, b) if b is not None else lifted_hgp.LiftedHgp(case["lift"], a)
    require(content(a) == ca and (b is None or content(b) == cb), "the protographs of the caller are modified")
    for k, want in e.items():
        require(same(getattr(q, k), want), f"{k} is not the lifted block of the product")
    hx = np.hstack([e["hx1"], e["hx2"]])
    hz = np.hstack([e["hz1"], e["hz2"]])
    require(same(q.hx, hx), "hx is not [A x I | I x B^T] lifted")
    require(same(q.hz, hz), "hz is not [I x B | A^T x I] lifted")
    require(not (np.asarray(q.hx) @ np.asarray(q.hz).T % 2).any(), "the checks of the lifted product do not commute")
    k = hx.shape[1] - rank(hx) - rank(hz)
    require(int(q.N) == hx.shape[1] and int(q.K) == k, f"[[{q.N},{q.K}]] reported for a [[{hx.shape[1]},{k}]] code")
    # the protograph: the Z-type checks above the X-type ones, in symplectic form (X part | Z part)
    p = q.protograph
    want = np.vstack([np.hstack([np.zeros_like(hz), hz]), np.hstack([hx, np.zeros_like(hx)])])
    require(same(p.to_binary(case["lift"]), want), "the protograph does not lift to the stabilizers of the code")
    if k == 0 and case["lift"] == 1:
        return None
    return "self" if case["b"] is None else "k>0" if k else "k=0"


def check_biased(case):
    e = expected(case)
    a = to_pt(case["a"])
    b = None if case["b"] is None else to_pt(case["b"])
    with quiet():
        q = lifted_hgp.BiasTailoredLiftedProduct(case["lift"], a, b) if b is not None else lifted_hgp.BiasTailoredLiftedProduct(case["lift"], a)
    sx, sz = np.asarray(q.hx), np.asarray(q.hz)
    require(sx.shape == sz.shape, "the X and Z parts of the stabilizers differ in shape")
    require(not ((sx @ sz.T + sz @ sx.T) % 2).any(), "the stabilizers of the bias-tailored code do not commute")
    # Hadamards on the second block of qubits turn the CSS code into this one
    n1 = e["hx1"].shape[1]
    rows = []
    for x, z in zip(sx, sz):
        x, z = x.copy(), z.copy()
        x[n1:], z[n1:] = z[n1:].copy(), x[n1:].copy()
        rows.append(np.concatenate([x, z]))
    hx = np.hstack([e["hx1"], e["hx2"]])
    hz = np.hstack([e["hz1"], e["hz2"]])
    want = np.vstack([np.hstack([np.zeros_like(hz), hz]), np.hstack([hx, np.zeros_like(hx)])])
    require(same(np.array(rows), want), "the bias-tailored code is not the lifted product with Hadamards on the second block")
    k = hx.shape[1] - rank(hx) - rank(hz)
    require(int(q.N) == hx.shape[1] and int(q.K) == k, f"[[{q.N},{q.K}]] reported for a [[{hx.shape[1]},{k}]] code")
    # its protograph
    p = q.protograph.to_binary(case["lift"])
    big = np.vstack([np.hstack([np.zeros_like(sz), sz]), np.hstack([sx, np.zeros_like(sx)])])
    require(same(p, big), "the protograph does not lift to the parts of the stabilizers")
    return "self" if case["b"] is None else "k>0" if k else "k=0"


def cases_script(tier):
    return [{"script": "constructLPcodes.py"}]


def check_script(case):
    """The script that writes a lifted product writes the checks of the code it names."""
    a = [[[0], [11], [7], [12]], [[1], [8], [1], [8]], [[11], [0], [4], [8]], [[6], [2], [4], [12]]]
    e = expected({"a": a, "b": None, "lift": 32})
    hx = np.hstack([e["hx1"], e["hx2"]])
    hz = np.hstack([e["hz1"], e["hz2"]])
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            with quiet():
                runpy.run_path(os.path.join(SRC, case["script"]), run_name="__main__")
            got = {}
            for f in sorted(os.listdir(d)):
                got[f[-6:-4]] = (f, np.loadtxt(f, dtype=int))
        finally:
            os.chdir(old)
    require(set(got) == {"hx", "hz"}, f"files written: {sorted(got)}")
    require(same(got["hx"][1], hx) and same(got["hz"][1], hz), "the stored checks are not those of the lifted product")
    k = hx.shape[1] - rank(hx) - rank(hz)
    require(f"[[{hx.shape[1]},{k}," in got["hx"][0], f"the file is named {got['hx'][0]}, the code is [[{hx.shape[1]},{k}]]")
    return "script"


PROP = Prop(
    "P28",
    [
        Sub("lifted", check_lifted, strategy=gen_case, quick=400, thorough=6000, shards=(1, 4),
            rule="every case but trivial liftings (size 1) of codes with no logical qubits"),
        Sub("biased", check_biased, strategy=gen_case, quick=400, thorough=6000, shards=(1, 4), rule="all cases"),
        Sub("script", check_script, cases=cases_script, quick=1, thorough=1, shards=(1, 1), rule="the stored code of the repository's script"),
    ],
    assumptions=["protographs with entries given as ring elements (ldpc.protograph), lift parameters 1 to 9, up to 3 x 3 entries"],
)
