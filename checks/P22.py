"""P22: 3D and 4D product codes are chain complexes with the homology of the product, and are stored as constructed."""

import json
import os
import random
import shutil
import sys
import tempfile
from pathlib import Path

import numpy as np
import scipy.io as sio
import scipy.sparse as sp
from hypothesis import strategies as st

import env
import gens
import gf2
from harness import Prop, Skip, Sub, Violation, require
from mqt.qecc.analog_information_decoding.code_construction import code_constructor as D
from mqt.qecc.analog_information_decoding.code_construction import sparse_code_constructor as S


def dense(x):
    x = x.todense() if sp.issparse(x) else x
    a = np.asarray(x)
    require(a.ndim == 2, "not a matrix")
    b = np.rint(a).astype(int)
    require(np.array_equal(a, b) and b.min(initial=0) >= 0 and b.max(initial=0) <= 1, "entries are not 0 or 1")
    return b


def rk(a):
    return gf2.rank(gf2.ints(a)) if a.size else 0


def homology(maps):
    """maps[i]: C_{i+1} -> C_i; dimensions of the homology groups."""
    dims = [maps[0].shape[0]] + [m.shape[1] for m in maps]
    r = [0] + [rk(m) for m in maps] + [0]
    return dims, [dims[i] - r[i] - r[i + 1] for i in range(len(dims))]


def product(maps, p):
    """Dimensions and homology of the product with C_1 -p-> C_0 (Kuenneth)."""
    dims, h = homology(maps)
    r, c = p.shape
    h0, h1 = r - rk(p), c - rk(p)
    dims, h = dims + [0], h + [0]
    return [dims[i] * r + (dims[i - 1] * c if i else 0) for i in range(len(dims))], [h[i] * h0 + (h[i - 1] * h1 if i else 0) for i in range(len(h))]


def check_complex(got, maps, p, what):
    dims, hom = product(maps, p)
    for i, g in enumerate(got):
        require(g.shape == (dims[i], dims[i + 1]), lambda: f"{what}: map {i + 1} has shape {g.shape} instead of {(dims[i], dims[i + 1])}")
    for a, b in zip(got, got[1:]):
        require(not (a @ b % 2).any(), lambda: f"{what}: consecutive maps do not compose to zero")
    d2, h2 = homology(got)
    require(h2 == hom, lambda: f"{what}: homology {h2}, of the product complex {hom}")
    # every map is a (x) id + id (x) p
    nn = [int(m.sum()) for m in maps]
    cd = [maps[0].shape[0]] + [m.shape[1] for m in maps]
    r, c = p.shape
    for i, g in enumerate(got):
        want = (nn[i] * r if i < len(nn) else 0) + (nn[i - 1] * c if i else 0) + cd[i] * int(p.sum())
        require(int(g.sum()) == want, lambda: f"{what}: map {i + 1} has {g.sum()} ones instead of {want}")
    a, pr = maps[0].sum(1), p.sum(1)
    require(sorted(got[0].sum(1).tolist()) == sorted((int(x) + int(y)) for x in a for y in pr), lambda: f"{what}: weights of the first map")


@st.composite
def gen(draw):
    r = random.Random(draw(st.integers(0, 2**32)))
    hx, hz = draw(gens.css_pair(1, 5, 1, 3))
    p = draw(gens.matrix(1, 5, 1, 4))
    a3 = draw(st.sampled_from(["ker", "3d"]))
    p2 = draw(gens.matrix(1, 5, 1, 4))
    q = draw(st.integers(1, 3))
    ker = gf2.nullspace([sum(hz[j][i] << j for j in range(len(hz))) for i in range(len(hx[0]))], len(hz))  # columns of a_3: kernel of a_2 = hz^T
    cols = []
    for _ in range(q):
        v = 0
        for k in ker:
            if r.random() < 0.5:
                v ^= k
        cols.append(gf2.to_list(v, len(hz)))
    return {"hx": hx, "hz": hz, "p": p, "p2": p2, "a3": a3, "cols": cols, "flip": draw(st.sampled_from([0, 0, 0, 1, 2])), "pos": [r.randint(0, 99) for _ in range(2)], "fmt": draw(st.sampled_from(["csr", "csc", "coo"]))}


def sparse_(a, fmt):
    return sp.csr_matrix(a) if fmt == "csr" else sp.csc_matrix(a) if fmt == "csc" else sp.coo_matrix(a)


def raises(f, *a, **k):
    try:
        f(*a, **k)
    except RuntimeError:
        return True
    return False


def check(c):
    a1, a2, p, p2 = (np.array(x, dtype=np.int32) for x in (c["hx"], c["hz"], c["p"], c["p2"]))
    a2 = a2.T.copy()
    if c["flip"] == 1:  # break the chain condition
        i, j = c["pos"][0] % a2.shape[0], c["pos"][1] % a2.shape[1]
        a2[i, j] ^= 1
    ok = not (a1 @ a2 % 2).any()
    sparse = [sparse_(x, c["fmt"]) for x in (a1, a2, p)]
    if not ok:
        require(raises(D.generate_3d_product_code, a1, a2, p), "dense 3D product of maps that do not compose to zero is accepted")
        require(raises(S.generate_3d_product_code, *map(sp.csr_matrix, (a1, a2, p))), "sparse 3D product of maps that do not compose to zero is accepted")
        return "rejected"
    keep = [x.copy() for x in (a1, a2, p)]
    d3 = D.generate_3d_product_code(a1, a2, p)
    require(all(np.array_equal(x, y) for x, y in zip(keep, (a1, a2, p))), "input changed")
    got = [dense(x) for x in d3]
    check_complex(got, [a1, a2], p, "3D product")
    s3 = [dense(x) for x in S.generate_3d_product_code(*sparse)]
    require(all(np.array_equal(x, y) for x, y in zip(got, s3)), "sparse and dense 3D products differ")
    if c["a3"] == "3d" and max(max(g.shape) for g in got) <= 40:
        b = [np.array(g, dtype=np.int32) for g in got]
    else:
        b = [a1, a2, np.array(c["cols"], dtype=np.int32).T.copy()]
    if c["flip"] == 2:
        i, j = c["pos"][0] % b[2].shape[0], c["pos"][1] % b[2].shape[1]
        b[2][i, j] ^= 1
    if (b[1] @ b[2] % 2).any():
        require(raises(D.generate_4d_product_code, *b, p2), "dense 4D product of maps that do not compose to zero is accepted")
        require(raises(S.generate_4d_product_code, *map(sp.csr_matrix, b), sp.csr_matrix(p2)), "sparse 4D product of maps that do not compose to zero is accepted")
        return "rejected 4D"
    for checks in (True, False):
        g4 = [dense(x) for x in D.generate_4d_product_code(*b, p2, checks=checks)]
        check_complex(g4, b, p2, "4D product")
        s4 = [dense(x) for x in S.generate_4d_product_code(*[sparse_(x, c["fmt"]) for x in b], sparse_(p2, c["fmt"]), checks=checks)]
        require(all(np.array_equal(x, y) for x, y in zip(g4, s4)), "sparse and dense 4D products differ")
    hom = product([a1, a2], p)[1]
    return "logical" if any(hom) else "exact"


# --------------------------------------------------------------------------------------------------- stored codes
NAMED = {"ring2": [[1, 1], [1, 1]], "ring3": [[1, 1, 0], [0, 1, 1], [1, 0, 1]], "rep2": [[1, 1]], "rep3": [[1, 1, 0], [0, 1, 1]], "rep3t": [[1, 0], [1, 1], [0, 1]], "one": [[1]], "zero": [[0]]}


@st.composite
def gen_code(draw):
    seeds = []
    for _ in range(4):
        seeds.append(draw(st.one_of(st.sampled_from(sorted(NAMED)).map(NAMED.get), gens.matrix(1, 2, 1, 3))))
    kind = draw(st.sampled_from(["dense", "sparse"]))
    while np.prod([len(s) + len(s[0]) for s in seeds]) > (500 if kind == "dense" else 10**9):
        i = max(range(4), key=lambda i: len(seeds[i]) + len(seeds[i][0]))
        seeds[i] = NAMED["ring2"] if len(seeds[i]) + len(seeds[i][0]) > 4 else NAMED["rep2"]
    return {"seeds": seeds, "kind": kind, "logicals": draw(st.booleans()), "again": draw(st.booleans()), "bad": draw(st.integers(0, 30)) == 0}


def read(folder, name, cols):
    t = folder / f"{name}.txt"
    require(t.exists() and (folder / f"{name}.mtx").exists(), lambda: f"{name} was not stored")
    txt = [[int(x) for x in line.split()] for line in t.read_text().splitlines() if line.strip()]
    a = np.array(txt, dtype=int).reshape(len(txt), cols if not txt else len(txt[0]))
    m = sio.mmread(str(folder / f"{name}.mtx"))
    b = dense(m)
    require(np.array_equal(a, b), lambda: f"{name}: text and matrix market files differ")
    return a


def check_code(c):
    import bposd.hgp

    seeds = [np.array(s, dtype=int) for s in c["seeds"]]
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as t:
        os.chdir(t)
        orig = S.create_outpath
        try:
            if c["bad"]:
                for M in (D, S):
                    try:
                        M.create_code("xyz", seeds, "code")
                    except ValueError:
                        pass
                    else:
                        require(False, "an unknown constructor is accepted")
                return "unknown constructor"

            def outpath(codename):  # stand-in: the module's own path is absolute
                p = Path(t) / "sparse" / codename
                p.mkdir(parents=True, exist_ok=True)
                return f"{p}/"

            S.create_outpath = outpath
            for _ in range(1 + c["again"]):
                if c["kind"] == "dense":
                    D.create_code("hgp", seeds, "code", False, c["logicals"], True)
                    folder = Path(t) / "generated_codes" / "code"
                else:
                    S.create_code("hgp", [sp.csr_matrix(s) if i == 2 else s for i, s in enumerate(seeds)], "code", False, c["logicals"])
                    folder = Path(t) / "sparse" / "code"
            h = bposd.hgp.hgp(seeds[0], seeds[1])
            a1, a2 = dense(h.hx), dense(h.hz).T
            d1, h1 = product([a1, a2], dense(seeds[2]))
            if c["kind"] == "dense":
                three = [dense(x) for x in D.generate_3d_product_code(a1, a2, seeds[2])]
                dims, hom = product(three, dense(seeds[3]))
                q, k = dims[2], hom[2]
            else:
                dims, hom = d1, h1
                q, k = dims[1], hom[1]
            hx, hz = read(folder, "hx", q), read(folder, "hz", q)
            off = 1 if c["kind"] == "dense" else 0
            require(hx.shape == (dims[off], q) and hz.shape == (dims[off + 2], q), lambda: f"check matrices have shapes {hx.shape}, {hz.shape}; qubits {q}")
            require(not (hx @ hz.T % 2).any(), "X and Z checks do not commute")
            require(q - rk(hx) - rk(hz) == k, lambda: f"{q - rk(hx) - rk(hz)} logical qubits instead of {k}")
            mz = read(folder, "mz", hz.shape[0])
            require(not (mz @ hz % 2).any(), "the Z meta checks are violated by Z checks")
            require(mz.shape == (dims[off + 3], dims[off + 2]), "shape of the Z meta checks")
            require(dims[off + 2] - rk(mz) - rk(hz) == hom[off + 2], "homology at the Z checks")
            if c["kind"] == "dense":
                mx = read(folder, "mx", hx.shape[0])
                require(not (mx @ hx % 2).any(), "the X meta checks are violated by X checks")
                require(mx.shape == (dims[0], dims[1]) and dims[1] - rk(mx) - rk(hx) == hom[1], "homology at the X checks")
            else:
                par = json.loads((folder / "code_params.txt").read_text())
                require(par == {"n": q, "k": k}, lambda: f"stored parameters {par} instead of n={q}, k={k}")
            if c["logicals"]:
                lx, lz = read(folder, "lx", q), read(folder, "lz", q)
                for l, same, other, nm in ((lx, hx, hz, "X"), (lz, hz, hx, "Z")):
                    require(l.shape == (k, q), lambda: f"{l.shape[0]} {nm} logical operators instead of {k}")
                    require(not (other @ l.T % 2).any(), f"a logical {nm} operator violates a check")
                    require(rk(np.vstack([same, l])) == rk(same) + k, f"logical {nm} operators are not independent of the checks")
            else:
                require(not (folder / "lx.txt").exists(), "logical operators stored without being asked for")
        finally:
            S.create_outpath = orig
            os.chdir(old)
    return f"{c['kind']} k>0" if k else f"{c['kind']} k=0"


# ------------------------------------------------------------------------------------------------- distances
# A stand-in for GAP (not installed): "distances" are fingerprints of the row spaces that a function is applied to.
GAP = r'''#!PYTHON
import re, sys, zlib


def rows(text, mtx):
    ls = text.splitlines()
    if not mtx:
        return [[int(x) for x in l.split()] for l in ls if l.strip()]
    assert ls[0].split()[:4] == ["%%MatrixMarket", "matrix", "coordinate", "integer"], ls[0]
    ls = [l for l in ls if l.strip() and not l.startswith("%")]
    r, c, _ = map(int, ls[0].split())
    a = [[0] * c for _ in range(r)]
    for l in ls[1:]:
        i, j, v = map(int, l.split())
        a[i - 1][j - 1] = v % 2
    return a


FINGERPRINT
env, pending, out = {}, None, []
text = sys.stdin.read()
for line in text.split("\n"):
    if line.lstrip().startswith("#"):
        continue
    m = re.search(r'(\w+)\s*:=\s*ReadMTXE\("([^"]*)"', line)
    if m:
        env[m[1]] = rows(open(m[2]).read(), True)
    m = re.search(r'IO_File\("([^"]*)"', line)
    if m:
        pending = rows(open(m[1]).read(), False)
    m = re.search(r"(\w+)\s*:=\s*CheckMatCode\(", line)
    if m:
        env[m[1]] = pending
    m = re.search(r'Print\("([^"]*)",\s*(\w+)\(([^)]*)\)\s*,\s*"\\n"', line)
    if m:
        args = [a.strip() for a in m[3].split(",")]
        if m[2] == "DistRandCSS":
            print(m[1] + str(fp("css", env[args[0].removesuffix("[3]")], env[args[1].removesuffix("[3]")], int(args[3]))))
        elif m[2] in ("MinimumDistance", "MinimumDistanceLeon"):
            print(m[1] + str(fp("min", env[args[0]])))
        else:
            open(sys.argv[0] + ".unknown", "w").write(line)
    elif "Print" in line:
        open(sys.argv[0] + ".unknown", "w").write(line)
'''
FP = '''
def fp(kind, *a):
    import zlib

    key = [kind]
    for m in a:
        if not isinstance(m, list):
            key.append(m)
            continue
        rows, done = [sum(x << i for i, x in enumerate(r)) for r in m], []
        for r in rows:
            for d in done:
                r = min(r, r ^ d)
            if r:
                done = sorted([min(d, d ^ r) for d in done] + [r], reverse=True)
        key.append((len(m[0]) if m else 0, done))
    return 1 + zlib.crc32(repr(key).encode()) % 99991
'''


def check_distances(c):
    ns = {}
    exec(FP, ns)
    fp = ns["fp"]
    seeds = [np.array(s, dtype=int) for s in c["seeds"]]
    old, path = os.getcwd(), os.environ["PATH"]
    with tempfile.TemporaryDirectory() as t:
        gap = Path(t) / "bin" / "gap"
        gap.parent.mkdir()
        gap.write_text(GAP.replace("PYTHON", sys.executable + " -IS").replace("FINGERPRINT", FP))
        gap.chmod(0o755)
        shutil.copy(env.REPO / "src/mqt/qecc/analog_information_decoding/code_construction/compute_distances.sh", t)
        os.chdir(t)
        os.environ["PATH"] = f"{gap.parent}:{path}"
        folder = Path(t) / "generated_codes" / c["name"]
        try:
            try:
                D.create_code("hgp", seeds, c["name"], True, c["logicals"], True)
            except KeyError as e:
                if gap.with_suffix(".unknown").exists():
                    raise Skip("the script is beyond the stand-in for GAP")
                raise Violation(f"the script's results are not understood: {e}, " + repr((folder / "info.txt").read_text()))
            if gap.with_suffix(".unknown").exists():
                raise Skip("the script is beyond the stand-in for GAP")
        finally:
            os.environ["PATH"] = path
            os.chdir(old)
        q = len((folder / "hx.txt").read_text().splitlines()[0].split())
        hx, hz = read(folder, "hx", q), read(folder, "hz", q)
        mx, mz = read(folder, "mx", hx.shape[0]), read(folder, "mz", hz.shape[0])
        par = json.loads((folder / "code_params.txt").read_text())
        L = [m.tolist() for m in (hx, hz, mx, mz)]
        want = {"n": q, "k": q - rk(hx) - rk(hz), "dX": fp("css", L[1], L[0], 0), "dZ": fp("css", L[0], L[1], 0), "dMX": fp("min", L[2]), "dMZ": fp("min", L[3])}
        for k, v in want.items():
            require(par.get(k) == v, lambda: f"stored {k} = {par.get(k)!r} instead of {v}")
    return "k>0" if want["k"] else "k=0"


@st.composite
def gen_distances(draw):
    c = draw(gen_code())
    return {"seeds": c["seeds"], "logicals": c["logicals"], "name": draw(st.sampled_from(["code", "4D_toric_2", "a-b.c", "x1"]))}


PROP = Prop(
    "P22",
    [
        Sub("products", check, strategy=gen, quick=300, thorough=8000, shards=(3, 8), rule="non-trivial: always (random chains, including broken ones that have to be refused)"),
        Sub("stored codes", check_code, strategy=gen_code, quick=80, thorough=1500, shards=(4, 8), rule="non-trivial: always; code stored, read back and compared with its homology"),
        Sub("distances", check_distances, strategy=gen_distances, quick=40, thorough=400, shards=(4, 8), rule="non-trivial: always; the script runs with a stand-in for GAP, distances are stored under their names"),
    ],
    assumptions=["GAP is not installed: a stand-in returns fingerprints of the matrices instead of distances", "the sparse constructor's absolute output folder is replaced by a scratch folder"],
)
