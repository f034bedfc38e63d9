"""P01: syndromes, stabiliser membership and loading of codes follow linear algebra over GF(2)."""
CPP = True

import json
import tempfile
from pathlib import Path

import gens
import gf2
import harness as h
from harness import Prop, Sub, Violation, require, sut
from hypothesis import strategies as st

import build
import env
from mqt.qecc import pyqecc as pq

try:
    PROBE = env.load_probe(build.build())
except Exception:
    PROBE = None


def B(m):
    return [[bool(x) for x in r] for r in m]


def b(v):
    return [bool(x) for x in v]


def I(v):
    return [int(x) for x in v]


def msyn(m, v):
    return [sum(x & y for x, y in zip(r, v)) % 2 for r in m]


# ------------------------------------------------------------------ syndromes and stabilisers
@st.composite
def code_case(draw):
    if draw(st.integers(0, 2)) == 0:
        n = draw(st.integers(1, 12))
        hx = [draw(gens.bits(n)) for _ in range(draw(st.integers(1, 6)))]
        hz = [draw(gens.bits(n)) for _ in range(draw(st.integers(1, 6)))]
    else:
        hx, hz = draw(gens.css_pair(nmax=16, rmax=9))
    n = len(hz[0])
    vecs = [draw(gens.bits(n)) for _ in range(3)]
    comb = [draw(gens.bits(len(hx))), draw(gens.bits(len(hz)))]
    return {"hx": hx, "hz": hz, "v": vecs, "comb": comb, "one": draw(st.booleans()), "how": draw(st.integers(0, 2))}


def make(case, one=False):
    hx, hz = B(case["hx"]), B(case["hz"])
    if case["how"] == 0:
        return sut(pq.Code, hz) if one else sut(pq.Code, hx, hz)
    if case["how"] == 1:
        c = sut(pq.Code)
        sut(c.setHz, hz)
        if not one:
            sut(c.setHx, hx)
        return c
    with tempfile.TemporaryDirectory() as d:
        for nme, m in (("x", hx), ("z", hz)):
            Path(d, nme).write_text("\n".join(" ".join(str(int(q)) for q in r) for r in m) + "\n")
        return sut(pq.Code, d + "/z") if one else sut(pq.Code, d + "/x", d + "/z")


def check_code(case):
    hx, hz, n = case["hx"], case["hz"], len(case["hz"][0])
    c = make(case)
    require(c.n == n, f"n = {c.n}, expected {n}")
    require([I(r) for r in sut(c.getHx)] == hx, "getHx does not return the X checks")
    require([I(r) for r in sut(c.getHz)] == hz, "getHz does not return the Z checks")
    sx, sz = gf2.Span(gf2.ints(hx)), gf2.Span(gf2.ints(hz))

    def comb(m, w):
        v = [0] * n
        for r, q in zip(m, w):
            if q:
                v = [x ^ y for x, y in zip(v, r)]
        return v

    vx, vz = comb(hx, case["comb"][0]), comb(hz, case["comb"][1])
    pts = [*case["v"], vx, vz, [0] * n]
    nontriv = 0
    for v in pts:
        require(I(sut(c.get_x_syndrome, b(v))) == msyn(hz, v), f"syndrome of {v} is not hz·v")
        m = gf2.to_int(v) in sx
        require(sut(c.is_x_stabilizer, b(v)) == m, f"is_x_stabilizer({v}) should be {m}")
        require(sut(c.is_stabilizer, b(v)) == m, f"is_stabilizer({v}) should be {m}")
        nontriv |= 1 if m and any(v) else 2 if not m else 0
        for w in (pts[0], vz, [0] * n):
            require(I(sut(c.get_syndrome, b(v), b(w))) == msyn(hz, v) + msyn(hx, w), f"two-sided syndrome of {v}|{w}")
            require(I(sut(c.get_x_syndrome, b(v + w))) == msyn(hz, v) + msyn(hx, w), f"two-sided syndrome of {v + w}")
            mm = m and gf2.to_int(w) in sz
            require(sut(c.is_stabilizer, b(v), b(w)) == mm, f"is_stabilizer({v},{w}) should be {mm}")
            require(sut(c.is_stabilizer, b(v + w)) == mm, f"is_stabilizer({v + w}) should be {mm}")
    # the code is not changed by queries
    require([I(r) for r in sut(c.getHx)] == hx and [I(r) for r in sut(c.getHz)] == hz, "queries changed the checks")
    j = sut(c.json)
    j = json.loads(j) if isinstance(j, str) else j
    require([I(r) for r in j["hZ"]["pcm"]] == hz and [I(r) for r in j["hX"]["pcm"]] == hx and j["n"] == n, "json does not describe the code")
    require(json.loads(repr(c)) == j, "repr and json differ")
    o = make(case, one=True)
    require(o.n == n and [I(r) for r in sut(o.getHz)] == hz, "one-sided code")
    for v in pts:
        require(I(sut(o.get_x_syndrome, b(v))) == msyn(hz, v), f"one-sided syndrome of {v}")
    return ["", "only members", "only non-members", "members and non-members"][nontriv] or None


# ------------------------------------------------------------------ wrong arguments are rejected, not crashing
@st.composite
def bad_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        op = draw(st.sampled_from(["hx", "hz", "xs", "isx", "is1", "is2", "syn", "getx", "getz", "json", "dec", "new1", "new2"]))
        a = [draw(gens.bits(draw(st.integers(0, 6)))) for _ in range(draw(st.integers(0, 3)))]
        ops.append([op, a, draw(st.integers(0, 1))])
    return {"ops": ops}


def check_bad(case):
    c = pq.Code()
    raised = ok = 0
    for op, a, x in case["ops"]:
        v = b(a[0]) if a else []
        w = b(a[1]) if len(a) > 1 else []
        M = B(a)
        try:
            if op == "hx":
                c.setHx(M)
            elif op == "hz":
                c.setHz(M)
            elif op == "xs":
                r = c.get_x_syndrome(v)
                require(len(v) > 0, "syndrome of an empty vector")
            elif op == "isx":
                c.is_x_stabilizer(v)
            elif op == "is1":
                c.is_stabilizer(v)
            elif op == "is2":
                c.is_stabilizer(v, w)
            elif op == "syn":
                c.get_syndrome(v, w)
                require(len(v) == len(w) == c.n, "two-sided syndrome of vectors of a wrong length")
            elif op == "getx":
                c.getHx()
            elif op == "getz":
                c.getHz()
            elif op == "json":
                c.json()
                repr(c)
            elif op == "new1":
                c = pq.Code(M)
            elif op == "new2":
                c = pq.Code(M, B(a[:1]))
            elif op == "dec":
                d = [pq.UFDecoder, pq.UFHeuristic][x]()
                d.set_code(c)
            ok += 1
        except (RuntimeError, ValueError, IndexError, TypeError):
            raised += 1
    return f"{min(raised, 3)} rejected, {min(ok, 3)} accepted" if raised else None


# ------------------------------------------------------------------ file loading
@st.composite
def file_case(draw):
    m = draw(gens.matrix(mmax=8, nmax=12))
    return {"m": m, "sep": draw(st.sampled_from([" ", "  ", "\t", " \t"])), "lead": draw(st.sampled_from(["", " "])),
            "trail": draw(st.sampled_from(["", " "])), "end": draw(st.sampled_from(["", "\n"])), "crlf": draw(st.booleans())}  # fmt: skip


def check_file(case):
    eol = "\r\n" if case["crlf"] else "\n"
    txt = eol.join(case["lead"] + case["sep"].join(map(str, r)) + case["trail"] for r in case["m"]) + case["end"]
    with tempfile.TemporaryDirectory() as d:
        Path(d, "m").write_bytes(txt.encode())
        c = sut(pq.Code, d + "/m")
        require([I(r) for r in c.getHz()] == case["m"], f"matrix read from a file is {[I(r) for r in c.getHz()]}")
        require(c.n == len(case["m"][0]), "n of a code read from a file")
        if PROBE is not None:
            require([I(r) for r in sut(PROBE.import_file, d + "/m")] == case["m"], "imported matrix differs")
        for bad in (lambda: pq.Code(d + "/nope"), lambda: pq.Code(d + "/m", d + "/nope"), lambda: pq.Code("", d + "/m")):
            try:
                bad()
            except (RuntimeError, ValueError):
                pass
            else:
                raise Violation("a code was built from a file that does not exist")
    return "multi-row" if len(case["m"]) > 1 else None


# ------------------------------------------------------------------ internal helpers (only if their interface is there)
@st.composite
def alg_case(draw):
    a = draw(gens.matrix(mmax=9, nmax=9))
    return {"a": a, "x": [draw(gens.bits(len(a[0]))) for _ in range(3)], "y": draw(gens.bits(len(a))),
            "rep": draw(st.lists(st.integers(0, len(a) - 1), max_size=2))}  # fmt: skip


def check_alg(case):
    if PROBE is None:
        raise h.Skip("internal helpers not linkable on this tree")
    a = case["a"] + [case["a"][i] for i in case["rep"]]
    A = B(a)
    n = len(a[0])
    rows = gf2.ints(a)
    sp = gf2.Span(rows)
    ys = [msyn(a, x) for x in case["x"]]
    rk, sols = sut(PROBE.plu, A, ys)
    require(rk == sp.rank, f"rank {rk}, expected {sp.rank}")
    for y, s in zip(ys, sols):
        require(msyn(a, I(s)) == y, f"solve: A·{s} != {y}")
    for x in case["x"]:
        require(sut(PROBE.rowspace, A, b(x)) == (gf2.to_int(x) in sp), f"row space membership of {x}")
        require(I(sut(PROBE.matvec, A, b(x))) == msyn(a, x), "matrix-vector product")
        require(I(sut(PROBE.residual, b(x), b(case["x"][0]))) == [p ^ q for p, q in zip(x, case["x"][0])], "residual error")
    require([I(r) for r in sut(PROBE.transpose, A)] == [list(c) for c in zip(*a)], "transpose")
    i, j = 0, len(a) - 1
    sw = [list(r) for r in a]
    sw[i], sw[j] = sw[j], sw[i]
    require([I(r) for r in sut(PROBE.swap_rows, A, i, j)] == sw, "swap_rows")
    require([list(c) for c in sut(PROBE.to_csc, A)] == [[i for i in range(len(a)) if a[i][c]] for c in range(n)], "column form")
    return f"rank deficit {min(len(a), n) - sp.rank}" if sp.rank > 1 else None


@st.composite
def uf_case(draw):
    n = draw(st.integers(1, 14))
    ops = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), max_size=20))
    return {"n": n, "ops": [list(o) for o in ops]}


def check_uf(case):
    if PROBE is None:
        raise h.Skip("internal helpers not linkable on this tree")
    n = case["n"]
    par = list(range(n))

    def find(x):
        while par[x] != x:
            x = par[x]
        return x

    for x, y in case["ops"]:
        par[find(x)] = find(y)
    roots, sizes = sut(PROBE.union_find, n, [tuple(o) for o in case["ops"]])
    groups = {}
    for i in range(n):
        groups.setdefault(find(i), set()).add(i)
    for g in groups.values():
        require(len({roots[i] for i in g}) == 1, f"{sorted(g)} are united but have roots {[roots[i] for i in g]}")
        require(roots[min(g)] in g, "the root is not a member of its set")
        require(sizes[min(g)] == len(g), f"size {sizes[min(g)]} of a set of {len(g)}")
    require(len({roots[min(g)] for g in groups.values()}) == len(groups), "different sets share a root")
    return f"largest {max(map(len, groups.values()))}" if max(map(len, groups.values())) > 2 else None


# ------------------------------------------------------------------ noise sampling
def check_sample(case):
    n, p = case["n"], case["p"]
    v = sut(pq.sample_iid_pauli_err, n, p)
    require(len(v) == n, "length of a sampled error")
    if p in (0.0, 1.0):
        require(all(x == bool(p) for x in v), f"sample at rate {p}: {v}")
    elif n >= 20000:
        k = sum(v)
        require(abs(k - n * p) < 8 * (n * p * (1 - p)) ** 0.5 + 1, f"{k} of {n} errors at rate {p}")
        # neighbouring bits are independent
        j = sum(x and y for x, y in zip(v, v[1:]))
        require(abs(j - n * p * p) < 12 * (n * p * p) ** 0.5 + 5, f"{j} adjacent pairs of {n} at rate {p}")
    return f"p={p}" if n else None


PROP = Prop(
    "P01",
    [
        Sub("algebra", check_code, code_case, quick=3000, thorough=60000, shards=(2, 8),
            rule="random orthogonal and arbitrary pairs of check matrices, loaded from memory, setters or files, with vectors inside and outside the row space; non-trivial: at least one non-zero member or one non-member is queried"),
        Sub("rejects", check_bad, bad_case, quick=2500, thorough=60000, shards=(2, 8),
            rule="call sequences with missing matrices and wrong sizes; non-trivial: at least one call was rejected (a crash of the process is a violation)"),
        Sub("files", check_file, file_case, quick=600, thorough=8000, rule="matrix files with varying white space; non-trivial: more than one row"),
        Sub("linear", check_alg, alg_case, quick=3000, thorough=60000, shards=(1, 8), rule="matrices with dependent rows; non-trivial: rank above 1"),
        Sub("unionfind", check_uf, uf_case, quick=1500, thorough=30000, shards=(1, 4), rule="union sequences against a naive partition; non-trivial: a set of more than 2"),
        Sub("sample", check_sample, cases=lambda tier: [{"n": n, "p": p, "i": i} for n in (0, 1, 7, 20000) for p in (0.0, 1.0, 0.05, 0.3, 0.9) for i in range(3 if tier == "quick" else 60)],
            nondet=True, rule="error samples: exact at rates 0 and 1, within 8 standard deviations otherwise; non-trivial: length above 0"),
    ],
    cpp=True,
    assumptions=["matrices up to 10x16"],
)  # fmt: skip
