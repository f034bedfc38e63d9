"""P18: the lookup-table decoder returns a minimum-weight error for every syndrome."""

import random

import numpy as np
from hypothesis import strategies as st

import gens
import gf2
import prep
from harness import Prop, Sub, require
from mqt.qecc import CSSCode
from mqt.qecc.ft_stateprep import LutDecoder


def min_weights(rows, n):
    """Syndrome (tuple) -> minimum weight of an error with it, by enumeration in order of weight."""
    cols = [sum((r >> j & 1) << i for i, r in enumerate(rows)) for j in range(n)]
    best = {}
    for e in sorted(range(1 << n), key=gf2.wt):
        s, v = 0, e
        while v:
            j = (v & -v).bit_length() - 1
            s ^= cols[j]
            v &= v - 1
        best.setdefault(s, gf2.wt(e))
    return best


@st.composite
def gen(draw):
    how = draw(st.sampled_from(["random", "named", "selfdual", "onesided"]))
    if how == "random":
        hx, hz = draw(gens.css_pair(2, 8, 1, 4, True))
    elif how == "named":
        c = draw(prep.named(["422", "642", "steane", "shor", "surface3", "toric2", "surf2"]))
        hx, hz = c["hx"], c["hz"]
    elif how == "selfdual":  # the same space in different rows
        c = draw(prep.named(["422", "642", "steane"], mix=False))
        r = random.Random(draw(st.integers(0, 2**32)))
        n = len(c["hx"][0])
        hx = c["hx"]
        hz = [gf2.to_list(v, n) for v in prep.mix_rows(gf2.ints(hx), r)] if draw(st.integers(0, 3)) else hx
        hz = hz[::-1] if draw(st.booleans()) else hz
    else:
        hx, hz = draw(gens.css_pair(2, 7, 1, 4, True))
        if draw(st.booleans()):
            hx = []
        else:
            hz = []
    n = len((hx or hz)[0])
    ops = draw(st.lists(st.sampled_from(["x", "z", "bx", "bz", "gx", "gz"]), min_size=1, max_size=6))
    return {"hx": hx, "hz": hz, "n": n, "init": draw(st.booleans()), "ops": ops, "how": how, "seed": draw(st.integers(0, 2**32)),
            "type": draw(st.sampled_from(["int8", "int8", "int64", "int32", "uint8", "bool"]))}  # fmt: skip


def check(case):
    n = case["n"]
    hx = np.array(case["hx"], dtype=np.int8).reshape(-1, n) if case["hx"] else None
    hz = np.array(case["hz"], dtype=np.int8).reshape(-1, n) if case["hz"] else None
    code = CSSCode(1, hx, hz)
    dec = LutDecoder(code, case["init"])
    r = random.Random(case["seed"])
    rows = {"x": gf2.ints(case["hz"]), "z": gf2.ints(case["hx"])}
    mins = {}
    hit = 0
    for op in case["ops"]:
        t = op[-1]
        if not rows[t]:
            continue
        if op[0] == "g":
            dec.generate_x_lut() if t == "x" else dec.generate_z_lut()
            continue
        if t not in mins:
            mins[t] = min_weights(rows[t], n)
        errs = list(range(1 << n)) if n <= 5 else [r.getrandbits(n) for _ in range(24)] + [0] + [1 << i for i in range(n)]
        syn = [[gf2.parity(row & e) for row in rows[t]] for e in errs]
        arr = np.array(syn).astype(case["type"])
        if op[0] == "b":
            out = dec.batch_decode_x(arr) if t == "x" else dec.batch_decode_z(arr)
            require(out.shape == (len(errs), n), f"shape {out.shape}")
        else:
            out = [dec.decode_x(s) if t == "x" else dec.decode_z(s) for s in arr]
        for s, o in zip(syn, out):
            require(np.shape(o) == (n,) and set(int(v) for v in o) <= {0, 1}, f"estimate {o}")
            v = gf2.to_int([int(b) for b in o])
            require([gf2.parity(row & v) for row in rows[t]] == s, lambda: f"{t.upper()} estimate {o} has not the syndrome {s}")
            w = mins[t][sum(b << i for i, b in enumerate(s))]
            require(gf2.wt(v) == w, lambda: f"{t.upper()} estimate {o} for {s} has weight {gf2.wt(v)}, minimum {w}")
            hit |= w > 0
    return case["how"] if hit else None


PROP = Prop(
    "P18",
    [
        Sub("decoding", check, strategy=gen, quick=300, thorough=6000, shards=(2, 8),
            rule="non-trivial: a syndrome with non-zero correction was decoded; random, named, self-dual and one-sided codes with up to 9 qubits"),
    ],
)
