"""P20: noise channels, conversions and logical tests of analog decoding follow their definitions."""

import math
import random
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

import gens
import gf2
from harness import Prop, Sub, require
from mqt.qecc.analog_information_decoding.simulators.analog_tannergraph_decoding import get_analog_pcm
from mqt.qecc.analog_information_decoding.utils import simulation_utils as U

Z = 6.5


def within(count, total, p, what):
    """Exact-ish binomial bound: Z standard deviations plus a little for small counts."""
    tol = Z * math.sqrt(total * p * (1 - p)) + 12
    require(abs(count - total * p) <= tol, lambda: f"{what}: {count} of {total}, expected {total * p:.1f} +- {tol:.1f}")


def close(a, b, what, rel=1e-9, abs_=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    require(a.shape == b.shape, lambda: f"{what}: shape {a.shape} instead of {b.shape}")
    require(np.all(np.abs(a - b) <= abs_ + rel * np.abs(b)), lambda: f"{what}: {a.tolist()} instead of {b.tolist()}")


def independent(samples, ps, what):
    """Neighbouring entries of one sample, and of consecutive samples, are uncorrelated."""
    x = np.array(samples, dtype=float)
    p = np.array(ps)
    keep = (p > 0.01) & (p < 0.99)
    x = (x[:, keep] - p[keep]) / np.sqrt(p[keep] * (1 - p[keep]))
    n = len(x)
    for j in range(x.shape[1]):
        require(abs((x[1:, j] * x[:-1, j]).mean()) <= 8 / math.sqrt(n) + 0.05, f"{what}: consecutive samples are correlated")
        for k in range(j):
            require(abs((x[:, j] * x[:, k]).mean()) <= 8 / math.sqrt(n) + 0.05, f"{what} are correlated")


# ------------------------------------------------------------------------------------------------------ formulas
@st.composite
def gen_formula(draw):
    return {
        "sigma": draw(st.one_of(st.floats(0.05, 4), st.sampled_from([0.1, 0.25, 0.3, 0.5, 1.0, 2.0]))),
        "ser": draw(st.one_of(st.floats(1e-12, 0.4999), st.sampled_from([0.0, 1e-3, 0.01, 0.05, 0.1, 0.3]))),
        "y": draw(st.lists(st.floats(-6, 6), min_size=1, max_size=8)),
        "bias": draw(st.one_of(
            st.lists(st.floats(0, 20), min_size=3, max_size=3).filter(lambda b: sum(b) > 1e-6),
            st.lists(st.integers(0, 9), min_size=3, max_size=3).filter(lambda b: sum(b) > 0),
            st.tuples(st.integers(0, 2), st.floats(0, 3), st.floats(0, 3)).map(lambda t: [("inf" if i == t[0] else t[1 + (i > t[0])]) for i in range(3)]),
        )),
        "p": draw(st.floats(0, 1)),
        "n": draw(st.integers(1, 12)),
        "zero": draw(st.integers(0, 9)) == 0,
    }


def check_formula(c):
    s, ser, y = c["sigma"], c["ser"], np.array(c["y"])
    # a check read out as 1 + N(0, sigma^2) is misread with probability Q(1/sigma)
    close(U.get_error_rate_from_sigma(s), 0.5 * math.erfc(1 / (s * math.sqrt(2))), "syndrome error rate of sigma", 1e-9)
    close(U.get_sigma_from_syndr_er(U.get_error_rate_from_sigma(s)), s, "sigma of the error rate of sigma", 1e-5) if s > 0.15 else None
    sg = U.get_sigma_from_syndr_er(ser)
    if ser == 0:
        require(sg == 0, "sigma of error rate 0 is not 0")
        require(U.get_error_rate_from_sigma(0.0) == 0, "error rate of sigma 0 is not 0")
    else:
        close(0.5 * math.erfc(1 / (sg * math.sqrt(2))), ser, "error rate of the sigma", 1e-6)
        close(U.get_error_rate_from_sigma(sg), ser, "error rate of the sigma", 1e-6)
    # log-likelihood ratio of +1 against -1 under Gaussian noise
    y0 = y.copy()
    logpdf = lambda m: -((y - m) ** 2) / (2 * s * s)  # noqa: E731
    close(U.get_analog_llr(y, s), logpdf(1) - logpdf(-1), "llr", 1e-6, 1e-7)
    post = 1 / (1 + np.exp(np.minimum(np.abs(logpdf(1) - logpdf(-1)), 700)))
    got = U.get_virtual_check_init_vals(y, s)
    close(got, post, "probability that the thresholded value is wrong", 1e-5, 1e-12)
    require(np.array_equal(y, y0), "input changed")
    for f in (U.get_analog_llr, U.get_virtual_check_init_vals):
        require(np.array_equal(np.asarray(f(y, 0.0), dtype=float), np.zeros(len(y))), f"{f.__name__} for sigma 0")
    # channels
    b = [math.inf if x == "inf" else x for x in c["bias"]]
    p, n = c["p"], c["n"]
    ch = U.error_channel_setup(p, np.array(b), n)
    if math.inf in b:
        want = [p if x == math.inf else 0.0 for x in b]
    else:
        want = [p * x / sum(b) for x in b]
    require(len(ch) == 3, "three channels")
    for k in range(3):
        close(ch[k], [want[k]] * n, f"channel {'xyz'[k]}")
    return "formulas" + (" inf" if math.inf in b else "")


# -------------------------------------------------------------------------------------------------------- sampling
@st.composite
def gen_err(draw):
    n = draw(st.integers(1, 10))
    kinds = draw(st.lists(st.sampled_from(["0", "x", "y", "z", "xyz", "xy", "yz", "xz", "small"]), min_size=n, max_size=n))
    return {"n": n, "kinds": kinds, "p": draw(st.floats(0.02, 0.6)), "rx": draw(gens.bits(n)), "rz": draw(gens.bits(n)), "seed": draw(st.integers(0, 2**31 - 1)),
            "form": draw(st.sampled_from(["array", "int64", "uint8"]))}


DET = {"0": (0, 0, 0), "x": (1, 0, 0), "y": (0, 1, 0), "z": (0, 0, 1)}


def probs(kind, p):
    if kind in DET:
        return DET[kind]
    if kind == "small":
        return (p / 6, p / 6, p / 6)
    k = len(kind)
    return tuple(p / k if a in kind else 0.0 for a in "xyz")


def check_err(c):
    n = c["n"]
    ch = [np.array([probs(k, c["p"])[a] for k in c["kinds"]], dtype=float) for a in range(3)]
    dt = {"array": np.int32, "int64": np.int64, "uint8": np.uint8}[c["form"]]
    U.set_seed(c["seed"])
    N = 1500
    counts = np.zeros((n, 4), dtype=int)
    ind = []
    for _ in range(N):
        res = [np.array(c["rx"], dtype=dt), np.array(c["rz"], dtype=dt)]
        ex, ez = U.generate_err(nr_qubits=n, channel_probs=tuple(ch), residual_err=res)
        ex, ez = np.asarray(ex), np.asarray(ez)
        require(ex.shape == (n,) and ez.shape == (n,), "shape of the error")
        require(set(np.unique(ex)) <= {0, 1} and set(np.unique(ez)) <= {0, 1}, "error is not binary")
        dx = [int(a) ^ b for a, b in zip(ex, c["rx"])]
        dz = [int(a) ^ b for a, b in zip(ez, c["rz"])]
        for i in range(n):
            counts[i, dx[i] + 2 * dz[i]] += 1  # 0 I, 1 X, 2 Z, 3 Y
        ind.append([x | z for x, z in zip(dx, dz)])
    lab = set()
    for i, k in enumerate(c["kinds"]):
        px, py, pz = probs(k, c["p"])
        for col, pr, nm in ((1, px, "X"), (3, py, "Y"), (2, pz, "Z")):
            if pr in (0, 1):
                require(counts[i, col] == N * pr, lambda: f"{nm} on qubit {i} with probability {pr}: {counts[i, col]} of {N}")
            else:
                within(counts[i, col], N, pr, f"{nm} errors on a qubit")
                lab.add("random")
    independent(ind, [sum(probs(k, c["p"])) for k in c["kinds"]], "errors of different qubits")
    return "random" if lab else "deterministic" if any(k != "0" for k in c["kinds"]) else None


@st.composite
def gen_syn(draw):
    return {"probs": draw(st.lists(st.sampled_from([0.0, 1.0, 0.5, 0.1, 0.25]), min_size=1, max_size=6)), "syn": draw(gens.bits(draw(st.integers(1, 6)))),
            "sigma": draw(st.floats(0.2, 2.0)), "seed": draw(st.integers(0, 2**31 - 1))}


def check_syn(c):
    N = 3000
    U.set_seed(c["seed"])
    ps = np.array(c["probs"])
    tot = np.zeros(len(ps), dtype=int)
    all_ = []
    for _ in range(N):
        e = np.asarray(U.generate_syndr_err(ps))
        require(e.shape == ps.shape and set(np.unique(e)) <= {0, 1}, "syndrome error is not a binary vector")
        tot += e
        all_.append(e.tolist())
    for t, p in zip(tot, ps):
        if p in (0, 1):
            require(t == N * p, lambda: f"syndrome error with probability {p}: {t} of {N}")
        else:
            within(t, N, p, "syndrome errors")
    independent(all_, c["probs"], "syndrome errors")
    syn = np.array(c["syn"], dtype=np.int32)
    s = c["sigma"]
    vals = np.array([U.get_noisy_analog_syndrome(syn, s) for _ in range(N)])
    require(vals.shape == (N, len(syn)), "shape of the noisy syndrome")
    for j, b in enumerate(syn):
        m = 1 - 2 * int(b)
        require(abs(vals[:, j].mean() - m) <= Z * s / math.sqrt(N), lambda: f"mean {vals[:, j].mean()} of a check with value {b}, sigma {s}")
        v = ((vals[:, j] - m) ** 2).mean() / s**2
        require(abs(v - 1) <= Z * math.sqrt(2 / N), lambda: f"variance of the noise is {v} sigma^2")
        bad = int((np.array([U.get_binary_from_analog(vals[:, j])])[0] != b).sum())
        within(bad, N, 0.5 * math.erfc(1 / (s * math.sqrt(2))), "misread checks")
    if len(syn) > 1:
        x = (vals - (1 - 2 * syn)) / s
        for j in range(len(syn) - 1):
            require(abs((x[:, j] * x[:, j + 1]).mean()) <= Z / math.sqrt(N), "noise of different checks is correlated")
    z = U.get_noisy_analog_syndrome(syn, 0.0)
    require(np.array_equal(z, 1.0 - 2 * syn), "syndrome without noise")
    return "sampled"


# ------------------------------------------------------------------------------------------------- binary conversions
def alist(h, pad):
    """Write h as an alist file and read it."""
    m, n = len(h), len(h[0])
    rows = [[j + 1 for j in range(n) if r[j]] for r in h]
    cols = [[i + 1 for i in range(m) if h[i][j]] for j in range(n)]
    if pad or (all(rows) and all(cols)):
        mr, mc = max(1, max(map(len, rows))), max(1, max(map(len, cols)))
        if pad:
            rows = [r + [0] * (mr - len(r)) for r in rows]
            cols = [r + [0] * (mc - len(r)) for r in cols]
        txt = "\n".join([f"{m} {n}", f"{mr} {mc}", " ".join(str(sum(r)) for r in h), " ".join(str(sum(r[j] for r in h)) for j in range(n))]
                        + [" ".join(map(str, r)) for r in rows + cols]) + "\n"
        with tempfile.TemporaryDirectory() as d:
            f = Path(d) / "m.alist"
            f.write_text(txt)
            got = np.asarray(U.alist2numpy(str(f)))
        require(got.tolist() == h, lambda: f"alist file of {h} read as {got.tolist()}")


@st.composite
def gen_alist(draw):
    m, n = draw(st.integers(1, 30)), draw(st.integers(1, 30))
    r = np.random.default_rng(draw(st.integers(0, 2**32)))
    return {"h": (r.random((m, n)) < draw(st.sampled_from([0.1, 0.3, 0.7]))).astype(int).tolist(), "pad": draw(st.booleans())}


def check_alist(c):
    alist(c["h"], c["pad"])
    return "read" if any(map(any, c["h"])) else None


@st.composite
def gen_bin(draw):
    h = draw(gens.matrix(1, 6, 1, 9))
    m, n = len(h), len(h[0])
    r = random.Random(draw(st.integers(0, 2**32)))
    return {
        "h": h, "meta": [[r.randint(0, 1) for _ in range(m)] for _ in range(draw(st.integers(1, 4)))],
        "a": [r.randint(0, 1) for _ in range(n)], "b": [r.randint(0, 1) for _ in range(n)],
        "comb": draw(gens.bits(m)), "flip": draw(st.booleans()),
        "vals": draw(st.lists(st.one_of(st.floats(-3, 3), st.just(0.0), st.just(-0.0), st.just(1e-300)), min_size=1, max_size=8)),
        "dtype": draw(st.sampled_from(["int32", "int64", "uint8", "int8"])), "pad": draw(st.booleans()),
    }


def check_bin(c):
    h = np.array(c["h"], dtype=c["dtype"])
    m, n = h.shape
    h0 = h.copy()
    meta = np.array(c["meta"], dtype=c["dtype"])
    big = np.asarray(U.build_single_stage_pcm(h, meta))
    q = meta.shape[0]
    require(big.shape == (m + q, n + m), lambda: f"single-stage matrix has shape {big.shape}")
    want = [r + [int(i == j) for j in range(m)] for i, r in enumerate(c["h"])] + [[0] * n + r for r in c["meta"]]
    require(big.tolist() == want, lambda: f"single-stage matrix {big.tolist()}")
    ap = np.asarray(get_analog_pcm(h))
    require(ap.tolist() == [r + [int(i == j) for j in range(m)] for i, r in enumerate(c["h"])], "analog Tanner graph matrix")
    # logical error tests
    a = np.array(c["a"], dtype=c["dtype"])
    comb = [0] * n
    for k, row in zip(c["comb"], c["h"]):
        if k:
            comb = [x ^ y for x, y in zip(comb, row)]
    b = np.array([x ^ y for x, y in zip(c["a"], comb)] if c["flip"] else c["b"], dtype=c["dtype"])
    res = [int(x) ^ int(y) for x, y in zip(a, b)]
    inside = gf2.to_int(res) in gf2.Span(gf2.ints(c["h"]))
    got = U.check_logical_err_h(h, a, b)
    require(isinstance(got, (bool, np.bool_)) and bool(got) == (not inside), lambda: f"check_logical_err_h is {got}, residual {res} in the row space: {inside}")
    anti = any(sum(x * y for x, y in zip(r, res)) % 2 for r in c["h"])
    got = U.is_logical_err(h, np.array(res, dtype=c["dtype"]))
    require(isinstance(got, (bool, np.bool_)) and bool(got) == anti, lambda: f"is_logical_err is {got}, anticommutes: {anti}")
    # signs
    v = np.array(c["vals"])
    require(np.asarray(U.get_binary_from_analog(v)).tolist() == [int(x <= 0) for x in c["vals"]], "thresholded values")
    sg = np.asarray(U.get_signed_from_binary(a))
    require([int(x) for x in sg] == [1 - 2 * x for x in c["a"]], "signed values")
    require(np.asarray(U.get_binary_from_analog(sg)).tolist() == c["a"], "thresholding signed values gives the bits back")
    require(np.array_equal(h, h0), "matrix changed")
    alist(c["h"], c["pad"])
    return "logical" if not inside else "trivial residual" if any(res) else None


# ------------------------------------------------------------------------------------------------------------- seeds
def gen_seed():
    return st.fixed_dictionaries({"seed": st.integers(0, 2**31 - 1), "n": st.integers(20, 40)})


def check_seed(c):
    def draw():
        U.set_seed(c["seed"])
        n = c["n"]
        ch = U.error_channel_setup(0.7, np.array([1.0, 1.0, 1.0]), n)
        out = []
        for _ in range(3):
            out.append([np.asarray(x).tolist() for x in U.generate_err(n, ch, [np.zeros(n, dtype=np.int32), np.zeros(n, dtype=np.int32)])])
            out.append(np.asarray(U.generate_syndr_err(ch[0])).tolist())
            out.append(np.asarray(U.get_noisy_analog_syndrome(np.zeros(n, dtype=np.int32), 0.5)).tolist())
        return out

    a, b = draw(), draw()
    require(a == b, "the same seed gives different samples")
    require(len({str(x) for x in a}) == len(a), "samples are repeated")
    return "seeded"


PROP = Prop(
    "P20",
    [
        Sub("formulas", check_formula, strategy=gen_formula, quick=1500, thorough=40000, shards=(2, 8), rule="non-trivial: always (noise strengths, log-likelihood ratios, channels against textbook formulas)"),
        Sub("sampled errors", check_err, strategy=gen_err, quick=60, thorough=1500, shards=(3, 8), nondet=True, rule="non-trivial: some qubit has a non-zero error probability"),
        Sub("sampled syndromes", check_syn, strategy=gen_syn, quick=60, thorough=1500, shards=(3, 8), nondet=True, rule="non-trivial: always"),
        Sub("matrices and tests", check_bin, strategy=gen_bin, quick=1500, thorough=40000, shards=(2, 8), rule="non-trivial: non-zero residual error"),
        Sub("alist files", check_alist, strategy=gen_alist, quick=200, thorough=4000, shards=(2, 8), rule="non-trivial: matrix not zero; written and read back"),
        Sub("seeds", check_seed, strategy=gen_seed, quick=50, thorough=400, shards=(1, 4), rule="non-trivial: always"),
    ],
    assumptions=[f"statistical comparisons use bounds of {Z} standard deviations"],
)
