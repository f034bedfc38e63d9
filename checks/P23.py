"""P23: overlapping-window decoding over several rounds corrects what it guarantees and keeps the remaining syndrome right."""

import json
import math
import random
import tempfile
from pathlib import Path

import ldpc.osd
import numpy as np
import pymatching
import scipy.sparse as sp
from hypothesis import strategies as st
from ldpc.osd import bposd_decoder
from pymatching import Matching

import gens
import seam
from harness import Prop, Sub, case_seed, require
from mqt.qecc import QssSimulator
from mqt.qecc.analog_information_decoding.simulators import memory_experiment_v2 as M
from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams


def rep(d):
    return [[int(j in (i, i + 1)) for j in range(d)] for i in range(d - 1)]


def ring(d):
    return [[int(j in (i, (i + 1) % d)) for j in range(d)] for i in range(d)]


def h3d(h, r):
    """Rounds in rows: H per round, one measurement error per round that shows up in its own and the next difference."""
    h = np.array(h, dtype=int)
    m, n = h.shape
    a = np.zeros((r * m, r * (n + m)), dtype=int)
    for t in range(r):
        a[t * m:(t + 1) * m, t * n:(t + 1) * n] = h
        for i in range(m):
            a[t * m + i, r * n + t * m + i] = 1
            if t + 1 < r:
                a[(t + 1) * m + i, r * n + t * m + i] = 1
    return a


# --------------------------------------------------------------------------------------------------------- matrices
@st.composite
def gen_mat(draw):
    h = draw(gens.matrix(1, 4, 1, 6))
    r = draw(st.integers(0, 4))
    cols = 2 * draw(st.integers(1, 4))
    rnd = random.Random(draw(st.integers(0, 2**32)))
    fl = draw(st.booleans())
    return {"h": h, "r": r, "fmt": draw(st.sampled_from(["dense", "csr"])), "syn": [[round(rnd.uniform(-2, 2), 3) if fl else rnd.randint(0, 1) for _ in range(cols)] for _ in range(len(h))], "float": fl}


def check_mat(c):
    h = np.array(c["h"], dtype=np.int32)
    got = M.build_multiround_pcm(h if c["fmt"] == "dense" else sp.csr_matrix(h), c["r"])
    got = np.asarray(got.todense() if sp.issparse(got) else got)
    want = h3d(c["h"], c["r"] + 1)
    require(got.shape == want.shape and np.array_equal(got % 2, want) and got.max(initial=0) <= 1, lambda: f"multi-round check matrix of {c['h']}, {c['r']} repetitions:\n{got}")
    s = np.array(c["syn"], dtype=float if c["float"] else np.int32)
    s0 = s.copy()
    got = M.move_syndrome(s, data_type=np.float64) if c["float"] else M.move_syndrome(s)
    half = s.shape[1] // 2
    want = np.hstack([s0[:, half:], np.zeros_like(s0[:, :half])])
    require(np.array_equal(got, want), lambda: f"window moved to {got.tolist()} instead of {want.tolist()}")
    require(np.array_equal(s, s0), "moving the window changed its input")
    try:
        M.get_updated_decoder("union", None, np.zeros(3))
    except ValueError:
        pass
    else:
        require(False, "an unknown decoding method is accepted")
    return "matrices" if c["r"] else "one round"


# ---------------------------------------------------------------------------------------------- guaranteed correction
def wdata(p):
    return math.log((1 - p) / p)


@st.composite
def gen_hist(draw):
    fam = draw(st.sampled_from(["rep", "ring"]))
    d = draw(st.sampled_from([3, 5, 7] if fam == "rep" else [3, 4, 5, 7]))
    p = draw(st.sampled_from([0.01, 0.05, 0.1]))
    q = draw(st.sampled_from([p, p, 0.01, 0.03, 0.1]))
    analog = draw(st.booleans())
    r = random.Random(draw(st.integers(0, 2**32)))
    n, m = d, len(rep(d) if fam == "rep" else ring(d))
    sigma = draw(st.sampled_from([0.4, 0.6, 0.9]))
    limit = d * wdata(p) / 2 - 1e-6
    # the window is long enough if no path through time to its end is lighter than a logical operator; low-confidence rounds count for nothing
    wm = 2 * 0.8 / sigma**2 if analog else wdata(q)
    T = draw(st.sampled_from([1, 2, 3, 0, 0, 0, 4, 5, 7]))
    extra = draw(st.integers(0, 3))
    T = T or math.ceil(d * wdata(p) / wm) - 1 + (extra if analog else 0)
    T = max(T, 1)
    total = draw(st.one_of(st.integers(1, 3 * T + 5), st.integers(2 * T + 1, 3 * T + 5)))
    w = 0.0
    data, meas, conf = [], [], []
    # fault pattern of total weight below half the distance; clustered in time and space so that faults interact
    t0, tries = r.randrange(total), 0
    while tries < 12:
        tries += 1
        t = min(total - 1, max(0, t0 + r.choice([0, 0, 0, 1, 1, -1, 2, T, -T]))) if r.random() < 0.8 else r.randrange(total)
        if r.random() < 0.5:
            f, cost = [t, r.randrange(n)], wdata(p)
            if f in data or w + cost > limit:
                continue
            data.append(f)
        elif t < total - 1 and (not analog or len(meas) < 4):  # the last round is perfect
            f = [t, r.randrange(m)]
            y = round(r.uniform(0.02, 1.2), 3)
            cost = 2 * y / sigma**2 if analog else wdata(q)
            if f in meas or w + cost > limit:
                continue
            meas.append(f)
            conf.append(y)
        else:
            continue
        w += cost
    bad = len({t for t, _ in meas}) if analog else 0
    enough = (T + 1 - bad) * wm >= d * wdata(p)
    return {"enough": enough, "fam": fam, "d": d, "T": T, "total": total, "p": p, "q": q, "analog": analog, "sigma": sigma, "data": data, "meas": meas, "conf": conf, "seed": r.randrange(2**31)}


def committed(log, n, R, m, corr, window, last):
    """The correction consists of the decoder's data errors in the committed rounds; the decoder saw the differences of the window."""
    if len(log) != 1 or log[0].answer.size != R * (n + m):
        return
    e = log.pop()
    diff = window.copy()
    diff[:, 1:] = (window[:, 1:] + window[:, :-1]) % 2
    require(np.array_equal(np.asarray(e.syndrome).ravel() % 2, diff.T.ravel()), lambda: f"window {window.tolist()} is decoded as the changes {np.asarray(e.syndrome).tolist()}")
    per = e.answer[: n * R].reshape(R, n) % 2
    want = (per if last else per[: R // 2]).sum(0) % 2
    require(np.array_equal(corr, want), lambda: f"correction {corr.tolist()}, decoded data errors by round {per.tolist()}, last window: {last}")


def check_hist(c):
    with seam.recording() as log:
        return hist(c, log, pymatching.Matching)


def hist(c, log, Matching):
    h = np.array(rep(c["d"]) if c["fam"] == "rep" else ring(c["d"]), dtype=np.int32)
    m, n = h.shape
    R = 2 * c["T"]
    rnd = random.Random(c["seed"])
    H3 = M.build_multiround_pcm(h, R - 1)
    cp = np.array([c["p"]] * (n * R) + [c["q"]] * (m * R))
    dec = Matching(H3, weights=np.log((1 - cp) / cp))
    err = np.zeros(n, dtype=np.int32)
    syn = np.zeros((m, R), dtype=np.int32)
    an = np.zeros((m, R)) if c["analog"] else None
    low = {tuple(f): y for f, y in zip(c["meas"], c["conf"])}
    cnt = 0
    windows = 0
    for t in range(c["total"]):
        for f in c["data"]:
            if f[0] == t:
                err[f[1]] ^= 1
        true = h @ err % 2
        bits = [int(b) ^ ((t, i) in low) for i, b in enumerate(true)]
        last = t == c["total"] - 1
        cols = range(cnt, R) if last else [cnt]  # the perfect last round is repeated until the window is full
        for col in cols:
            syn[:, col] = bits
            if an is not None:
                an[:, col] = [(1 - 2 * b) * (1.0 if last else low.get((t, i), rnd.uniform(0.8, 1.5))) for i, b in enumerate(bits)]
        cnt = cols[-1] + 1
        if cnt < R:
            continue
        before = syn.copy()
        an0 = None if an is None else an.copy()
        corr, syn2, an2, _ = M.decode_multiround(syndrome=syn, pcm=h, decoder=dec, channel_probs=cp, repetitions=R, analog_syndr=an, last_round=last, check_block_size=n * R, sigma=c["sigma"] if c["analog"] else 0.0,
                                                 h3d=H3, decoding_method="matching")
        windows += 1
        corr = np.asarray(corr)
        committed(log, n, R, m, corr, before, last)
        log.clear()
        require(corr.shape == (n,) and set(np.unique(corr)) <= {0, 1}, "correction is not a binary vector of the code's length")
        if last:
            err = (err + corr) % 2
            break
        # measurement errors stay what they are; only the correction changes the later syndromes
        want = (before[:, c["T"]:] + (h @ corr % 2)[:, None]) % 2
        require(np.array_equal(np.asarray(syn2)[:, c["T"]:], want), lambda: f"round {t}: syndromes after the commit region are {np.asarray(syn2)[:, c['T']:].tolist()} instead of {want.tolist()}")
        require(an is None or np.array_equal(an2, an0), "the analog syndrome changed")
        err = (err + corr) % 2
        syn = M.move_syndrome(np.asarray(syn2))
        if an is not None:
            an = M.move_syndrome(np.asarray(an2), data_type=np.float64)
        cnt = c["T"]
    res = err.tolist()
    require(not any(res) or not c["enough"] and not (h @ err % 2).any(), lambda: f"faults {c['data']} on data and {c['meas']} on measurements leave the error {res}")
    return ("guaranteed " if c["enough"] else "") + ("analog " if c["analog"] else "hard ") + ("one window" if windows == 1 else "windows") if c["data"] or c["meas"] else None


# ------------------------------------------------------------------------------------------ decoder shared by windows
@st.composite
def gen_shared(draw):
    r = random.Random(draw(st.integers(0, 2**32)))
    n = draw(st.integers(3, 6))
    h = draw(st.sampled_from([rep(n), ring(n), [[r.randint(0, 1) for _ in range(n)] for _ in range(n - 2)] or rep(n)]))
    if not all(map(any, h)):
        h = rep(n)
    R = 2 * draw(st.integers(1, 2))
    m = len(h)
    calls = []
    for _ in range(draw(st.integers(2, 6))):
        e = [0] * n
        cols = []
        for _ in range(R):
            e = [x ^ (r.random() < 0.15) for x in e]
            cols.append([(sum(x * y for x, y in zip(row, e)) + (r.random() < 0.15)) % 2 for row in h])
        if r.random() < 0.5:
            cols[-1] = [sum(x * y for x, y in zip(row, e)) % 2 for row in h]
            last = True
        else:
            last = r.random() < 0.3
            if last:
                cols[-1] = [sum(x * y for x, y in zip(row, e)) % 2 for row in h]
        calls.append({"syn": [[cols[t][i] for t in range(R)] for i in range(m)], "last": last, "an": [[round(r.uniform(0.1, 1.5), 3) for _ in range(R)] for _ in range(m)]})
    return {"h": h, "R": R, "p": draw(st.sampled_from([0.02, 0.1])), "q": draw(st.sampled_from([0.02, 0.1, 0.2])), "calls": calls, "analog": draw(st.sampled_from([False, False, True])), "method": draw(st.sampled_from(["bposd", "bposd", "matching"]))}


def check_shared(c):
    with seam.recording() as log:
        return do_shared(c, log, pymatching.Matching, ldpc.osd.bposd_decoder)


def do_shared(c, log, Matching, bposd_decoder):
    h = np.array(c["h"], dtype=np.int32)
    m, n = h.shape
    method = c["method"] if (h.sum(0) <= 2).all() else "bposd"
    R = c["R"]
    H3 = M.build_multiround_pcm(h, R - 1)
    cp = np.array([c["p"]] * (n * R) + [c["q"]] * (m * R))

    def new():
        if method == "matching":
            return Matching(H3, weights=np.log((1 - cp) / cp))
        return bposd_decoder(parity_check_matrix=H3, channel_probs=cp, max_iter=20, bp_method="msl", osd_order=0, osd_method="osd0", ms_scaling_factor=0.5)

    def call(dec, k):
        s = np.array(k["syn"], dtype=np.int32)
        a = np.array([[(1 - 2 * b) * y for b, y in zip(r1, r2)] for r1, r2 in zip(k["syn"], k["an"])]) if c["analog"] else None
        corr, syn, _, _ = M.decode_multiround(syndrome=s, pcm=h, decoder=dec, channel_probs=cp, repetitions=R, analog_syndr=a, last_round=k["last"], check_block_size=n * R, sigma=0.7, h3d=H3 if method == "matching" else None,
                                              decoding_method=method)
        committed(log, n, R, m, np.asarray(corr), np.array(k["syn"]), k["last"])
        log.clear()
        return np.asarray(corr).tolist(), np.asarray(syn).tolist()

    shared = new()
    cp0 = cp.copy()
    for i, k in enumerate(c["calls"]):
        a, b = call(shared, k), call(new(), k)
        require(a == b, lambda: f"window {i} ({method}, last round: {k['last']}): {a} with the decoder used before, {b} with a new one")
        require(np.array_equal(cp, cp0), "channel probabilities changed")
        if k["last"]:
            s = h @ np.array(b[0]) % 2
            require(s.tolist() == [r[-1] for r in k["syn"]], lambda: f"the correction of the last window has syndrome {s.tolist()}, measured perfectly: {[r[-1] for r in k['syn']]}")
    return method + (" analog" if c["analog"] else "") if any(map(any, sum((k["syn"] for k in c["calls"]), []))) else None


# -------------------------------------------------------------------------------------------------------- simulator
def reference(c, h, L, N, rng):
    """Own simulation of the memory experiment; returns successes."""
    h = np.array(h, dtype=np.int32)
    m, n = h.shape
    R = c["R"]
    b = np.array(c["bias"], dtype=float)
    side = 2 if c["side"] == "X" else 0
    pd = c["per"] * (b[side] + b[1]) / b.sum()
    ps = c["ser"] * (b[side] + b[1]) / b.sum()
    sigma = sigma_of(ps) if c["analog"] else 0
    H3 = h3d(h, R)
    base = np.array([pd] * (n * R) + [ps] * (m * R))

    def decode(syn, an, last):
        diff = syn.copy()
        diff[:, 1:] = (syn[:, 1:] + syn[:, :-1]) % 2
        pr = base.copy()
        if an is not None:
            pr[n * R:] = 1 / (1 + np.exp(np.minimum(700, 2 * np.abs(an.T.reshape(-1)) / sigma**2)))
        if last:
            pr[-m:] = 1e-15
        if c["method"] == "matching":
            w = np.log((1 - pr) / np.maximum(pr, 1e-300))
            est = Matching(sp.csr_matrix(H3), weights=w).decode(diff.T.reshape(-1))
        else:
            est = bposd_decoder(parity_check_matrix=sp.csr_matrix(H3), channel_probs=pr, max_iter=30, bp_method="msl", osd_order=0, osd_method="osd0", ms_scaling_factor=0.75).decode(diff.T.reshape(-1))
        e = np.asarray(est)[: n * R].reshape(R, n)
        return e.sum(0) % 2 if last else e[: R // 2].sum(0) % 2

    good = 0
    for _ in range(N):
        err = np.zeros(n, dtype=np.int64)
        syn = np.zeros((m, R), dtype=np.int64)
        an = np.ones((m, R)) if c["analog"] else None
        pos = 0
        for t in range(c["rounds"]):
            err = (err + (rng.random(n) < pd)) % 2
            s = h @ err % 2
            if t == c["rounds"] - 1:
                syn[:, pos:] = s[:, None]
                if an is not None:
                    an[:, pos:] = (1 - 2 * s)[:, None]
                err = (err + decode(syn, an, True)) % 2
                break
            if an is not None:
                an[:, pos] = rng.normal(1 - 2 * s, sigma)
                syn[:, pos] = an[:, pos] <= 0
            else:
                syn[:, pos] = (s + (rng.random(m) < ps)) % 2
            pos += 1
            if pos == R:
                x = decode(syn, an, False)
                err = (err + x) % 2
                syn = (syn + (h @ x % 2)[:, None]) % 2
                syn = np.hstack([syn[:, R // 2:], 0 * syn[:, : R // 2]])
                if an is not None:
                    an = np.hstack([an[:, R // 2:], 0 * an[:, : R // 2] + 1])
                pos = R // 2
        good += not (np.array(L) @ err % 2).any()
    return good


def sigma_of(ser):
    lo, hi = 1e-3, 1e3
    for _ in range(200):
        mid = math.sqrt(lo * hi)
        lo, hi = (mid, hi) if 0.5 * math.erfc(1 / (mid * math.sqrt(2))) < ser else (lo, mid)
    return lo


def priors(c, h, log):
    """Every window is decoded with the probabilities of the simulated noise (and a perfect last round at the end)."""
    m, n = np.array(h).shape
    R = c["R"]
    b = np.array(c["bias"], dtype=float)
    side = 2 if c["side"] == "X" else 0
    pd, ps = (x * (b[side] + b[1]) / b.sum() for x in (c["per"], c["ser"]))
    want = h3d(h, R)
    ev = [e for e in log if e.pcm is not None and e.pcm.shape == want.shape and np.array_equal(e.pcm, want) and e.probs is not None]
    soft = []
    for e in ev:
        require(np.allclose(e.probs[: n * R], pd, atol=1e-6), lambda: f"data errors are decoded with probabilities {e.probs[: n * R].tolist()}, simulated with {pd}")
        syn = e.probs[n * R :]
        last = bool((syn[-m:] < 1e-9).all()) and ps > 1e-6
        syn = syn[:-m] if last else syn
        if not c["analog"]:
            require(np.allclose(syn, ps, atol=1e-6), lambda: f"syndrome errors are decoded with probabilities {syn.tolist()}, simulated with {ps}")
        elif not last:
            soft.append(syn[-m * R // 2 :])  # the last half is read out anew
    if soft and ps > 1e-6:
        why = seam.soft_ok(np.concatenate(soft), sigma_of(ps))
        require(why is None, lambda: f"analog syndromes: {why}")


@st.composite
def gen_sim(draw):
    fam = draw(st.sampled_from(["rep", "ring"]))
    d = draw(st.sampled_from([3, 4, 5]))
    R = draw(st.sampled_from([2, 4]))
    side = draw(st.sampled_from("XZ"))
    bias = draw(st.sampled_from([[1, 1, 1], [4, 1, 1], [1, 1, 4], [0, 0, 1] if side == "X" else [1, 0, 0], [0, 1, 0], [9, 0, 1], [1, 0, 9]]))
    return {"fam": fam, "d": d, "R": R, "side": side, "bias": [float(b) for b in bias], "rounds": draw(st.sampled_from([1, 2, 3, 4, 5, 6])), "per": draw(st.sampled_from([0.02, 0.05, 0.12, 0.2])), "ser": draw(st.sampled_from([0.03, 0.1, 0.2])),
            "analog": draw(st.booleans()), "method": draw(st.sampled_from(["matching", "matching", "bposd"])), "seed": draw(st.integers(0, 10**6)), "interval": draw(st.sampled_from([50, 7, 1000]))}


def check_sim(c):
    h = rep(c["d"]) if c["fam"] == "rep" else ring(c["d"])
    L = [[1] + [0] * (c["d"] - 1)]  # the error that flips all bits is the logical one
    N = 1200
    k = {"n": c["d"], "k": 1}
    with tempfile.TemporaryDirectory() as t:
        out = str(Path(t) / "o.json")

        def sim(prec=1e-9, **kw):
            a = dict(pcm=np.array(h, dtype=np.int32), per=c["per"], ser=c["ser"], logicals=np.array(L), bias=np.array(c["bias"]), codename="c", bp_params=BpParams(osd_method="osd0", osd_order=0), code_params=k,
                     decoding_method=c["method"], check_side=c["side"], seed=c["seed"], analog_tg=c["analog"], repetitions=c["R"], rounds=c["rounds"], outpath=out, save_interval=c["interval"], eb_precision=prec)
            a.update(kw)
            return QssSimulator(**a)

        with seam.recording() as log:
            res = sim().run(N)
        priors(c, h, log)
        side = "z" if c["side"] == "X" else "x"
        good = res[f"{side}_success_cnt"]
        require(res["nr_runs"] == N, lambda: f"{res['nr_runs']} runs instead of {N}")
        require(0 <= good <= N and abs(res[f"{side}_ler"] - (1 - good / N)) < 1e-9, "logical error rate is not that of the counted successes")
        stored = json.loads(Path(out).read_text())
        require(stored["nr_runs"] == N and stored[f"{side}_success_cnt"] == good and stored["pers"] == c["per"] and stored["sers"] == c["ser"], "stored results differ from the returned ones")
        # reproducible
        few = [sim().run(40)[f"{side}_success_cnt"] for _ in range(2)]
        require(few[0] == few[1], lambda: f"the same seed gives {few} successes")
        # nothing to correct: never an error
        quiet = sim(per=1e-13, ser=1e-13).run(20)
        require(quiet[f"{side}_success_cnt"] == 20, "logical errors without noise")
        # the perfect last round leaves no error with a syndrome
        clean = sim(logicals=np.array(h)).run(120)
        require(clean[f"{side}_success_cnt"] == 120, lambda: f"{120 - clean[f'{side}_success_cnt']} of 120 samples end with a syndrome although the last round is perfect")
        # sampling stops early only when converged
        early = sim(prec=0.3).run(300)
        n = early["nr_runs"]
        rel = early[f"{side}_wer_eb"] / early[f"{side}_wer"] if early[f"{side}_wer"] else math.inf
        require(n == 300 or (0 < rel < 0.3), lambda: f"stopped after {n} runs at a relative error bar of {rel}")
        if 0.15 < good / N < 0.85:
            n = sim(prec=1e6, save_interval=10).run(200)["nr_runs"]
            require(n < 200, lambda: f"the precision 1e6 is not reached after {n} runs that are checked every 10 runs")
    rng = np.random.default_rng(case_seed(c))
    ref = reference(c, h, L, N, rng)
    p = (good + ref) / (2 * N)
    tol = 5.7 * math.sqrt(2 * N * p * (1 - p)) + 10
    require(abs(good - ref) <= tol, lambda: f"{good} of {N} samples succeed, {ref} in an independent simulation (tolerance {tol:.0f})")
    return c["method"] + (" analog" if c["analog"] else "") if good < N else None


@st.composite
def gen_bad(draw):
    return {"rep": draw(st.integers(0, 9)), "method": draw(st.sampled_from(["bposd", "matching", "BPOSD", "mwpm", ""]))}


def check_bad(c):
    """Documented restrictions are enforced."""
    try:
        QssSimulator(pcm=np.array(rep(3), dtype=np.int32), per=0.1, ser=0.1, logicals=np.array([[1, 0, 0]]), bias=np.array([1.0, 1.0, 1.0]), codename="c", bp_params=BpParams(osd_method="osd0"), code_params={"n": 3, "k": 1},
                     decoding_method=c["method"], repetitions=c["rep"] if c["rep"] else 2, rounds=2, outpath="/nonexistent")
    except ValueError:
        require(c["rep"] % 2 or c["method"] not in ("bposd", "matching"), "valid settings refused")
        return "refused"
    require(c["rep"] % 2 == 0 and c["method"] in ("bposd", "matching"), lambda: f"repetitions {c['rep']}, method {c['method']!r} accepted")
    return None


PROP = Prop(
    "P23",
    [
        Sub("matrices", check_mat, strategy=gen_mat, quick=500, thorough=10000, shards=(2, 8), rule="non-trivial: always"),
        Sub("correctable histories", check_hist, strategy=gen_hist, quick=1200, thorough=30000, shards=(4, 8), rule="non-trivial: at least one fault; total weight of all faults below half the distance; correction is guaranteed where the window is long enough"),
        Sub("shared decoder", check_shared, strategy=gen_shared, quick=400, thorough=8000, shards=(3, 8), rule="non-trivial: some syndrome is not zero"),
        Sub("simulation", check_sim, strategy=gen_sim, quick=64, thorough=400, shards=(8, 8), timeout=150, nondet=True, rule="non-trivial: logical errors occurred; compared with an independent simulation"),
        Sub("restrictions", check_bad, strategy=gen_bad, quick=40, thorough=200, shards=(1, 2), rule="non-trivial: refused settings"),
    ],
    assumptions=["matching finds minimum-weight corrections", "statistical comparisons use bounds of 6.5 standard deviations"],
)
