"""P24: analog Tanner graph decoding and the single-shot simulators decode the noise they are asked to simulate and report the true counts."""

import json
import math
import os
import random
import tempfile
from pathlib import Path

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from ldpc.osd import bposd_decoder

import gens
import gf2
import seam
from checks.P23 import sigma_of
from harness import Finding, Prop, Sub, case_seed, require
from mqt.qecc import AnalogTannergraphDecoder, AtdSimulator
from mqt.qecc.analog_information_decoding.simulators.simulation import SingleShotSimulator
from mqt.qecc.analog_information_decoding.utils.data_utils import BpParams


def eye(m):
    return np.identity(m, dtype=np.int32)


def bp(h, probs, it=30):
    return bposd_decoder(parity_check_matrix=np.asarray(h, dtype=np.int32), channel_probs=np.asarray(probs, dtype=float), max_iter=it, bp_method="msl", osd_order=0, osd_method="osd0", ms_scaling_factor=0.75)


PAR = {"osd_method": "osd0", "osd_order": 0, "max_bp_iter": 30, "bp_method": "msl", "ms_scaling_factor": 0.75}


def posterior(y, sigma):
    if sigma <= 0:
        return np.zeros(len(y))
    return 1 / (1 + np.exp(np.minimum(700, 2 * np.abs(y) / sigma**2)))


# -------------------------------------------------------------------------------------------------------- decoder
@st.composite
def gen_dec(draw):
    h = draw(gens.matrix(1, 5, 2, 8))
    m, n = len(h), len(h[0])
    r = random.Random(draw(st.integers(0, 2**32)))
    calls = [[round(r.uniform(-2, 2), 4) if r.random() < 0.9 else r.choice([0.0, 1.0, -1.0, 1e-9]) for _ in range(m)] for _ in range(draw(st.integers(1, 5)))]
    return {"h": h, "calls": calls, "p": [round(r.uniform(0.005, 0.4), 4) for _ in range(n)], "sigma": draw(st.floats(0.2, 1.5)), "by": draw(st.sampled_from(["sigma", "ser", "both", "none", "perfect"]))}


def check_dec(c):
    h = np.array(c["h"], dtype=np.int32)
    m, n = h.shape
    p = np.array(c["p"])
    ser = 0.5 * math.erfc(1 / (c["sigma"] * math.sqrt(2)))

    def new():
        kw = {"sigma": {"sigma": c["sigma"]}, "ser": {"ser": ser}, "both": {"sigma": c["sigma"], "ser": ser}, "none": {}, "perfect": {"ser": 0.0}}
        return AnalogTannergraphDecoder(pcm=h.copy(), bp_params=BpParams(**PAR), error_channel=p.copy(), **{k: v for x in [kw[c["by"]]] for k, v in x.items()})

    if c["by"] in ("both", "none"):
        try:
            new()
        except ValueError:
            return "refused"
        require(False, f"decoder accepts {c['by']} of sigma and ser")
    sigma = 0 if c["by"] == "perfect" else c["sigma"]
    dec = new()
    for y in c["calls"]:
        y = np.array([1.0 if v > 0 else -1.0 for v in y] if c["by"] == "perfect" else y)
        if c["by"] == "perfect":  # perfect syndromes belong to an error
            e = np.random.default_rng(case_seed(c)).integers(0, 2, n)
            y = 1.0 - 2 * (h @ e % 2)
        y0 = y.copy()
        est = np.asarray(dec.decode(y))
        require(np.array_equal(y, y0), "decoding changed the analog syndrome")
        require(est.shape == (n + m,) and set(np.unique(est)) <= {0, 1}, lambda: f"estimate {est.tolist()} is not a binary vector of {n + m} bits")
        hard = [int(v <= 0) for v in y]
        syn = (np.hstack([h, eye(m)]) @ est) % 2
        require(syn.tolist() == hard, lambda: f"estimate {est.tolist()} has syndrome {syn.tolist()}, read out {hard}")
        fresh = np.asarray(new().decode(y))
        require(np.array_equal(est, fresh), lambda: f"used decoder: {est.tolist()}, new decoder: {fresh.tolist()}")
        if c["by"] == "ser" and abs(c["sigma"] - sigma_of(ser)) > 1e-6:
            continue
        ref = np.asarray(bp(np.hstack([h, eye(m)]), np.hstack([p, posterior(y, sigma)])).decode(np.array(hard)))
        cost = [float(np.log((1 - q) / max(q, 1e-300))) for q in np.hstack([p, posterior(y, sigma)])]
        if not np.array_equal(est, ref):  # equal up to rounding of the noise strengths
            a, b = (sum(w for w, x in zip(cost, v) if x) for v in (est, ref))
            require(abs(a - b) <= 1e-6 * max(1, abs(b)), lambda: f"estimate {est.tolist()} (cost {a}), belief propagation on the analog Tanner graph: {ref.tolist()} (cost {b})")
        if sigma == 0:
            require(not est[n:].any(), "a perfect syndrome was changed")
    return "decoded" if any(v <= 0 for y in c["calls"] for v in y) else None


# ---------------------------------------------------------------------------------------------------------- codes
STEANE = [[1, 0, 0, 1, 0, 1, 1], [0, 1, 0, 1, 1, 0, 1], [0, 0, 1, 0, 1, 1, 1]]


def toric(L):
    n = 2 * L * L
    q = lambda d, x, y: d * L * L + (x % L) * L + y % L  # noqa: E731
    hx, hz = [], []
    for x in range(L):
        for y in range(L):
            r = [0] * n
            for i in (q(0, x, y), q(0, x - 1, y), q(1, x, y), q(1, x, y - 1)):
                r[i] ^= 1
            hx.append(r)
            r = [0] * n
            for i in (q(0, x, y), q(0, x, y + 1), q(1, x, y), q(1, x + 1, y)):
                r[i] ^= 1
            hz.append(r)
    return hx, hz


def redundant(h):
    n = len(h[0])
    out = []
    for v in range(1, 1 << len(h)):
        r = [0] * n
        for i in range(len(h)):
            if v >> i & 1:
                r = [a ^ b for a, b in zip(r, h[i])]
        out.append(r)
    return out


def shor():
    hz = [[int(j in (3 * b + i, 3 * b + i + 1)) for j in range(9)] for b in range(3) for i in range(2)]
    hx = [[1] * 6 + [0] * 3, [0] * 3 + [1] * 6]
    hz = [hz[0], hz[1], [a ^ b for a, b in zip(hz[0], hz[1])], *hz[2:]]
    return [*hx, [a ^ b for a, b in zip(*hx)]], hz


CODES = {"steane": (STEANE, STEANE), "steane7": (redundant(STEANE), redundant(STEANE)), "toric2": toric(2), "toric3": toric(3), "shor": shor()}


def meta(h):
    """Left kernel of h."""
    cols = [sum(h[i][j] << i for i in range(len(h))) for j in range(len(h[0]))]
    return [gf2.to_list(v, len(h)) for v in gf2.nullspace(cols, len(h))]


def logicals(same, other):
    n = len(same[0])
    span = gf2.Span(gf2.ints(same))
    out = []
    for v in gf2.nullspace(gf2.ints(other), n):
        if span.add(v):
            out.append(gf2.to_list(v, n))
    return out


def agree(a, b, N, what):
    p = (a + b) / (2 * N)
    tol = 6.5 * math.sqrt(2 * N * p * (1 - p)) + 12
    require(abs(a - b) <= tol, lambda: f"{what}: {a} of {N} samples succeed, {b} in an independent simulation (tolerance {tol:.0f})")


def channels(p, bias):
    """Marginal X and Z error rates."""
    b = [math.inf if x == "inf" else float(x) for x in bias]
    if math.inf in b:
        w = [float(x == math.inf) for x in b]
    else:
        w = [x / sum(b) for x in b]
    return p * (w[0] + w[1]), p * (w[2] + w[1])


BIAS = [[1.0, 1.0, 1.0], [5.0, 1.0, 1.0], [1.0, 1.0, 5.0], [1.0, 0.0, 0.0], [0.0, 0.0, 1.0], [0.0, 1.0, 0.0], ["inf", 0.0, 0.0], [0.0, 0.0, "inf"], [0.0, "inf", 0.0]]


def npbias(b):
    return np.array([math.inf if x == "inf" else x for x in b])


class Scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.t = tempfile.TemporaryDirectory()
        os.chdir(self.t.name)
        return Path(self.t.name)

    def __exit__(self, *a):
        os.chdir(self.old)
        self.t.cleanup()


def check_counts(res, N, k, prec_stop=False):
    n = res["nr_runs"]
    if not prec_stop:
        require(n == N, lambda: f"{n} runs instead of {N}")
    for s in "xz":
        good = res[f"{s}_success_cnt"]
        require(isinstance(good, (int, np.integer)) and 0 <= good <= n, "number of successes")
        ler = 1 - good / n
        require(abs(res[f"{s}_ler"] - ler) < 1e-9 and abs(res[f"{s}_wer"] - (1 - (1 - ler) ** (1 / k))) < 1e-9, lambda: f"rates of {good} successes in {n} runs: {res[f'{s}_ler']}, {res[f'{s}_wer']}")


def check_stops(res, run):
    """Any precision is reached soon where both sides fail now and then."""
    if all(0.15 < res[f"{s}_success_cnt"] / res["nr_runs"] < 0.85 for s in "xz"):
        n = run()["nr_runs"]
        require(n < 200, lambda: f"the precision 1e6 is not reached after {n} runs that are checked every 10 runs")


def check_early(res, N, prec):
    n = res["nr_runs"]
    rel = [res[f"{s}_wer_eb"] / res[f"{s}_wer"] if res[f"{s}_wer_eb"] else math.inf for s in "xz"]
    require(n == N or all(r < prec for r in rel), lambda: f"stopped after {n} of {N} runs at relative error bars {rel}, precision {prec}")


def priors(log, expected):
    """The probabilities every decoder works with are those of the noise simulated on its side.

    expected: (matrix, data rate, syndrome rate, layout) of all decoders in use, layout: parts ("data"|"hard", length) or ("soft", bits before).
    """
    groups = {}
    for e in log:
        groups.setdefault((e.pcm.shape, e.pcm.tobytes()), []).append(e)
    known = {}
    for a, pd, ps, layout in expected:
        a = np.array(a).astype(int)
        known.setdefault((a.shape, a.tobytes()), []).append((pd, ps, layout))
    for key, ev in groups.items():
        exp = known.get(key)
        if exp is None:
            continue  # another (equivalent) matrix: judged by the results only
        if len({e[:2] for e in exp}) < len(exp):
            exp = exp[:1]
        kind, k = exp[0][2][0]
        if kind == "soft":
            if len(exp) > 1:
                continue  # both sides use the same matrix
            pd, ps, _ = exp[0]
            for e in ev:
                require(np.allclose(e.probs[:k], pd, atol=1e-6), lambda: f"data errors are decoded with probabilities {e.probs[:k].tolist()}, simulated with {pd}")
            why = seam.soft_ok(np.concatenate([e.probs[k:] for e in ev]), sigma_of(ps) if ps > 0 else 0.0)
            require(why is None, lambda: f"analog syndromes: {why}")
        else:
            vecs = []
            for pd, ps, layout in exp:
                v = np.concatenate([np.full(n, pd if what == "data" else ps) for what, n in layout])
                if not any(np.allclose(v, w, atol=1e-6) for w in vecs):
                    vecs.append(v)
            seen = set()
            for e in ev:
                i = next((i for i, v in enumerate(vecs) if np.allclose(e.probs, v, atol=1e-6)), None)
                require(i is not None, lambda: f"decoding with probabilities {e.probs.tolist()}, the noise is {[v.tolist() for v in vecs]}")
                seen.add(i)
            require(len(seen) == len(vecs), lambda: f"both sides are decoded with the probabilities of one: {[vecs[i].tolist() for i in seen]}")


def syndromes(log, N, expected):
    """Each check of (matrix, checks h, data rate, syndrome rate, rounds) is violated in the first round as often as independent errors violate it."""
    keys = [np.array(x[0]).astype(int) for x in expected]
    for (_, h, pd, ps, rounds), a in zip(expected, keys):
        if sum(np.array_equal(a, b) for b in keys) > 1:
            continue  # both sides use the same matrix
        h = np.array(h).astype(int)
        ev = [e.syndrome for e in log if e.pcm.shape == a.shape and np.array_equal(e.pcm, a) and np.asarray(e.syndrome).size == len(a)]
        if len(ev) != N * rounds:
            continue  # not one call per round
        seen = np.array([np.asarray(s).ravel()[: len(h)] for s in ev[::rounds]], dtype=float)
        seen = (seen % 2).mean(0)
        want = (1 - (1 - 2 * pd) ** h.sum(1) * (1 - 2 * ps)) / 2
        tol = 5.5 * np.sqrt(want * (1 - want) / N) + 8 / N
        require((abs(seen - want) <= tol).all(), lambda: f"checks are violated at rates {np.round(seen, 3).tolist()} of {N}, expected {np.round(want, 3).tolist()}")


# ------------------------------------------------------------------------------------------------- ATD simulator
@st.composite
def gen_atd(draw):
    return {"code": draw(st.sampled_from(sorted(CODES))), "bias": draw(st.sampled_from(BIAS)), "p": draw(st.sampled_from([0.03, 0.1, 0.2])), "s": draw(st.sampled_from([0.0, 0.02, 0.1, 0.3])), "by": draw(st.sampled_from(["ser", "sigma"])),
            "seed": draw(st.integers(0, 10**6)), "interval": draw(st.sampled_from([1000, 10, 2])), "nobias": draw(st.booleans())}


def ref_side(h, logical, pd, ps, N, rng):
    """Own simulation of one side with analog readout and analog Tanner graph decoding."""
    h = np.array(h, dtype=np.int32)
    m, n = h.shape
    sigma = sigma_of(ps) if ps > 0 else 0.0
    a = np.hstack([h, eye(m)])
    good = 0
    dec = bp(a, np.hstack([[pd] * n, np.zeros(m)]))
    for _ in range(N):
        e = (rng.random(n) < pd).astype(int)
        y = rng.normal(1 - 2 * (h @ e % 2), sigma)
        dec.update_channel_probs(np.hstack([[pd] * n, posterior(y, sigma)]))
        est = np.asarray(dec.decode((y <= 0).astype(np.int32)))[:n]
        good += not (np.array(logical) @ ((e + est) % 2) % 2).any()
    return good


def check_atd(c):
    hx, hz = CODES[c["code"]]
    lx, lz = logicals(hx, hz), logicals(hz, hx)
    n, k = len(hx[0]), len(lx)
    bias = [1.0, 1.0, 1.0] if c["nobias"] else c["bias"]
    s = max(c["s"], 0.02) if c["by"] == "sigma" else c["s"]
    N = 500
    with Scratch() as tmp:
        out = tmp / "o.json"

        def sim(**kw):
            a = dict(hx=np.array(hx, dtype=np.int32), lx=np.array(lx), hz=np.array(hz, dtype=np.int32), lz=np.array(lz), codename="c", seed=c["seed"], bp_params=BpParams(**PAR), data_err_rate=c["p"], code_params={"n": n, "k": k},
                     output_path=str(out), save_interval=c["interval"], eb_precision=1e-9)
            a.update({"sigma": sigma_of(s)} if c["by"] == "sigma" else {"syndr_err_rate": s})
            if not c["nobias"]:
                a["bias"] = npbias(bias)
            a.update(kw)
            return AtdSimulator(**a)

        for bad in ({"sigma": None, "syndr_err_rate": None}, {"sigma": 0.5, "syndr_err_rate": 0.1}):
            try:
                sim(**bad)
            except ValueError:
                continue
            require(False, f"accepted: {bad}")
        with seam.recording() as log:
            res = sim().run(N)
        check_counts(res, N, k)
        priors(log, [(a, pd, ps, [("soft", n)]) for h, pd, ps in zip((hz, hx), channels(c["p"], bias), channels(s, bias)) for a in [np.hstack([np.array(h), eye(len(h))])]])
        if hx != hz:
            syndromes(log, N, [(np.hstack([np.array(h), eye(len(h))]), h, pd, ps, 1) for h, pd, ps in zip((hz, hx), channels(c["p"], bias), channels(s, bias))])
        d = json.loads(out.read_text())
        require(d["nr_runs"] == N and all(d[q] == res[q] for q in ("x_success_cnt", "z_success_cnt", "x_ler", "z_ler", "pers", "code_K", "code_N")), "stored results differ from the returned ones")
        few = [(r["x_success_cnt"], r["z_success_cnt"]) for r in (sim().run(30), sim().run(30))]
        require(few[0] == few[1], lambda: f"the same seed gives {few} successes")
        check_early(sim(eb_precision=0.3).run(150), 150, 0.3)
        check_stops(res, lambda: sim(eb_precision=1e6, save_interval=10).run(200))
    px, pz = channels(c["p"], bias)
    sx, sz = channels(s, bias)
    rng = np.random.default_rng(case_seed(c))
    for side, h, lo, pd, ps in (("x", hz, lz, px, sx), ("z", hx, lx, pz, sz)):
        if pd == 0 and ps == 0:
            require(res[f"{side}_success_cnt"] == N, f"logical {side} errors without noise")
        else:
            agree(res[f"{side}_success_cnt"], ref_side(h, lo, pd, ps, N, rng), N, f"{side} errors")
    return "errors" if min(res["x_success_cnt"], res["z_success_cnt"]) < N else None


# --------------------------------------------------------------------------------------------- single-shot simulator
@st.composite
def gen_ss(draw):
    return {"code": draw(st.sampled_from(sorted(CODES))), "bias": draw(st.sampled_from(BIAS)), "p": draw(st.sampled_from([0.03, 0.1])), "s": draw(st.sampled_from([0.0, 0.02, 0.1, 0.2])), "single": draw(st.booleans()),
            "xm": draw(st.booleans()), "zm": draw(st.booleans()), "tg": draw(st.booleans()), "depth": draw(st.integers(0, 3)), "log": draw(st.booleans()), "seed": draw(st.integers(0, 10**6)), "interval": draw(st.sampled_from([50, 7, 1000])), "info": draw(st.booleans())}


def ref_ss(c, h, m, same, lo, pd, ps, N, rng):
    """Own simulation of one side of a single-shot experiment (h: checks, m: meta checks or None)."""
    h = np.array(h, dtype=np.int32)
    r, n = h.shape
    tg = c["tg"]
    sigma = sigma_of(ps) if ps > 0 else 0.0
    data = np.full(n, pd)
    synp = np.full(r, ps)
    last = bp(h, data)
    mm = None if m is None else np.array(m, dtype=np.int32)
    if mm is not None:
        ss = bp(np.vstack([np.hstack([h, eye(r)]), np.hstack([np.zeros((len(mm), n), dtype=np.int32), mm])]), np.hstack([data, synp])) if c["single"] else None
        md = None if c["single"] else bp(mm, synp)
    an = bp(np.hstack([h, eye(r)]), np.hstack([data, np.zeros(r)])) if tg else None
    span = gf2.Span(gf2.ints(same))
    good = 0
    for _ in range(N):
        e = np.zeros(n, dtype=np.int64)
        for _ in range(c["depth"]):
            e = (e + (rng.random(n) < pd)) % 2
            s = h @ e % 2
            if tg:
                y = rng.normal(1 - 2 * s, sigma)
                s = (y <= 0).astype(np.int64)
            else:
                s = (s + (rng.random(r) < ps)) % 2
            if c["single"]:
                if mm is None:
                    if tg:
                        an.update_channel_probs(np.hstack([data, posterior(y, sigma)]))
                    est = (an if tg else last).decode(s.astype(np.int32))
                else:
                    if tg:
                        ss.update_channel_probs(np.hstack([data, posterior(y, sigma)]))
                    est = ss.decode(np.hstack([s, mm @ s % 2]).astype(np.int32))
            else:
                if mm is not None:
                    s = (s + md.decode((mm @ s % 2).astype(np.int32))) % 2
                if tg:
                    an.update_channel_probs(np.hstack([data, posterior(y, sigma)]))
                est = (an if tg else last).decode(s.astype(np.int32))
            e = (e + np.asarray(est)[:n]) % 2
        e = (e + (rng.random(n) < pd)) % 2
        e = (e + np.asarray(last.decode((h @ e % 2).astype(np.int32)))) % 2
        if c["log"]:
            good += not (np.array(lo) @ e % 2).any()
        else:
            good += gf2.to_int(e.tolist()) in span
    return good


def make_ss(c, **kw):
    hx, hz = CODES[c["code"]]
    lx, lz = logicals(hx, hz), logicals(hz, hx)
    mx, mz = meta(hx), meta(hz)
    A = lambda x: np.array(x, dtype=np.int32)  # noqa: E731
    a = dict(codename="c", per=c["p"], ser=c["s"], single_stage=c["single"], seed=c["seed"], bias=npbias(c["bias"]), x_meta=c["xm"] and bool(mx), z_meta=c["zm"] and bool(mz), sus_th_depth=c["depth"], bp_params=BpParams(**PAR),
             code_params={"n": len(hx[0]), "k": len(lx)}, hx=A(hx), hz=A(hz), mx=A(mx) if mx else None, mz=A(mz) if mz else None, lx=A(lx) if c["log"] else None, lz=A(lz) if c["log"] else None, analog_tg=c["tg"], analog_info=bool(c.get("info")) and not c["tg"] and not c["single"], save_interval=c["interval"],
             eb_precision=1e-9)
    a.update(kw)
    return SingleShotSimulator(**a)


def check_ss(c):
    hx, hz = CODES[c["code"]]
    lx, lz = logicals(hx, hz), logicals(hz, hx)
    mx, mz = meta(hx) or None, meta(hz) or None
    k = len(lx)
    N = 350
    px, pz = channels(c["p"], c["bias"])
    sx, sz = channels(c["s"], c["bias"])
    with Scratch() as tmp:
        with seam.recording() as log:
            res = make_ss(c).run(N)
        check_counts(res, N, k)
        exp = []
        for h, m, pd, ps in ((hz, mz if c["zm"] else None, px, sx), (hx, mx if c["xm"] else None, pz, sz)):
            r, n = len(h), len(h[0])
            exp.append((h, pd, ps, [("data", n)]))
            if c["tg"] and not (c["single"] and m):
                exp.append((np.hstack([np.array(h), eye(r)]), pd, ps, [("soft", n)]))
            if c["depth"] and m and not c["single"]:
                exp.append((m, pd, ps, [("hard", r)]))
            if c["depth"] and m and c["single"]:
                st_ = np.vstack([np.hstack([np.array(h), eye(r)]), np.hstack([np.zeros((len(m), n), dtype=int), np.array(m)])])
                exp.append((st_, pd, ps, [("soft", n)] if c["tg"] else [("data", n), ("hard", r)]))
        if not (c["info"] and not c["tg"] and not c["single"]):
            priors(log, exp)
        if not (c["info"] and not c["tg"] and c["single"]):  # (listed finding)
            exp = []
            for h, m, pd, ps in ((hz, mz if c["zm"] else None, px, sx), (hx, mx if c["xm"] else None, pz, sz)):
                r, n = len(h), len(h[0])
                if not c["depth"]:
                    exp.append((h, h, pd, 0, 1))
                elif m and c["single"]:
                    exp.append((np.vstack([np.hstack([np.array(h), eye(r)]), np.hstack([np.zeros((len(m), n), dtype=int), np.array(m)])]), h, pd, ps, c["depth"]))
                elif m:
                    exp.append((m, m, ps, 0, c["depth"]))
                elif c["tg"]:
                    exp.append((np.hstack([np.array(h), eye(r)]), h, pd, ps, c["depth"]))
                else:
                    exp.append((h, h, pd, ps, c["depth"] + 1))
            syndromes(log, N, exp)
        files = list(tmp.rglob("*.json"))
        require(len(files) == 1, lambda: f"result files {files}")
        d = json.loads(files[0].read_text())
        require(d["nr_runs"] == N and all(d[q] == res[q] for q in ("x_success_cnt", "z_success_cnt", "x_ler", "z_ler", "pers", "sers", "code_K", "code_N")), "stored results differ from the returned ones")
        few = [(r["x_success_cnt"], r["z_success_cnt"]) for r in (make_ss(c).run(30), make_ss(c).run(30))]
        require(few[0] == few[1], lambda: f"the same seed gives {few} successes")
        check_early(make_ss(c, eb_precision=0.3).run(120), 120, 0.3)
        check_stops(res, lambda: make_ss(c, eb_precision=1e6, save_interval=10).run(200))
        try:
            make_ss(c, analog_tg=True, analog_info=True)
        except ValueError:
            pass
        else:
            require(False, "both analog decoding methods at once are accepted")
    rng = np.random.default_rng(case_seed(c))
    # checks of one type measure the other type of error; x_meta are meta checks of the X checks, i.e. for Z errors
    for side, h, m, same, lo, pd, ps in (("x", hz, mz if c["zm"] else None, hx, lz, px, sx), ("z", hx, mx if c["xm"] else None, hz, lx, pz, sz)):
        if pd == 0 and ps == 0:
            require(res[f"{side}_success_cnt"] == N, f"logical {side} errors without noise")
        else:
            agree(res[f"{side}_success_cnt"], ref_ss(c, h, m, same, lo, pd, ps, N, rng), N, f"{side} errors")
    # (two stages with analog_info: thresholded analog readout, so errors as likely as with hard syndromes)
    mode = ("single stage" if c["single"] else "two stages") + (" analog" if c["tg"] else "")
    return mode if min(res["x_success_cnt"], res["z_success_cnt"]) < N else None


def demo_info():
    """Steane code, error rates 0.002, 60 runs of depth 2: nearly no failures expected (60 + 60 successes with hard syndromes)."""
    c = {"code": "steane7", "bias": [1.0, 1.0, 1.0], "p": 0.002, "s": 0.002, "single": True, "xm": True, "zm": True, "tg": False, "depth": 2, "log": True, "seed": 1, "interval": 1000}
    with Scratch():
        r = make_ss(c, analog_info=True).run(60)
    return r["x_success_cnt"] + r["z_success_cnt"] < 100


PROP = Prop(
    "P24",
    [
        Sub("decoder", check_dec, strategy=gen_dec, quick=600, thorough=15000, shards=(3, 8), rule="non-trivial: some check is violated"),
        Sub("analog simulation", check_atd, strategy=gen_atd, quick=96, thorough=500, shards=(8, 8), timeout=150, nondet=True, rule="non-trivial: logical errors occurred; compared with an independent simulation"),
        Sub("single-shot simulation", check_ss, strategy=gen_ss, quick=160, thorough=800, shards=(8, 8), timeout=150, nondet=True, rule="non-trivial: logical errors occurred; compared with an independent simulation"),
    ],
    findings=[Finding("ss-soft-info", "single-stage decoding with analog_info passes analog values to the hard-decision decoder (no soft-information decoder is ever set up), so the Steane code at error rates 0.002 fails in a third of the runs", demo_info)],
    assumptions=["belief propagation with ordered statistics decoding of the ldpc package is trusted", "statistical comparisons use bounds of 6.5 standard deviations"],
)
