"""P05: the decoding simulations report what the decoder did."""
CPP = True

import ctypes
import glob
import json
import os
import tempfile
from pathlib import Path

import gens
import gf2
import ufd
from harness import Prop, Sub, require, sut
from hypothesis import strategies as st
from ufd import B, I, b, msyn

from mqt.qecc import pyqecc as pq

TYPES = {"heuristic": (pq.DecoderType.UF_HEURISTIC, pq.UFHeuristic), "original": (pq.DecoderType.ORIGINAL_UF, pq.UFDecoder)}


@st.composite
def wer_case(draw):
    f = draw(st.sampled_from(["steane", "shor", "toric3", "surf3", "rep", "hex3", "ident"]))
    lo = draw(st.sampled_from([0.0, 0.02, 0.1, 0.25, 0.5, 1.0]))
    return {"code": f, "lo": lo, "step": draw(st.sampled_from([0.01, 0.1, 0.25])), "nsteps": draw(st.integers(0, 3)),
            "runs": draw(st.integers(1, 12)), "k": draw(st.integers(1, 3)), "dec": draw(st.sampled_from(sorted(TYPES))),
            "files": draw(st.integers(0, 3))}  # fmt: skip


def code_of(f):
    if f == "ident":  # every error is determined by its syndrome
        return [[0, 0, 0]], [[1, 0, 0], [1, 1, 0], [0, 0, 1]]
    if f == "rep":
        return [[0, 0, 0, 0]], gens.rep(4)
    return ufd.family(f)


def check_wer(case):
    hx, hz = code_of(case["code"])
    n = len(hz[0])
    c = pq.Code(B(hx), B(hz))
    c.k = case["k"]
    sp = gf2.Span(gf2.ints(hx))
    hi = case["lo"] + case["step"] * (case["nsteps"] - 0.5)
    with tempfile.TemporaryDirectory() as d:
        raw = d + "/raw" if case["files"] & 1 else ""
        stat = d + "/stat" if case["files"] & 2 else ""
        if hi > 1:
            case = {**case, "nsteps": 1}
            hi = case["lo"] + 1e-9
        sut(pq.DecodingSimulator.simulate_wer, raw, stat, case["lo"], hi, case["runs"], c, case["step"], TYPES[case["dec"]][0])
        rf, sf = glob.glob(d + "/raw*.json"), glob.glob(d + "/stat*.json")
        require(len(rf) == (1 if raw else 0) and len(sf) == (1 if stat else 0), f"files written: {rf} {sf}")
        wer = json.loads(Path(rf[0]).read_text()) if raw else None
        stats = json.loads(Path(sf[0]).read_text()) if stat else None
    rates = [case["lo"] + i * case["step"] for i in range(case["nsteps"])]
    fails = None
    if stats is not None:
        runs = [r["run"] for r in stats["runs"]]
        require(len(runs) == len(rates), f"{len(runs)} entries for the {len(rates)} rates {rates}")
        fails = []
        for r, p in zip(runs, rates):
            require(abs(r["physicalErrRate"] - p) < 1e-5, f"rate {r['physicalErrRate']} reported, {p} simulated")
            require(len(r["data"]) == case["runs"], f"{len(r['data'])} of {case['runs']} runs reported")
            f = 0
            for x in r["data"]:
                est = [int(q) for q in x["decodingResult"]["estimate"].strip("[]").split(",")]
                require(len(est) == n, "length of a reported estimate")
                bad = x["decodingStatus"] == "failure"
                f += bad
                if p in (0.0, 1.0):
                    e = [int(p)] * n
                    if p == 0.0:
                        require(not any(est) and not bad, "an estimate or failure without any error")
                    res = gf2.to_int([u ^ v for u, v in zip(e, est)])
                    require(bad == (res not in sp), f"status {x['decodingStatus']} for estimate {est} of error {e}")
                    if case["dec"] == "original":
                        require(msyn(hz, est) == msyn(hz, e), "reported estimate does not explain the error's syndrome")
            fails.append(f)
    if wer is not None:
        require(len(wer) == len(rates), f"{len(wer)} word error rates for {len(rates)} rates")
        for (key, w), p in zip(sorted(wer.items(), key=lambda t: float(t[0])), rates):
            require(abs(float(key) - p) < 1e-5, f"word error rate listed for {key}, expected {p}")
            q = w * case["k"] * case["runs"]
            require(abs(q - round(q)) < 1e-6 and -1e-9 <= q <= case["runs"] + 1e-6, f"word error rate {w} is no fraction of {case['runs']} runs")
            if fails is not None:
                require(round(q) == fails[rates.index(p)], f"word error rate {w}, but {fails[rates.index(p)]} failures in {case['runs']} runs")
            if p == 0 or (case["code"] == "ident" and case["dec"] == "original"):
                require(w == 0, f"word errors at rate {p} where every error is corrected")
    return f"{case['dec']}/{case['files']}/{len(rates)} rates" if case["files"] and rates else None


def stat_cases(tier):
    for f in ("rep", "steane", "shor") if tier != "quick" else ("rep", "steane"):
        for dec in sorted(TYPES):
            for p in (0.05, 0.2, 0.5):
                yield {"code": f, "dec": dec, "p": p, "runs": 4000 if tier == "quick" else 20000}


def check_stat(case):
    """The simulated word error rate is the one obtained by decoding every error once."""
    hx, hz = code_of(case["code"])
    n = len(hz[0])
    c = pq.Code(B(hx), B(hz))
    c.k = 1
    sp = gf2.Span(gf2.ints(hx))
    ans = {}
    exp = 0.0
    for v in range(1 << n):
        e = gf2.to_list(v, n)
        s = tuple(msyn(hz, e))
        if s not in ans:
            d = TYPES[case["dec"]][1]()
            d.set_code(c)
            d.decode(b(s))
            ans[s] = gf2.to_int(I(d.result.estimate))
        if v ^ ans[s] not in sp:
            w = gf2.wt(v)
            exp += case["p"] ** w * (1 - case["p"]) ** (n - w)
    with tempfile.TemporaryDirectory() as d:
        sut(pq.DecodingSimulator.simulate_wer, d + "/raw", "", case["p"], case["p"] + 1e-9, case["runs"], c, 1.0, TYPES[case["dec"]][0])
        w = next(iter(json.loads(Path(glob.glob(d + "/raw*.json")[0]).read_text()).values()))
    sd = (exp * (1 - exp) / case["runs"]) ** 0.5
    require(abs(w - exp) < 7 * sd + 1e-3, f"word error rate {w}, expected {exp:.4f} +- {sd:.4f}")
    return "statistics"


SLOW = {"toric9": lambda: gens.toric(9), "toric11": lambda: gens.toric(11)}  # decoding takes milliseconds
_slow: dict = {}


def time_hz(f):
    if f in SLOW:
        if f not in _slow:
            _slow[f] = SLOW[f]()[1]
        return _slow[f]
    return code_of(f)[1]


@st.composite
def time_case(draw):
    fs = draw(st.lists(st.sampled_from(["steane", "shor", "toric3", "surf3", "rep", *SLOW]), min_size=1, max_size=3, unique=True))
    return {"codes": fs, "runs": draw(st.integers(1, 3)), "samples": draw(st.integers(1, 4)), "p": draw(st.sampled_from([0.0, 0.1, 0.3, 1.0])),
            "dec": draw(st.sampled_from(sorted(TYPES))), "info": draw(st.sampled_from([True, True, False]))}  # fmt: skip


class Stdout:
    """Collects what the C++ code writes to the standard output."""

    def __enter__(self):
        ctypes.CDLL(None).fflush(None)
        self.f = tempfile.TemporaryFile()
        self.old = os.dup(1)
        os.dup2(self.f.fileno(), 1)
        return self

    def __exit__(self, *a):
        ctypes.CDLL(None).fflush(None)
        os.dup2(self.old, 1)
        os.close(self.old)
        self.f.seek(0)
        self.text = self.f.read().decode()
        self.f.close()


def records(text):
    dec = json.JSONDecoder()
    out = []
    i = text.find("\n{\n")
    while i >= 0:
        r, j = dec.raw_decode(text, i + 1)
        out.append(r)
        i = text.find("{\n", j) - 1 if "{\n" in text[j:] else -1
    return out


def bits(s):
    return [int(q) for q in s.strip("[]").split(",")]


def check_time(case):
    with tempfile.TemporaryDirectory() as d:
        Path(d, "codes").mkdir()
        for f in case["codes"]:
            Path(d, "codes", f).write_text("\n".join(" ".join(map(str, r)) for r in time_hz(f)) + "\n")
        with Stdout() as o:
            sut(pq.DecodingSimulator.simulate_avg_runtime, d + "/raw", d + "/info" if case["info"] else "", case["p"], case["runs"], d + "/codes",
                case["samples"], TYPES[case["dec"]][0])  # fmt: skip
        rf = glob.glob(d + "/raw*.json")
        require(len(rf) == 1, f"files written: {rf}")
        j = json.loads(Path(rf[0]).read_text())
    require({Path(k).name for k in j} == set(case["codes"]), f"codes reported {sorted(j)}, simulated {case['codes']}")
    for v in j.values():
        require(sorted(v) == sorted(str(i) for i in range(case["runs"])), f"runs reported {sorted(v)}")
        require(all(isinstance(t, int) and 0 <= t < 60000 for t in v.values()), f"times {v}")
    if not case["info"]:
        return f"{len(case['codes'])} codes"
    R, S = case["runs"], case["samples"]
    recs = records(o.text)
    require(len(recs) == len(j) * R * S, f"{len(recs)} decodings reported instead of {len(j)} * {R} * {S}")
    size = {Path(k).name: len(time_hz(Path(k).name)[0]) for k in j}
    groups = [recs[i : i + R * S] for i in range(0, len(recs), R * S)]
    # the codes come in the order of the directory; codes of equal size are told apart by their times only
    left = sorted(j)
    for g in groups:
        n = g[0]["codeSize"]
        require(all(r["codeSize"] == n for r in g), "sizes of the codes")
        avg = {str(k): sum(r["decodingResult"]["decodingTime(ms)"] for r in g[k * S : k * S + S]) // S for k in range(R)}
        k = [k for k in left if size[Path(k).name] == n and j[k] == avg]
        require(k, lambda: f"{S} samples per run taking {[r['decodingResult']['decodingTime(ms)'] for r in g]} ms have averages {avg}, reported {[j[k] for k in left if size[Path(k).name] == n]}")
        left.remove(k[0])
        for r in g:
            e, s, est = bits(r["error"]), bits(r["syndrome"]), bits(r["decodingResult"]["estimate"])
            require(r["physicalErrRate"] == case["p"] and len(e) == n == len(est), "reported rate and sizes")
            hs = [time_hz(f) for f in case["codes"] if size[f] == n]
            require(any(msyn(h, e) == s and (case["dec"] != "original" or msyn(h, est) == s) for h in hs), lambda: f"error {e} reported with syndrome {s}, estimate {est}")
            if case["p"] in (0.0, 1.0):
                require(e == [int(case["p"])] * n, "errors at rates 0 and 1")
    return f"{len(case['codes'])} codes, {'several ms' if any(t > 1 for v in j.values() for t in v.values()) else 'fast'}"


PROP = Prop(
    "P05",
    [
        Sub("wer", check_wer, wer_case, quick=800, thorough=12000, shards=(4, 8), nondet=True,
            rule="word-error-rate simulations over codes, decoders, rates and output files; the two files agree with each other and, at rates 0 and 1, with the code; non-trivial: some file and some rate"),
        Sub("statistics", check_stat, cases=stat_cases, shards=(4, 8), nondet=True,
            rule="word error rates of 4000 (20000) runs against the exact rate from decoding every error, within 7 standard deviations"),
        Sub("runtime", check_time, time_case, quick=200, thorough=2000, shards=(2, 4), nondet=True, rule="run time simulations over directories of codes, with every reported decoding checked; every case is non-trivial"),
    ],
    cpp=True,
    assumptions=["the errors drawn by the word error rate simulation are visible only at rates 0 and 1"],
)  # fmt: skip
