"""P04: what a decoder answers depends on the code, growth variant and syndrome only, never on what it did before."""
CPP = True

import gens
import ufd
from harness import Prop, Sub, Violation, require, sut
from hypothesis import strategies as st
from ufd import B, I, b, msyn

from mqt.qecc import pyqecc as pq

DET = {"UFDecoder": ["all", "smallest"], "UFHeuristic": ["all", "invalid", "smallest"]}


@st.composite
def history(draw):
    ncodes = draw(st.integers(1, 3))
    codes = []
    for _ in range(ncodes):
        if draw(st.integers(0, 2)) == 0:
            f = draw(st.sampled_from(["steane", "shor", "toric3", "surf3", "hex5", "rot3"]))
            hx, hz = ufd.family(f)
        else:
            hx, hz = draw(ufd.random_codes())
        codes.append([hx, hz, draw(st.booleans())])  # one-sided?
    ops = []
    for _ in range(draw(st.integers(2, 12))):
        k = draw(st.sampled_from(["code", "growth", "decode", "decode", "decode", "reset", "unsat", "setfield"]))
        ci = draw(st.integers(0, ncodes - 1))
        if k == "code":
            ops.append([k, ci])
        elif k in ("growth", "setfield"):
            ops.append([k, draw(st.sampled_from(["all", "invalid", "smallest", "random", "qubit"]))])
        elif k == "decode":
            n = len(codes[ci][1][0])
            ops.append([k, ci, draw(ufd.error(n)), draw(ufd.error(n)), draw(st.booleans())])
        elif k == "unsat":
            ops.append([k, draw(gens.bits(draw(st.integers(0, 9))))])
        else:
            ops.append([k])
    return {"dec": draw(st.sampled_from(["UFDecoder", "UFHeuristic"])), "codes": codes, "ops": ops}


def fresh(dec, code, growth, syn):
    d = getattr(pq, dec)()
    d.set_code(code)
    d.set_growth(ufd.GROWTH[growth])
    d.decode(b(syn))
    return I(d.result.estimate), sorted(int(i) for i in d.result.estim_vec_idxs)


def check_history(case):
    dec = case["dec"]
    codes, mats = [], []
    for hx, hz, one in case["codes"]:
        codes.append(sut(pq.Code, B(hz)) if one else sut(pq.Code, B(hx), B(hz)))
        mats.append((hx, hz, one))
    d = sut(getattr(pq, dec))
    cur, growth = None, "all"
    held = []
    ndec = 0
    for op in case["ops"]:
        k = op[0]
        if k == "code":
            cur = op[1]
            sut(d.set_code, codes[cur])
        elif k == "growth":
            growth = op[1]
            sut(d.set_growth, ufd.GROWTH[growth])
        elif k == "setfield":
            growth = op[1]
            d.growth = ufd.GROWTH[growth]
        elif k == "reset":
            if dec == "UFHeuristic":
                sut(d.reset)
                growth = "all"
                require(d.result.estimate is not None and len(d.result.estimate) == 0, "reset keeps an estimate")
                require(d.growth == ufd.GROWTH["all"], "reset keeps the growth variant")
        elif k == "unsat":
            try:  # anything may be given, it is decoded or refused, and leaves no trace
                d.decode(b(op[1]))
            except Exception:  # noqa: S110
                pass
        else:
            if cur is None:
                cur = op[1]
                sut(d.set_code, codes[cur])
            hx, hz, one = mats[cur]
            n = len(hz[0])
            x = (op[2] + [0] * n)[:n]
            z = (op[3] + [0] * n)[:n]
            two = op[4] and not one
            syn = msyn(hz, x) + (msyn(hx, z) if two else [])
            bad = (dec == "UFDecoder" and growth == "invalid") or (dec == "UFHeuristic" and growth == "qubit")
            try:
                d.decode(b(syn))
            except ValueError:
                require(bad, f"decode with growth {growth} refused {syn}")
                continue
            except Exception as e:
                raise Violation(f"decode raised {type(e).__name__}: {e}") from e
            require(not bad or not any(syn), f"the unsupported growth variant {growth} was accepted")
            r = d.result
            est, idx = I(r.estimate), sorted(int(i) for i in r.estim_vec_idxs)
            ndec += 1
            require(len(est) == (2 * n if len(syn) > len(hz) else n), f"estimate of length {len(est)}")
            require(idx == [i for i, v in enumerate(est) if v], f"indices {idx} of estimate {est}")
            require(any(syn) or not any(est), "the zero syndrome has a non-zero estimate")
            if dec == "UFDecoder":
                require(msyn(hz, est[:n]) == msyn(hz, x), "the estimate does not explain the syndrome")
            if growth in DET[dec]:
                f = fresh(dec, codes[cur], growth, syn)
                require((est, idx) == f, f"answer {est} of the used decoder, {f[0]} of a new one")
                g = fresh(dec, pq.Code(B(hz)) if one else pq.Code(B(hx), B(hz)), growth, syn)
                require(g == f, f"answer {f[0]} for the used code object, {g[0]} for a new one")
            held.append((r, est, case["dec"]))
            cs = d.result.json()
            require(isinstance(cs, (dict, str)), "json of a result")
    for c, (hx, hz, one) in zip(codes, mats):
        require([I(r) for r in c.getHz()] == hz and c.n == len(hz[0]), "decoding changed the Z checks of the code")
        require(one or [I(r) for r in c.getHx()] == hx, "decoding changed the X checks of the code")
    return f"{dec}/{min(ndec, 5)} decodings" if ndec > 1 else None


@st.composite
def info_case(draw):
    n = draw(st.integers(0, 6))
    return {"p": draw(st.floats(0, 1)), "n": n, "e": draw(gens.bits(n)), "s": draw(gens.bits(draw(st.integers(0, 4)))),
            "est": draw(gens.bits(n)), "fail": draw(st.booleans()),
            "how": draw(st.sampled_from(["all", "no status", "fields"]))}  # fmt: skip


def check_info(case):
    """The run information and its JSON carry exactly what was put in."""
    import json

    r = sut(pq.DecodingResult)
    r.estimate = b(case["est"])
    r.estim_vec_idxs = [i for i, v in enumerate(case["est"]) if v]
    r.decoding_time = 7
    status = sut(pq.DecodingResultStatus, "FAILURE" if case["fail"] else "SUCCESS")
    how = case.get("how", "all")
    if how == "all":
        i = sut(pq.DecodingRunInformation, case["p"], case["n"], b(case["e"]), b(case["s"]), status, r)
    elif how == "no status":
        i = sut(pq.DecodingRunInformation, case["p"], case["n"], b(case["e"]), b(case["s"]), r)
        require(i.status == pq.DecodingResultStatus("SUCCESS"), "default status")
        i.status = status
    else:
        i = sut(pq.DecodingRunInformation)
        i.physicalErrR, i.codeSize, i.error, i.syndrome, i.status, i.result = case["p"], case["n"], b(case["e"]), b(case["s"]), status, r
    j = i.json()
    j = json.loads(j) if isinstance(j, str) else j
    require(json.loads(repr(i)) == j, "repr and json differ")

    def s(v):
        return "[" + ",".join(map(str, v)) + "]"

    require(j["physicalErrRate"] == case["p"] and j["codeSize"] == case["n"], "rate or size lost")
    require(j["error"] == s(case["e"]) and j["syndrome"] == s(case["s"]), "error or syndrome lost")
    require(j["decodingStatus"] == ("failure" if case["fail"] else "success"), "status lost")
    require(j["decodingResult"]["estimate"] == s(case["est"]), "estimate lost")
    require(I(i.error) == case["e"] and I(i.syndrome) == case["s"] and i.codeSize == case["n"] and i.physicalErrR == case["p"], "fields")
    require(I(i.result.estimate) == case["est"] and i.status == status, "result fields")
    return "info" if case["n"] else None


PROP = Prop(
    "P04",
    [
        Sub("history", check_history, history, quick=6000, thorough=120000, shards=(6, 8), nondet=True, timeout=60,
            rule="sequences of set_code, set_growth, decode, reset and refused decodes over up to three codes, each answer compared with a fresh decoder and a fresh code; non-trivial: at least two decodings"),
        Sub("runinfo", check_info, info_case, quick=800, thorough=8000, rule="run information records; non-trivial: at least one qubit"),
    ],
    cpp=True,
    assumptions=["growth variants that draw random numbers are only checked for validity of their answers"],
)  # fmt: skip
