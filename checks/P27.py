"""P27: the command line of the color code decoders runs what it is asked for; the plots show the stored results."""

import contextlib
import io
import json
import math
import os
import random
import re
import stat
import sys
import tempfile
import warnings
from pathlib import Path

import matplotlib

matplotlib.use("Agg")
import numpy as np
from hypothesis import strategies as st
from matplotlib import pyplot as plt
from matplotlib.container import ErrorbarContainer
from scipy.optimize import curve_fit

import gf2
from checks.P12 import exact_rate, kl
from harness import Prop, Skip, Sub, Violation, require
from mqt.qecc.cc_decoder import cli, code_from_string, decoder, plots

P12_RATE = {}


@contextlib.contextmanager
def scratch():
    old = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            yield Path(d)
        finally:
            os.chdir(old)


@contextlib.contextmanager
def argv(*a):
    old = sys.argv
    sys.argv = ["prog", *a]
    try:
        with contextlib.redirect_stdout(io.StringIO()) as out, contextlib.redirect_stderr(io.StringIO()):
            yield out
    finally:
        sys.argv = old


# ------------------------------------------------------------------------------------------------- command line
@st.composite
def gen_cli(draw):
    dec = draw(st.sampled_from(["maxsat", "maxsat", "tn", None]))
    solver = draw(st.sampled_from([None, "z3", "mysolver", "other-1.0"])) if dec != "tn" else draw(st.sampled_from([None, "z3"]))
    n = draw(st.sampled_from([None, 1, 7, 40, 300])) if dec != "tn" else draw(st.sampled_from([1, 50, 1500]))
    if solver not in (None, "z3") and n != 1:
        n = 5
    fam = draw(st.sampled_from(["hexagon", "square_octagon", None])) if dec != "tn" else draw(st.sampled_from(["hexagon", None]))
    d = draw(st.sampled_from([3, 3, 5])) if n is None or n <= 40 else 3
    return {"dec": dec, "solver": solver, "n": n, "fam": fam, "d": d, "p": draw(st.sampled_from([0.02, 0.05, 0.1, 0.12345678, 0.3])),
            "dir": draw(st.sampled_from([None, "out", "a/b c/d"])), "seed": draw(st.integers(0, 10**6))}  # fmt: skip


def run_cli(c, base):
    """-> (result file, its content, [(size of the problem, syndrome)] decoded, solver calls)."""
    r = random.Random(c["seed"])
    opts = []
    if c["fam"] is not None:
        opts.append(["--type", c["fam"]])
    if c["n"] is not None:
        opts.append(["--nr_sims", str(c["n"])])
    if c["dir"] is not None:
        opts.append(["--results_dir", str(base / c["dir"])])
    if c["dec"] is not None:
        opts.append(["--decoder", c["dec"]])
    if c["solver"] is not None:
        s = c["solver"]
        if s != "z3":
            f = base / "bin" / s
            f.parent.mkdir(exist_ok=True)
            f.write_text(f'#!/bin/sh\nprintf "%s\\n====\\n" "$@" >> "{base}/calls"\necho "s OPTIMUM FOUND"\n')
            f.chmod(f.stat().st_mode | stat.S_IEXEC)
            s = str(f)
        opts.append(["--solver", s])
    pos = [str(c["d"]), repr(c["p"])]
    r.shuffle(opts)
    k = r.randint(0, len(opts))
    args = [x for o in opts[:k] for x in o] + pos + [x for o in opts[k:] for x in o]
    calls = []
    orig = decoder.LightsOut.solve

    def solve(self, lights, *a, **kw):
        calls.append((len(self.switches_to_lights), [bool(x) for x in lights], dict(self.lights_to_switches)))
        if c["n"] is None:
            return [0] * len(self.switches_to_lights), 0.0, 0.0  # many runs: only counted
        return orig(self, lights, *a, **kw)

    decoder.LightsOut.solve = solve
    try:
        with argv(*args):
            cli.cli()
    finally:
        decoder.LightsOut.solve = orig
    where = base / (c["dir"] or "results")
    require(where.is_dir(), lambda: f"no results directory {where.name}")
    files = [f for f in where.iterdir()]
    require(len(files) == 1, lambda: f"files {[f.name for f in files]}")
    data = json.loads(files[0].read_text())
    text = (base / "calls").read_text() if (base / "calls").exists() else ""
    return files[0], data, calls, [t for t in text.split("====\n") if t]


def wcnf(text):
    """Number of soft clauses of a weighted CNF."""
    lines = [x for x in text.splitlines() if x.strip() and not x.startswith("c")]
    head = lines[0].split()
    require(head[:2] == ["p", "wcnf"], lambda: f"the external solver is given {text[:80]!r}")
    top = int(head[4])
    return sum(int(x.split()[0]) < top for x in lines[1:])


def check_cli(c):
    with scratch() as base:
        f, r, calls, solver_calls = run_cli(c, base)
        n = 10000 if c["n"] is None else c["n"]
        fam = c["fam"] or "hexagon"
        cc = code_from_string(fam, c["d"])
        nums = [float(x) for x in re.findall(r"(?<![\w.])\d+(?:\.\d+)?(?:e-?\d+)?", f.name.removesuffix(".json").replace("=", " ").replace(",", " "))]
        require(f.name.endswith(".json") and c["d"] in nums and any(abs(x - c["p"]) < 1e-4 for x in nums), lambda: f"results in {f.name}")
        if c["dec"] == "tn":
            require(r["n_k_d"] == [cc.n, 1, c["d"]], lambda: f"code {r['n_k_d']} simulated")
            require(r["n_run"] == n and r["error_probability"] == c["p"], lambda: f"{r['n_run']} runs with p = {r['error_probability']}")
            require(r["measurement_error_probability"] == 0 and r["time_steps"] == 1 and "6.6.6" in r["code"] and "flip" in r["error_model"].lower(), lambda: f"simulated {r}")
            require(not calls, "the MaxSAT decoder runs")
            # any decoder of the syndrome: within the exact rates of maximum-likelihood decoding
            if c["d"] == 3:
                lo, _ = best_rate(c["p"])
                q = r["logical_failure_rate"]
                require(kl(q, lo) * n <= math.log(2e10), lambda: f"logical error rate {q} over {n} runs, {lo} by maximum likelihood decoding")
            return f"tn d={c['d']}"
        require(fam in f.name.lower() and (c["solver"] or "z3") in f.name, lambda: f"results in {f.name}")
        require(r["lattice"] == fam and r["distance"] == c["d"] and r["p"] == c["p"], lambda: f"settings {r['lattice']}, {r['distance']}, {r['p']} for {c}")
        require(len(calls) == n, lambda: f"{len(calls)} simulations instead of {n}")
        require(all(x[0] == cc.n and len(x[1]) == cc.H.shape[0] for x in calls), "another code is decoded")
        # sampled with the error rate asked for: lights out of k qubits are on with probability (1 - (1 - 2p)^k) / 2
        on = np.array([x[1] for x in calls]).mean(axis=0)
        for i, k in enumerate(np.asarray(cc.H).sum(axis=1)):
            e = (1 - (1 - 2 * c["p"]) ** int(k)) / 2
            require(kl(float(on[i]), e) * n <= math.log(2e11), lambda: f"syndrome bit {i}: on in {on[i]} of {n} runs, {e} expected")
        if c["solver"] not in (None, "z3"):
            require(len(solver_calls) == n, lambda: f"{len(solver_calls)} calls of the external solver for {n} runs")
            # (not decided: whether z3 prints exactly the decoding problem; its variable numbers collide in the installed version)
            require(all(wcnf(t) == cc.n for t in solver_calls), "the external solver is given another problem")
        elif c["n"] is not None and c["d"] == 3:
            key = (fam, c["p"])
            if key not in P12_RATE:
                P12_RATE[key] = exact_rate(cc, c["p"])[0]
            q = r["logical_error_rates"][0]
            require(kl(q, P12_RATE[key]) * n <= math.log(2e10), lambda: f"logical error rate {q} over {n} runs, {P12_RATE[key]} expected")
        return f"{c['dec']} {fam} {c['solver']}"


def best_rate(p):
    cc = code_from_string("hexagon", 3)
    rows = gf2.ints(np.asarray(cc.H).tolist())
    lg = gf2.ints(np.asarray(cc.L).tolist())
    cls = {}
    for v in range(1 << cc.n):
        k = gf2.syndrome(rows, v), gf2.syndrome(lg, v)
        w = gf2.wt(v)
        cls.setdefault(k[0], {}).setdefault(k[1], 0.0)
        cls[k[0]][k[1]] += p**w * (1 - p) ** (cc.n - w)
    return 1 - sum(max(d.values()) for d in cls.values()), None


@st.composite
def gen_bad(draw):
    return draw(st.sampled_from([
        {"args": ["3", "0.1", "--decoder", "mwpm", "--nr_sims", "1"]}, {"args": ["3", "0.1", "--decoder", "", "--nr_sims", "1"]}, {"args": ["3", "0.1", "--decoder", "TN", "--nr_sims", "1"]},
        {"args": ["3", "0.1", "--type", "triangle", "--nr_sims", "1"]}, {"args": ["3.5", "0.1", "--nr_sims", "1"]}, {"args": ["3"]}, {"args": ["3", "x", "--nr_sims", "1"]}, {"args": []},
        {"args": ["--nr_sims", "2", "3", "0.1", "--type", "hex"]},
    ]))  # fmt: skip


def check_bad(c):
    with scratch() as base:
        try:
            with argv(*c["args"]):
                cli.cli()
        except (ValueError, SystemExit):
            require(not [x for x in base.rglob("*") if x.is_file()], "refused, but a file is written")
            return "refused"
    raise Violation("not refused")


# ------------------------------------------------------------------------------------------------- plots
def curves(fig):
    """-> [(axes, label, x, y, error bars or None)] of all curves."""
    out = []
    for ax in fig.axes:
        bars = [c for c in ax.containers if isinstance(c, ErrorbarContainer)]
        mine = set()
        for b in bars:
            segs = b.lines[2][0].get_segments()
            xs = [float(s[0][0]) for s in segs]
            out.append((ax, str(b.get_label()), xs, [float(s[:, 1].mean()) for s in segs], [float(s[1][1] - s[0][1]) / 2 for s in segs]))
            for part in (b.lines[0], *b.lines[1]):
                mine.add(id(part))
        for l in ax.get_lines():
            if id(l) not in mine:
                out.append((ax, str(l.get_label()), [float(x) for x in l.get_xdata()], [float(y) for y in l.get_ydata()], None))
    return out


def num(label, name):
    m = re.search(name + r"\s*=\s*([0-9.]+)", label)
    return float(m.group(1)) if m else None


def converges(pts, pth):
    """Does the fit (scipy, from its default start) find the threshold of these points?"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            popt, _ = curve_fit(lambda v, b0, b1, b2, mu, t: fit(np.asarray(v[0]), np.asarray(v[1]), b0, b1, b2, mu, t), ([p for p, _, _ in pts], [d for _, d, _ in pts]), [y for _, _, y in pts], maxfev=8000)
    except (RuntimeError, TypeError):
        return False
    return abs(popt[-1] - pth) < 1e-6


def close(a, b):
    return len(a) == len(b) and all(math.isclose(x, y, rel_tol=1e-9, abs_tol=1e-12) for x, y in zip(a, b))


def fit(p, d, b0, b1, b2, mu, pth):
    z = (p - pth) * d ** (1 / mu)
    return b0 + b1 * z + b2 * z * z


@st.composite
def gen_results(draw):
    mode = draw(st.sampled_from(["maxsat", "maxsat", "tn", "comparison"]))
    c = {"mode": mode, "seed": draw(st.integers(0, 10**6)), "holes": draw(st.booleans()), "default": draw(st.booleans()), "p01": draw(st.booleans()),
         "ds": draw(st.lists(st.sampled_from([3, 5, 7, 9, 11, 21] if mode != "comparison" else [3, 5, 17, 21]), min_size=2, max_size=4, unique=True)),
         "pth": draw(st.sampled_from([0.09, 0.1, 0.109])), "solvers": draw(st.integers(1, 4))}  # fmt: skip
    return c


def results(c):
    """-> {file name: result}"""
    r = random.Random(c["seed"])
    out = {}
    ps = {"maxsat": [0.001, 0.02, 0.05, 0.08, 0.13] + [0.065, 0.07, 0.075, 0.085, 0.095, 0.105, 0.115, 0.12], "tn": [0.001, 0.021, 0.051, 0.081, 0.111, 0.06, 0.14], "comparison": [0.001, 0.051, 0.131, 0.02, 0.1]}[c["mode"]]
    if c["p01"]:
        ps = [*ps, 0.01]
    solvers = ["z3", "CASHWMaxSAT", "solver3", "solver4"][: c["solvers"]] if c["mode"] == "comparison" else [None]
    for s in solvers:
        for d in c["ds"]:
            for p in ps:
                if c["holes"] and r.random() < 0.15 and not 0.06 < p < 0.13:
                    continue
                if c["mode"] == "tn":
                    n = r.randint(100, 9999)
                    w = r.random() * 30
                    out[f"distance={d},p={p}.json"] = {"code": f"Color 6.6.6 {d}", "n_k_d": [(3 * d * d + 1) // 4, 1, d], "error_probability": p, "n_run": n, "logical_failure_rate": r.random() * 0.5,
                                                       "physical_error_rate": p * (1 + 0.01 * r.random()), "wall_time": w, "time_steps": 1}  # fmt: skip
                    continue
                y = fit(p, d, 0.3, 1.2, 0.6, 1.5, c["pth"])
                t = [r.random() * 0.1, r.random() * 0.2]
                out[(f"{s}/" if s else "") + f"code=hexagon,distance={d},p={p},solver={s or 'z3'}.json"] = {
                    "lattice": "hexagon", "distance": d, "p": p, "logical_error_rates": [y], "logical_error_rate_ebs": [r.random() * 0.01 + 1e-4], "preconstr_time": 1.0, "avg_constr_time": t[0],
                    "avg_solve_time": t[1], "avg_total_time": sum(t), "min_wts_logical_err": [r.randint(3, 9)]}  # fmt: skip
    names = list(out)
    r.shuffle(names)
    return {k: out[k] for k in names}


def check_plots(c):
    res = results(c)
    if c["mode"] == "maxsat" and not converges([(v["p"], v["distance"], v["logical_error_rates"][0]) for v in res.values() if 0.06 < v["p"] < 0.13], c["pth"]):
        raise Skip("the fit does not converge")
    with scratch() as base:
        (base / "res").mkdir()
        for k, v in res.items():
            (base / "res" / k).parent.mkdir(exist_ok=True)
            (base / "res" / k).write_text(json.dumps(v))
        figs = []
        orig = plt.savefig

        def save(*a, **k):
            figs.append(plt.gcf())
            Path(a[0]).write_bytes(b"figure")

        plt.close("all")
        plt.savefig = save
        args = [str(base / "res")]
        if c["mode"] != "maxsat" or not c["default"]:
            args += ["--mode", c["mode"]]
        if not c["default"]:
            args += ["--results_file", str(base / "fig.svg")]
        try:
            with argv(*args) as out:
                plots.main()
        finally:
            plt.savefig = orig
        require((base / ("results.pdf" if c["default"] else "fig.svg")).exists(), "the figure is not saved where it should be")
        require(len(figs) == 1, lambda: f"{len(figs)} figures saved")
        require((base / "res").exists() and all(json.loads((base / "res" / k).read_text()) == v for k, v in res.items()), "the results are changed")
        cv = curves(figs[0])
        judge(c, list(res.items()), cv)
        plt.close("all")
    return f"{c['mode']} {'holes' if c['holes'] else 'complete'}"


def find(cv, what, pred):
    require(any(pred(*x) for x in cv), lambda: f"no curve {what} among {[(l, x[:3], y[:3]) for _, l, x, y, _ in cv][:12]}")


def times_axis(ax):
    y = ax.get_ylabel().lower()
    return "time" in y and ("micro" in y or "µ" in y or "mu" in y)


def judge(c, res, cv):
    mode = c["mode"]
    ds = sorted({v["distance"] if mode != "tn" else v["n_k_d"][2] for _, v in res})
    if mode == "comparison":
        solvers = sorted({k.split("/")[0] for k, _ in res})
        color = {}
        for s in solvers:
            for d in ds:
                pts = sorted((v["p"], v["avg_total_time"] * 1e6) for k, v in res if k.startswith(s + "/") and v["distance"] == d)
                if d in (17, 21) and pts:
                    want = [x for x, _ in pts], [y for _, y in pts]
                    find(cv, f"of the times of {s} for distance {d}", lambda ax, l, x, y, e: num(l, "d") == d and s in l and close(x, want[0]) and close(y, want[1]) and times_axis(ax))
                    for ax, l, x, y, e in cv:
                        if num(l, "d") == d and s in l and close(y, want[1]):
                            color[s] = next(li.get_color() for li in ax.get_lines() if close(list(li.get_ydata()), want[1]))
            for p in (0.001, 0.051, 0.131):
                pts = sorted((v["distance"], v["avg_total_time"] * 1e6) for k, v in res if k.startswith(s + "/") and v["p"] == p)
                if pts:
                    find(cv, f"of the times of {s} for p = {p}", lambda ax, l, x, y, e: num(l, "p") == p and close(x, [a for a, _ in pts]) and close(y, [b for _, b in pts]) and times_axis(ax))
        require(len(set(color.values())) == len(color), lambda: f"solvers of the same color: {color}")
        return
    rates = {"maxsat": lambda v: (v["p"], v["logical_error_rates"][0]), "tn": lambda v: (v["physical_error_rate"], v["logical_failure_rate"])}[mode] if mode in ("maxsat", "tn") else None
    time = (lambda v: (v["p"], v["avg_total_time"] * 1e6)) if mode == "maxsat" else (lambda v: (v["error_probability"], v["wall_time"] / v["n_run"] * 1e6))
    dist = (lambda v: v["distance"]) if mode == "maxsat" else (lambda v: v["n_k_d"][2])
    by = {d: [v for _, v in res if dist(v) == d] for d in ds}
    for d in ds:
        pts = sorted(map(rates, by[d]))
        find(cv, f"of the logical error rates for distance {d}", lambda ax, l, x, y, e: num(l, "d") == d and close(x, [a for a, _ in pts]) and close(y, [b for _, b in pts]) and (mode == "tn" or e is not None) and not times_axis(ax))
        if mode == "maxsat":
            eb = [v["logical_error_rate_ebs"][0] for v in sorted(by[d], key=lambda v: v["p"])]
            for ax, l, x, y, e in cv:
                if e is not None:
                    require(num(l, "d") in ds, lambda: f"a curve labelled {l!r}")
                    if num(l, "d") == d:
                        require(close(x, [a for a, _ in pts]) and all(abs(a - b) < 1e-9 for a, b in zip(e, eb)) and all(abs(a - b[1]) < 1e-9 for a, b in zip(y, pts)), lambda: f"error bars {e} of distance {d}, {eb} expected")
        tm = sorted(map(time, by[d]))
        find(cv, f"of the times for distance {d}", lambda ax, l, x, y, e: num(l, "d") == d and close(x, [a for a, _ in tm]) and close(y, [b for _, b in tm]) and times_axis(ax))
    for p in ([0.001, 0.02, 0.05, 0.08, 0.13] if mode == "maxsat" else [0.001, 0.021, 0.051, 0.081, 0.111]):
        pts = [(d, y) for d in ds for x, y in map(time, by[d]) if x == p]
        if pts:
            find(cv, f"of the times for p = {p}", lambda ax, l, x, y, e: num(l, "p") == p and close(x, [a for a, _ in pts]) and close(y, [b for _, b in pts]) and times_axis(ax))
    if mode == "maxsat":
        pts = [(d, y) for d in ds for x, y in map(rates, by[d]) if x == 0.01]
        if pts:
            find(cv, "of the logical error rates for p = 0.01", lambda ax, l, x, y, e: num(l, "p") == 0.01 and close(x, [a for a, _ in pts]) and close(y, [b for _, b in pts]))
        th = [x for ax, l, x, y, e in cv if len(x) == 2 and x[0] == x[1]]
        require(len(th) == 1, lambda: f"{len(th)} threshold lines")
        require(abs(th[0][0] - c["pth"]) < 1e-4, lambda: f"threshold {th[0][0]} instead of {c['pth']}")


# ------------------------------------------------------------------------------------------------- threshold
POINTS = [0.03, 0.04, 0.062, 0.066, 0.071, 0.076, 0.081, 0.086, 0.091, 0.096, 0.101, 0.106, 0.111, 0.116, 0.119, 0.127, 0.14, 0.16]


@st.composite
def gen_threshold(draw):
    return {"seed": draw(st.integers(0, 10**6)), "pth": draw(st.sampled_from([0.08, 0.09, 0.1, 0.11])), "mu": draw(st.sampled_from([1.2, 1.5, 2.0])), "k": draw(st.integers(1, 3)), "idx": draw(st.integers(0, 2)),
            "ds": draw(st.lists(st.sampled_from([3, 5, 7, 9, 11, 13]), min_size=2, max_size=4, unique=True)), "window": draw(st.sampled_from([None, [0.05, 0.125], [0.07, 0.12]])), "pers": draw(st.booleans())}  # fmt: skip


def check_threshold(c):
    r = random.Random(c["seed"])
    k, idx = c["k"], c["idx"] % c["k"]
    lo, hi = c["window"] or (0.06, 0.13)
    if not converges([(p, d, fit(p, d, 0.3, 1.3, 0.7, c["mu"], c["pth"])) for d in c["ds"] for p in POINTS if lo < p < hi], c["pth"]):
        raise Skip("the fit does not converge")
    code, ths = {}, [c["pth"] + 0.004 * (i - idx) for i in range(k)]
    for d in c["ds"]:
        ps = POINTS
        ler = []
        for p in ps:
            inside = lo < p < hi
            ler.append([fit(p, d, 0.3, 1.3, 0.7, c["mu"], t) if inside else r.random() for t in ths])  # the fit holds only near the threshold
        code[d] = {"p": ps, "logical_error_rates": ler, "logical_error_rate_ebs": [[r.random() * 0.01 + 1e-4 for _ in ths] for _ in ps]}
    for a in range(3):  # the fit formula
        p, d, b = r.random() * 0.2, r.choice([3, 5, 21]), [r.random() for _ in range(3)]
        got = float(np.asarray(plots.threshold_fit((p, d), *b, c["mu"], c["pth"])))
        require(math.isclose(got, fit(p, d, *b, c["mu"], c["pth"]), rel_tol=1e-9, abs_tol=1e-12), lambda: f"fit function {got}")
    plt.close("all")
    fig, ax = plt.subplots()
    kw = {"logical_idx": idx} if k > 1 else {}
    if c["window"]:
        kw |= {"min_per": lo, "max_per": hi}
    with contextlib.redirect_stdout(io.StringIO()):
        plots.calculate_threshold(ax, code, title="T", **kw)
    cv = curves(fig)
    th = [x for _, l, x, y, e in cv if e is None and len(x) == 2 and x[0] == x[1]]
    require(len(th) == 1 and abs(th[0][0] - c["pth"]) < 1e-4, lambda: f"threshold {th} instead of {c['pth']}")
    for d in code:
        m = code[d]
        find(cv, f"of distance {d}", lambda ax, l, x, y, e: num(l, "d") == int(d) and e is not None and close(x, m["p"]) and all(abs(a - b[idx]) < 1e-9 for a, b in zip(y, m["logical_error_rates"])) and all(abs(a - b[idx]) < 1e-9 for a, b in zip(e, m["logical_error_rate_ebs"])))
    require(np.allclose(ax.get_xlim(), (lo, hi)), "another window is shown")
    # rates against the distance
    per = {p: {d: [r.random() + 1e-3 for _ in range(k)] for d in (r.sample(c["ds"], len(c["ds"])))} for p in (0.01, 0.05, 0.1)}
    fig, ax = plt.subplots()
    pers = [0.05, 0.01] if c["pers"] else [0.1]
    plots.plot_ler_vs_distance(per, ax, pers, **({"logical_idx": idx} if k > 1 else {}))
    cv = curves(fig)
    require(len(cv) == len(pers), lambda: f"{len(cv)} curves for {pers}")
    for p in pers:
        find(cv, f"of p = {p}", lambda ax, l, x, y, e: num(l, "p") == p and close(x, sorted(c["ds"])) and close(y, [per[p][d][idx] for d in sorted(c["ds"])]))
    require(ax.get_yscale() == "log", "not logarithmic")
    plt.close("all")
    return f"k={k}"


@st.composite
def gen_mode(draw):
    return {"mode": draw(st.sampled_from(["mwpm", "", "MAXSAT", "comp"]))}


def check_mode(c):
    with scratch() as base:
        try:
            with argv(str(base), "--mode", c["mode"]):
                plots.main()
        except (ValueError, SystemExit):
            return "refused"
    raise Violation("unknown mode accepted")


PROP = Prop(
    "P27",
    [
        Sub("command line", check_cli, strategy=gen_cli, quick=200, thorough=1000, shards=(4, 8), timeout=200, nondet=True, rule="every case: options in any order, settings of the result, number and statistics of the decoded syndromes"),
        Sub("wrong command lines", check_bad, strategy=gen_bad, quick=15, thorough=30, rule="every case"),
        Sub("plots", check_plots, strategy=gen_results, quick=200, thorough=1000, shards=(3, 8), timeout=100, rule="every case: curves read back from the figure"),
        Sub("threshold", check_threshold, strategy=gen_threshold, quick=200, thorough=1000, shards=(2, 8), timeout=100, rule="every case: synthetic data with a known threshold"),
        Sub("wrong modes", check_mode, strategy=gen_mode, quick=4, thorough=8, rule="every case"),
    ],
    assumptions=["figures are read back as matplotlib artists; layout and colors are not judged (but solvers differ in color)", "the tensor network decoder itself (qecsim) is not part of the repository; it has to decode better than chance by the exact rate"],
)
