"""P21: stored simulation results lose and invent nothing: rates, error bars, files and merged data are those of the pooled samples."""

import json
import math
import os
import random
import tempfile
from pathlib import Path

import numpy as np
from hypothesis import strategies as st

from harness import Prop, Sub, require
from mqt.qecc.analog_information_decoding.utils import data_utils as D
from mqt.qecc.analog_information_decoding.utils import simulation_utils as U


def rates(s, n, k):
    ler = 1 - s / n
    eb = math.sqrt(ler * (1 - ler) / n)
    wer = 1 - (1 - ler) ** (1 / k)
    web = eb * (1 - ler) ** (1 / k - 1) / k if s else 0.0
    return ler, eb, wer, web


def near(a, b):
    return abs(float(a) - b) <= 1e-9 + 1e-7 * abs(b)


def same_rates(d, side, s, n, k, what):
    for key, want in zip(("ler", "ler_eb", "wer", "wer_eb"), rates(s, n, k)):
        require(near(d[f"{side}_{key}"], want), lambda: f"{what}: {side}_{key} is {d[f'{side}_{key}']}, expected {want} ({s} of {n}, k={k})")
    require(d[f"{side}_success_cnt"] == s, lambda: f"{what}: {side}_success_cnt is {d[f'{side}_success_cnt']} instead of {s}")


class Scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.t = tempfile.TemporaryDirectory()
        os.chdir(self.t.name)
        return Path(self.t.name)

    def __exit__(self, *a):
        os.chdir(self.old)
        self.t.cleanup()


# ----------------------------------------------------------------------------------------------------- statistics
@st.composite
def gen_stat(draw):
    runs = draw(st.one_of(st.integers(1, 20), st.integers(1, 10**6)))
    f = lambda: draw(st.one_of(st.integers(0, runs), st.sampled_from([0, runs, max(0, runs - 1), runs // 2, runs - runs // 10])))  # noqa: E731
    return {"runs": runs, "x": f(), "z": f(), "k": draw(st.one_of(st.integers(1, 3), st.integers(1, 60))), "prec": draw(st.one_of(st.sampled_from([0.1, 0.01, 0.5]), st.floats(1e-3, 2)))}


def check_stat(c):
    got = D.calculate_error_rates(c["x"], c["runs"], {"k": c["k"], "n": 10})
    for g, w, nm in zip(got, rates(c["x"], c["runs"], c["k"]), ("error rate", "error bar", "word error rate", "word error bar")):
        require(math.isfinite(g) and near(g, w), lambda: f"{nm} of {c['x']} successes in {c['runs']} runs, k={c['k']}: {g} instead of {w}")
    conv = []
    for s in (c["x"], c["z"]):
        _, _, w, e = rates(s, c["runs"], c["k"])
        if e == 0:
            conv.append(False)
        else:
            if abs(e / w - c["prec"]) < 1e-9:
                return None
            conv.append(e / w < c["prec"])
    got = D.is_converged(c["x"], c["z"], c["runs"], {"k": c["k"]}, c["prec"])
    require(bool(got) == all(conv), lambda: f"is_converged is {got}, relative error bars below the precision: {conv}")
    return "converged" if all(conv) else "not converged"


# ------------------------------------------------------------------------------------------------- merging and files
@st.composite
def gen_merge(draw):
    r = random.Random(draw(st.integers(0, 2**32)))
    k = draw(st.integers(1, 12))
    mode = draw(st.sampled_from(["both", "both", "x", "z", "xz"]))
    groups = []
    for g in range(draw(st.integers(1, 4))):
        sets = []
        for _ in range(draw(st.integers(1, 4))):
            n = r.choice([1, 2, 7, 50, 1000, 12345])
            sides = "xz" if mode == "both" else mode if mode in "xz" and r.random() < 0.7 else r.choice(["x", "z"])
            sets.append({"n": n, "x": r.choice([0, n, r.randint(0, n)]), "z": r.choice([0, n, r.randint(0, n)]), "sides": sides})
        groups.append({"per": round(0.01 * (g + 1) + r.random() * 0.005, 5), "sets": sets, "junk": r.choice([0, 0, 1, 2])})
    return {"k": k, "mode": mode, "groups": groups, "rel": draw(st.booleans()), "bias": draw(st.sampled_from([[1.0, 1.0, 1.0], ["inf", 0, 0], [0, 0, 1]])), "stray": draw(st.booleans()),
            "load": draw(st.booleans())}


def check_merge(c):
    k = c["k"]
    bias = np.array([math.inf if b == "inf" else b for b in c["bias"]])
    with Scratch() as tmp:
        files = []
        for g in c["groups"]:
            for s in g["sets"]:
                f = D.create_outpath(codename="code", bias=bias, rounds=3, experiment="exp", data_err_rate=g["per"], syndr_err_rate=0.02)
                require(Path(f).exists() and f not in files, lambda: f"create_outpath returned {f} again")
                require(Path(f).resolve().is_relative_to(tmp.resolve()), "result file outside of the results folder")
                files.append(f)
                inp = {"bias": bias, "code": "code", "g": g["per"]}
                for side in s["sides"] if len(s["sides"]) == 1 else "":
                    out = U.save_results(s[side], s["n"], g["per"], 0.02, inp, f, {"k": k, "n": 2 * k + 1}, D.BpParams(), err_side=side, bp_iterations=3 * s["n"])
                    same_rates(out, side, s[side], s["n"], k, "returned results")
                    d = json.loads(Path(f).read_text())
                    same_rates(d, side, s[side], s["n"], k, "stored results")
                    require(d["nr_runs"] == s["n"] and d["pers"] == g["per"] and d["sers"] == 0.02 and d["code_K"] == k and d["code_N"] == 2 * k + 1, "stored parameters")
                    require(near(d["avg_bp_iterations"], 3), "stored number of iterations")
                    require(d["bias"] == [("i" if b == "inf" else b) for b in c["bias"]], lambda: f"stored bias {d['bias']}")
                    require(d["g"] == g["per"] and d["bp_params"]["osd_order"] == 10, "stored inputs")
                if len(s["sides"]) == 2:  # both sides in one file, as the simulators write them
                    d = {"nr_runs": s["n"], "code_K": k, "code_N": 2 * k + 1, "pers": g["per"], "g": g["per"]}
                    for side in "xz":
                        d.update({f"{side}_{q}": v for q, v in zip(("ler", "ler_eb", "wer", "wer_eb"), rates(s[side], s["n"], k))})
                        d[f"{side}_success_cnt"] = s[side]
                    Path(f).write_text(json.dumps(d))
            folder = Path(files[-1]).parent
            if g["junk"] >= 1:
                (folder / "id_9999.json").touch()  # a run that has not been saved yet
            if g["junk"] >= 2:
                (folder / "notes.txt").write_text("{\"nr_runs\": 5}")
        top = Path(files[0]).parent.parent
        require(len({Path(f).parent for f in files}) == len(c["groups"]), "results of different parameters share a folder")
        if c["stray"]:
            (top / "plot.json").write_text("{\"nr_runs\": 3, \"x_success_cnt\": 3, \"z_success_cnt\": 3, \"code_K\": 1}")
        arg = str(top) if c["rel"] else str(top.resolve())
        res = top.parent / "code.json"
        if c["mode"] == "both" and c["load"]:
            res.write_text("")  # not merged yet: load_data merges on demand
            other = tmp / "other.json"
            other.write_text("[1]")
            got = D.load_data([str(other), str(res if c["rel"] else res.resolve())])
            require(len(got) == 2 and got[0] == [1], "load_data does not load every file")
            merged = got[1]
        else:
            fn = {"both": D.merge_json_files, "x": D.merge_json_files_x, "z": D.merge_json_files_z, "xz": D.merge_json_files_xz}[c["mode"]]
            fn(arg)
            merged = json.loads(res.read_text())
        byg = {d["g"]: d for d in merged}
        require(len(byg) == len(merged), "a group of results is reported twice")
        expect = {}
        for g in c["groups"]:
            w = {}
            for side in "xz":
                sel = [s for s in g["sets"] if side in s["sides"]]
                if sel and (c["mode"] in ("both", "xz") or c["mode"] == side):
                    w[side] = (sum(s[side] for s in sel), sum(s["n"] for s in sel))
            if w:
                expect[g["per"]] = w
        require(set(byg) == set(expect), lambda: f"merged parameters {sorted(byg)} instead of {sorted(expect)}")
        for g, w in expect.items():
            d = byg[g]
            for side, (s, n) in w.items():
                same_rates(d, side, s, n, k, f"merged results ({c['mode']})")
                key = f"{side}_runs" if c["mode"] == "xz" else "nr_runs"
                require(d[key] == n, lambda: f"merged results ({c['mode']}): {key} is {d[key]} instead of {n}")
            for side in set("xz") - set(w):
                require(f"{side}_success_cnt" not in d, lambda: f"merged results ({c['mode']}): unmerged results of side {side}")
            if c["mode"] == "xz":
                require("nr_runs" not in d, "combined results keep an ambiguous number of runs")
            require(d["code_K"] == k and d["code_N"] == 2 * k + 1, "merged parameters of the code")
        # merging does not change the single results, and merging again gives the same
        if c["mode"] != "both" or not c["load"]:
            before = {f: Path(f).read_text() for f in files}
            fn(arg)
            again = json.loads(res.read_text())
            require(sorted(map(json.dumps, again)) == sorted(map(json.dumps, merged)), "merging twice gives different results")
            require(before == {f: Path(f).read_text() for f in files}, "merging changed the merged files")
    return c["mode"] if len(files) > len(c["groups"]) else None


@st.composite
def gen_ds(draw):
    r = random.Random(draw(st.integers(0, 2**32)))
    out = []
    for _ in range(draw(st.integers(0, 6))):
        n = r.randint(1, 10 ** r.randint(1, 6))
        out.append({"nr_runs": n, "x_success_cnt": r.randint(0, n), "z_success_cnt": r.randint(0, n), "code_K": 0, "note": r.randint(0, 5)})
    k = draw(st.integers(1, 20))
    for d in out:
        d["code_K"] = k
    return {"d": out, "k": k}


def check_ds(c):
    ds = [dict(d) for d in c["d"]]
    got = D.merge_datasets(ds)
    require(ds == c["d"], "merge_datasets changed its input")
    if not ds:
        require(got == {}, "merging nothing")
        return None
    n = sum(d["nr_runs"] for d in ds)
    require(got["nr_runs"] == n, lambda: f"{got['nr_runs']} runs instead of {n}")
    for side in "xz":
        same_rates(got, side, sum(d[f"{side}_success_cnt"] for d in ds), n, c["k"], "merged")
    require(got["note"] in [d["note"] for d in ds], "other entries")
    return "merged" if len(ds) > 1 else None


# ------------------------------------------------------------------------------------------------------- path names
@st.composite
def gen_path(draw):
    def one():
        kind = draw(st.sampled_from(["ser", "sigma", "xz"]))
        d = {"x_meta": draw(st.booleans()), "z_meta": draw(st.booleans()), "codename": draw(st.sampled_from(["a", "b_1"])), "single_stage": draw(st.booleans()),
             "bias": draw(st.sampled_from([None, [1.0, 1.0, 1.0], [1.0, 0.0, 0.0]])), "experiment": draw(st.sampled_from(["e", "wer_per_round"])),
             "mode": draw(st.sampled_from(["hard", "analog_tg", "analog_info"])), "rounds": draw(st.sampled_from([None, 1, 4])), "depth": draw(st.sampled_from([None, 1, 4])),
             "repetitions": draw(st.sampled_from([None, 2, 6])), "per": draw(st.sampled_from([0.01, 0.02])), "kind": kind, "s": draw(st.sampled_from([0.1, 0.25])), "t": draw(st.sampled_from([0.1, 0.25]))}
        return d

    runs = [one() for _ in range(draw(st.integers(1, 4)))]
    for _ in range(draw(st.integers(0, 8))):  # settings that differ in one option only
        k = draw(st.sampled_from(sorted(runs[0])))
        runs.append({**runs[0], k: one()[k]})
    return {"runs": runs, "again": draw(st.integers(1, 3)), "id": draw(st.integers(0, 3))}


def check_path(c):
    with Scratch() as tmp:
        seen, folders = {}, {}
        for d in c["runs"] * c["again"]:
            kw = {"data_err_rate": d["per"]}
            if d["kind"] == "ser":
                kw["syndr_err_rate"] = d["s"]
                noise = ("ser", d["s"])
            elif d["kind"] == "sigma":
                kw["sigma"] = d["s"]
                noise = ("sigma", d["s"])
            else:
                kw.update(x_sigma=d["s"], z_sigma=d["t"])
                noise = ("xz", d["s"], d["t"])
            f = D.create_outpath(x_meta=d["x_meta"], z_meta=d["z_meta"], bias=d["bias"], codename=d["codename"], single_stage=d["single_stage"], sus_th_depth=d["depth"], rounds=d["rounds"],
                                 identifier=c["id"], analog_info=d["mode"] == "analog_info", analog_tg=d["mode"] == "analog_tg", repetitions=d["repetitions"], experiment=d["experiment"], **kw)
            p = Path(f).resolve()
            require(p.is_file() and p.suffix == ".json" and p.is_relative_to(tmp.resolve()), lambda: f"{f} is not a new result file")
            require(p not in seen, lambda: f"{f} was given out twice")
            require(p.read_text() == "", "the new result file is not empty")
            p.write_text(json.dumps(d))
            seen[p] = d
            # settings that are told apart (the stage is recorded together with the bias)
            key = (d["x_meta"], d["z_meta"], str(d["bias"]), d["codename"], d["single_stage"] if d["bias"] else None, d["depth"] or ("r", d["rounds"]), d["mode"], d["repetitions"], d["experiment"], d["per"], noise)
            require(folders.setdefault(p.parent, key) == key, lambda: f"results of {key} and {folders[p.parent]} share the folder {p.parent}")
        require(len(folders) == len(set(folders.values())), "results of one setting are spread over several folders")
        for p, d in seen.items():
            require(json.loads(p.read_text()) == d, "a result file was overwritten")
    return "several" if len(seen) > 1 else None


# --------------------------------------------------------------------------------------------------- small helpers
@st.composite
def gen_help(draw):
    vals = st.one_of(st.integers(-3, 3), st.sampled_from(["a", "b"]), st.booleans(), st.lists(st.integers(0, 2), max_size=2))
    return {"lines": draw(st.lists(st.dictionaries(st.sampled_from(["p", "q", "r"]), vals, max_size=3), max_size=6)),
            "lists": draw(st.dictionaries(st.sampled_from(["u", "v", "w"]), st.lists(st.integers(0, 5), max_size=4), max_size=3)),
            "bp": draw(st.fixed_dictionaries({}, optional={"bp_method": st.sampled_from(["msl", "ps"]), "max_bp_iter": st.integers(1, 99), "osd_order": st.integers(0, 20), "osd_method": st.sampled_from(["osd0", "osd_e"]),
                                                           "ms_scaling_factor": st.floats(0.1, 1), "schedule": st.just("serial"), "omp_thread_count": st.integers(1, 4), "cutoff": st.floats(0, 5), "other": st.integers(), "codename": st.just("x")})),
            "nums": draw(st.lists(st.one_of(st.floats(-5, 5), st.integers(-5, 5), st.sampled_from([math.inf, -math.inf])), max_size=5))}


def check_help(c):
    c = json.loads(json.dumps(c))
    with Scratch() as tmp:
        f = tmp / "s.json"
        f.write_text("".join(json.dumps(x) + "\n" for x in c["lines"]))
        got = D.extract_settings(str(f))
    want = {}
    for d in c["lines"]:
        for k, v in d.items():
            want.setdefault(k, [])
            if v not in want[k]:
                want[k].append(v)
    require(got == want, lambda: f"settings {got} instead of {want}")
    ls = c["lists"]
    prod = [{}]
    for k, v in ls.items():
        prod = [{**p, k: x} for p in prod for x in v]
    require(list(D.product_dict(**ls)) == prod, lambda: f"product of {ls}")
    m = min(map(len, ls.values()), default=0)
    require(list(D.zip_dict(**ls)) == [{k: v[i] for k, v in ls.items()} for i in range(m)], lambda: f"zip of {ls}")
    bp = D.BpParams.from_dict(dict(c["bp"]))
    dflt = D.BpParams()
    for k in ("bp_method", "max_bp_iter", "osd_order", "osd_method", "ms_scaling_factor", "schedule", "omp_thread_count", "cutoff", "random_serial_schedule"):
        require(getattr(bp, k) == c["bp"].get(k, getattr(dflt, k)), lambda: f"parameter {k} from {c['bp']} is {getattr(bp, k)}")
    got = D.replace_inf(list(c["nums"]))
    require(got == ["i" if isinstance(x, float) and math.isinf(x) else x for x in c["nums"]], lambda: f"replace_inf: {got}")
    return "helpers" if any(c["lines"]) and any(ls.values()) else None


PROP = Prop(
    "P21",
    [
        Sub("statistics", check_stat, strategy=gen_stat, quick=1500, thorough=60000, shards=(2, 8), rule="non-trivial: relative error bar not within rounding of the precision"),
        Sub("merged files", check_merge, strategy=gen_merge, quick=200, thorough=5000, shards=(3, 8), rule="non-trivial: several results of one setting are merged"),
        Sub("merged data", check_ds, strategy=gen_ds, quick=500, thorough=20000, shards=(2, 8), rule="non-trivial: at least two data sets"),
        Sub("result files", check_path, strategy=gen_path, quick=200, thorough=6000, shards=(2, 8), rule="non-trivial: several result files"),
        Sub("settings", check_help, strategy=gen_help, quick=400, thorough=10000, shards=(2, 8), rule="non-trivial: settings and lists are not empty"),
    ],
    assumptions=["results of different settings differ in the first three digits of their noise rates"],
)
