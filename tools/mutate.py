#!/usr/bin/env python3
"""Mutation runs: tools/mutate.py VERIF_COPY OUT.jsonl N SEED WORKERS PATTERN... — random small changes of the sources, judged by the checks.

Each change is applied to a scratch copy of /repo; the checks responsible for the file run against it (quick tier) until one
reports a violation.  Survivors are listed for inspection (many are equivalent).  Nothing is written to /repo.
"""

import ast, json, os, random, re, shutil, subprocess, sys, threading, queue
from pathlib import Path

A = "analog_information_decoding/"
CHECKS = [
    ("codes/stabilizer_code", ["P09", "P10"]), ("codes/css_code", ["P10", "P09", "P11"]), ("codes/", ["P11", "P09", "P10"]),
    ("cc_decoder/decoder", ["P12"]), ("cc_decoder/cli", ["P27"]), ("cc_decoder/plots", ["P27"]), ("tn_decoder", ["P27"]), ("ft_stateprep/eval", ["P26"]),
    ("ft_stateprep/state_prep", ["P13", "P14", "P15", "P16", "P17"]), ("ft_stateprep/simulation", ["P18", "P19"]),
    (A + "utils/simulation_utils", ["P20", "P23", "P24"]), (A + "utils/data_utils", ["P21"]), (A + "code_construction", ["P22"]),
    ("memory_experiment", ["P23"]), ("quasi_single_shot", ["P23"]), ("analog_tannergraph", ["P24", "P20"]), ("simulators/simulation.py", ["P24"]),
    ("ecc_qiskit_wrapper", ["P25"]), ("lifted_hgp", ["P28"]),
    ("UFDecoder", ["P02", "P04"]), ("UFHeuristic", ["P03", "P02", "P04"]), ("TreeNode", ["P03", "P02", "P04"]), ("DecodingSimulator", ["P05"]), ("DecodingRunInformation", ["P04", "P05"]),
    ("Decoder.hpp", ["P02", "P04"]), ("GF2", ["P02", "P01"]), ("Utils", ["P01", "P02", "P05"]), ("Code.hpp", ["P01", "P02"]), ("Codes.hpp", ["P01", "P02"]),
    ("include/ecc/", ["P07", "P06", "P08"]), ("python/bindings", ["P08", "P04", "P01"]), ("src/ecc/", ["P07", "P06", "P08"]),
]


def checks_for(f):
    return next((c for k, c in CHECKS if k in f), None)


def py_mutants(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda ln, col: offs[ln - 1] + col  # noqa: E731
    span = lambda n: (pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset))  # noqa: E731
    out = []

    def rep(a, e, new):
        out.append((a, e, new.encode() if isinstance(new, str) else new))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.AnnAssign, ast.arguments)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            tgt = [n.annotation] if isinstance(n, ast.AnnAssign) else [n]
            for t in tgt:
                for m in ast.walk(t):
                    skip.add(id(m))
        if isinstance(n, (ast.FunctionDef,)):
            for x in [n.returns, *n.decorator_list, *[a.annotation for a in n.args.args]]:
                if x is not None:
                    for m in ast.walk(x):
                        skip.add(id(m))
    CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
    BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "+", ast.Div: "*", ast.Mod: "*", ast.FloorDiv: "-", ast.Pow: "*", ast.MatMult: None, ast.BitXor: "|", ast.BitAnd: "|", ast.BitOr: "&"}
    SYM = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Mod: "%", ast.FloorDiv: "//", ast.Pow: "**", ast.BitXor: "^", ast.BitAnd: "&", ast.BitOr: "|"}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = span(n.left)[1], span(n.comparators[0])[0]
            for s in CMP[type(n.ops[0])]:
                rep(l, r, f" {s} ")
        elif isinstance(n, ast.BinOp) and BIN.get(type(n.op)):
            l, r = span(n.left)[1], span(n.right)[0]
            mid = b[l:r].decode()
            k = mid.find(SYM[type(n.op)])
            if k >= 0:
                rep(l, r, mid[:k] + BIN[type(n.op)] + mid[k + len(SYM[type(n.op)]):])
        elif isinstance(n, ast.BoolOp):
            l, r = span(n.values[0])[1], span(n.values[1])[0]
            a, c = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            rep(l, r, b[l:r].decode().replace(a, c))
            rep(*span(n), b[slice(*span(n.values[0]))])
            rep(*span(n), b[slice(*span(n.values[1]))])
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            rep(*span(n), b[slice(*span(n.operand))])
        elif isinstance(n, ast.Constant) and type(n.value) in (int, bool, float) :
            if isinstance(n.value, bool):
                rep(*span(n), str(not n.value))
            elif isinstance(n.value, int):
                rep(*span(n), str(n.value + 1))
                if n.value > 0:
                    rep(*span(n), str(n.value - 1))
            else:
                rep(*span(n), repr(n.value * 2 + 0.1))
        elif isinstance(n, (ast.If, ast.While)):
            rep(*span(n.test), b"False" if isinstance(n, ast.While) else b"(" + b[slice(*span(n.test))] + b") is None")
            if isinstance(n, ast.If):
                rep(*span(n.test), b"True")
        elif isinstance(n, (ast.Expr, ast.AugAssign)) or isinstance(n, ast.Assign) and n.col_offset > 0 and isinstance(n.targets[0], (ast.Subscript, ast.Attribute)):
            rep(*span(n), b"pass")
        elif isinstance(n, (ast.Break, ast.Continue)):
            rep(*span(n), b"pass")
        elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(x, ast.Starred) for x in n.args):
            s0, s1 = span(n.args[0]), span(n.args[1])
            rep(s0[0], s1[1], b[slice(*s1)] + b[s0[1]:s1[0]] + b[slice(*s0)])
        elif isinstance(n, ast.IfExp):
            rep(*span(n), b[slice(*span(n.body))])
            rep(*span(n), b[slice(*span(n.orelse))])
        elif isinstance(n, ast.Attribute) and n.attr in MIRROR and isinstance(n.ctx, ast.Load):
            e = span(n)[1]
            rep(e - len(n.attr), e, MIRROR[n.attr])
        elif isinstance(n, ast.Name) and n.id in MIRROR and isinstance(n.ctx, ast.Load):
            rep(*span(n), MIRROR[n.id])
    return b, out


MIRROR = {}
for a, c in (("Hx", "Hz"), ("Lx", "Lz"), ("hx", "hz"), ("x_err", "z_err"), ("hstack", "vstack"), ("min", "max"), ("any", "all"), ("x_success_cnt", "z_success_cnt"), ("append", "remove"), ("n", "k"), ("rows", "cols"), ("zeros", "ones"),
             ("x_meta", "z_meta"), ("Mx", "Mz"), ("x_measurements", "z_measurements"), ("z_anc", "x_anc"), ("p", "p_idle"), ("p_meas", "p_init"), ("m", "n"), ("floor", "ceil")):
    MIRROR[a], MIRROR[c] = c, a


def cpp_mutants(src):
    out = []
    code = re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\])*"', lambda m: " " * len(m.group()), src, flags=re.S)

    def add(pat, new, flags=0):
        for m in re.finditer(pat, code, flags):
            out.append((m.start(), m.end(), new(m) if callable(new) else new))

    for a, b in (("==", "!="), ("!=", "=="), ("<=", "<"), (">=", ">"), ("&&", "||"), ("||", "&&"), ("+=", "-="), ("++", "--"), ("^", "|")):
        add(r"(?<![=<>!&|+\-^])" + re.escape(a) + r"(?![=<>&|+\-^])", b)
    add(r" < ", " <= ")
    add(r" > ", " >= ")
    add(r" \+ ", " - ")
    add(r" - ", " + ")
    add(r" \* ", " + ")
    add(r" % ", " / ")
    add(r"\btrue\b", "false")
    add(r"\bfalse\b", "true")
    add(r"(?<![\w.\]])(\d+)U?(?![\w.])", lambda m: str(int(m[1]) + 1) + ("U" if m.group().endswith("U") else ""))
    add(r"(?<![\w.\]])([1-9]\d*)U?(?![\w.])", lambda m: str(int(m[1]) - 1) + ("U" if m.group().endswith("U") else ""))
    add(r"\bif \((?!constexpr)", "if (!")
    add(r"(?<=\n)( +)[\w.\->\[\]()]+\((?:[^;{}\n]*)\);(?=\n)", lambda m: m[1] + ";")
    add(r"\b(continue|break);", ";")
    for a, b in (("gateX", "gateZ"), ("gateZ", "gateX"), ("Hx", "Hz"), ("Hz", "Hx"), ("begin", "end"), ("push_back", "emplace_front")):
        pass
    return src.encode(), [(len(src[:a].encode()), len(src[:e].encode()), n.encode()) for a, e, n in out]


def main():
    vc, outf, N, seed, workers, *pats = sys.argv[1:]
    files = [f for f in subprocess.check_output(["git", "-C", "/repo", "ls-files", "src", "include", "scripts/numerics/code_construct"], text=True).split() if f.endswith((".py", ".cpp", ".hpp")) and any(p in f for p in pats) and checks_for(f)]
    rng = random.Random(int(seed))
    muts = []
    for f in files:
        src = Path("/repo", f).read_text()
        b, ms = (py_mutants if f.endswith(".py") else cpp_mutants)(src)
        for m in ms:
            muts.append((f, m))
    rng.shuffle(muts)
    print(len(muts), "possible")
    done = set()
    if Path(outf).exists():
        done = {(d["file"], d["at"], d["new"]) for d in map(json.loads, open(outf))}
    q = queue.Queue()
    for f, m in muts[: int(N)]:
        q.put((f, m))
    lock = threading.Lock()

    def work(i):
        w = Path(f"/tmp/mut-{os.getpid()}-{i}")
        subprocess.check_call(["cp", "-a", "/repo", str(w)])
        try:
            while True:
                try:
                    f, (a, e, new) = q.get_nowait()
                except queue.Empty:
                    return
                orig = Path("/repo", f).read_bytes()
                if (f, a, new.decode()) in done or orig[a:e] == new:
                    continue
                t = orig[:a] + new + orig[e:]
                if f.endswith(".py"):
                    try:
                        compile(t, f, "exec")
                    except SyntaxError:
                        continue
                (w / f).write_bytes(t)
                res = {}
                for c in checks_for(f):
                    try:
                        r = subprocess.run(["python3", f"{vc}/run.py", c], cwd=vc, env={**os.environ, "VERIF_REPO": str(w)}, capture_output=True, text=True, timeout=900)
                        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                        res[c] = "caught" if v else f"rc{r.returncode}" if r.returncode else "quiet"
                        if res[c].startswith("rc"):
                            res[c] += " " + (r.stdout + r.stderr)[-200:]
                    except subprocess.TimeoutExpired:
                        res[c] = "timeout"
                    if res[c] != "quiet":
                        break
                (w / f).write_bytes(orig)
                ln = orig[:a].count(b"\n") + 1
                with lock, open(outf, "a") as o:
                    o.write(json.dumps({"file": f, "line": ln, "at": a, "old": orig[a:e].decode(), "new": new.decode(), "text": orig.decode().splitlines()[ln - 1].strip(), "res": res}) + "\n")
        finally:
            if str(w).startswith("/tmp/mut-"):
                shutil.rmtree(w, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(i,)) for i in range(int(workers))]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
