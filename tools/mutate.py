#!/usr/bin/env python3
"""tools/mutate.py FILE N [--seed S] [--workers W] [--jobs J] [--only LO-HI] : mechanical mutants of graphix/FILE against the checks that cover it.

Samples N syntactic mutants (deterministic in S), applies each in a scratch copy of /repo (under /tmp/mut, removed at the end)
and runs the quick checks mapped to the file until one reports a violation. Prints survivors for manual triage.
"""
import argparse, ast, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

VERIF = Path(__file__).resolve().parent.parent
MAP = {
    "transpiler.py": "C02 C01 P07 T01", "pattern.py": "P06 P01 P02 P04 P05 F04 P07 T01 R02 O01", "optimization.py": "P01 P02 P03 F04 P07",
    "remove_pauli_measurements.py": "P03", "space_minimization.py": "P04", "flow/core.py": "F03 F04 F02 F01 R02 T01 E01",
    "flow/_find_gpflow.py": "F01 F02", "flow/_find_cflow.py": "F01", "flow/_partial_order.py": "F01 F03 F04", "flow/exceptions.py": "R02 F03",
    "opengraph.py": "O01 T01 F01", "circ_ext/compilation.py": "E01", "circ_ext/extraction.py": "E01", "sim/statevec.py": "S01 R02",
    "sim/density_matrix.py": "S02 T01", "sim/base_backend.py": "S03 S01 S02", "simulator.py": "S03 N01", "sim/tensornet.py": "S04", "channels.py": "S02",
    "noise_models/noise_model.py": "N01", "noise_models/depolarising.py": "N01", "noise_models/amplitude_damping.py": "N01", "graphsim.py": "G01",
    "clifford.py": "A01 R01 R02", "_db.py": "A01", "fundamentals.py": "A01 T01", "pauli.py": "A01", "measurements.py": "A01 T01 O01", "ops.py": "A01 S01",
    "_linalg.py": "A02", "qasm3_exporter.py": "Q01", "parameter.py": "T01", "pretty_print.py": "R02 R01", "repr_mixins.py": "R01", "extraction.py": "X01",
    "instruction.py": "R01 C02 T01", "command.py": "R01 T01 P01", "states.py": "S01 R01", "branch_selector.py": "S03", "rng.py": "S03", "utils.py": "G01 R01",
    "linalg_validations.py": "S02", "visualization.py": "V01", "random_objects.py": "U01",
}
TESTS = {
    "transpiler.py": "transpiler", "pattern.py": "pattern transpiler pretty_print optimization", "optimization.py": "optimization pattern", "remove_pauli_measurements.py": "remove_pauli_measurements",
    "space_minimization.py": "space_minimization pattern", "flow/core.py": "flow_core opengraph pauli_flow_extraction circ_extraction pattern", "flow/_find_gpflow.py": "flow_find_gpflow opengraph",
    "flow/_find_cflow.py": "opengraph", "flow/_partial_order.py": "flow_core opengraph optimization pattern", "flow/exceptions.py": "flow_core opengraph", "opengraph.py": "opengraph flow_core",
    "circ_ext/compilation.py": "circ_extraction", "circ_ext/extraction.py": "circ_extraction", "sim/statevec.py": "statevec simulator", "sim/density_matrix.py": "density_matrix noisy_density_matrix",
    "sim/base_backend.py": "statevec density_matrix simulator pattern", "simulator.py": "simulator noisy_density_matrix pattern", "sim/tensornet.py": "tnsim", "channels.py": "kraus density_matrix noise_model",
    "noise_models/noise_model.py": "noise_model noisy_density_matrix", "noise_models/depolarising.py": "noise_model noisy_density_matrix", "noise_models/amplitude_damping.py": "noise_model noisy_density_matrix",
    "graphsim.py": "graphsim", "clifford.py": "clifford db", "_db.py": "db clifford", "fundamentals.py": "fundamentals measurements", "pauli.py": "pauli", "measurements.py": "measurements pattern",
    "ops.py": "statevec density_matrix transpiler", "_linalg.py": "linalg", "qasm3_exporter.py": "qasm3_exporter qasm3_exporter_to_graphix_parser qasm3_exporter_to_qiskit", "parameter.py": "parameter",
    "pretty_print.py": "pretty_print statevec density_matrix", "repr_mixins.py": "pretty_print", "extraction.py": "extraction", "instruction.py": "instruction transpiler pretty_print", "command.py": "command pattern pretty_print",
    "states.py": "statevec density_matrix", "branch_selector.py": "branch_selector simulator", "rng.py": "rng random_utilities", "utils.py": "pretty_print density_matrix", "linalg_validations.py": "linalg random_utilities density_matrix",
    "visualization.py": "visualization", "random_objects.py": "random_utilities",
}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.BitXor: ast.BitOr, ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr, ast.MatMult: "swap", ast.Mod: ast.FloorDiv, ast.FloorDiv: ast.Mult, ast.LShift: ast.RShift, ast.RShift: ast.LShift}


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def span(n):
        return offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset

    out = []

    def add(n, text, what):
        a, b = span(n)
        old = raw[a:b].decode()
        if text != old:
            out.append((n.lineno, a, b, text, f"{what}: {old[:70]!r} -> {text[:70]!r}"))

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0])); skip.add(id(n.body[0].value))
        if isinstance(n, ast.If) and "TYPE_CHECKING" in ast.dump(n.test):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, (ast.FunctionDef,)):
            for d in n.decorator_list:
                skip.update(id(m) for m in ast.walk(d))
            for a in [*n.args.args, *n.args.kwonlyargs]:
                if a.annotation:
                    skip.update(id(m) for m in ast.walk(a.annotation))
            if n.returns:
                skip.update(id(m) for m in ast.walk(n.returns))
        if isinstance(n, ast.AnnAssign):
            skip.update(id(m) for m in ast.walk(n.annotation))
        if isinstance(n, ast.Raise) or isinstance(n, ast.Assert) or isinstance(n, ast.JoinedStr):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("warn", "TypeVar", "cast"):
            skip.update(id(m) for m in ast.walk(n))
    u = ast.unparse
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            m = ast.Compare(n.left, [CMP[type(n.ops[0])]()], n.comparators)
            add(n, "(" + u(m) + ")", "cmp")
        elif isinstance(n, ast.BoolOp):
            m = ast.BoolOp(ast.And() if isinstance(n.op, ast.Or) else ast.Or(), n.values)
            add(n, "(" + u(m) + ")", "bool")
            for i in range(len(n.values)):
                vs = [v for j, v in enumerate(n.values) if j != i]
                add(n, "(" + u(vs[0] if len(vs) == 1 else ast.BoolOp(n.op, vs)) + ")", "drop-term")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, "(" + u(n.operand) + ")", "unary")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            o = BIN[type(n.op)]
            m = ast.BinOp(n.right, n.op, n.left) if o == "swap" else ast.BinOp(n.left, o(), n.right)
            add(n, "(" + u(m) + ")", "bin")
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN and BIN[type(n.op)] != "swap":
            add(n, u(ast.AugAssign(n.target, BIN[type(n.op)](), n.value)), "aug")
            add(n, "pass", "del")
        elif isinstance(n, ast.Constant) and type(n.value) is int:
            add(n, str(n.value + 1 if n.value in (0, 2) else n.value - 1), "const")
        elif isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, str(not n.value), "const")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "del")
        elif isinstance(n, (ast.Continue, ast.Break)):
            add(n, "pass", "del")
        elif isinstance(n, ast.If):
            add(n.test, "True", "if"); add(n.test, "False", "if")
        elif isinstance(n, ast.IfExp):
            add(n, "(" + u(n.body) + ")", "ifexp"); add(n, "(" + u(n.orelse) + ")", "ifexp")
        elif isinstance(n, ast.comprehension) and n.ifs:
            for i in n.ifs:
                add(i, "True", "comp-if")
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in ("set", "list", "dict", "tuple", "sorted", "reversed", "frozenset") and len(n.args) == 1:
                add(n, u(n.args[0]), "uncopy")
            elif isinstance(f, ast.Attribute) and f.attr == "copy" and not n.args:
                add(n, u(f.value), "uncopy")
            elif isinstance(f, ast.Attribute) and f.attr in ("conj", "adjoint", "conjugate", "transpose") and not n.args:
                add(n, u(f.value), "unconj")
            elif len(n.args) == 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not (isinstance(f, ast.Name) and f.id in ("isinstance", "getattr")):
                add(n, u(ast.Call(f, n.args[::-1], n.keywords)), "swap-args")
            elif isinstance(f, ast.Name) and f.id in ("any", "all", "min", "max"):
                g = {"any": "all", "all": "any", "min": "max", "max": "min"}[f.id]
                add(f, g, "quant")
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "del")
    return raw, sorted(set(out))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file"); ap.add_argument("n", type=int)
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--workers", type=int, default=4); ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--only"); ap.add_argument("--checks"); ap.add_argument("--kind", help="only mutants of this kind (cmp, bool, uncopy, ...)"); ap.add_argument("--tests", action="store_true", help="first run the module's own tests; mutants that they kill are not tried on the checks")
    a = ap.parse_args()
    root = Path(f"/tmp/mut/{a.file.replace('/', '_')}_{os.getpid()}")
    shutil.rmtree(root, ignore_errors=True)
    root.mkdir(parents=True)
    src = Path("/repo/graphix") / a.file
    raw, ms = mutants(src.read_text())
    if a.only:
        lo, hi = map(int, a.only.split("-"))
        ms = [m for m in ms if lo <= m[0] <= hi]
    if a.kind:
        ms = [m for m in ms if m[4].startswith(a.kind)]
    rnd = random.Random(a.seed)
    pick = sorted(rnd.sample(ms, min(a.n, len(ms))))
    print(f"{a.file}: {len(ms)} mutants, {len(pick)} tried", flush=True)
    subprocess.run(["cp", "-a", str(VERIF), str(root / "verif")], check=True)
    q = Queue()
    for w in range(a.workers):
        c = root / f"c{w}"
        subprocess.run(["cp", "-a", "/repo", str(c)], check=True)
        q.put(c)
    checks = (a.checks or MAP[a.file]).split()
    stats = {"killed": 0, "survived": 0}

    def run(m):
        c = q.get()
        try:
            f = c / "graphix" / a.file
            line, x, y, text, what = m
            f.write_bytes(raw[:x] + text.encode() + raw[y:])
            t0 = time.time()
            log = []
            if a.tests:
                env = {**os.environ, "PYTHONPATH": str(c), "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "MPLCONFIGDIR": "/opt/venv/mplconfig", "NUMBA_NUM_THREADS": "2", "OMP_NUM_THREADS": "1",
                       "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1"}
                r = subprocess.run(["timeout", "600", "/opt/venv/bin/python", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "-n", str(a.jobs), "--mpl", "--doctest-modules", f"--basetemp={c}_tmp", f"graphix/{a.file}",
                                    *(f"tests/test_{t}.py" for t in TESTS[a.file].split())], cwd=str(c), env=env, capture_output=True, text=True)
                if r.returncode:
                    stats["tests"] = stats.get("tests", 0) + 1
                    return
            for ck in checks:
                if not (VERIF / "checks" / f"{ck}.py").exists():
                    continue
                r = subprocess.run(["bash", str(root / "verif/run.sh"), ck, "--jobs", str(a.jobs)], capture_output=True, text=True,
                                   env={**os.environ, "VERIF_REPO": str(c), "VERIF_MAX_BADS": "1", "VERIF_TASK_TIMEOUT": "400", "VERIF_DEADLINE": "1500"})
                log.append(f"{ck}={r.returncode}")
                if r.returncode == 1:
                    stats["killed"] += 1
                    print(f"killed   {a.file}:{line} [{what}] {' '.join(log)} {time.time()-t0:.0f}s", flush=True)
                    return
                if r.returncode != 0:
                    log.append((r.stderr.strip().splitlines() or ["?"])[-1][:120])
            stats["survived"] += 1
            print(f"SURVIVED {a.file}:{line} [{what}] {' '.join(log)} {time.time()-t0:.0f}s", flush=True)
        finally:
            f.write_bytes(raw)
            q.put(c)

    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(run, pick))
    print(json.dumps({"file": a.file, **stats}), flush=True)
    shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
