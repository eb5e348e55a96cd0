#!/usr/bin/env python3
"""tools/seed.py SPEC.py [...] : turn planted-bug specifications into /verif/seeded/<id>/ and validate them in a scratch copy.

A specification defines ID, PROPERTY, EDITS = [(file, old, new), ...], NEEDS, BREAKS and DEMO (python source).
Validation: the patch applies, touches only lines of the original commit, the demo passes without and fails with it,
the stable tests pass with it; then the property's quick check is run against the copy.
--notest skips the tests, --nocheck the check.
"""
import json, os, runpy, shutil, subprocess, sys, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
BASE = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
DEMO_SH = '#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport NUMBA_NUM_THREADS=1 OMP_NUM_THREADS=1 MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\nexec timeout 280 /opt/venv/bin/python "$d/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def one(spec, notest, nocheck):
    s = runpy.run_path(spec)
    ident, d = s["ID"], VERIF / "seeded" / s["ID"]
    copy = Path(f"/tmp/seed_{ident}")
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", str(copy)], check=True)
    out = {"id": ident, "property": s["PROPERTY"]}
    try:
        for f, old, new in s["EDITS"]:
            p = copy / f
            t = p.read_text()
            assert t.count(old) == 1, f"{ident}: {t.count(old)} occurrences in {f} of {old!r}"
            p.write_text(t.replace(old, new))
        patch = sh(["git", "-C", str(copy), "diff"]).stdout
        # removed/context-anchored lines must be lines of the original commit
        hunks = sh(["git", "-C", str(copy), "diff", "-U0"]).stdout
        f = None
        for line in hunks.splitlines():
            if line.startswith("--- a/"):
                f = line[6:]
            if line.startswith("@@"):
                a = line.split()[1][1:].split(",")
                st, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                if n:
                    bl = sh(["git", "-C", "/repo", "blame", "-l", "-s", "-L", f"{st},+{n}", f]).stdout
                    assert all(b.lstrip("^")[:39] == BASE[:39] for b in bl.splitlines()), f"{ident}: touches repaired lines\n{bl}"
        d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(patch)
        (d / "demo.py").write_text(s["DEMO"])
        (d / "demo.sh").write_text(DEMO_SH)
        (d / "demo.sh").chmod(0o755)
        (d / "meta.json").write_text(json.dumps({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, indent=1) + "\n")
        r0 = sh(["bash", str(d / "demo.sh")], cwd="/repo")
        r1 = sh(["bash", str(d / "demo.sh")], cwd=str(copy), env={**os.environ, "PYTHONPATH": str(copy)})
        out["demo"] = (r0.returncode, r1.returncode)
        if r0.returncode or not r1.returncode:
            print(ident, "DEMO WRONG", out["demo"], r0.stderr[-1500:], r1.stdout[-500:])
        out["demo_msg"] = (r1.stderr.strip().splitlines() or [""])[-1][:160]
        if not nocheck and (VERIF / "checks" / f"{s['PROPERTY']}.py").exists():
            t0 = time.time()
            r = sh(["bash", str(VERIF / "run.sh"), s["PROPERTY"], "--tier", "quick"], env={**os.environ, "VERIF_REPO": str(copy)})
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out["check"] = (r.returncode, len(v), round(time.time() - t0, 1))
            if r.returncode != 1:
                print(ident, "NOT CAUGHT", r.stdout[-300:], r.stderr[-500:])
        if not notest:
            env = {**os.environ, "PYTHONPATH": str(copy), "PATH": "/opt/venv/bin:" + os.environ["PATH"], "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "MPLCONFIGDIR": "/opt/venv/mplconfig",
                   "NUMBA_NUM_THREADS": "2", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1"}
            x = f"/tmp/seed_{ident}.xml"
            sh(["python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "--doctest-modules", "--mpl", "--continue-on-collection-errors",
                f"--basetemp=/tmp/seed_{ident}_tmp", f"--benchmark-storage=/tmp/seed_{ident}_bench", "-o", "junit_family=xunit2", f"--junitxml={x}"], cwd=str(copy), env=env)
            res = f"/tmp/seed_{ident}.json"
            sh(["/usr/bin/python3", "/opt/vp/results.py", res, f"junit:{x}"])
            got = set(json.load(open(res))["passed"])
            miss = sorted(set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - got)
            out["tests_missing"] = len(miss)
            if miss:
                print(ident, "TESTS FAIL", len(miss), miss[:5])
            for q in (x, res):
                Path(q).unlink(missing_ok=True)
    finally:
        for q in (copy, Path(f"/tmp/seed_{ident}_tmp"), Path(f"/tmp/seed_{ident}_bench")):
            shutil.rmtree(q, ignore_errors=True)
    if out.get("demo", (0, 1))[0] or not out.get("demo", (0, 1))[1] or out.get("tests_missing"):
        shutil.rmtree(d)
        out["rejected"] = True
    print(json.dumps(out), flush=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for a in args:
        try:
            one(a, "--notest" in sys.argv, "--nocheck" in sys.argv)
        except AssertionError as e:
            print("ASSERT", e, flush=True)
