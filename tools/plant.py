"""Writes /verif/seeded/<id>/ from the definitions in plants_*.py and verifies each in a scratch copy of /repo.

usage: plant.py [ID ...] [--no-tests] [--checks]"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
PY = "/opt/venv/bin/python"
PLANTS = []
for f in sorted(os.listdir(HERE)):
    if re.fullmatch(r"plants_\w+\.py", f):
        PLANTS += __import__(f[:-3]).PLANTS

DEMO_SH = """#!/bin/bash
here="$(cd "$(dirname "$0")" && pwd)"
exec env PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 /opt/venv/bin/python -W ignore "$here/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env={**os.environ, **(env or {})}, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(p, tests, checks):
    d = tempfile.mkdtemp(prefix="plant_")
    try:
        repo = os.path.join(d, "repo")
        sh(f"git clone -q /repo {repo}")
        for file, subs in p["edits"].items():
            path = os.path.join(repo, "src/elli", file)
            s = open(path, encoding="utf8").read()
            for old, new in subs:
                if s.count(old) != 1:
                    return p["id"], f"BAD EDIT ({s.count(old)} matches): {old[:60]!r}"
                s = s.replace(old, new)
            open(path, "w", encoding="utf8").write(s)
        rc, diff = sh("git diff", cwd=repo)
        base = sh("git rev-list --max-parents=0 HEAD", cwd=repo)[1].strip()
        mine = []
        file = None
        for line in sh("git diff -U0", cwd=repo)[1].splitlines():
            if line.startswith("--- a/"):
                file = line[6:]
            m = re.match(r"@@ -(\d+)(?:,(\d+))?", line)
            if m and int(m[2] or 1):
                for b in sh(f"git blame -s --no-abbrev -L {m[1]},+{m[2] or 1} HEAD -- {file}", cwd=repo)[1].splitlines():
                    if not base.startswith(b[1:40]):
                        mine.append(b)
        out = os.path.join(SEEDED, p["id"])
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "patch.diff"), "w", encoding="utf8").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w", encoding="utf8").write(p["demo"].lstrip("\n"))
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        env = {"PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"}
        rc0, o0 = sh(f"{PY} -W ignore {out}/demo.py", cwd="/repo", env={**env, "PYTHONPATH": "/repo/src"}, timeout=300)
        rc1, o1 = sh(f"{PY} -W ignore {out}/demo.py", cwd=repo, env={**env, "PYTHONPATH": repo + "/src"}, timeout=300)
        msg = f"{'NOT ORIGINAL LINES ' + mine[0][-60:] + ' ' if mine else ''}demo clean={rc0} patched={rc1}"
        if rc0:
            msg += " CLEAN FAILS " + o0[-300:]
        if not rc1:
            msg += " NOT SHOWN"
        elif "AssertionError" not in o1:
            msg += " (no assertion: " + o1.strip().splitlines()[-1][:100] + ")"
        if tests:
            rc, o = sh(
                f"{PY} -m pytest -q -p no:cacheprovider --nbmake --benchmark-disable --timeout=90 --continue-on-collection-errors "
                "-o python_files='test_*.py *_test.py benchmark_*.py' -o junit_family=xunit2 --junitxml=" + d + "/j.xml "
                "--ignore=tests/test_refractive_index_info.py --ignore=tests/test_mixture_models.py --ignore='examples/Basic Usage' "
                "--ignore='examples/Custom fitting' --ignore='examples/SiO2_Si Mueller Matrix' --ignore='examples/TiO2 Fit' tests examples",
                cwd=repo, env={**env, "PYTHONPATH": repo + "/src"}, timeout=1200)
            sh(f"/usr/bin/python3 /opt/vp/results.py {d}/o.json junit:{d}/j.xml")
            passed = set(json.load(open(d + "/o.json"))["passed"])
            lost = stable() - passed
            msg += f" tests={'ok' if not lost else 'LOST ' + str(len(lost)) + ' ' + str(sorted(lost)[:3])}"
        if checks:
            rc, o = sh(f"/verif/check.py {p['property']}", cwd="/verif", env={"ELLI_SRC": repo + "/src", "VERIF_SEED": "1", "SYMX_EVIDENCE": d}, timeout=1200)
            v = [line for line in o.splitlines() if line.startswith("VIOLATION")]
            msg += f" check rc={rc} {'CAUGHT' if rc == 1 and v else 'MISSED'} {v[0][:100] if v else o.strip().splitlines()[-1][-140:]}"
        return p["id"], msg
    finally:
        shutil.rmtree(d)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    todo = [p for p in PLANTS if not args or any(re.fullmatch(a, p["id"]) for a in args)]
    assert len({p["id"] for p in PLANTS}) == len(PLANTS)
    with cf.ThreadPoolExecutor(1 if "--checks" in sys.argv else 4) as ex:
        for r in ex.map(lambda p: run(p, "--no-tests" not in sys.argv, "--checks" in sys.argv), todo):
            print(*r, flush=True)


main()
