#!/opt/venv/bin/python
"""Run the check of one property:  check.py C01 [--tier quick|thorough] [--replay FILE]"""
import os
import sys

PY = "/opt/venv/bin/python"
if os.path.exists(PY) and os.path.realpath(sys.executable) != os.path.realpath(PY) and not os.environ.get("SYMX_PY"):
    os.environ["SYMX_PY"] = "1"
    os.execv(PY, [PY] + sys.argv)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[v] = "1"
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SRC = os.environ.setdefault("ELLI_SRC", "/repo/src")
sys.path.insert(1, SRC)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

from symx import driver  # noqa: E402

if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:]))
