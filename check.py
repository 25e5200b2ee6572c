#!/usr/bin/env python3
"""Usage: check.py <property> | check.py --digests <property> <seed> <tier> <run>..."""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get("SIM_READY") != "1":
    env = dict(os.environ, SIM_READY="1", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-pycache", PYTHONPATH=HERE)
    env.setdefault("PYTHONHASHSEED", "0")
    env.pop("DISSECT_STREAM_BUFFER_SIZE", None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__), *sys.argv[1:]], env)

sys.path.insert(0, HERE)
from sim import runner  # noqa: E402

if sys.argv[1] == "--digests":
    sys.exit(runner.digests(sys.argv[2], int(sys.argv[3]), sys.argv[4], [int(x) for x in sys.argv[5:]]))
try:
    status = runner.main(sys.argv[1])
except Exception:  # a defect of the check itself, not a violation
    import traceback

    traceback.print_exc()
    status = 2
sys.stdout.flush()
sys.exit(status)
