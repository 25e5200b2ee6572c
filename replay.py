#!/usr/bin/env python3
"""Usage: replay.py <replay file>. Exit status 1 when the recorded violation is reproduced exactly."""
import os
import sys

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.abspath(__file__))

if os.environ.get("SIM_READY") != "1":
    env = dict(os.environ, SIM_READY="1", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/nonexistent-pycache", PYTHONPATH=HERE)
    env.setdefault("PYTHONHASHSEED", "0")
    env.pop("DISSECT_STREAM_BUFFER_SIZE", None)
    py = PY if os.path.exists(PY) else sys.executable
    os.execve(py, [py, os.path.abspath(__file__), *sys.argv[1:]], env)

sys.path.insert(0, HERE)
from sim import runner  # noqa: E402

sys.exit(runner.replay(sys.argv[1]))
