#!/usr/bin/env python3
"""Development aid: run many seeds of a property and tally all violations. Usage: tally.py <property> <runs> [seed]"""
import os
import re
import sys
from collections import Counter
from multiprocessing import get_context

if os.environ.get("SIM_READY") != "1":
    env = dict(os.environ, SIM_READY="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    os.execve("/opt/venv/bin/python", ["/opt/venv/bin/python", os.path.abspath(__file__), *sys.argv[1:]], env)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sim import env, runner  # noqa: E402


def one(args):
    pid, seed, i = args
    from sim.props import PROPS

    env.prepare()
    env.limit_memory()
    prop = PROPS[pid]
    plan = runner.plan_for(prop, seed, i, os.environ.get("VERIF_TIER", "quick"))
    out = runner.run_plan(prop, plan)
    return i, prop.shape(plan), (out.violation.kind, out.violation.message) if out.violation else None


if __name__ == "__main__":
    pid, n = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    counts, ex = Counter(), {}
    with get_context("fork").Pool(8) as pool:
        for i, shape, v in pool.imap(one, [(pid, seed, i) for i in range(n)], chunksize=4):
            if v:
                key = v[0] + ": " + re.sub(r"[0-9a-f]{8}-[-0-9a-f]+|\d+", "N", v[1])[:110]
                counts[key] += 1
                ex.setdefault(key, []).append((i, shape, v[1]))
    print(f"{sum(counts.values())} of {n} runs failed")
    for k, c in counts.most_common(25):
        print(c, k)
        for e in ex[k][:3]:
            print("     ", str(e)[:260])
