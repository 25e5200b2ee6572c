"""Seeded search: generates plans, executes them in worker processes, minimises and replays failures, writes evidence."""
from __future__ import annotations

import copy
import faulthandler
import gc
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

from sim import env
from sim.core import HarnessError, Violation

RUN_CPU_S = 60  # CPU seconds for one run before it counts as a hang
WORKERS = max(1, min(8, os.cpu_count() or 1))
SOFT_DEADLINE_S = {"quick": 240, "thorough": 780}


class CpuTimeout(BaseException):
    pass


def _on_alarm(signum, frame):
    raise CpuTimeout


def load_known(prop: str) -> dict[str, str]:
    """Signatures of known findings recorded for a property."""
    out = {}
    path = os.path.join(env.VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        with open(path) as fh:
            for line in fh:
                parts = line.split(None, 3)
                if len(parts) == 4 and parts[0] == "known:" and parts[1] == f"property={prop}":
                    out[parts[2].removeprefix("sig=")] = parts[3].strip()
    return out


def plan_for(prop, base_seed: int, index: int, tier: str) -> dict:
    rng = random.Random(f"{prop.id}/{base_seed}/{index}")
    plan = prop.generate(rng, tier, index)
    plan["prop"] = prop.id
    plan["seed"] = base_seed
    plan["run"] = index
    return plan


def run_plan(prop, plan: dict, keep_log: bool = False, known: dict | None = None):
    """Execute one plan in this process. Returns an Outcome."""
    known = load_known(prop.id) if known is None else known
    old = sys.stdout
    sys.stdout = env.Quiet()
    gc.disable()  # finalizers of objects from earlier runs would be executed at moments that no seed determines
    signal.signal(signal.SIGVTALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, RUN_CPU_S)
    try:
        out = prop.execute(plan, keep_log)
    except CpuTimeout:
        from sim.execute import Outcome

        out = Outcome()
        out.violation = Violation("hang", f"run used more than {RUN_CPU_S} CPU seconds")
        out.digest = "hang"
        return out
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        gc.enable()
        sys.stdout = old
    if out.violation is None:
        for sig, text in out.known.items():
            if sig not in known:
                out.violation = Violation("known", text, sig)
                break
    return out


def _worker(prop, base_seed: int, tier: str, start: int, step: int, total: int, deadline: float, conn) -> None:
    try:
        faulthandler.enable()
        env.prepare()
        env.limit_memory()
        known = load_known(prop.id)
        res = {
            "runs": 0, "violation": None, "error": None, "access": set(), "nontrivial": 0, "stats": Counter(), "fired": Counter(),
            "probes": Counter(), "known": {}, "samples": [], "digests": {}, "kinds": Counter(), "cut": False, "shapes": set(),
        }
        for index in range(start, total, step):
            if time.time() > deadline:
                res["cut"] = True
                break
            try:
                plan = plan_for(prop, base_seed, index, tier)
                out = run_plan(prop, plan, known=known)
            except (Exception, HarnessError) as e:
                res["error"] = f"run {index}: {type(e).__name__}: {e}\n{traceback.format_exc()}"
                break
            res["runs"] += 1
            if out.sim is not None:
                if prop.nontrivial(plan, out):
                    res["nontrivial"] += 1
                    res["access"].add(out.access)
                res["shapes"].add(prop.shape(plan))
                res["stats"].update(out.stats)
                res["fired"].update(out.sim.fired)
                res["probes"].update(out.sim.probes)
            res["kinds"][plan["world"]["kind"] if "world" in plan else "?"] += 1
            for sig, text in out.known.items():
                res["known"].setdefault(sig, text)
            if index < 3:
                res["samples"].append(prop.describe(plan, out))
            if index % 97 == 5 or index < 2:
                res["digests"][index] = out.digest
            if out.violation is not None:
                res["violation"] = (index, out.violation.kind, out.violation.message, out.violation.sig)
                break
        conn.send(res)
    except BaseException as e:  # noqa: BLE001
        try:
            conn.send({"fatal": f"{type(e).__name__}: {e}\n{traceback.format_exc()}"})
        except BaseException:  # noqa: BLE001
            os._exit(3)
    finally:
        conn.close()


def in_child(fn, timeout: float = 600):
    """Run fn() in a forked child and return its result, so that no state leaks between trials."""
    ctx = mp.get_context("fork")
    recv, send = ctx.Pipe(False)

    def body():
        try:
            env.limit_memory()
            send.send(fn())
        except BaseException as e:  # noqa: BLE001
            send.send({"fatal": f"{type(e).__name__}: {e}\n{traceback.format_exc()}"})

    p = ctx.Process(target=body)
    p.start()
    send.close()
    got = None
    try:
        if recv.poll(timeout):
            got = recv.recv()
    except EOFError:
        got = None
    p.join(1)
    if p.is_alive():
        p.kill()
        p.join()
    return got


def try_plans(prop, plans: list[dict], keep_log: bool = False) -> dict:
    """Execute plans in sequence; report on the last one."""
    out = None
    for plan in plans:
        out = run_plan(prop, copy.deepcopy(plan), keep_log)
    v = out.violation
    return {
        "kind": v.kind if v else None,
        "message": v.message if v else None,
        "sig": v.sig if v else None,
        "op": out.op,
        "digest": out.digest,
        "log": out.sim.log if keep_log and out.sim else None,
    }


def minimise(prop, plans: list[dict], kind: str, budget_s: float = 75) -> list[dict]:
    t0 = time.time()

    def fails(cand: list[dict]) -> bool:
        got = in_child(lambda: try_plans(prop, cand))
        return isinstance(got, dict) and got.get("kind") == kind

    def left() -> bool:
        return time.time() - t0 < budget_s

    def ddmin(items: list, test) -> list:
        n = 2
        while len(items) >= 1 and left():
            size = max(1, len(items) // n)
            for i in range(0, len(items), size):
                cand = items[:i] + items[i + size :]
                if test(cand):
                    items = cand
                    n = max(n - 1, 2)
                    break
                if not left():
                    break
            else:
                if size == 1:
                    break
                n = min(len(items), n * 2)
        return items

    if len(plans) > 1:
        prefix = ddmin(plans[:-1], lambda c: fails([*c, plans[-1]]))
        plans = [*prefix, plans[-1]]
    plan = plans[-1]
    lists = [k for k in ("faults", "ops", "sched", "corrupt", "history") if isinstance(plan.get(k), list) and plan[k]]
    for _ in range(2):
        for k in lists:
            def test(cand, k=k):
                p = dict(plan)
                p[k] = cand
                return fails([*plans[:-1], p])

            best = ddmin(plan[k], test)
            if len(best) != len(plan[k]):
                plan = dict(plan)
                plan[k] = best
        # simpler worlds
        progress = True
        while progress and left():
            progress = False
            for cand in prop.shrinks(plan):
                if not left():
                    break
                if fails([*plans[:-1], cand]):
                    plan = cand
                    progress = True
                    break
    return [*plans[:-1], plan]


def write_replay(prop, plans: list[dict], result: dict, seed: int, tier: str, index: int) -> str:
    body = {
        "property": prop.id,
        "verif_seed": seed,
        "tier": tier,
        "run": index,
        "violation": {k: result[k] for k in ("kind", "message", "op", "sig")},
        "digest": result["digest"],
        "plans": plans,
        "trace": (result.get("log") or [])[-400:],
    }
    name = hashlib.blake2b(json.dumps(body["plans"], sort_keys=True).encode(), digest_size=6).hexdigest()
    d = os.path.join(env.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop.id}-{seed}-{index}-{name}.json")
    with open(path, "w") as fh:
        json.dump(body, fh, indent=1)
    return path


def replay(path: str) -> int:
    """Re-execute a replay file. Exit status 1 when it reproduces exactly, 0 when it does not fail, 2 otherwise."""
    from sim.props import PROPS

    env.prepare()
    env.limit_memory()
    with open(path) as fh:
        body = json.load(fh)
    prop = PROPS[body["property"]]
    got = try_plans(prop, body["plans"], keep_log=True)
    print(f"seed={body['verif_seed']} run={body['run']} property={body['property']}")
    print(f"expected: {body['violation']['kind']} {body['violation']['message']} digest={body['digest']}")
    print(f"got:      {got['kind']} {got['message']} digest={got['digest']}")
    if got["kind"] is None:
        print("no violation")
        return 0
    if got["kind"] == body["violation"]["kind"] and got["digest"] == body["digest"] and got["message"] == body["violation"]["message"]:
        print("reproduced exactly")
        return 1
    print("different violation or trace")
    return 2


def main(prop_id: str) -> int:
    from sim.props import PROPS

    t0 = time.time()
    prop = PROPS[prop_id]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    total = prop.runs[tier]
    if os.environ.get("SIM_RUNS"):
        total = int(os.environ["SIM_RUNS"])
    print(f"seed={seed} tier={tier} property={prop_id} runs={total} workers={WORKERS}", flush=True)
    env.prepare()
    known = load_known(prop_id)
    ctx = mp.get_context("fork")
    deadline = t0 + SOFT_DEADLINE_S[tier]
    procs = []
    nworkers = min(WORKERS, total)
    for k in range(nworkers):
        recv, send = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(prop, seed, tier, k, nworkers, total, deadline, send))
        p.start()
        send.close()
        procs.append((k, p, recv))
    results = []
    for k, p, recv in procs:
        got = None
        try:
            if recv.poll(max(1.0, deadline + 120 - time.time())):
                got = recv.recv()
        except EOFError:
            got = None
        p.join(5)
        if p.is_alive():
            p.kill()
            p.join()
        if got is None:
            got = {"fatal": f"worker {k} ended without a result (exit {p.exitcode})"}
        results.append((k, got))

    fatal = [g["fatal"] for _, g in results if "fatal" in g]
    good = [g for _, g in results if "fatal" not in g]
    errors = [g["error"] for g in good if g["error"]]
    violations = sorted((g["violation"] for g in good if g["violation"]), key=lambda v: v[0])

    stats, fired, probes, kinds = Counter(), Counter(), Counter(), Counter()
    access, shapes, known_seen, samples, digests = set(), set(), {}, [], {}
    runs = nontrivial = 0
    for g in good:
        runs += g["runs"]
        nontrivial += g["nontrivial"]
        access |= g["access"]
        shapes |= g["shapes"]
        stats.update(g["stats"])
        fired.update(g["fired"])
        probes.update(g["probes"])
        kinds.update(g["kinds"])
        known_seen.update(g["known"])
        samples += g["samples"]
        digests.update(g["digests"])

    status = 0
    replay_path = None
    if violations:
        index, kind, message, sig = violations[0]
        plan = plan_for(prop, seed, index, tier)
        plans = [plan]
        got = in_child(lambda: try_plans(prop, plans))
        if not isinstance(got, dict) or got.get("kind") is None:
            # depends on earlier runs in the same process: replay that history as well
            plans = [plan_for(prop, seed, i, tier) for i in range(index % nworkers, index + 1, nworkers)]
            got = in_child(lambda: try_plans(prop, plans))
        if not isinstance(got, dict) or got.get("kind") is None:
            print(f"error: run {index} reported {kind} ({message}) but did not reproduce: {got}")
            status = 2
        else:
            kind = got["kind"]
            plans = minimise(prop, plans, kind)
            got = in_child(lambda: try_plans(prop, plans, keep_log=True))
            replay_path = write_replay(prop, plans, got, seed, tier, index)
            again = subprocess.run(
                [sys.executable, os.path.join(env.VERIF, "replay.py"), replay_path], capture_output=True, text=True, timeout=600
            )
            status = 1
            print(f"violation in run {index} (seed {seed}): {got['kind']}: {got['message']}")
            print(f"minimised to {len(plans)} plan(s), {len(plans[-1].get('ops') or [])} operations, {len(plans[-1].get('faults') or [])} faults")
            print("fresh process replay: " + ("reproduced exactly" if again.returncode == 1 else f"NOT exact (exit {again.returncode})\n{again.stdout}{again.stderr}"))
    elif fatal or errors:
        status = 2

    # determinism self check: sampled runs again, in a fresh process with another hash seed. A mismatch is reported and counted,
    # but says nothing about the property: the code under test may iterate over sets.
    mismatched = []
    if status == 0 and digests:
        again = redo_digests(prop_id, seed, tier, sorted(digests)[:12])
        mismatched = [i for i in sorted(digests)[:12] if again.get(str(i)) != digests[i]]
        if mismatched:
            print(f"warning: event logs of runs {mismatched} differ in a fresh process")
    cut = any(g["cut"] for g in good)
    if status == 0 and runs < max(1, total // 10):
        print(f"error: only {runs} of {total} runs finished in time")
        status = 2

    wall = time.time() - t0
    evidence = {
        "property": prop_id,
        "tier": tier,
        "seed": seed,
        "level": prop.level,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": len(access),
            "rule": prop.rule,
            "samples": samples[:3],
            "runs_planned": total,
            "runs_cut_by_deadline": cut,
            "runs_nontrivial": nontrivial,
            "seeds_per_hour": int(runs / max(wall, 0.001) * 3600),
            "client_operations": stats["ops"],
            "bytes_compared": stats["bytes"],
            "device_calls": stats["calls"],
            "simulated_seconds": round(stats["clock_ns"] / 1e9, 3),
            "errors_seen_by_clients": stats["errors"],
            "faults_injected": dict(sorted(fired.items())),
            "probes": dict(sorted(probes.items())),
            "runs_per_world": dict(sorted(kinds.items())),
            "distinct_configurations": len(shapes),
            "thread_switches": stats.get("switches", 0),
            "determinism_self_check": {"runs_repeated_in_fresh_process": len(digests and sorted(digests)[:12] or []), "mismatches": len(mismatched)},
            "known_findings_seen": dict(sorted(known_seen.items())),
            "real_code": ["dissect.volume (working tree of /repo)", "dissect.util streams", "dissect.cstruct"],
            "stubs": ["block devices (SimDisk)", "virtual clock", *prop.stubs],
        },
        "assumptions": prop.assumptions,
        "wall_s": round(wall, 2),
        "violations": 1 if status == 1 else 0,
    }
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", f"{prop_id}.json"), "w") as fh:
        json.dump(evidence, fh, indent=1)

    for f in fatal + errors:
        print("error: " + f)
    for sig in sorted(known_seen):
        if sig in known:
            print(f"KNOWN-FINDING: property={prop_id} {known[sig]}")
    print(f"runs={runs} distinct={len(access)} configurations={len(shapes)} faults={dict(fired)} wall={wall:.1f}s")
    if status == 1:
        print(f"VIOLATION property={prop_id} replay={replay_path}")
    return status


def redo_digests(prop_id: str, seed: int, tier: str, indexes: list[int]) -> dict:
    e = dict(os.environ, PYTHONHASHSEED=str(seed % 1000 + 1))
    p = subprocess.run(
        [sys.executable, os.path.join(env.VERIF, "check.py"), "--digests", prop_id, str(seed), tier, *map(str, indexes)],
        capture_output=True, text=True, env=e, timeout=600,
    )
    if p.returncode != 0:
        print(p.stdout[-2000:], p.stderr[-2000:])
        return {}
    return json.loads(p.stdout.strip().splitlines()[-1])


def digests(prop_id: str, seed: int, tier: str, indexes: list[int]) -> int:
    from sim.props import PROPS

    env.prepare()
    env.limit_memory()
    prop = PROPS[prop_id]
    out = {}
    for i in indexes:
        out[str(i)] = run_plan(prop, plan_for(prop, seed, i, tier)).digest
    print(json.dumps(out))
    return 0
