"""Concurrent use of one stream: real threads under the deterministic scheduler, checked for linearizability."""
from __future__ import annotations

from random import Random

from sim import sched as schedmod
from sim.core import SimHang, Violation, make_disk
from sim.execute import Executor, stable
from sim.genops import pick_length, pick_offset


class Call:
    def __init__(self, thread: int, op: list):
        self.thread = thread
        self.op = op
        self.begin = -1
        self.end = -1
        self.result = None
        self.done = False


class ThreadExecutor(Executor):
    """Adds the operation ["par", stream, [[call, ...] per thread], line granularity]."""

    def op_par(self, stid: str, bodies: list, lines: int) -> None:
        st = self.stream(stid)
        if st is None:
            return
        sim = self.sim
        sched = schedmod.Scheduler(self.plan.get("sched", []), sim.event)
        calls = [[Call(t, op) for op in body] for t, body in enumerate(bodies)]
        clock = [0]

        def body(t: int):
            def run() -> None:
                for call in calls[t]:
                    clock[0] += 1
                    call.begin = clock[0]
                    what, arg = call.op
                    if what == "read":
                        call.result = bytes(st.obj.read(arg))
                    elif what == "readinto":
                        buf = bytearray(arg)
                        n = st.obj.readinto(buf)
                        call.result = bytes(buf[:n])
                    else:
                        call.result = st.obj.seek(arg)
                    clock[0] += 1
                    call.end = clock[0]
                    call.done = True
                    sim.event(f"t{t} {what} {arg} -> {stable(call.result) if isinstance(call.result, bytes) else call.result}")

            return run

        start = st.pos
        self.schedule(sched, [body(t) for t in range(len(bodies))], lines)
        st.lost = True
        for t, e in sched.errors:
            self.errors_seen += 1
            if isinstance(e, SimHang):
                raise Violation("hang", f"thread {t} on {st.key}: {e}")
            raise Violation("error", f"thread {t}: {next(c.op for c in calls[t] if not c.done)} on {st.key} raised {type(e).__name__}: {str(e)[:200]}")
        self.linearize(st, start, [c for cs in calls for c in cs])

    switches = 0

    def schedule(self, sched, bodies: list, lines: int) -> None:
        self.sim.yield_hook = lambda dev, kind: sched.yield_point(kind)
        try:
            schedmod.enable_line_yields(bool(lines))
            sched.run(bodies)
        finally:
            schedmod.enable_line_yields(False)
            self.sim.yield_hook = None
        self.switches += sched.switches

    def op_each(self, bodies: list, lines: int) -> None:
        """Every thread works on its own handles of the same devices, with the ordinary operations and checks."""
        sched = schedmod.Scheduler(self.plan.get("sched", []), self.sim.event)
        subs = []
        for _ in bodies:
            sub = Executor(self.plan, world=self.world)
            sub.sim = self.sim
            sub.disks = [make_disk(self.sim, i, d.name, d.data, d.mode) for i, d in enumerate(self.world.devices)]
            subs.append(sub)

        def body(t: int):
            def run() -> None:
                for op in bodies[t]:
                    self.sim.event(f"t{t} {op}")
                    subs[t].do(op)

            return run

        self.schedule(sched, [body(t) for t in range(len(bodies))], lines)
        self.bytes_checked += sum(sub.bytes_checked for sub in subs)
        self.errors_seen += sum(sub.errors_seen for sub in subs)
        for t, e in sched.errors:
            if isinstance(e, SimHang):
                raise Violation("hang", f"thread {t}: {e}")
            if isinstance(e, Violation):
                raise Violation(e.kind, f"thread {t}: {e.message}", e.sig)
            raise e

    def linearize(self, st, start: int, calls: list[Call]) -> None:
        """Is there an order of the calls, consistent with real time, in which every result is what one user would see?"""
        content = st.content
        size = len(content)
        seen: set = set()
        best = [0, None]
        budget = [200_000]

        def apply(call: Call, pos: int) -> int | None:
            what, arg = call.op
            if what == "seek":
                return arg if call.result == arg else None
            want = content[pos:] if arg < 0 else content[pos : pos + arg]
            return pos + len(want) if want == call.result else None

        def search(left: frozenset, pos: int) -> bool:
            if not left:
                return True
            if (left, pos) in seen:
                return False
            seen.add((left, pos))
            budget[0] -= 1
            if budget[0] < 0:
                return True
            if len(calls) - len(left) >= best[0]:
                best[0], best[1] = len(calls) - len(left), pos
            first_end = min(calls[i].end for i in left)
            for i in sorted(left):
                if calls[i].begin > first_end:
                    continue
                new = apply(calls[i], pos)
                if new is not None and search(left - {i}, new):
                    return True
            return False

        self.bytes_checked += sum(len(c.result) for c in calls if isinstance(c.result, bytes))
        if not search(frozenset(range(len(calls))), start):
            note = [f"t{c.thread} {c.op[0]}({c.op[1]})={len(c.result) if isinstance(c.result, bytes) else c.result}" for c in calls]
            raise Violation(
                "threads",
                f"no sequential order explains the concurrent reads of {st.key} (size {size}, from {start}); {best[0]} of {len(calls)} "
                f"calls explained, then stuck at {best[1]}: " + ", ".join(note)[:300],
            )


def gen_threads(rng: Random, vol) -> tuple[list[list], int]:
    """Calls per thread, and whether threads are switched at every line."""
    size = len(vol.content)
    nthreads = rng.choice([2, 2, 3, 4])
    seeks = vol.exact_end and rng.random() < 0.3
    bodies: list[list] = [[] for _ in range(nthreads)]
    room = size
    for t in range(nthreads):
        for _ in range(rng.randint(1, 5)):
            n = pick_length(rng, min(size, 1 << 16), min(vol.grain, 1 << 14))
            if not vol.exact_end:
                n = max(1, n) if n >= 0 else rng.randint(1, 4000)
                if n > room:
                    continue
                room -= n
            if seeks and rng.random() < 0.3:
                bodies[t].append(["seek", pick_offset(rng, size, vol.grain)])
            bodies[t].append(["readinto", n] if n >= 0 and rng.random() < 0.15 else ["read", n])
    return bodies, int(rng.random() < 0.5)


def gen_each(rng: Random, world) -> tuple[list[list], int]:
    bodies = []
    vols = [v for v in world.vols if v.must] or world.vols
    for _ in range(rng.choice([2, 2, 3])):
        ops: list[list] = [["asm", "s0", 0]]
        for k in range(rng.choice([1, 1, 2])):
            vol = rng.choice(vols)
            ops.append(["open", f"f{k}", "s0", vol.key])
            for _ in range(rng.randint(1, 4)):
                n = pick_length(rng, min(len(vol.content), 1 << 16), min(vol.grain, 1 << 14))
                ops.append(["pread", f"f{k}", pick_offset(rng, len(vol.content), vol.grain), n])
        bodies.append(ops)
    return bodies, int(rng.random() < 0.5)


def gen_sched(rng: Random, nthreads: int, lines: int) -> list[list[int]]:
    mode = rng.random()
    span = rng.choice([40, 120, 400]) * (8 if lines else 1)
    if mode < 0.4:  # dense
        p = rng.choice([0.05, 0.2, 0.5])
        steps = [s for s in range(1, span) if rng.random() < p]
    elif mode < 0.8:  # few switches
        steps = sorted({rng.randint(1, span) for _ in range(rng.randint(1, 6))})
    else:  # one burst
        at = rng.randint(1, span)
        steps = list(range(at, at + rng.randint(2, 30)))
    return [[s, rng.randrange(nthreads)] for s in steps]

