"""Execution of a plan: clients operate on the real code over simulated devices, checked against the model."""
from __future__ import annotations

import gc
import io
import random
from typing import Any

from sim import core
from sim.core import HarnessError, Sim, SimHang, Violation, make_disk
from sim.world import World, extend_short
from sim.worlds import build_world


class Stream:
    def __init__(self, obj: Any, vol, key: str):
        self.obj = obj
        self.vol = vol
        self.content = vol.content
        self.key = key
        self.pos = 0
        self.lost = False  # position unknown after an error
        self.closed = False


class Outcome:
    def __init__(self):
        self.violation: Violation | None = None
        self.op = -1
        self.digest = ""
        self.access = ""
        self.sim: Sim | None = None
        self.stats: dict = {}
        self.known: dict[str, str] = {}


def first_diff(got: bytes, want: bytes) -> int:
    lo, hi = 0, min(len(got), len(want))
    if got[:hi] == want[:hi]:
        return hi
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if got[lo:mid] == want[lo:mid]:
            lo = mid
        else:
            hi = mid
    return lo


class Executor:
    def __init__(self, plan: dict, keep_log: bool = False, world: World | None = None):
        self.plan = plan
        self.sim = Sim(plan.get("faults"), keep_log)
        if plan.get("prop") != "C11":
            # How much work valid images take is not the matter here
            self.sim.max_jumps *= 8
        self.world = world or build_world(plan["world"])
        self.disks = [make_disk(self.sim, i, d.name, d.data, d.mode) for i, d in enumerate(self.world.devices)]
        first = len(self.disks)
        self.gone = [make_disk(self.sim, first + i, d.name, d.data, d.mode) for i, d in enumerate(self.world.gone)]
        self.systems: dict[str, Any] = {}
        self.streams: dict[str, Stream] = {}
        self.vols = {v.key: v for v in self.world.vols}
        self.strict_illegal = plan.get("strict", False)
        self.bytes_checked = 0
        self.bytes_at_close: int | None = None  # bytes compared before the first stream was closed or abandoned
        self.ops_done = 0
        self.errors_seen = 0
        self.tainted: set[str] = set()
        self.parsed: dict[int, object] = {}

    # -- plumbing
    def run(self) -> Outcome:
        out = Outcome()
        out.sim = self.sim
        sim = self.sim
        core.set_current(sim)
        try:
            sim.event("plan " + self.plan["prop"])
            sim.probes.update(self.world.probes)
            sim.fired.update(getattr(self.world, "injected", {}))
            for i, op in enumerate(self.plan["ops"]):
                out.op = i
                sim.begin_op(i, " ".join(str(x) for x in op))
                try:
                    self.do(op)
                except SimHang as e:
                    raise Violation("hang", f"op {i} {op[0]}: {e}") from None
                except MemoryError:
                    raise Violation("memory", f"op {i} {op[0]}: memory exhausted") from None
                except SystemExit:
                    raise Violation("exit", f"op {i} {op[0]}: process termination requested") from None
                sim.peak_jumps = max(sim.peak_jumps, sim.jumps_in_op)
                if sim.illegal and self.strict_illegal:
                    raise Violation("illegal", f"op {i} {op[0]}: {sim.illegal[0]}")
            out.op = len(self.plan["ops"])
            for i, (disk, dev) in enumerate(zip(self.disks, self.world.devices)):
                if self.strict_illegal and disk.data is not dev.data and disk.data != dev.data:
                    raise Violation("illegal", f"contents of device {i} changed")
        except Violation as v:
            out.violation = v
            sim.event(f"VIOLATION {v.kind} {v.message}")
        finally:
            core.set_current(None)
        out.digest = sim.digest()
        out.access = sim.access_hash.hexdigest()
        out.known = dict(self.world.known)
        out.stats = {
            "ops": self.ops_done,
            "bytes": self.bytes_checked,
            "calls": sim.total_calls,
            "clock_ns": sim.clock_ns,
            "errors": self.errors_seen,
            "bytes_after_close": 0 if self.bytes_at_close is None else self.bytes_checked - self.bytes_at_close,
        }
        return out

    def guarded(self, what: str, fn, must: bool = True):
        """Run one call into the real code. Returns (ok, value)."""
        sim = self.sim
        try:
            return True, fn()
        except Violation:
            raise
        except MemoryError:
            raise
        except Exception as e:
            self.errors_seen += 1
            sim.event(f"error {type(e).__name__}")
            if isinstance(e, RecursionError):
                raise Violation("recursion", f"{what} recursed without end") from None
            if sim.fired_in_op or not must:
                return False, None
            raise Violation("error", f"{what} raised {type(e).__name__}: {str(e)[:200]}") from None

    # -- operations
    def do(self, op: list) -> None:
        name = op[0]
        getattr(self, "op_" + name)(*op[1:])
        self.ops_done += 1

    def handles(self, perm: int, how: str = "plain") -> list:
        """What to assemble from: the devices, or the library's own objects for them (made for this purpose, or used before)."""
        disks = list(self.disks)
        if perm:
            random.Random(perm).shuffle(disks)
        if how == "plain":
            return disks
        out = []
        for i, disk in enumerate(disks):
            if how == "mixed" and (i + perm) % 2:
                out.append(disk)
            elif how == "kept":
                if disk.index not in self.parsed:
                    self.parsed[disk.index] = self.world.parse(disk)
                out.append(self.parsed[disk.index])
            else:
                out.append(self.world.parse(disk))
        self.sim.probes["assembled from " + ("kept" if how == "kept" else "own") + " member objects"] += 1
        return out

    def op_asm(self, sid: str, perm: int = 0, how: str = "plain") -> None:
        must = getattr(self.world, "must_assemble", True)
        ok, system = self.guarded("assembling", lambda: self.world.assemble(self.handles(perm, how)), must)
        if ok:
            self.systems[sid] = system
            self.sim.event(f"assembled {sid}")
        else:
            self.systems.pop(sid, None)

    def op_warm(self, perm: int) -> None:
        """Assemble from the objects of all members, before some are taken away."""
        disks = self.disks + self.gone
        random.Random(perm).shuffle(disks)

        def go() -> None:
            for disk in disks:
                self.parsed[disk.index] = self.world.parse(disk)
            self.world.assemble([self.parsed[disk.index] for disk in disks])

        self.guarded("assembling from all members", go)
        self.sim.probes["members taken away after assembling"] += 1

    def op_need(self, sid: str) -> None:
        """Assemble unless that has been done already."""
        if sid not in self.systems:
            self.op_asm(sid)

    def op_list(self, sid: str) -> None:
        if sid not in self.systems:
            return
        must = getattr(self.world, "must_assemble", True)
        self.guarded("listing", lambda: self.world.check_listing(self.systems[sid]), must)

    def op_open(self, stid: str, sid: str, key: str) -> None:
        vol = self.vols.get(key)
        self.streams.pop(stid, None)
        if sid not in self.systems or vol is None:
            return
        ok, obj = self.guarded(f"opening {key}", lambda: vol.open(self.systems[sid]), vol.must)
        if ok:
            if obj is None:
                raise Violation("listing", f"opening {key} returned nothing")
            self.streams[stid] = st = Stream(obj, vol, key)
            if not extend_short(vol, obj, self.world.known):
                st.content = vol.content[: vol.quirk]
            self.sim.event(f"opened {stid} {key}")

    def stream(self, stid: str) -> Stream | None:
        st = self.streams.get(stid)
        return None if st is None or st.closed else st

    def op_seek(self, stid: str, pos: int, whence: int = 0) -> None:
        st = self.stream(stid)
        if st is None:
            return
        size = len(st.content)
        if whence == 1:
            if st.lost:
                return
            target = max(0, st.pos + pos)
        elif whence == 2:
            if not st.vol.exact_end:
                return
            target = max(0, size + pos)
        else:
            target = pos
        ok, got = self.guarded(f"seek({pos}, {whence}) on {st.key}", lambda: st.obj.seek(pos, whence), st.vol.must)
        if not ok:
            st.lost = True
            return
        st.pos = target
        st.lost = False
        if got != target:
            raise Violation("position", f"seek({pos}, {whence}) on {st.key} returned {got}, expected {target}")

    def op_tell(self, stid: str) -> None:
        st = self.stream(stid)
        if st is None or st.lost:
            return
        ok, got = self.guarded(f"tell on {st.key}", lambda: st.obj.tell(), st.vol.must)
        if ok and got != st.pos:
            raise Violation("position", f"tell on {st.key} returned {got}, expected {st.pos}")

    def _clip(self, st: Stream, n: int) -> int | None:
        if st.vol.exact_end:
            return n
        room = len(st.content) - st.pos
        if room <= 0:
            return None
        return room if n < 0 else min(n, room)

    def _compare(self, st: Stream, pos: int, n: int, got: Any, what: str) -> None:
        content = st.content
        want = content[pos:] if n < 0 else content[pos : pos + n]
        self.bytes_checked += len(want)
        if bytes(got) != want:
            d = first_diff(got, want)
            raise Violation(
                "data",
                f"{what}({n}) at {pos} of {st.key} (size {len(content)}) returned {len(got)} bytes, expected {len(want)}; first difference at {pos + d}",
            )
        if want:
            self.sim.event(f"data {stable(want)}")

    def op_read(self, stid: str, n: int) -> None:
        st = self.stream(stid)
        if st is None or st.lost:
            return
        n = self._clip(st, n)
        if n is None:
            return
        pos = st.pos
        ok, got = self.guarded(f"read({n}) at {pos} of {st.key}", lambda: st.obj.read(n), st.vol.must)
        if not ok:
            st.lost = True
            return
        self._compare(st, pos, n, got, "read")
        st.pos = pos + len(got)

    def op_readinto(self, stid: str, n: int) -> None:
        st = self.stream(stid)
        if st is None or st.lost or n < 0:
            return
        n = self._clip(st, n)
        if n is None:
            return
        pos = st.pos
        buf = bytearray(n)
        ok, got = self.guarded(f"readinto({n}) at {pos} of {st.key}", lambda: st.obj.readinto(buf), st.vol.must)
        if not ok:
            st.lost = True
            return
        self._compare(st, pos, n, buf[:got], "readinto")
        st.pos = pos + got

    def op_peek(self, stid: str, n: int) -> None:
        st = self.stream(stid)
        if st is None or st.lost or not hasattr(st.obj, "peek"):
            return
        n = self._clip(st, n)
        if n is None:
            return
        pos = st.pos
        ok, got = self.guarded(f"peek({n}) at {pos} of {st.key}", lambda: st.obj.peek(n), st.vol.must)
        if not ok:
            st.lost = True
            return
        self._compare(st, pos, n, got, "peek")

    def op_pread(self, stid: str, pos: int, n: int) -> None:
        self.op_seek(stid, pos)
        self.op_read(stid, n)

    def op_close(self, stid: str) -> None:
        st = self.streams.get(stid)
        if st is None:
            return
        self.ended(st)
        self.guarded(f"closing {st.key}", lambda: st.obj.close(), st.vol.must)

    def ended(self, st: Stream) -> None:
        st.closed = True
        if self.bytes_at_close is None:
            self.bytes_at_close = self.bytes_checked

    def op_drop(self, stid: str) -> None:
        if (st := self.streams.pop(stid, None)) is not None:
            self.ended(st)

    def op_with(self, stid: str) -> None:
        """Leave a with statement on the stream."""
        st = self.stream(stid)
        if st is None:
            return
        self.ended(st)

        def go() -> None:
            with st.obj:
                pass

        self.guarded(f"leaving a with statement on {st.key}", go, st.vol.must)

    def op_gc(self) -> None:
        """Abandoned objects are gone from here on."""
        gc.collect()

    def op_poke(self, stid: str, how: str) -> None:
        """Try to change a volume. Streams may refuse that in any way, as long as it does not reach a device."""
        st = self.stream(stid)
        if st is None:
            return
        calls = {
            "write": lambda: st.obj.write(b"\xa5" * 700),
            "writelines": lambda: st.obj.writelines([b"\xa5" * 512, b"\x5a"]),
            "truncate": lambda: st.obj.truncate(512),
            "flush": lambda: st.obj.flush(),
        }
        self.guarded(f"{how} on {st.key}", calls[how], False)

    def op_dropsys(self, sid: str) -> None:
        self.systems.pop(sid, None)

    def op_disturb(self, dev: int, pos: int) -> None:
        """Another user of the device moves its cursor."""
        disk = self.disks[dev % len(self.disks)]
        disk.pos = min(pos, disk.length)


def stable(data: bytes) -> str:
    import zlib

    return f"{len(data)}:{zlib.crc32(data):08x}"


assert io.SEEK_SET == 0
_ = HarnessError
