"""Simulation core: virtual clock, event log, simulated devices, fault table, work budgets.

Nothing in here draws random numbers. An execution is a pure function of its plan.
"""
from __future__ import annotations

import errno
import hashlib
import io
import sys
from collections import Counter


class SimHang(BaseException):
    """A work budget was exceeded. Not an Exception, so that code under test cannot swallow it."""


class HarnessError(BaseException):
    """Something is wrong with the simulator itself, never evidence about the code under test."""


class Violation(Exception):
    """A property violation observed by a monitor."""

    def __init__(self, kind: str, message: str, sig: str | None = None):
        super().__init__(message)
        self.kind = kind
        self.message = message.encode(errors="backslashreplace").decode()  # names can hold anything
        self.sig = sig or kind


# Limits for one client operation. They are far above anything a valid image of the explored size needs.
MAX_CALLS_PER_OP = 200_000
MAX_BYTES_PER_OP = 512 * 1024 * 1024
MAX_JUMPS_PER_OP = 8_000_000


class Sim:
    """State of one simulated execution."""

    def __init__(self, faults: list | None = None, keep_log: bool = False):
        self.clock_ns = 0
        self.hash = hashlib.blake2b(digest_size=16)
        self.access_hash = hashlib.blake2b(digest_size=12)
        self.keep_log = keep_log
        self.log: list[str] = []
        self.nevents = 0

        self.op = -1
        self.calls_in_op = 0
        self.bytes_in_op = 0
        self.jumps_in_op = 0
        self.max_calls = MAX_CALLS_PER_OP
        self.max_bytes = MAX_BYTES_PER_OP
        self.max_jumps = MAX_JUMPS_PER_OP
        self.total_calls = 0
        self.total_bytes = 0
        self.peak_jumps = 0

        self.faults = faults or []
        self.fault_hits = [0] * len(self.faults)
        self.fired: Counter = Counter()
        self.fired_in_op = 0
        self.illegal: list[str] = []  # writes, truncates or closes that reached a device
        self.yield_hook = None
        self.watch = None
        self.probes: Counter = Counter()

    def event(self, text: str) -> None:
        self.nevents += 1
        self.hash.update(text.encode(errors="backslashreplace"))
        self.hash.update(b"\n")
        if self.keep_log:
            self.log.append(text)

    def begin_op(self, index: int, text: str) -> None:
        self.op = index
        self.calls_in_op = 0
        self.bytes_in_op = 0
        self.jumps_in_op = 0
        self.fired_in_op = 0
        self.fault_hits = [0] * len(self.faults)
        self.event(f"op {index} {text}")

    def digest(self) -> str:
        return self.hash.hexdigest()

    def device_call(self, dev: SimDisk, kind: str, pos: int, n: int) -> None:
        """Bookkeeping for one device call. Raises an injected error when a fault matches."""
        if self.yield_hook is not None:
            self.yield_hook(dev, kind)
        self.calls_in_op += 1
        self.total_calls += 1
        # Simple deterministic disk model: 40us per command, 4ns per byte, plus 3us per MiB of cursor movement
        self.clock_ns += 40_000 + 4 * min(max(n, 0), dev.length) + 3_000 * (abs(min(pos, dev.length) - dev.head) >> 20)
        dev.head = min(pos, dev.length)
        self.access_hash.update(b"%d%s" % (dev.index, kind[0].encode()))
        if self.calls_in_op > self.max_calls:
            raise SimHang(f"more than {self.max_calls} device calls in one operation")
        for i, fault in enumerate(self.faults):
            if self._matches(i, fault, dev, kind, pos, n):
                self.fired[fault["kind"]] += 1
                self.fired_in_op += 1
                self.event(f"fault {fault['kind']} dev={dev.index} {kind} pos={pos} n={n}")
                raise OSError(errno.EIO, f"injected {fault['kind']} on device {dev.index}")

    def _matches(self, i: int, fault: dict, dev: SimDisk, kind: str, pos: int, n: int) -> bool:
        if fault["dev"] not in (-1, dev.index):
            return False
        what = fault["kind"]
        if what in ("eio_read", "eio_seek", "eio_any"):
            # the nth matching call (and the following count - 1) within operation "op"
            if fault["op"] != self.op or (what == "eio_read" and kind != "read") or (what == "eio_seek" and kind != "seek"):
                return False
            hit = self.fault_hits[i]
            self.fault_hits[i] += 1
            return fault["nth"] <= hit < fault["nth"] + fault["count"]
        if what == "dead":
            return fault["op"] <= self.op < fault["until"]
        if what == "bad_region":
            if not (fault["op"] <= self.op < fault["until"]) or kind != "read":
                return False
            end = dev.length if n < 0 else pos + n
            return pos < fault["hi"] and fault["lo"] < end
        raise HarnessError(f"unknown fault {what}")


class SimDisk:
    """A simulated block device with a shared cursor. Only seek, read and tell are legal."""

    def __init__(self, sim: Sim, index: int, name: str, data: bytes):
        self.sim = sim
        self.index = index
        self.dev_name = name
        self.data = data
        self.length = len(data)
        self.pos = 0
        self.head = 0
        self.is_closed = False

    # -- legal operations
    def _usable(self) -> None:
        if self.is_closed:
            raise ValueError("I/O operation on closed file.")

    def seek(self, pos: int, whence: int = io.SEEK_SET) -> int:
        self._usable()
        if whence == io.SEEK_SET:
            new = pos
        elif whence == io.SEEK_CUR:
            new = max(0, self.pos + pos)
        elif whence == io.SEEK_END:
            new = max(0, self.length + pos)
        else:
            raise ValueError("invalid whence")
        self.sim.device_call(self, "seek", max(0, new), 0)
        if new < 0:
            raise ValueError(f"negative seek value {new}")
        self.pos = new
        self.sim.event(f"d{self.index} seek {new}")
        return new

    def read(self, n: int | None = -1) -> bytes:
        self._usable()
        n = -1 if n is None else n
        self.sim.device_call(self, "read", self.pos, n)
        end = self.length if n < 0 else min(self.length, self.pos + n)
        buf = self.data[self.pos : end] if self.pos < end else b""
        self.sim.event(f"d{self.index} read {self.pos} {n} -> {len(buf)}")
        if self.sim.watch is not None:
            self.sim.watch(self, self.pos, len(buf))
        self.pos += len(buf)
        self.sim.bytes_in_op += len(buf)
        self.sim.total_bytes += len(buf)
        if self.sim.bytes_in_op > self.sim.max_bytes:
            raise SimHang(f"more than {self.sim.max_bytes} bytes read in one operation")
        return bytes(buf)

    def readinto(self, b) -> int:
        buf = self.read(len(b))
        b[: len(buf)] = buf
        return len(buf)

    def readall(self) -> bytes:
        return self.read()

    def read1(self, n: int = -1) -> bytes:
        return self.read(n)

    def readinto1(self, b) -> int:
        return self.readinto(b)

    def isatty(self) -> bool:
        return False

    def tell(self) -> int:
        self._usable()
        return self.pos

    def readable(self) -> bool:
        return True

    def seekable(self) -> bool:
        return True

    def writable(self) -> bool:
        return True

    def fileno(self) -> int:
        raise io.UnsupportedOperation("fileno")

    def flush(self) -> None:
        pass

    @property
    def closed(self) -> bool:
        return self.is_closed

    # -- illegal operations, which have their usual effect
    def _illegal(self, what: str) -> None:
        self.sim.event(f"d{self.index} ILLEGAL {what}")
        self.sim.illegal.append(f"{what} on device {self.index} ({self.dev_name})")

    def write(self, data) -> int:
        self._illegal("write")
        self._usable()
        data = bytes(data)
        self.data = self.data[: self.pos] + data + self.data[self.pos + len(data) :]
        self.length = len(self.data)
        self.pos += len(data)
        return len(data)

    def writelines(self, lines) -> None:
        for line in lines:
            self.write(line)

    def truncate(self, size=None) -> int:
        self._illegal("truncate")
        self._usable()
        size = self.pos if size is None else size
        self.data = self.data[:size] + bytes(max(0, size - len(self.data)))
        self.length = size
        return size

    def close(self) -> None:
        self._illegal("close")
        self.is_closed = True

    def detach(self):
        self._illegal("detach")
        return self

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def __repr__(self) -> str:
        return f"<SimDisk {self.index} {self.dev_name} {self.length}>"


class SizedSimDisk(SimDisk):
    @property
    def size(self) -> int:
        return self.length


class NoneSizedSimDisk(SimDisk):
    size = None


def make_disk(sim: Sim, index: int, name: str, data: bytes, mode: int = 0) -> SimDisk:
    return (SimDisk, SizedSimDisk, NoneSizedSimDisk)[mode](sim, index, name, data)


# -- deterministic loop budget ------------------------------------------------------------------------------------

_current: Sim | None = None
_TOOL = 4
_installed = False


def set_current(sim: Sim | None) -> None:
    global _current
    _current = sim


def _on_jump(code, offset, dest):
    if "dissect/volume" not in code.co_filename:
        return sys.monitoring.DISABLE
    sim = _current
    if sim is not None:
        sim.jumps_in_op += 1
        if sim.jumps_in_op > sim.max_jumps:
            sim.jumps_in_op = 0
            raise SimHang(f"more than {sim.max_jumps} loop iterations in one operation")
    return None


def install_loop_budget() -> None:
    """Count backward jumps and branches executed by the code under test (deterministic, unlike a timer)."""
    global _installed
    if _installed:
        return
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "sim-loop-budget")
    mon.register_callback(_TOOL, mon.events.JUMP, _on_jump)
    mon.register_callback(_TOOL, mon.events.BRANCH, _on_jump)
    mon.set_events(_TOOL, mon.events.JUMP | mon.events.BRANCH)
    _installed = True
