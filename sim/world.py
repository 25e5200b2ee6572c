"""Base classes for simulated worlds: devices, expected volumes, helpers shared by the image writers."""
from __future__ import annotations

import random
from collections import Counter
from dataclasses import dataclass, field
from typing import Any, Callable

from sim.core import Violation


@dataclass
class Vol:
    """A volume the model expects the system to present."""

    key: str
    content: bytes  # everything that must be readable
    open: Callable[[Any], Any]  # system -> stream; raises when the system does not present the volume
    exact_end: bool = True  # the stream must end exactly at len(content)
    must: bool = True  # must open and read; otherwise an error is acceptable (but never wrong data)
    grain: int = 4096  # interesting alignment for the operation generator
    quirk: int | None = None  # wrong stream size that is a known finding
    quirk_sig: str = ""
    marks: list[int] = field(default_factory=list)  # offsets at which something changes


@dataclass
class Device:
    name: str
    data: bytes
    mode: int = 0  # 0: no size attribute, 1: size attribute, 2: size attribute that is None
    meta: list[tuple[int, int]] = field(default_factory=list)  # metadata regions (offset, length)


class World:
    """A set of devices plus what the model says must be observable through the real code."""

    kind = "?"

    def __init__(self, w: dict):
        self.w = w
        self.devices: list[Device] = []
        self.gone: list[Device] = []  # devices that belong here but are not handed over
        self.vols: list[Vol] = []
        self.probes: Counter = Counter()  # rare conditions this world contains
        self.known: dict[str, str] = {}  # signatures of known findings this world ran into

    def assemble(self, fhs: list) -> Any:
        raise NotImplementedError

    def parse(self, fh: Any) -> Any:
        """The library's own object for a member, which can be handed over in place of the device."""
        return fh

    def check_listing(self, system: Any) -> None:
        """Raise Violation when what the system reports differs from the model."""

    def survives(self, key: str, present: set[str]) -> bool:
        """Is everything of a volume (at least one complete copy) still there when only these devices are handed over?"""
        raise NotImplementedError

    def must_assemble_with(self, present: set[str]) -> bool:
        return any(self.survives(v.key, present) for v in self.vols)

    def shrinks(self) -> list[dict]:
        """Simpler world descriptions to try during minimisation."""
        return []


def expect(cond: bool, kind: str, message: str, sig: str | None = None) -> None:
    if not cond:
        raise Violation(kind, message, sig)


def extend_short(vol: Vol, stream: Any, known: dict[str, str]) -> bool:
    """Known finding: some streams end early. Extend such a stream where possible, so that the rest is examined as well."""
    if vol.quirk is None or len(vol.content) == vol.quirk or getattr(stream, "size", None) != vol.quirk:
        return True
    known[vol.quirk_sig] = f"stream of {vol.key} ends at {vol.quirk} instead of {len(vol.content)}"
    try:
        stream.size = len(vol.content)
    except Exception:
        return False
    return True


def blob(seed: int, tag: str, size: int) -> bytes:
    """Deterministic pseudo random bytes."""
    return random.Random(f"{seed}/{tag}").randbytes(size)


def put(buf: bytearray, offset: int, data: bytes) -> None:
    if offset < 0 or offset + len(data) > len(buf):
        raise AssertionError(f"put outside image: {offset}+{len(data)} > {len(buf)}")
    buf[offset : offset + len(data)] = data


def xor(*blocks: bytes) -> bytes:
    acc = 0
    for b in blocks:
        acc ^= int.from_bytes(b, "little")
    return acc.to_bytes(len(blocks[0]), "little")


def gf_mul2(block: bytes) -> bytes:
    n = len(block)
    v = int.from_bytes(block, "little")
    hi = int.from_bytes(b"\x80" * n, "little")
    carry = (v & hi) >> 7
    v = ((v & ~hi) << 1) ^ (carry * 0x1D)
    return v.to_bytes(n, "little")


def syndrome(blocks: list[bytes]) -> bytes:
    q = bytes(len(blocks[0]))
    for b in reversed(blocks):
        q = xor(gf_mul2(q), b)
    return q


# -- placement models, shared by the MD, DDF, Vinum and LVM writers -----------------------------------------------


def parity_row(level: int, layout: int, n: int, row: int) -> tuple[list[int], int, int | None]:
    """Return (members that hold data chunks in order, P member, Q member) for one stripe row."""
    if level == 4:
        return list(range(n - 1)), n - 1, None
    if level == 5:
        if layout == 4:
            p = 0
        elif layout == 5:
            p = n - 1
        elif layout in (0, 2):  # "left": parity walks from the last member to the first
            p = (n - 1) - (row % n)
        else:  # "right": parity walks from the first member to the last
            p = row % n
        if layout in (2, 3):  # "symmetric": data continues after the parity chunk, wrapping around
            order = [m % n for m in range(p + 1, p + n)]
        else:
            order = [m for m in range(n) if m != p]
        return order, p, None
    if layout >= 16:  # RAID 5 over the first n - 1 members, Q always on the last member
        order, p, _ = parity_row(5, layout - 16, n - 1, row)
        return order, p, n - 1
    if layout == 4:
        p, q = 0, 1
    elif layout == 5:
        p, q = n - 2, n - 1
    elif layout in (0, 2):
        p = (n - 1) - (row % n)
        q = (p + 1) % n
    elif layout in (1, 3, 8):
        p = row % n
        q = (p + 1) % n
    elif layout == 9:  # DDF N restart: the first row is D..D P Q
        p = (n - 1) - ((row + 1) % n)
        q = (p + 1) % n
    elif layout == 10:  # DDF N continue: Q sits before P
        p = (n - 1) - (row % n)
        q = (p - 1) % n
    else:
        raise AssertionError(layout)
    if layout in (2, 3):
        order = [m % n for m in range(q + 1, q + n - 1)]
    elif layout == 10:
        order = [m % n for m in range(p + 1, p + n - 1)]
    else:
        order = [m for m in range(n) if m not in (p, q)]
    return order, p, q


def place_parity(level: int, layout: int, n: int, chunk: int, rows: int, content: bytes) -> list[bytearray]:
    """Distribute content over n members with parity. len(content) must be rows * data members * chunk."""
    members = [bytearray(rows * chunk) for _ in range(n)]
    pos = 0
    for row in range(rows):
        order, p, q = parity_row(level, layout, n, row)
        blocks = []
        for m in order:
            b = content[pos : pos + chunk]
            pos += chunk
            blocks.append(b)
            members[m][row * chunk : (row + 1) * chunk] = b
        members[p][row * chunk : (row + 1) * chunk] = xor(*blocks)
        if q is not None:
            if layout in (8, 9, 10):  # DDF counts data members by their position
                by_member = dict(zip(order, blocks))
                qblocks = [by_member.get(m, bytes(chunk)) for m in range(n)]
            else:
                qblocks = blocks
            members[q][row * chunk : (row + 1) * chunk] = syndrome(qblocks)
    assert pos == len(content)
    return members


def raid10_capacity(n: int, near: int, far: int, rows: int) -> int:
    """Capacity in chunks of a RAID 10 set with the given number of chunk rows per member."""
    return (rows // far) * n // near


def place_raid10(n: int, near: int, far: int, offset: bool, far_sets: int, chunk: int, rows: int, content: bytes) -> list[bytearray]:
    members = [bytearray(rows * chunk) for _ in range(n)]
    if far_sets == 0:
        set_size = n
    elif far_sets == 1:
        set_size = n // far
    else:
        set_size = far * near
    last_start = (n // set_size - 1) * set_size
    last_size = set_size + n % set_size
    stride = 1 if offset else rows // far
    for c in range(len(content) // chunk):
        b = content[c * chunk : (c + 1) * chunk]
        for k in range(near):
            pos = c * near + k
            row, d = divmod(pos, n)
            if offset:
                row *= far
            members[d][row * chunk : (row + 1) * chunk] = b
            r = row
            for _ in range(1, far):
                s = d // set_size
                d += near
                if n % set_size and d > last_start:
                    d = (d - last_start) % last_size + last_start
                else:
                    d = d % set_size + set_size * s
                r += stride
                if (r + 1) * chunk <= rows * chunk:
                    members[d][r * chunk : (r + 1) * chunk] = b
    return members


def raid0_map(sizes: list[int], chunk: int, orig: bool = False) -> list[tuple[int, int]]:
    """Return the member and row of every chunk of a RAID 0 set, in array order."""
    rows = [s // chunk for s in sizes]
    out = []
    done = 0
    for level in sorted(set(rows)):
        members = [m for m, r in enumerate(rows) if r > done]
        if not members:
            continue
        base = len(out)
        for j in range((level - done) * len(members)):
            g = base + j
            m = members[(g if orig else j) % len(members)]
            out.append((m, done + j // len(members)))
        done = level
    return out


def place_raid0(sizes: list[int], chunk: int, content: bytes, orig: bool = False) -> list[bytearray]:
    members = [bytearray(s) for s in sizes]
    for i, (m, row) in enumerate(raid0_map(sizes, chunk, orig)):
        members[m][row * chunk : (row + 1) * chunk] = content[i * chunk : (i + 1) * chunk]
    return members
