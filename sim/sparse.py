"""Very large devices and volumes. What they hold is computed when it is read."""
from __future__ import annotations

import struct
from bisect import bisect_right
from random import Random
from typing import Callable

SECTOR = 512


def tag_of(seed: int, name: str) -> int:
    return Random(f"{seed}/{name}").getrandbits(64)


def stamp(tag: int, pos: int, n: int) -> bytes:
    """Bytes that name the content they belong to and their place in it."""
    if n <= 0:
        return b""
    first = pos // SECTOR
    buf = b"".join(struct.pack("<QQ", tag ^ (s * 0x9E3779B97F4A7C15 & 0xFFFFFFFFFFFFFFFF), s) * 32 for s in range(first, (pos + n - 1) // SECTOR + 1))
    return buf[pos - first * SECTOR : pos - first * SECTOR + n]


class Readable:
    size = 0

    def __len__(self) -> int:
        return self.size

    def fetch(self, pos: int, n: int) -> bytes:
        raise NotImplementedError

    def __getitem__(self, key: slice) -> bytes:
        start, stop, step = key.indices(self.size)
        assert step == 1
        if stop - start > 64 << 20:
            raise AssertionError(f"the simulator was asked for {stop - start} bytes at once")
        return self.fetch(start, stop - start) if stop > start else b""


class Content(Readable):
    """What a client stored on a very large volume."""

    def __init__(self, seed: int, name: str, size: int):
        self.tag = tag_of(seed, name)
        self.size = size

    def fetch(self, pos: int, n: int) -> bytes:
        return stamp(self.tag, pos, n)


class Window(Readable):
    """A range of something else."""

    def __init__(self, base: Readable, start: int, size: int):
        assert 0 <= start <= start + size <= len(base)
        self.base = base
        self.start = start
        self.size = size

    def fetch(self, pos: int, n: int) -> bytes:
        return self.base.fetch(self.start + pos, n)


class Canvas(Readable):
    """A very large device (or volume): filler, areas that hold parts of volumes, and what was written on top of them."""

    def __init__(self, seed: int, name: str, size: int, zero: bool = False):
        self.tag = None if zero else tag_of(seed, name)
        self.size = size
        self.areas: list[tuple[int, int, Callable[[int, int], bytes | None]]] = []
        self.over: list[tuple[int, bytes]] = []

    def area(self, start: int, size: int, fn: Callable[[int, int], bytes | None]) -> None:
        """fn(pos, n) returns the bytes at pos, relative to the start of the area."""
        assert 0 <= start <= start + size <= self.size, (start, size, self.size)
        self.areas.append((start, start + size, fn))

    def holding(self, start: int, content: Readable, pos: int, n: int) -> None:
        """An area that holds n bytes of a volume, from pos on."""
        self.area(start, n, lambda at, k: content.fetch(pos + at, k))

    def chunked(self, start: int, rows: int, chunk: int, content: Readable, chunk_at: Callable[[int], int | None]) -> None:
        """An area of chunk sized rows. chunk_at(row) is the number of the volume's chunk in that row, if any."""
        tag = tag_of(start, "no data")

        def fn(at: int, k: int) -> bytes:
            out = []
            while k > 0:
                row, off = divmod(at, chunk)
                take = min(k, chunk - off)
                c = chunk_at(row)
                if c is None or c * chunk + off + take > content.size:
                    out.append(stamp(tag, at, take))
                else:
                    out.append(content.fetch(c * chunk + off, take))
                at += take
                k -= take
            return b"".join(out)

        self.area(start, rows * chunk, fn)

    def __setitem__(self, key: slice, data: bytes) -> None:
        start, stop, _ = key.indices(self.size)
        assert stop - start == len(data)
        self.over.append((start, bytes(data)))

    def fetch(self, pos: int, n: int) -> bytes:
        buf = bytearray(n) if self.tag is None else bytearray(stamp(self.tag, pos, n))
        for a, b, fn in self.areas:
            lo, hi = max(a, pos), min(b, pos + n)
            if lo < hi:
                buf[lo - pos : hi - pos] = fn(lo - a, hi - lo)
        for a, data in self.over:
            lo, hi = max(a, pos), min(a + len(data), pos + n)
            if lo < hi:
                buf[lo - pos : hi - pos] = data[lo - a : hi - a]
        return bytes(buf)


def done(img):
    return img if isinstance(img, Canvas) else bytes(img)


def raid0_rows(counts: list[int], orig: bool) -> list[Callable[[int], int | None]]:
    """For every member of a RAID 0 set: which chunk is in a row. counts: rows per member."""
    zones = []  # first row, members, first chunk
    prev = base = 0
    for level in sorted(set(counts)):
        members = [m for m, r in enumerate(counts) if r > prev]
        if members and level > prev:
            zones.append((prev, members, base))
            base += (level - prev) * len(members)
            prev = level
    firsts = [z[0] for z in zones]

    def for_member(m: int) -> Callable[[int], int | None]:
        def chunk_at(row: int) -> int | None:
            if row >= counts[m]:
                return None
            first, members, base = zones[bisect_right(firsts, row) - 1]
            i = members.index(m)
            if orig:
                i = (i - base) % len(members)
            return base + (row - first) * len(members) + i

        return chunk_at

    return [for_member(m) for m in range(len(counts))]


def raid0_marks(counts: list[int]) -> list[int]:
    """Chunk numbers at which zones begin."""
    out, prev, base = [], 0, 0
    for level in sorted(set(counts)):
        base += (level - prev) * sum(r > prev for r in counts)
        prev = level
        out.append(base)
    return out


def parity_rows(parity_row: Callable, level: int, layout: int, n: int) -> list[Callable[[int], int | None]]:
    ndata = n - (2 if level == 6 else 1)

    def for_member(m: int) -> Callable[[int], int | None]:
        def chunk_at(row: int) -> int | None:
            order, _, _ = parity_row(level, layout, n, row)
            return row * ndata + order.index(m) if m in order else None

        return chunk_at

    return [for_member(m) for m in range(n)]


def raid10_rows(n: int, near: int, far: int, offset: bool, rows: int) -> list[Callable[[int], int | None]]:
    """Without far sets."""
    stride = rows // far

    def for_member(m: int) -> Callable[[int], int | None]:
        def chunk_at(row: int) -> int | None:
            if offset:
                base, copy = divmod(row, far)
            else:
                copy, base = divmod(row, stride)
                if copy >= far:
                    return None
            return (base * n + (m - copy * near) % n) // near

        return chunk_at

    return [for_member(m) for m in range(n)]


def scale(rng: Random, unit: int, top: int = 1 << 44) -> int:
    """A number of units that makes something very large."""
    size = 1 << rng.choice([32, 33, 34, 36, 40, 41, 43])
    size = min(size, top) + rng.choice([0, rng.randrange(1 << 31), rng.randrange(1 << 28)])
    return max(1, size // unit)
