"""Damaged metadata: corruption of valid images where the code under test looks, and bounded work afterwards."""
from __future__ import annotations

import re
from collections import Counter
from random import Random

from sim.core import Violation
from sim.execute import Executor, stable

TEXT = re.compile(rb"[\x20-\x7e\n\t]{24,}")
TOKEN = re.compile(rb"[A-Za-z0-9_.-]+")
UNITS = [1, 512, 4096, 16384]


def openables(system) -> list:
    """Everything a system offers to open, whatever its type."""
    out = []
    for conf in getattr(system, "configurations", None) or []:
        out += list(conf.virtual_disks)
    if (vg := getattr(system, "volume_group", None)) is not None:
        out += list(vg.logical_volumes.values()) + list(vg.physical_volumes.values())
    out += list(getattr(system, "partitions", None) or [])
    if (catalog := getattr(system, "catalog", None)) is not None:
        out += list(catalog.stores)
    for layer in (getattr(system, "layers", None) or {}).values():
        out += openables(layer)
    return out


class DamageExecutor(Executor):
    """Nothing is compared here: any result and any ordinary error is fine, as long as the work is bounded."""

    def __init__(self, plan: dict, keep_log: bool = False, record: bool = False):
        super().__init__(plan, keep_log)
        self.touched: Counter = Counter()
        self.world.must_assemble = False
        images = [bytearray(d.data) for d in self.world.devices]
        ranges: list = []
        for c in plan.get("corrupt", []):
            ranges.append(apply(images, c))
        for image, disk, dev in zip(images, self.disks, self.world.devices):
            disk.data = bytes(image)
            dev.data = disk.data
        self.reads: list = []
        self.record = record
        self.ranges = ranges

    def run(self):
        hits = set()
        reads = self.reads

        def watch(dev, pos, n):
            if self.record:
                reads.append((dev.index, pos, n, self.sim.op))
            for i, r in enumerate(self.ranges):
                if r is not None and r[0] == dev.index and pos < r[1] + r[2] and r[1] < pos + n:
                    hits.add(i)

        self.sim.watch = watch
        out = super().run()
        for i in sorted(hits):
            self.sim.fired[self.plan["corrupt"][i]["what"]] += 1
        out.stats["hits"] = len(hits)
        out.stats["errors_ordinary"] = self.errors_seen
        out.known = {}
        return out

    def guarded(self, what: str, fn, must: bool = True):
        try:
            return super().guarded(what, fn, False)
        except Violation as v:
            if v.kind == "recursion":
                raise
            return False, None  # the model misses something, which is no wonder here

    def op_open(self, stid: str, sid: str, key: str) -> None:
        vol = self.vols.get(key)
        self.streams.pop(stid, None)
        if sid not in self.systems or vol is None:
            return
        ok, obj = self.guarded(f"opening {key}", lambda: vol.open(self.systems[sid]), False)
        if ok and obj is not None:
            self.streams[stid] = obj
            self.sim.event(f"opened {stid} {key}")

    def op_touch(self, stid: str, pos: int, n: int) -> None:
        obj = self.streams.get(stid)
        if obj is not None:
            self.touch(obj, pos, n)

    def touch(self, obj, pos: int, n: int) -> None:
        def go() -> bytes:
            obj.seek(pos)
            return obj.read(n)

        ok, got = self.guarded("reading", go, False)
        if ok and isinstance(got, (bytes, bytearray, memoryview)):
            self.bytes_checked += len(got)
            self.sim.event(f"got {stable(bytes(got))}")

    def op_walk(self, sid: str, k: int, pos: int, n: int) -> None:
        if sid not in self.systems:
            return
        ok, items = self.guarded("listing", lambda: openables(self.systems[sid]), False)
        if not ok or not items:
            return
        item = items[k % len(items)]
        ok, obj = self.guarded("opening", lambda: item.open(), False)
        if ok and obj is not None:
            self.touch(obj, pos, n)


def apply(images: list[bytearray], c: dict):
    """Apply one corruption. Returns the changed range (device, position, length), if any."""
    dev = c["dev"]
    image = images[dev]
    pos = c["pos"]
    if "hex" in c:
        data = bytes.fromhex(c["hex"])
    elif "sdev" in c:
        data = bytes(images[c["sdev"]][c["spos"] : c["spos"] + c["n"]])
    else:
        data = bytes([c["fill"]]) * c["n"]
    data = data[: max(0, len(image) - pos)]
    if not data:
        return None
    image[pos : pos + len(data)] = data
    return dev, pos, len(data)


def base_ops(rng: Random, world) -> list[list]:
    ops: list[list] = [["asm", "s0", 0]]
    vols = list(world.vols)
    rng.shuffle(vols)
    for i, v in enumerate(vols[: rng.choice([1, 2, 4])]):
        ops.append(["open", f"f{i}", "s0", v.key])
        for _ in range(rng.choice([1, 2, 3])):
            ops.append(["touch", f"f{i}", rng.choice([0, rng.randrange(len(v.content) + 1)]), rng.choice([1, 512, 5000, 65536])])
    for _ in range(rng.choice([1, 3])):
        ops.append(["walk", "s0", rng.randrange(64), rng.choice([0, 0, 5000, 100000, 1 << 24]), rng.choice([512, 5000])])
    return ops


def regions(reads: list) -> list[tuple[int, int, int]]:
    """Distinct places the code looked at, small ones first (those are metadata in all likelihood)."""
    seen = {}
    for dev, pos, n, op in reads:
        if n > 0:
            seen[(dev, pos, n)] = min(op, seen.get((dev, pos, n), 1 << 30))
    return [k for k, _ in sorted(seen.items(), key=lambda kv: (kv[1] != 0, kv[0]))]


def gen(rng: Random, plan: dict) -> list[dict]:
    """Corruptions for a plan, aimed at what its undamaged run reads."""
    ex = DamageExecutor(dict(plan, corrupt=[]), record=True)
    images = [bytes(d.data) for d in ex.disks]
    ex.run()
    meta = regions([r for r in ex.reads if r[3] == 0])
    every = regions(ex.reads)
    if not every:
        return []
    out: list[dict] = []
    named = any(b"logical_volumes" in image for image in images)
    kinds = ["names"] if named and rng.random() < 0.3 else rng.sample(["bits", "field", "pointer", "copy", "wipe", "dup", "text", "text", "names", "names", "struct", "struct", "struct"], rng.randint(1, 4))
    for _ in range(rng.choice([1, 1, 2, 3, 5, 12])):
        kind = rng.choice(kinds)
        pool = meta if meta and rng.random() < 0.7 else every
        dev, pos, n = rng.choice(pool)
        n = min(n, len(images[dev]) - pos)
        if n <= 0:
            continue
        made = MAKERS[kind](rng, images, pool, dev, pos, n)
        for c in made if isinstance(made, list) else [made] if made else []:
            c["what"] = kind
            out.append(c)
    return out


def make_bits(rng, images, pool, dev, pos, n):
    at = pos + rng.randrange(n)
    return {"dev": dev, "pos": at, "hex": f"{images[dev][at] ^ rng.choice([1, 2, 4, 8, 16, 32, 64, 128, 255]):02x}"}


def slot(rng, n: int, width: int) -> int:
    """An aligned place in a region, biased to its start (headers)."""
    count = max(1, n // width)
    head = rng.choice([n, n, 512, 128, 64])
    return rng.randrange(min(count, max(1, head // width))) * width


def make_field(rng, images, pool, dev, pos, n):
    width = rng.choice([1, 2, 4, 4, 8, 8])
    if n < width:
        return None
    at = pos + slot(rng, n, width)
    order = rng.choice(["little", "little", "little", "big"])
    old = int.from_bytes(images[dev][at : at + width], order)
    top = 1 << (8 * width)
    value = rng.choice(
        [0, 0, 1, 2, 3, 5, 7, 8, 16, 127, 128, 255, 256, 512, 4096, 65535, 65536, 1 << 20, 1 << 31, top - 1, top - 2, top >> 1, (top >> 1) - 1,
         old + 1, old - 1, old * 2, old // 2, old + 8, old - 8, old << 8, old ^ (top >> 1)]
    )
    return {"dev": dev, "pos": at, "hex": (value % top).to_bytes(width, order).hex()}


def make_pointer(rng, images, pool, dev, pos, n):
    """Redirect what may be a pointer to a place that is in use, often the place it is stored in."""
    width = rng.choice([4, 8])
    if n < width:
        return None
    order = rng.choice(["little", "little", "little", "big"])
    at = pos + slot(rng, n, rng.choice([2, 4, 8]))
    for _ in range(8):
        old = int.from_bytes(images[dev][at : at + width], order)
        if rng.random() < 0.2 or (old and old <= len(images[dev])):
            break
        at = pos + slot(rng, n, rng.choice([2, 4, 8]))
    if at + width > len(images[dev]):
        return None
    tdev, tpos, _ = rng.choice(pool) if rng.random() < 0.5 else (dev, pos, n)
    if rng.random() < 0.3:
        # take over the same field of another place, which makes two chains meet
        if tpos + at - pos + width <= len(images[tdev]):
            return {"dev": dev, "pos": at, "sdev": tdev, "spos": tpos + at - pos, "n": width}
    value = tpos // rng.choice(UNITS) + rng.choice([0, 0, 0, 1])
    if rng.random() < 0.2:
        value -= int.from_bytes(images[dev][at : at + width], order)
    return {"dev": dev, "pos": at, "hex": (value % (1 << (8 * width))).to_bytes(width, order).hex()}


# Structures that can be found by their contents: magic, its place in the structure, places and width of numbers in it, unit of
# what points to another structure, byte order
STRUCTS = [
    (bytes.fromhex("6b87083876c1484eb7ae04046e6cc752"), 0, [(20, 4), (24, 8), (32, 8), (40, 8), (40, 8), (48, 8), (56, 8), (128, 8), (136, 8)], 1, "little"),
    (b"\x55\xaa", 510, [(446 + 16 * i + o, w) for i in range(4) for o, w in ((4, 1), (8, 4), (12, 4))], 512, "little"),
    (b"EFI PART", 0, [(12, 4), (24, 8), (72, 8), (80, 4), (84, 4)], 512, "little"),
    (b"LABELONE", 0, [(8, 8), (20, 4), (32 + 32, 8), (32 + 40, 8), (32 + 48, 8), (32 + 56, 8), (32 + 72, 8), (32 + 80, 8), (32 + 88, 8)], 1, "little"),
    (b" LVM2 x[5A%r0N*>", 4, [(20, 4), (24, 8), (32, 8), (40, 8), (48, 8), (56, 4), (60, 4), (64, 8), (72, 8)], 1, "little"),
    (b"\xfc\x4e\x2b\xa9", 0, [(4, 4), (8, 4)] + [(o, 4) for o in range(64, 200, 4)] + [(o, 2) for o in range(256, 272, 2)], 512, "little"),
    (b"\xde\x11\xde\x11", 0, [(o, 2) for o in range(128, 138, 2)] + [(134, 2), (136, 2), (136, 2), (220, 4), (220, 4), (216, 4)] + [(o, 4) for o in range(192, 232, 4)] + [(96, 8), (104, 8)], 512, "big"),
    (b"\x22\x22\x22\x22", 0, [(8, 2), (10, 2)], 512, "big"),
    (b"\xdd\xdd\xdd\xdd", 0, [(8, 2), (10, 2)], 512, "big"),
    (b"\xee\xee\xee\xee", 0, [(o, w) for w in (1, 2, 4, 8) for o in range(32, 112, w)], 512, "big"),
    (b"PM", 0, [(4, 4), (8, 4), (12, 4)], 1, "big"),
    (b"\x57\x45\x56\x82", 0, [(o, 2) for o in range(136, 148, 2)] + [(o, 4) for o in range(40, 300, 4)], 512, "little"),
    (bytes.fromhex("ba529c0100000000"), 32, [(o, w) for w in (4, 8) for o in range(40, 320, w)], 4096, "little"),
]


def find_struct(rng, images):
    """A random structure of a random sort: (device, position, numbers, unit, byte order, positions of all structures of that sort)."""
    for sort in rng.sample(STRUCTS, len(STRUCTS)):
        magic, off, numbers, unit, order = sort
        found = []
        for dev, image in enumerate(images):
            at = image.find(magic)
            while at >= 0:
                if (at - off) % 512 == 0 and at >= off:
                    found.append((dev, at - off))
                at = image.find(magic, at + 1)
        if found:
            return (*rng.choice(found), numbers, unit, order, found)
    return None


def make_struct(rng, images, pool, dev, pos, n):
    """Change numbers of structures that are recognised by their magic, or of tree nodes."""
    got = find_struct(rng, images)
    if got is None:
        if n < 512:
            return None
        # a tree node, in all likelihood
        numbers = [(4, 4), (16, 4), (20, 4), (24, 4)] + [(o, 8) for o in range(32, min(n, 1024), 8)] * 2 + [(o, 8) for o in range(32 + 252 * 8, min(n, 32 + 256 * 8), 8)] * 20
        unit, order, found = n, "little", [p[:2] for p in pool if p[2] == n]
    else:
        dev, pos, numbers, unit, order, found = got
        if unit == 512 and rng.random() < 0.15:
            # all entries of all partition tables in a chain point to the next
            return [
                {"dev": d, "pos": p + 446 + 16 * k, "sdev": d, "spos": p + 446 + 16, "n": 16}
                for d, p in found[:40]
                if images[d][p + 510 : p + 512] == b"\x55\xaa"
                for k in (2, 3)
            ]
    out = []
    if rng.random() < 0.15:
        # extreme values in all structures of the sort
        for at, width in rng.sample(numbers, min(len(numbers), rng.randint(1, 4))):
            value = rng.choice([0, 1, 1, (1 << 8 * width) - 1, (1 << 8 * width) - 1, (1 << 8 * width - 1) - 1])
            out += [{"dev": d, "pos": p + at, "hex": value.to_bytes(width, order).hex()} for d, p in found[:24]]
        return out
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        at, width = rng.choice(numbers)
        top = 1 << (8 * width)
        old = int.from_bytes(images[dev][pos + at : pos + at + width], order)
        if rng.random() < 0.5:
            _, other = rng.choice(found) if rng.random() < 0.6 else (dev, pos)
            value = other // unit - (rng.choice([0, found[0][1] // unit]))
        elif width == 1:
            value = rng.choice([0x05, 0x0F, 0x85, 0xEE, 0xA5, 0, 1, 2, 31, 255])
        else:
            value = rng.choice([0, 0, 1, 1, 2, 3, top - 1, top - 1, top >> 1, 1 << 16, old + 1, old - 1, old * 2, old ^ (top >> 1), 100000, 65535])
        out.append({"dev": dev, "pos": pos + at, "hex": (value % top).to_bytes(width, order).hex()})
    return out


def make_copy(rng, images, pool, dev, pos, n):
    sdev, spos, sn = rng.choice(pool)
    size = min(n, sn)
    if rng.random() < 0.5:
        size = min(size, rng.choice([64, 512, 4096]))
    return {"dev": dev, "pos": pos, "sdev": sdev, "spos": spos, "n": size}


def make_wipe(rng, images, pool, dev, pos, n):
    unit = rng.choice([16, 64, 512, 4096])
    at = pos + slot(rng, n, unit)
    return {"dev": dev, "pos": at, "fill": rng.choice([0, 0, 255, 0x20, 0x41]), "n": unit}


def make_dup(rng, images, pool, dev, pos, n):
    unit = rng.choice([8, 16, 16, 32, 64, 128])
    if n < 2 * unit:
        return None
    base = rng.choice([0, 0, 0, 446]) if unit == 16 and n >= 512 else 0
    count = max(2, min((n - base) // unit, 4 if base else 1 << 30))
    a, b = rng.randrange(count), rng.randrange(count)
    return {"dev": dev, "pos": pos + base + a * unit, "sdev": dev, "spos": pos + base + b * unit, "n": unit}


def make_text(rng, images, pool, dev, pos, n):
    """Change a word or a number in a text, keeping its length."""
    for _ in range(6):
        data = images[dev][pos : pos + n]
        spans = [m for m in TEXT.finditer(data)]
        if spans:
            break
        dev, pos, n = rng.choice(pool)
    else:
        return None
    m = rng.choice(spans)
    text = m.group()
    base = pos + m.start()
    toks = list(TOKEN.finditer(text))
    if not toks:
        return None
    t = rng.choice(toks)
    word = t.group()
    how = rng.random()
    quoted = [x for x in toks if x.start() and text[x.start() - 1 : x.start()] == b'"' and text[x.end() : x.end() + 1] == b'"']
    if how < 0.4 and quoted and word:
        # one name for another
        t = rng.choice(quoted)
        names = {x.group() for x in quoted} | {x.group() for x in toks if text[x.end() : x.end() + 2] == b" {"}
        new = rng.choice(sorted(names))
        return splice(text, base, dev, t.start(), t.end(), new)
    if how < 0.7:
        nums = [x for x in toks if x.group().isdigit()]
        if nums:
            t = rng.choice(nums)
            old = int(t.group()[:18])
            new = str(rng.choice([0, 1, 2, 7, old + 1, max(0, old - 1), old * 2, 10**9, 10**12, 99999999999999999999])).encode()
            if rng.random() < 0.15:
                new = b"-" + new
            return splice(text, base, dev, t.start(), t.end(), new)
    if how < 0.85:
        a, b = rng.choice(toks), rng.choice(toks)
        return splice(text, base, dev, a.start(), a.end(), b.group())
    lines = [x for x in re.finditer(rb"[^\n]*\n", text)]
    if not lines:
        return None
    a, b = rng.choice(lines), rng.choice(lines)
    return splice(text, base, dev, a.start(), a.end(), b.group() if rng.random() < 0.6 else b"")


NAMED = re.compile(rb"([A-Za-z0-9_.-]+) \{")


def make_names(rng, images, pool, dev, pos, n):
    """Let logical volumes refer to others, or to themselves, in a metadata text."""
    for _ in range(6):
        spans = [m for m in TEXT.finditer(images[dev][pos : pos + n]) if b"logical_volumes" in m.group()]
        if spans:
            break
        dev, pos, n = rng.choice(pool)
    else:
        return None
    m = rng.choice(spans)
    text = m.group()
    at = text.find(b"logical_volumes")
    names = [x.group(1) for x in NAMED.finditer(text, at + 18) if not x.group(1).startswith(b"segment")]
    if not names:
        return None
    one = rng.choice(names) if rng.random() < 0.5 else None
    out, shift = text, 0
    for x in list(re.finditer(rb'(")([^"\n]+)"', text[at:])):
        if x.group(2) not in names or rng.random() < 0.2:
            continue
        owner = [y.group(1) for y in NAMED.finditer(text, at + 18, at + x.start()) if y.group(1) in names]
        new = one or (owner[-1] if owner and rng.random() < 0.6 else rng.choice(names))
        lo, hi = at + x.start(2) + shift, at + x.end(2) + shift
        out = out[:lo] + new + out[hi:]
        shift += len(new) - len(x.group(2))
    if out == text:
        return None
    # the rest of the text moves; comments and empty lines make room
    if shift > 0:
        for line in sorted(re.findall(rb"\t*(?:id|creation_host|creation_time|description|device|allocation_policy) = [^\n]*\n|\n(?=\n)", out), key=len, reverse=True):
            if not line.strip().startswith((b"id", b"device")) and len(out) > len(text):
                out = out.replace(line, b"", 1)
    out = (out + b"\n" * max(0, len(text) - len(out)))[: len(text)]
    # every copy of the metadata is damaged the same way
    found = []
    for d, image in enumerate(images):
        p = image.find(text[:2000])
        while p >= 0:
            found.append({"dev": d, "pos": p, "hex": out.hex()})
            p = image.find(text[:2000], p + 1)
    return found


def splice(text: bytes, base: int, dev: int, lo: int, hi: int, new: bytes) -> dict:
    """Replace part of a text; what follows on moves, within the text."""
    out = text[:lo] + new + text[hi:]
    if len(out) < len(text):
        out += b"\n" * (len(text) - len(out))
    out = out[: len(text)]
    end = len(text)
    while end > lo and out[end - 1] == text[end - 1]:
        end -= 1
    return {"dev": dev, "pos": base + lo, "hex": out[lo:end].hex()}


MAKERS = {
    "bits": make_bits, "field": make_field, "pointer": make_pointer, "copy": make_copy, "wipe": make_wipe, "dup": make_dup, "text": make_text,
    "struct": make_struct, "names": make_names,
}
