"""Volume shadow copy writer model (whole block copy on write, changes to the snapshots themselves) and world."""
from __future__ import annotations

import struct
from random import Random
from uuid import UUID

from sim import sparse
from sim.core import Violation
from sim.world import Device, Vol, World, blob, expect, put

BLOCK = 0x4000
IDENT = bytes.fromhex("6b87083876c1484eb7ae04046e6cc752")
HEADER = 0x1E00


def gen(rng: Random, small: bool = False, big: bool = False) -> dict:
    nblocks = rng.randint(2, 10) if small else rng.choice([3, 8, 16, 30, 60])
    if big:
        nblocks = rng.choice([1 << 17, 1 << 18, 1 << 19]) + rng.randrange(1 << 16)
    tail = rng.choice([0, 0, 0, 512, 4096, 9000 // 512 * 512])
    nsnap = rng.randint(1, 3) if small else rng.choice([1, 2, 3, 4, 6, 10])
    hist: list[list] = []
    made = 0
    hot = rng.sample(range(nblocks), max(1, nblocks // rng.choice([1, 2, 4])) if not big else rng.choice([4, 20]))
    fixups = rng.choice([0, 0, 0.5, 1])
    while made < nsnap:
        for _ in range(rng.choice([0, 1, 3, 8, 20])):
            hist.append(["w", rng.choice(hot) if rng.random() < 0.8 else rng.randrange(nblocks)])
        if made > 1 and rng.random() < 0.15:
            hist.append(["del"])  # the oldest snapshot goes
        hist.append(["s"])
        made += 1
        if rng.random() < fixups:
            # sectors of the new snapshot change, not those of the volume
            for _ in range(rng.choice([1, 2, 5])):
                hist.append(["o", rng.choice(hot), rng.choice([1, 1 << 31, rng.getrandbits(32), 0xFF00, 0xFFFFFFFF])])
    for _ in range(rng.choice([0, 2, 5, 15])):
        hist.append(["w", rng.choice(hot)])
    w = {
        "kind": "vss",
        "cseed": rng.getrandbits(32),
        "nblocks": nblocks,
        "tail": tail,
        "big": big,
        "hist": hist,
        "order": rng.getrandbits(32),  # catalog order, placement in the store area
        "junk": rng.choice([0, 0, 0, 1, 40, 700, 1300]) if not small else rng.choice([0, 0, 1, 40]),
        "unused": rng.choice([0, 0, 1, 3, 124, 200]),
        "moved": rng.choice([0, 0, 0, 1, 4]),  # copies that were once elsewhere
        "zero": rng.choice([0, 0, 0, 0.1, 0.5]),  # share of the other blocks that both bitmaps leave out
        "prevmap": rng.random() < 0.4,
        "whole": rng.random() < 0.2,  # recorded volume size covers the store area as well
        "modes": [rng.choice([0, 0, 1, 2])],
    }
    w["shape"] = f"{nblocks}/{tail}/{''.join(h[0][0] for h in hist)}/{w['junk']}/{w['unused']}/{int(w['prevmap'])}{int(w['whole'])}{'/big' * big}"
    return w


def run_history(w: dict) -> tuple[dict[int, bytes], list[dict]]:
    """Play the history. Returns the final blocks and the stores, oldest first."""

    def current(b: int) -> bytes:
        return blocks[b] if b in blocks else sparse.stamp(tag, b * BLOCK, BLOCK)

    blocks: dict[int, bytes] = {}  # what was written
    if not w.get("big"):
        blocks = {i: blob(w["cseed"], f"b{i}", BLOCK) for i in range(w["nblocks"])}
    tag = sparse.tag_of(w["cseed"], "volume")
    version = 0
    stores: list[dict] = []
    for h in w["hist"]:
        if h[0] == "s":
            stores.append({"image": dict(blocks), "copied": {}, "over": {}, "time": 0x01D000000000000 + 10_000_000 * (version + 1) + len(stores)})
            version += 1
        elif h[0] == "del":
            if len(stores) > 1:
                stores.pop(0)
        elif h[0] == "o":
            b, mask = h[1], h[2]
            if b == 0:
                mask &= ~(1 << (HEADER // 512))
            if not stores or b >= w["nblocks"] or mask == 0:
                continue
            s = stores[-1]
            version += 1
            new = blob(w["cseed"], f"o{version}", BLOCK)
            data, masks = s["over"].get(b, (blob(w["cseed"], f"unused{version}", BLOCK), []))
            data = mixed(data, new, mask)
            s["over"][b] = (data, [*masks, mask])
            s["image"][b] = mixed(s["image"][b] if b in s["image"] else current(b), new, mask)
        else:
            b = h[1]
            if b >= w["nblocks"]:
                continue
            if stores and b not in stores[-1]["copied"]:
                stores[-1]["copied"][b] = current(b)
            version += 1
            blocks[b] = blob(w["cseed"], f"w{version}", BLOCK)
    return blocks, stores


def mixed(old: bytes, new: bytes, mask: int) -> bytes:
    out = bytearray(old)
    for i in range(32):
        if mask >> i & 1:
            out[i * 512 : (i + 1) * 512] = new[i * 512 : (i + 1) * 512]
    return bytes(out)


def list_blocks(offsets: list[int], record: int, payload: bytes) -> list[tuple[int, bytes]]:
    """Spread payload over linked metadata blocks."""
    out = []
    room = BLOCK - 128
    for i, at in enumerate(offsets):
        nxt = offsets[i + 1] if i + 1 < len(offsets) else 0
        head = IDENT + struct.pack("<IIQQQ", 1, record, i * BLOCK, at, nxt)
        if record != 2:
            head += struct.pack("<Q", len(payload) if i == 0 else 0)
        part = payload[i * room : (i + 1) * room]
        out.append((at, head.ljust(128, b"\0") + part.ljust(room, b"\0")))
    return out


def need_blocks(payload: bytes) -> int:
    return max(1, -(-len(payload) // (BLOCK - 128)))


def write_vss(w: dict) -> tuple[bytes, list[dict], list[tuple[int, int]]]:
    rng = Random(w["order"])
    blocks, stores = run_history(w)
    user = w["nblocks"] * BLOCK
    volsize = user - (BLOCK - w["tail"] if w["tail"] else 0)

    # first pass: how many store area blocks are needed
    plans = []
    for s in stores:
        ndesc = len(s["copied"]) + w["junk"] + w.get("moved", 0) + sum(len(m) for _, m in s["over"].values())
        nlist = need_blocks(bytes(32 * ndesc))
        plans.append({"list": nlist, "data": len(s["copied"]) + len(s["over"]), "ndesc": ndesc})
    nbits = -(-w["nblocks"] * 2 // 8) if w.get("big") else BLOCK - 128
    nmap = need_blocks(bytes(nbits))
    nentries = 2 * len(stores) + w["unused"]
    ncat = need_blocks(bytes(128 * (nentries + 1)))
    total = ncat + sum(p["list"] + p["data"] + 1 + 1 + 2 * nmap for p in plans) + 4
    slots = [user + i * BLOCK for i in range(total)]
    if rng.random() < 0.7:
        rng.shuffle(slots)
    if w.get("big"):
        img = sparse.Canvas(w["cseed"], "volume", user + total * BLOCK)
        for b, data in blocks.items():
            put(img, b * BLOCK, data)
    else:
        img = bytearray(b"".join(blocks[i] for i in range(w["nblocks"]))) + bytearray(blob(w["cseed"], "store area", total * BLOCK))
    meta = [(HEADER, 128)]

    def emit(items: list[tuple[int, bytes]]) -> None:
        for at, data in items:
            put(img, at, data)
            meta.append((at, BLOCK))

    dev_size = len(img)
    cat_at = [slots.pop() for _ in range(ncat)]
    seq = []  # catalog entries per store
    for s, plan in zip(stores, plans):
        s["id"] = rng.randbytes(16)
        s["copy"] = rng.randbytes(16)
        s["set"] = rng.randbytes(16)
        list_at = [slots.pop() for _ in range(plan["list"])]
        header_at, range_at = slots.pop(), slots.pop()
        maps_at = [slots.pop() for _ in range(nmap)]
        prevs_at = [slots.pop() for _ in range(nmap)] if w["prevmap"] else []
        map_at, prev_at = maps_at[0], prevs_at[0] if prevs_at else 0
        desc = []
        order = list(s["copied"])
        rng.shuffle(order)
        for i, b in enumerate(order):
            if i < w.get("moved", 0):
                desc.insert(rng.randrange(len(desc) + 1), struct.pack("<QQQII", b * BLOCK, 0x8000, slots[0], 0, 0))
            at = slots.pop()
            put(img, at, s["copied"][b])
            desc.append(struct.pack("<QQQII", b * BLOCK, at - user, at, 0, 0))
        for b, (data, masks) in s["over"].items():
            at = slots.pop()
            put(img, at, data)
            for mask in masks:
                desc.insert(rng.randrange(len(desc) + 1), struct.pack("<QQQII", b * BLOCK, 0, at, 2, mask))
        for _ in range(w["junk"]):
            # a released descriptor that still names a block
            desc.insert(rng.randrange(len(desc) + 1), struct.pack("<QQQII", rng.randrange(w["nblocks"]) * BLOCK, 0x8000, slots[0], rng.choice([4, 4, 6, 5]), rng.choice([0, 0xFFFFFFFF])))
        emit(list_blocks(list_at, 3, b"".join(desc)))
        s["ranges"] = cut_area(Random(f"{w['order']} {s['time']}"), user, total * BLOCK)
        emit(list_blocks([range_at], 5, b"".join(struct.pack("<QQQ", *x) for x in s["ranges"])))
        machine = rng.choice(["host", "WIN-0123456789A", "a.example.org"]).encode("utf-16-le")
        info = rng.randbytes(16) + s["copy"] + s["set"] + struct.pack("<IIII", 0x10, 1, 0x42000D, 0)
        info += (struct.pack("<H", len(machine)) + machine) * 2
        emit(list_blocks([header_at], 4, info))
        bits = bytearray(b"\xff" * nbits)
        prev = bytearray(b"\xff" * nbits)
        if prev_at:
            # either of the two bitmaps may have a block clear, not both
            for b in range(dev_size // BLOCK + 1) if not w.get("big") else [rng.randrange(w["nblocks"]) for _ in range(500)]:
                pick = rng.choice([bits, prev, None])
                if pick is not None and not (w.get("big") and (bits if pick is prev else prev)[b // 8] >> (b % 8) & 1 == 0):
                    pick[b // 8] &= ~(1 << (b % 8)) & 0xFF
        if s is stores[-1] and w.get("zero"):
            left_out(w, rng, stores, [bits, prev])
        if prev_at:
            emit(list_blocks(prevs_at, 6, bytes(prev)))
        emit(list_blocks(maps_at, 6, bytes(bits)))
        size = dev_size if w["whole"] else volsize
        s["size"] = size
        e2 = struct.pack("<QQ", 2, size) + s["id"] + struct.pack("<QQQ", 1, 0x40, s["time"])
        e3 = struct.pack("<QQ", 3, list_at[0]) + s["id"] + struct.pack("<QQQQQQ", header_at, range_at, map_at, 0x12345, plan["data"] * BLOCK, prev_at)
        seq.append([e2.ljust(128, b"\0"), e3.ljust(128, b"\0")])
    # any order of the stores, and of their entries as long as the first kind precedes the second
    queue = list(seq)
    if rng.random() < 0.8:
        rng.shuffle(queue)
    entries: list[bytes] = []
    style = rng.choice(["pairs", "types", "mixed"])
    if style == "pairs":
        entries = [e for q in queue for e in q]
    elif style == "types":
        entries = [q[0] for q in queue] + [q[1] for q in (rng.sample(queue, len(queue)))]
    else:
        pending = [list(q) for q in queue]
        while pending:
            q = rng.choice(pending)
            entries.append(q.pop(0))
            if not q:
                pending.remove(q)
    for _ in range(w["unused"]):
        entries.insert(rng.randrange(len(entries) + 1), struct.pack("<Q", 1).ljust(128, b"\0"))
    emit(list_blocks(cat_at, 2, b"".join(entries)))
    # the volume header lies in block 0, which no snapshot copy may hide
    ids = rng.randbytes(32)
    vol_head = IDENT + struct.pack("<IIQQQQQ", 1, 1, HEADER, 0, 0, cat_at[0], 0) + ids
    put(img, HEADER, vol_head.ljust(512, b"\0"))
    return sparse.done(img), stores, meta, ids


def cut_area(rng: Random, start: int, size: int) -> list[tuple[int, int, int]]:
    """The parts of the volume a store lies in: where, from which offset of the store on, how long."""
    cuts = sorted({0, *(rng.randrange(size // BLOCK) for _ in range(rng.choice([0, 0, 1, 3, 300])))})
    parts = [(start + a * BLOCK, (b - a) * BLOCK) for a, b in zip(cuts, [*cuts[1:], size // BLOCK])]
    rng.shuffle(parts)
    out, at = [], 0
    for where, length in parts:
        out.append((where, at, length))
        at += length
    return out


def left_out(w: dict, rng: Random, stores: list[dict], maps: list[bytearray]) -> None:
    """Blocks that do not belong to the newest snapshot: they read as zeros where no snapshot has a copy."""
    pick = range(1, w["nblocks"])
    if w.get("big"):
        pick = sorted({*stores[-1]["image"], *(rng.randrange(1, w["nblocks"]) for _ in range(8))} - {0})
    for b in pick:
        if b in stores[-1]["copied"] or rng.random() >= w["zero"]:
            continue
        for bits in maps:
            bits[b // 8] &= ~(1 << (b % 8)) & 0xFF
        for i, s in enumerate(stores):
            if not any(b in x["copied"] for x in stores[i:]):
                data, masks = s["over"].get(b, (b"", []))
                s["image"][b] = bytes(BLOCK)
                for mask in masks:
                    s["image"][b] = mixed(s["image"][b], data, mask)


def image_of(w: dict, s: dict, img: bytes) -> bytes:
    if w.get("big"):
        out = sparse.Canvas(w["cseed"], "volume", w["nblocks"] * BLOCK)
        for b, data in s["image"].items():
            put(out, b * BLOCK, data)
    else:
        out = bytearray(b"".join(s["image"][i] for i in range(w["nblocks"])))
    if 0 not in s["copied"] and not any(0 in x["copied"] for x in s["later"]):
        out[HEADER : HEADER + 512] = img[HEADER : HEADER + 512]
    return sparse.done(out)


def find_store(system, s: dict):
    found = [x for x in system.catalog.stores if x.creation_time == s["time"]]
    if len(found) != 1:
        raise Violation("listing", f"expected exactly one snapshot created at {s['time']:#x}, found {len(found)}")
    return found[0]


class VSSWorld(World):
    kind = "vss"

    def __init__(self, w: dict):
        super().__init__(w)
        img, self.stores, meta, self.ids = write_vss(w)
        self.devices = [Device("volume", img, w["modes"][0], meta)]
        for i, s in enumerate(self.stores):
            s["later"] = self.stores[i + 1 :]
            content = image_of(w, s, img)
            if not w["whole"]:
                content = content[: s["size"]] if not w.get("big") else sparse.Window(content, 0, s["size"])
            s["copies"] = len(s["copied"])
            self.vols.append(Vol(f"snap{i}", content, lambda sys_, s=s: find_store(sys_, s).open(), exact_end=not w["whole"], grain=BLOCK, marks=[b * BLOCK for b in s["image"]] if w.get("big") else []))
        if any(len(s["copied"]) + w["junk"] > 508 for s in self.stores):
            self.probes["vss_long_block_list"] += 1
        if 2 * len(self.stores) + w["unused"] > 126:
            self.probes["vss_long_catalog"] += 1

    def assemble(self, fhs: list):
        from dissect.volume.vss import VSS

        return VSS(fhs[0])

    def check_listing(self, system) -> None:
        want = [UUID(bytes_le=self.ids[:16]), UUID(bytes_le=self.ids[16:])]
        got = [system.volume_identifier, system.store_volume_identifier]
        expect(got == want, "listing", f"identifiers {got} of the volume, expected {want}")
        got = [s.creation_time for s in system.catalog.stores]
        want = [s["time"] for s in self.stores]
        expect(got == sorted(want), "listing", f"snapshots created at {got} reported, expected {want}")
        expect([s.index for s in system.catalog.stores] == list(range(len(want))), "listing", "snapshots are not numbered from the oldest to the newest")
        for s in self.stores:
            x = find_store(system, s)
            expect(x.copy_identifier == UUID(bytes_le=s["copy"]), "listing", "wrong copy identifier")
            expect(x.copy_set_identifier == UUID(bytes_le=s["set"]), "listing", "wrong copy set identifier")
            expect(x.size == s["size"], "listing", f"snapshot size {x.size} reported, expected {s['size']}")
            got = [(r.store_offset, r.relative_offset, r.size) for r in x.range_list.entries]
            expect(got == s["ranges"], "listing", f"store ranges {got[:8]} reported, expected {s['ranges'][:8]}")

    def shrinks(self) -> list[dict]:
        out = []
        for k, v in (("junk", 0), ("unused", 0), ("moved", 0), ("zero", 0), ("prevmap", False), ("whole", False), ("tail", 0)):
            if self.w.get(k, v) != v:
                out.append(dict(self.w, **{k: v}))
        h = self.w["hist"]
        for i in range(len(h)):
            rest = h[:i] + h[i + 1 :]
            if any(x[0] == "s" for x in rest):
                out.append(dict(self.w, hist=rest))
        return out
