"""Thin provisioning writer model (pool histories, btrees, superblock) and world."""
from __future__ import annotations

import struct
from random import Random

from sim import sparse
from sim.core import Violation
from sim.world import Device, Vol, World, blob, put

S = 512
MAGIC = 27022010


class Pool:
    """State of a thin pool, advanced by the operations of a history. Mirrors what dm-thin does to mappings and data."""

    def __init__(self, cseed: int, tag: str, bs: int, nblocks: int, alloc_seed: int):
        self.cseed = cseed
        self.tag = tag
        self.bs = bs
        self.nblocks = nblocks
        order = list(range(nblocks))
        Random(f"alloc{alloc_seed}").shuffle(order)
        self.free = order
        self.devs: dict[int, dict[int, tuple[int, int]]] = {}
        self.data: dict[int, bytes] = {}
        self.dead: list[int] = []
        self.time = 0
        self.writes = 0
        self.pending: list[int] = []  # blocks freed since the last commit, not reusable yet

    def refs(self, pb: int) -> int:
        return sum(1 for m in self.devs.values() for b, _ in m.values() if b == pb)

    def release(self, pb: int) -> None:
        if self.refs(pb) == 0:
            self.pending.append(pb)

    def apply(self, op: list) -> None:
        what = op[0]
        if what == "create":
            if op[1] not in self.devs:
                self.devs[op[1]] = {}
        elif what == "snap":
            if op[1] in self.devs and op[2] not in self.devs:
                self.time += 1
                self.devs[op[2]] = dict(self.devs[op[1]])
        elif what == "delete":
            m = self.devs.pop(op[1], None)
            if m is not None:
                self.dead.append(op[1])
                for pb in sorted({b for b, _ in m.values()}):
                    self.release(pb)
        elif what == "discard":
            m = self.devs.get(op[1])
            if m is not None:
                for vb in range(op[2], op[2] + op[3]):
                    old = m.pop(vb, None)
                    if old is not None:
                        self.release(old[0])
        elif what == "write":
            # [write, dev, vblock, count, part]: part is the fraction of the block that is written
            m = self.devs.get(op[1])
            if m is not None:
                for vb in range(op[2], op[2] + op[3]):
                    self.write(m, vb, op[4])
        elif what == "commit":
            self.commit()

    def commit(self) -> None:
        self.free = self.pending + self.free
        self.pending = []

    def write(self, m: dict, vb: int, part: int) -> None:
        old = m.get(vb)
        base = self.data.get(old[0], bytes(self.bs)) if old else bytes(self.bs)
        self.writes += 1
        new = blob(self.cseed, f"{self.tag}w{self.writes}", self.bs)
        if part < 16:
            cut = self.bs * part // 16
            new = new[:cut] + base[cut:]
        if old is not None and self.refs(old[0]) == 1:
            self.data[old[0]] = new
            return
        if not self.free:
            return  # pool is full, the write fails
        pb = self.free.pop()
        self.data[pb] = new
        m[vb] = (pb, self.time)
        if old is not None:
            self.release(old[0])

    def content(self, dev: int, size: int) -> bytes:
        out = bytearray(size)
        for vb, (pb, _) in self.devs[dev].items():
            off = vb * self.bs
            if off < size:
                n = min(self.bs, size - off)
                out[off : off + n] = self.data[pb][:n]
        return bytes(out)

    def data_image(self, filler: bytes) -> bytes:
        img = bytearray(filler)
        for pb, d in self.data.items():
            put(img, pb * self.bs, d)
        return bytes(img)


class MetaWriter:
    """Writes btrees into a metadata image. Nodes go to free blocks; the superblock is written last."""

    def __init__(self, mbs: int, nblocks: int, seed: int):
        self.mbs = mbs
        self.rng = Random(f"meta{seed}")
        self.img = bytearray(blob(seed, "meta", mbs * nblocks)) if self.rng.random() < 0.3 else bytearray(mbs * nblocks)
        order = list(range(1, nblocks))
        self.rng.shuffle(order)
        self.free = order
        self.used = 0

    def alloc(self) -> int:
        self.used += 1
        return self.free.pop()

    def node(self, flags: int, entries: list[tuple[int, bytes]], vsize: int, maxe: int) -> int:
        blk = self.alloc()
        buf = bytearray(self.mbs)
        struct.pack_into("<IIQIIII", buf, 0, self.rng.getrandbits(32), flags, blk, len(entries), maxe, vsize, 0)
        for i, (k, v) in enumerate(entries):
            struct.pack_into("<Q", buf, 32 + i * 8, k)
            buf[32 + maxe * 8 + i * vsize : 32 + maxe * 8 + (i + 1) * vsize] = v
        put(self.img, blk * self.mbs, bytes(buf))
        return blk

    def max_entries(self, vsize: int, fan: int) -> int:
        full = (self.mbs - 32) // (8 + vsize)
        full -= full % 3
        return full if not fan else max(3, min(full, fan))

    def tree(self, items: list[tuple[int, bytes]], vsize: int, fan: int) -> int:
        """Write a btree bottom up and return its root block."""
        maxe = self.max_entries(vsize, fan)
        level: list[tuple[int, int]] = []
        items = sorted(items)
        if not items:
            return self.node(2, [], vsize, maxe)
        i = 0
        while i < len(items):
            n = self.rng.randint(max(1, maxe // 2), maxe) if self.rng.random() < 0.7 else maxe
            part = items[i : i + n]
            level.append((part[0][0], self.node(2, part, vsize, maxe)))
            i += n
        imax = self.max_entries(8, fan)
        while len(level) > 1:
            up = []
            i = 0
            while i < len(level):
                n = self.rng.randint(max(2, imax // 2), imax)
                part = level[i : i + n]
                up.append((part[0][0], self.node(1, [(k, struct.pack("<Q", b)) for k, b in part], 8, imax)))
                i += n
            level = up
        return level[0][1]

    def commit(self, pool: Pool, fan: int, trans: int, flip: bool = True, vmap: list[int] | None = None, pmap: list[int] | None = None, held: int = 0) -> bytes:
        """Write all trees of a state; returns the new superblock, written to block 0 when flip is set."""
        roots = []
        details = []
        for dev, m in sorted(pool.devs.items()):
            leafs = [(vmap[vb] if vmap else vb, struct.pack("<Q", (pmap[pb] if pmap else pb) << 24 | (t & 0xFFFFFF))) for vb, (pb, t) in m.items()]
            roots.append((dev, struct.pack("<Q", self.tree(leafs, 8, fan))))
            details.append((dev, struct.pack("<QQII", len(m), trans, 0, pool.time)))
        map_root = self.tree(roots, 8, fan)
        det_root = self.tree(details, 24, fan)
        sb = struct.pack("<IIQ16sQIIQQ", 0x1234, 0, 0, bytes(16), MAGIC, 2, pool.time, trans, held)
        sb += bytes(256)
        sb += struct.pack("<QQIIQIII", map_root, det_root, pool.bs // S, self.mbs // S, len(self.img) // self.mbs, 0, 0, 0)
        if flip:
            self.img[0 : self.mbs] = sb.ljust(self.mbs, b"\0")
        return sb


def meta_blocks(pool: Pool, mbs: int, fan: int) -> int:
    """Generous estimate of the metadata blocks one commit needs."""
    maxe = max(3, min((mbs - 32) // 16, fan or 10**6))
    total = 8
    for m in pool.devs.values():
        total += 3 + 3 * (len(m) // max(1, maxe // 2) + 2)
    total += 6 * (len(pool.devs) // max(1, maxe // 3) + 2)
    return total


def gen_pool(rng: Random, small: bool = False) -> dict:
    """A pool description: geometry plus a history of operations."""
    spb = rng.choice([8, 8, 16, 32, 128, 24, 384]) if not small else rng.choice([8, 16])
    bs = spb * S
    nblocks = rng.randint(4, max(6, min(160, (3 << 20) // bs)))
    ids = rng.sample(range(0, 6), 3) + [rng.choice([7, 100, 0xFFFFFF, 4095])]
    vmax = rng.choice([8, 24, 60]) if spb < 100 else rng.choice([6, 12])
    far = rng.random() < 0.15
    if far:
        vmax = max(8, min(400, (4 << 20) // bs))
    ops: list[list] = [["create", ids[0]]]
    live = [ids[0]]
    for _ in range(rng.randint(3, 40)):
        r = rng.random()
        dev = rng.choice(live)
        if r < 0.1:
            new = rng.choice(ids)
            ops.append(["create", new])
            live.append(new)
        elif r < 0.25:
            new = rng.choice(ids)
            ops.append(["snap", dev, new])
            live.append(new)
        elif r < 0.32:
            ops.append(["delete", rng.choice(ids)])
        elif r < 0.45:
            ops.append(["discard", dev, rng.randrange(vmax), rng.randint(1, 4)])
        elif r < 0.52:
            ops.append(["commit"])
        else:
            ops.append(["write", dev, rng.randrange(vmax), rng.choice([1, 1, 2, 3, 6]), rng.choice([16, 16, 16, 1, 8])])
    sizes = {}
    for d in sorted(set(ids)):
        sizes[str(d)] = vmax * bs + rng.choice([0, 0, 0, S, bs // 2, -S, 2 * bs])
    return {
        "bs": bs,
        "nblocks": nblocks,
        "mbs": rng.choice([4096, 4096, 4096, 1024, 512]),
        "fan": rng.choice([0, 0, 3, 6, 9, 12]),
        "aseed": rng.getrandbits(32),
        "mseed": rng.getrandbits(32),
        "history": ops,
        "sizes": sizes,
        "held": rng.random() < 0.3,
        "early": rng.choice([0, 1, 2]),  # how many intermediate commits are written out before the last one
    }


def run_history(g: dict, cseed: int, tag: str) -> Pool:
    pool = Pool(cseed, tag, g["bs"], g["nblocks"], g["aseed"])
    for op in g["history"]:
        pool.apply(op)
    return pool


def build_pool(g: dict, cseed: int, tag: str = "") -> tuple[Pool, bytes, bytes, int]:
    """Run the history and return (final state, metadata image, data image, metadata bytes that hold nodes)."""
    snaps = []
    pool = Pool(cseed, tag, g["bs"], g["nblocks"], g["aseed"])
    commits = [i for i, op in enumerate(g["history"]) if op[0] == "commit"][-g["early"] :] if g["early"] else []
    need = 1
    for i, op in enumerate(g["history"]):
        pool.apply(op)
        if i in commits:
            need += meta_blocks(pool, g["mbs"], g["fan"])
            snaps.append({d: dict(m) for d, m in pool.devs.items()})
    pool.commit()
    need += meta_blocks(pool, g["mbs"], g["fan"])
    mw = MetaWriter(g["mbs"], need + 4, g["mseed"])
    final = pool.devs
    held = 0
    for t, devs in enumerate(snaps):
        pool.devs = devs
        sb = mw.commit(pool, g["fan"], t + 1, vmap=g.get("vmap"), pmap=g.get("pmap"), held=held)
        if g.get("held") and not held:
            # userspace holds a copy of this superblock, with the trees below it
            held = mw.alloc()
            put(mw.img, held * g["mbs"], sb.ljust(g["mbs"], b"\0"))
    pool.devs = final
    mw.commit(pool, g["fan"], len(snaps) + 1, vmap=g.get("vmap"), pmap=g.get("pmap"), held=held)
    if "vmap" in g:
        return pool, bytes(mw.img), big_data(g, pool, cseed), need
    data = pool.data_image(blob(cseed, f"{tag}data", g["nblocks"] * g["bs"]))
    return pool, bytes(mw.img), data, need


def big_data(g: dict, pool: Pool, cseed: int) -> sparse.Canvas:
    img = sparse.Canvas(cseed, "data", (max(g["pmap"]) + 1) * g["bs"])
    for pb, d in pool.data.items():
        put(img, g["pmap"][pb] * g["bs"], d)
    return img


def big_content(g: dict, pool: Pool, dev: int, size: int) -> sparse.Canvas:
    out = sparse.Canvas(0, "", size, zero=True)
    for vb, (pb, _) in pool.devs[dev].items():
        off = g["vmap"][vb] * g["bs"]
        n = min(g["bs"], size - off)
        if n > 0:
            put(out, off, pool.data[pb][:n])
    return out


def stretch(rng: Random, g: dict) -> dict:
    """The same pool with its blocks far apart, on both sides."""
    top = max(op[2] + op[3] for op in g["history"] if op[0] == "write") if any(op[0] == "write" for op in g["history"]) else 1
    top = max([top] + [op[2] + op[3] for op in g["history"] if op[0] == "discard"])
    span = min(sparse.scale(rng, g["bs"], 1 << 46), (1 << 40) - 1)
    vmap = sorted(rng.sample(range(span), top))
    if rng.random() < 0.5:  # runs of blocks that stay together
        base = sorted(rng.sample(range(0, span, 8), top // 4 + 1))
        vmap = [base[i // 4] + i % 4 for i in range(top)]
    span = min(sparse.scale(rng, g["bs"], 1 << 46), (1 << 39) - 1)
    pmap = rng.sample(range(span), g["nblocks"])
    sizes = {d: (vmap[-1] + 1) * g["bs"] + rng.choice([0, 0, S, 5 * g["bs"]]) for d in g["sizes"]}
    return dict(g, vmap=vmap, pmap=pmap, sizes=sizes)


class ThinWorld(World):
    kind = "thin"

    def __init__(self, w: dict):
        super().__init__(w)
        g = w["pool"]
        pool, meta, data, _ = build_pool(g, w["cseed"])
        self.pool = pool
        self.devices = [
            Device("metadata", meta, w["modes"][0], [(0, len(meta))]),
            Device("data", data, w["modes"][1]),
        ]
        for dev in sorted(pool.devs):
            size = max(S, g["sizes"][str(dev)])
            content = big_content(g, pool, dev, size) if "vmap" in g else pool.content(dev, size)
            marks = [g["vmap"][vb] * g["bs"] for vb in pool.devs[dev]] if "vmap" in g else []
            self.vols.append(Vol(f"thin{dev}", content, lambda s, dev=dev, size=size: s.open(dev, size), grain=g["bs"], marks=marks))
            self.vols.append(Vol(f"bare{dev}", content, lambda s, dev=dev: s.open(dev), exact_end=False, grain=g["bs"], marks=marks))

    def assemble(self, fhs: list):
        from dissect.volume.dm.thin import ThinPool

        # the two devices have fixed roles, whatever the order of the handles
        by_name = {f.dev_name: f for f in fhs}
        return ThinPool(by_name["metadata"], by_name["data"])

    def check_listing(self, system) -> None:
        for dev in sorted(set(self.pool.dead) - set(self.pool.devs)):
            try:
                system.open(dev, 4096)
            except Exception as e:
                if isinstance(e, (OSError, RecursionError)):
                    raise
                continue
            raise Violation("listing", f"deleted thin device {dev} can be opened")

    def shrinks(self) -> list[dict]:
        out = []
        g = self.w["pool"]
        h = g["history"]
        for n in (len(h) // 2, len(h) // 4, 1):
            if n < 1:
                continue
            for i in range(0, len(h), n):
                out.append(dict(self.w, pool=dict(g, history=h[:i] + h[i + n :])))
        for k, v in (("fan", 0), ("early", 0), ("mbs", 4096)):
            if g[k] != v:
                out.append(dict(self.w, pool=dict(g, **{k: v})))
        return out


def gen(rng: Random, small: bool = False, big: bool = False) -> dict:
    g = gen_pool(rng, small)
    if big:
        g = stretch(rng, g)
    kinds = sorted({op[0] for op in g["history"]})
    return {
        "kind": "thin",
        "cseed": rng.getrandbits(32),
        "pool": g,
        "modes": [rng.choice([0, 1, 2]), rng.choice([0, 1, 2])],
        "shape": f"{g['bs']}/{g['mbs']}/{g['fan']}/{g['early']}/{len(g['history']) // 8}/{''.join(k[0] for k in kinds)}" + "/big" * big,
    }
