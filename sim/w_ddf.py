"""SNIA DDF writer model and world."""
from __future__ import annotations

import struct
from datetime import datetime, timedelta, timezone
from random import Random

from sim import sparse
from sim.core import Violation
from sim.world import Device, Vol, World, blob, expect, parity_row, place_parity, place_raid0, place_raid10, put, raid10_capacity

# (primary level, qualifier) -> (level, layout used by the placement model)
LAYOUTS = {
    "raid0": (0x00, 0x00, 0, 0),
    "raid1": (0x01, None, 1, 0),
    "raid4": (0x04, 0x01, 4, 0),
    "raid5r0": (0x05, 0x00, 5, 1),
    "raid5rn": (0x05, 0x02, 5, 0),
    "raid5cn": (0x05, 0x03, 5, 2),
    "raid6r0": (0x06, 0x01, 6, 8),
    "raid6rn": (0x06, 0x02, 6, 9),
    "raid6cn": (0x06, 0x03, 6, 10),
    "raid1e": (0x11, 0x00, 10, 0x102),
    "raid10": (0x01, None, 10, None),
    "concat": (0x1F, 0x00, -1, 0),
}


def gen_group(rng: Random, gi: int, small: bool = False, kinds: list[str] | None = None, big: bool = False) -> dict:
    ss = rng.choice([512, 512, 512, 4096])
    npd = rng.randint(2, 8)
    nvd = rng.choice([1, 1, 2, 3, 4]) if not small else rng.choice([1, 2])
    used = [0] * npd  # blocks
    exclusive = [False] * npd
    vds = []
    for v in range(nvd):
        kind = rng.choice(kinds or list(LAYOUTS))
        free = [p for p in range(npd) if not exclusive[p]]
        if kind == "concat":
            free = [p for p in range(npd) if used[p] == 0 and not exclusive[p]]
        need = {"raid1": 2, "raid1e": 3, "raid4": 3, "raid6r0": 4, "raid6rn": 4, "raid6cn": 4, "raid10": 4, "raid0": 1, "concat": 1}.get(kind, 3)
        if len(free) < need:
            continue
        pec, sec = None, 1
        if kind == "raid1":
            pec = rng.choice([c for c in (2, 3) if c <= len(free)])
        elif kind == "raid10":
            opts = [(p, s) for p in (2, 3) for s in (2, 3) if p * s <= len(free)]
            pec, sec = rng.choice(opts)
        else:
            pec = rng.randint(need, len(free))
        members = rng.sample(free, pec * sec)
        strip_exp = rng.choice([3, 3, 4, 5]) if ss == 512 else rng.choice([0, 1, 2])
        strip_blocks = 1 << strip_exp
        rows = rng.randint(6, 40) if not small else rng.randint(4, 16)
        if big:
            rows += sparse.scale(rng, strip_blocks * ss)
        starts = []
        if kind == "concat":
            starts = [0] * pec
            rows = 0
            for m in members:
                used[m] = rng.randint(100, 700) if ss == 512 else rng.randint(16, 90)
                used[m] += sparse.scale(rng, ss) if big and rng.random() < 0.8 else 0
                exclusive[m] = True
        else:
            common = rng.random() < 0.5
            base = max(used[m] for m in members) + rng.choice([0, 0, 1, 8, 77])
            for m in members:
                start = base if common else used[m] + rng.choice([0, 0, 3, 16])
                starts.append(start)
            for m, s in zip(members, starts):
                used[m] = s + rows * strip_blocks
        vds.append(
            {
                "kind": kind,
                "members": members,
                "pec": pec,
                "sec": sec,
                "strip_exp": strip_exp,
                "rows": rows,
                "starts": starts,
                "srl": rng.choice([0, 0, 3]) if sec > 1 else rng.choice([0, 0, 0xFF, 2]),
                "seqno": rng.choice([0, 0, 0, 0xFF]),
                "guid": rng.randbytes(24).hex(),
                "name": rng.choice([f"vd{gi}{v}", f"data {v}", f"é{gi}{v}", "x" * 15 + str(v)]),
                "seq": rng.choice([0, 0, 0, 0xFFF0, 0x7FFFFFF0, 0xFFFFFF00]) + rng.randint(1, 100),
                "stamp": rng.choice([0, 1000, 1433808000, 0x7FFFFFFF, 0x80000001]),
                "bs": rng.choice([0xFFFF, ss]),
                "shave": rng.choice([0, 0, 0, 1, 3]) if kind not in ("concat",) else 0,
            }
        )
    refs = rng.sample(range(1, 0xFFFFFFF0), npd)
    return {
        "ss": ss,
        "big": big,
        "guid": rng.randbytes(24).hex(),
        "npd": npd,
        "refs": refs,
        "conf": [u + rng.choice([0, 5, 64]) if not x else u for u, x in zip(used, exclusive)],
        "bs": rng.choice([0xFFFF, ss]),
        "vds": vds,
        "mpe": rng.choice([8, 16, 64]),
        "slots": rng.randint(len(vds), len(vds) + 6),
        "slotseed": rng.getrandbits(32),
        "secondary": rng.random() < 0.5,
        "holes": rng.random() < 0.35,
        "gap": rng.randint(0, 9),
        "hdrlba": rng.choice([0, 0, 3]),
    }


def strip_bytes(g: dict, vd: dict) -> int:
    return (1 << vd["strip_exp"]) * g["ss"]


def vd_capacity(g: dict, vd: dict) -> int:
    """Capacity in bytes before shaving."""
    kind, pec, sec = vd["kind"], vd["pec"], vd["sec"]
    strip, rows = strip_bytes(g, vd), vd["rows"]
    if kind == "concat":
        return sum(g["conf"][m] for m in vd["members"]) * g["ss"]
    if kind == "raid0":
        return rows * strip * pec
    if kind == "raid1":
        return rows * strip
    if kind == "raid10":
        return rows * strip * sec
    if kind == "raid1e":
        return raid10_capacity(pec, 2, 1, rows) * strip
    if LAYOUTS[kind][2] == 6:
        return rows * strip * (pec - 2)
    return rows * strip * (pec - 1)


def vd_size(g: dict, vd: dict) -> int:
    """Recorded size: a controller may round the capacity down."""
    return vd_capacity(g, vd) - vd["shave"] * g["ss"]


def vd_members(g: dict, vd: dict, content: bytes) -> list[bytes]:
    kind, pec, sec = vd["kind"], vd["pec"], vd["sec"]
    strip, rows = strip_bytes(g, vd), vd["rows"]
    _, _, level, layout = LAYOUTS[kind]
    if kind == "concat":
        out, pos = [], 0
        for m in vd["members"]:
            n = g["conf"][m] * g["ss"]
            out.append(content[pos : pos + n])
            pos += n
        return out
    if kind == "raid0":
        return place_raid0([rows * strip] * pec, strip, content)
    if kind == "raid1":
        return [content] * pec
    if kind == "raid10":
        parts = place_raid0([rows * strip] * sec, strip, content)
        return [parts[i // pec] for i in range(pec * sec)]
    if kind == "raid1e":
        return place_raid10(pec, 2, 1, False, 0, strip, rows, content)
    return place_parity(level, layout, pec, strip, rows, content)


def header(g: dict, p: int, lba: int, kind: int, primary: int, secondary: int, sections: dict, total_rec: int, reclen: int, hseq: int = 1) -> bytes:
    h = bytearray(512)
    struct.pack_into(">II24s8sII", h, 0, 0xDE11DE11, 0, bytes.fromhex(g["guid"]), b"02.00.00", hseq, 12345)
    struct.pack_into(">QQ", h, 96, primary, secondary)
    h[112] = kind
    struct.pack_into(">IQ", h, 116, 0, lba)
    struct.pack_into(">HHHHHI", h, 128, 32, 32, 16, reclen, g["mpe"], 0)
    names = ["ctrl", "pdr", "vdr", "conf", "pdd"]
    for i, s in enumerate(names):
        off, length = sections[s]
        struct.pack_into(">II", h, 192 + 8 * i, off, length)
    for i in range(5, 8):
        struct.pack_into(">II", h, 192 + 8 * i, 0xFFFFFFFF, 0)
    _ = (p, total_rec)
    return bytes(h)


def config_record(g: dict, vd: dict, sec: int, seq: int | None = None, refs: list[int] | None = None, starts: list[int] | None = None) -> bytes:
    prl, rlq, _, _ = LAYOUTS[vd["kind"]]
    if rlq is None:
        rlq = 0 if vd["pec"] == 2 else 1
    r = bytearray(512 + 12 * g["mpe"])
    struct.pack_into(">II24sII", r, 0, 0xEEEEEEEE, 0, bytes.fromhex(vd["guid"]), vd.get("stamp", 1000), vd["seq"] if seq is None else seq)
    blocks = vd["rows"] << vd["strip_exp"]
    struct.pack_into(
        ">HBBBBBBQQHB", r, 64, vd["pec"], vd["strip_exp"], prl, rlq, vd["sec"], sec if vd["sec"] > 1 else vd.get("seqno", 0), vd["srl"],
        blocks, vd_size(g, vd) // g["ss"], vd["bs"], 0,
    )
    pec = vd["pec"]
    for i in range(g["mpe"]):
        if i < pec:
            k = sec * pec + i
            ref = refs[k] if refs else g["refs"][vd["members"][k]]
            st = starts[k] if starts else vd["starts"][k]
        else:
            ref, st = 0xFFFFFFFF, 0xFFFFFFFFFFFFFFFF
        struct.pack_into(">I", r, 512 + 4 * i, ref)
        struct.pack_into(">Q", r, 512 + 4 * g["mpe"] + 8 * i, st)
    return bytes(r)


def invalidated(g: dict, rng: Random) -> bytes:
    """A record that was taken out of use by overwriting its signature."""
    vd = dict(rng.choice(g["vds"]), seq=rng.choice([0, 1, 0xFFFFFFF0]))
    if rng.random() < 0.5:
        vd["guid"] = blob(0, "deleted", 24).hex()
    return b"\xff" * 4 + config_record(g, vd, 0, starts=[5] * len(vd["members"]))[4:]


def records_for(g: dict, p: int) -> list[bytes]:
    """Configuration records of the virtual disks that disk p takes part in."""
    out = []
    for vd in g["vds"]:
        if p in vd["members"]:
            out.append(config_record(g, vd, vd["members"].index(p) // vd["pec"]))
    return out


def vdr_entry(vd: dict, number: int) -> bytes:
    name = vd["name"].encode()
    vtype = 4 if not vd["name"].isascii() else 0
    return struct.pack(">24sH2xIBBB13x16s", bytes.fromhex(vd["guid"]), number, vtype, 0, 2, 0, name[:16])


def build_disk(g: dict, p: int, data: bytearray, cseed: int, tag: str, records: list[bytes] | None = None, vdrs: list[bytes] | None = None, states: dict[int, int] | None = None, hseq: int = 1) -> tuple[bytes, list]:
    ss = g["ss"]
    rng = Random(f"{g['slotseed']}/{p}")
    reclen = -(-(512 + 12 * g["mpe"]) // ss)
    records = records_for(g, p) if records is None else records
    nslots = max(g["slots"], len(records))
    slots: list[bytes | None] = [None] * nslots
    for r, i in zip(records, sorted(rng.sample(range(nslots), len(records)))):
        slots[i] = r
    conf = bytearray()
    for s in slots:
        if s is None:
            s = rng.choice([b"", b"\x88\x88\x88\x88", b"\x55\x55\x55\x55", invalidated(g, rng)])
        conf += s.ljust(reclen * ss, b"\xff")

    def table(sig: int, entries: list[bytes], cap: int) -> bytes:
        out = bytearray(struct.pack(">IIHH52x", sig, 0, len(entries), cap))
        pool: list[bytes | None] = list(entries)
        if g["holes"]:
            while len(pool) < min(cap, len(entries) + 3):
                pool.insert(rng.randrange(len(pool) + 1), None)
        for e in pool:
            out += b"\xff" * 64 if e is None else e
        out += b"\xff" * (64 * (cap - len(pool)))
        return bytes(out)

    pds = []
    for q in range(g["npd"]):
        pds.append(struct.pack(">24sIHHQ18sH4x", blob(q, g["guid"] + "pd", 24), g["refs"][q], 2 | 3 << 12, (states or {}).get(q, 1), g["conf"][q], b"path", g["bs"]))
    vdrs = [vdr_entry(vd, i) for i, vd in enumerate(g["vds"])] if vdrs is None else vdrs
    parts = [
        ("ctrl", struct.pack(">II24s8s16s", 0xAD111111, 0, b"CTRL" * 6, b"TYPE", b"PRODUCT").ljust(512, b"\xff")),
        ("pdr", table(0x22222222, pds, 16)),
        ("vdr", table(0xDDDDDDDD, vdrs, 16)),
        ("conf", bytes(conf)),
        ("pdd", struct.pack(">II24sIBB", 0x33333333, 0, blob(p, g["guid"] + "pd", 24), g["refs"][p], 0, 0).ljust(512, b"\xff")),
    ]
    order = list(range(5))
    rng.shuffle(order)
    sections, pos, body = {}, 1, {}
    for k in order:
        name, raw = parts[k]
        length = -(-len(raw) // ss)
        sections[name] = (pos, length)
        body[pos] = raw
        pos += length + rng.choice([0, 0, 2])
    primary = len(data) // ss + g["gap"]
    meta_len = pos
    secondary = primary + meta_len + 1 if g["secondary"] else 0xFFFFFFFFFFFFFFFF
    total = primary + meta_len + 1 + (meta_len + 1 if g["secondary"] else 0) + 1
    if isinstance(data, sparse.Canvas):
        img = data
        img.size = total * ss
    else:
        img = bytearray(total * ss)
        put(img, 0, bytes(data))
    put(img, primary * ss - g["gap"] * ss, blob(cseed, tag + "/gap", g["gap"] * ss))
    bases = [(primary, 1)] + ([(secondary, 2)] if g["secondary"] else [])
    meta = []
    for base, kind in bases:
        put(img, base * ss, header(g, p, base, kind, primary, secondary, sections, nslots, reclen, hseq))
        for off, raw in body.items():
            put(img, (base + off) * ss, raw)
        meta.append((base * ss, meta_len * ss))
    put(img, (total - 1) * ss, header(g, p, total - 1, 0, primary, secondary, sections, nslots, reclen, hseq))
    meta.append(((total - 1) * ss, 512))
    return sparse.done(img), meta


def group_data(g: dict, cseed: int, tag: str) -> tuple[list[bytes], list[bytearray]]:
    """Contents of the virtual disks, and the data areas of all disks."""
    if g.get("big"):
        return big_data(g, cseed, tag)
    disks = [bytearray(blob(cseed, f"{tag}/fill{p}", g["conf"][p] * g["ss"])) for p in range(g["npd"])]
    contents = []
    for v, vd in enumerate(g["vds"]):
        content = blob(cseed, f"{tag}/vd{v}", vd_capacity(g, vd))
        for k, data in enumerate(vd_members(g, vd, content)):
            put(disks[vd["members"][k]], vd["starts"][k] * g["ss"], bytes(data))
        contents.append(content[: vd_size(g, vd)])
    return contents, disks


def big_data(g: dict, cseed: int, tag: str) -> tuple[list, list]:
    disks = [sparse.Canvas(cseed, f"{tag}/fill{p}", g["conf"][p] * g["ss"]) for p in range(g["npd"])]
    contents = []
    for v, vd in enumerate(g["vds"]):
        content = sparse.Content(cseed, f"{tag}/vd{v}", vd_capacity(g, vd))
        kind, pec, sec, rows, strip = vd["kind"], vd["pec"], vd["sec"], vd["rows"], strip_bytes(g, vd)
        _, _, level, layout = LAYOUTS[kind]
        if kind == "concat":
            pos = 0
            for m in vd["members"]:
                n = g["conf"][m] * g["ss"]
                disks[m].holding(0, content, pos, n)
                pos += n
        else:
            if kind == "raid1e":
                maps = sparse.raid10_rows(pec, 2, 1, False, rows)
            elif kind in ("raid0", "raid1", "raid10"):
                one = sparse.raid0_rows([rows] * {"raid0": pec, "raid1": 1, "raid10": sec}[kind], False)
                maps = [one[k if kind == "raid0" else k // pec] for k in range(pec * sec)]
            else:
                maps = sparse.parity_rows(parity_row, level, layout, pec)
            for m, start, fn in zip(vd["members"], vd["starts"], maps):
                disks[m].chunked(start * g["ss"], rows, strip, content, fn)
        contents.append(sparse.Window(content, 0, vd_size(g, vd)))
    return contents, disks


def marks(g: dict, vd: dict) -> list[int]:
    out, pos = [], 0
    if g.get("big") and vd["kind"] == "concat":
        for m in vd["members"]:
            pos += g["conf"][m] * g["ss"]
            out.append(pos)
    return out


def find_vd(system, guid: str):
    found = [vd for conf in system.configurations for vd in conf.virtual_disks if vd.uuid == guid]
    if len(found) != 1:
        raise Violation("listing", f"expected exactly one virtual disk {guid}, found {len(found)}")
    return found[0]


class DDFWorld(World):
    kind = "ddf"

    def __init__(self, w: dict):
        super().__init__(w)
        for gi, g in enumerate(w["groups"]):
            contents, disks = group_data(g, w["cseed"], f"g{gi}")
            for p in range(g["npd"]):
                img, meta = build_disk(g, p, disks[p], w["cseed"], f"g{gi}d{p}")
                self.devices.append(Device(f"g{gi}d{p}", img, 0, meta))
            for v, vd in enumerate(g["vds"]):
                self.vols.append(Vol(f"g{gi}v{v}", contents[v], lambda s, vd=vd: find_vd(s, vd["guid"]).open(), grain=strip_bytes(g, vd), marks=marks(g, vd)))
        for j, d in enumerate(self.devices):
            d.mode = w["modes"][j % len(w["modes"])]
        order = w["order"]
        self.devices = [self.devices[j] for j in sorted(range(len(self.devices)), key=lambda j: order[j % len(order)] * 1000 + j)]

    def assemble(self, fhs: list):
        from dissect.volume.ddf.ddf import DDF

        ss = self.w["groups"][0]["ss"]
        return DDF(fhs, ss) if ss != 512 else DDF(fhs)

    def parse(self, fh):
        from dissect.volume.ddf.ddf import DDFPhysicalDisk

        return DDFPhysicalDisk(fh, self.w["groups"][0]["ss"])

    def survives(self, key: str, present: set[str]) -> bool:
        gi, v = (int(x) for x in key[1:].split("v"))
        vd = self.w["groups"][gi]["vds"][v]
        there = [f"g{gi}d{m}" in present for m in vd["members"]]
        pec = vd["pec"]
        if vd["kind"] in ("raid1", "raid10"):
            return all(any(there[i : i + pec]) for i in range(0, len(there), pec))
        if vd["kind"] == "raid1e":
            return all(there[k % pec] or there[(k + 1) % pec] for k in range(0, 2 * pec, 2))
        return all(there)

    def check_listing(self, system) -> None:
        vds = [vd for conf in system.configurations for vd in conf.virtual_disks]
        want = [(g, vd) for g in self.w["groups"] for vd in g["vds"]]
        expect(len(vds) == len(want), "listing", f"{len(vds)} virtual disks reported, expected {len(want)}")
        for g, vd in want:
            got = find_vd(system, vd["guid"])
            name = vd["name"].encode()[:16].decode()
            expect(got.name == name, "listing", f"name {got.name!r}, expected {name!r}")
            expect(got.size == vd_size(g, vd), "size", f"{vd['kind']} size {got.size}, expected {vd_size(g, vd)}")
            level = LAYOUTS[vd["kind"]][2]
            expect(got.level == level, "listing", f"{vd['kind']} level {got.level}, expected {level}")
            expect(got.stripe_size == strip_bytes(g, vd), "listing", f"{vd['kind']} strip size {got.stripe_size}, expected {strip_bytes(g, vd)}")
        if self.kind == "ddf":
            for g, vd in want:
                # seconds since 1980
                when = datetime(1980, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=vd["stamp"])
                got = find_vd(system, vd["guid"]).vdcr.timestamp
                expect(got == when, "listing", f"update time {got}, expected {when}")
            disks = sorted((disk.guid, disk.reference, disk.size, disk.block_size) for conf in system.configurations for disk in conf.physical_disks)
            pds = sorted((blob(p, g["guid"] + "pd", 24), g["refs"][p], g["conf"][p] * g["ss"], g["ss"]) for g in self.w["groups"] for p in range(g["npd"]))
            expect(disks == pds, "listing", f"physical disks {disks}, expected {pds}")

    def shrinks(self) -> list[dict]:
        out = []
        for i in range(len(self.w["groups"])):
            if len(self.w["groups"]) > 1:
                out.append(dict(self.w, groups=self.w["groups"][:i] + self.w["groups"][i + 1 :]))
            g = self.w["groups"][i]
            for v in range(len(g["vds"])):
                if len(g["vds"]) > 1:
                    g2 = dict(g, vds=g["vds"][:v] + g["vds"][v + 1 :])
                    out.append(dict(self.w, groups=[*self.w["groups"][:i], g2, *self.w["groups"][i + 1 :]]))
            for key, val in (("holes", False), ("gap", 0), ("secondary", False)):
                if g[key] != val:
                    out.append(dict(self.w, groups=[*self.w["groups"][:i], dict(g, **{key: val}), *self.w["groups"][i + 1 :]]))
        return out


def gen(rng: Random, small: bool = False, kinds: list[str] | None = None, big: bool = False) -> dict:
    groups = []
    while not groups or not any(g["vds"] for g in groups):
        groups = [gen_group(rng, 0, small, kinds, big)]
    if rng.random() < 0.2:
        g = gen_group(rng, 1, True, kinds)
        if g["vds"] and g["ss"] == groups[0]["ss"]:
            groups.append(g)
    return {
        "kind": "ddf",
        "cseed": rng.getrandbits(32),
        "groups": groups,
        "order": [rng.randint(0, 99) for _ in range(24)],
        "modes": [rng.choice([0, 0, 1, 2]) for _ in range(5)],
        "shape": "|".join(",".join(f"{v['kind']}/{v['pec']}x{v['sec']}/{v['strip_exp']}/{sum(map(bool, v['starts']))}" for v in g["vds"]) + f"/{g['ss']}/{g['holes']}{'/big' * g['big']}" for g in groups),
    }
