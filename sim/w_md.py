"""Linux MD writer model and world."""
from __future__ import annotations

import struct
from datetime import datetime, timedelta, timezone
from random import Random
from uuid import UUID

from sim import sparse
from sim.core import Violation
from sim.world import (
    Device,
    Vol,
    World,
    blob,
    expect,
    parity_row,
    place_parity,
    place_raid0,
    place_raid10,
    put,
    raid10_capacity,
)

MAGIC = 0xA92B4EFC
S = 512
R5_LAYOUTS = [0, 1, 2, 3, 4, 5]
R6_LAYOUTS = [0, 1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 18, 19, 20]


def gen_array(rng: Random, idx: int, level: int | None = None, small: bool = False, ver: str | None = None) -> dict:
    level = rng.choice([-1, 0, 0, 0, 1, 4, 5, 5, 5, 6, 6, 6, 10, 10, 10]) if level is None else level
    ver = ver or rng.choice(["0.90", "1.0", "1.1", "1.2", "1.2"])
    chunk = rng.choice([4096, 4096, 4096, 8192, 8192, 16384, 65536])
    rows = rng.randint(4, 20) if chunk == 65536 else rng.randint(12, 60)
    if small:
        chunk, rows = rng.choice([4096, 8192]), rng.randint(8, 24)
    more = 0
    if rng.random() < 0.04:  # many members
        chunk, rows, more = 4096, rng.randint(8, 14), rng.randint(6, 12)
    layout = 0
    if level == -1:
        n = rng.randint(1, 5) + more
        chunk = rng.choice([0, chunk])
    elif level == 0:
        n = rng.randint(1, 6) + more
        if rng.random() < 0.2:
            chunk = 4096 * rng.choice([3, 5, 6, 7])
            rows = rng.randint(8, 20)
    elif level == 1:
        n = rng.randint(1, 4) + more
        chunk = 0
    elif level == 4:
        n = rng.randint(3, 6) + more
    elif level == 5:
        n = rng.randint(3, 7) + more
        layout = rng.choice(R5_LAYOUTS)
    elif level == 6:
        n = rng.randint(4, 8) + more
        layout = rng.choice(R6_LAYOUTS)
    else:
        n = rng.randint(2, 7) + more
        near = rng.randint(1, min(n, 3))
        far = rng.randint(1, max(1, min(n // near, 3)))
        offset = far > 1 and rng.random() < 0.5
        sets = 0
        if far > 1 and rng.random() < 0.4:
            sets = rng.choice([1, 2])
        layout = near | far << 8 | (1 << 16 if offset else 0) | sets << 17
        rows += -rows % far  # whole far sections
    unit = chunk or 4096
    if level == -1:
        sizes = [rng.randint(4, 40) * 8192 // S + rng.randint(0, 40) for _ in range(n)]
    elif level == 0:
        mode = rng.random()
        if mode < 0.35:
            sizes = [rows * chunk // S] * n
        elif mode < 0.5:  # equal number of chunks, different slack
            sizes = [rows * chunk // S + rng.randint(0, chunk // S - 1) for _ in range(n)]
        else:
            choices = [rng.randint(2, rows) for _ in range(rng.randint(1, 4))]
            sizes = [rng.choice(choices) * chunk // S + rng.choice([0, rng.randint(0, chunk // S - 1)]) for _ in range(n)]
    else:
        sizes = [rows * unit // S + rng.choice([0, 0, rng.randint(0, 64)]) for _ in range(n)]
    if level == 0:
        layout = rng.choice([1, 2, 2])
        if ver == "0.90":
            sizes = [-(-s // 128) * 128 for s in sizes]
        if ver == "0.90" or rng.random() < 0.1:
            # no layout recorded: only shapes for which both known layouts agree
            layout = 0
            per = sorted({s * S // chunk for s in sizes})
            if len(per) > 1:
                big = rng.randrange(n)
                sizes = [per[-1] * chunk // S if i == big else per[0] * chunk // S for i in range(n)]
                if ver == "0.90":
                    sizes = [-(-s // 128) * 128 for s in sizes]
                    if len({s * S // chunk for s in sizes}) > 1 and rng.random() < 0.5:
                        sizes = [min(sizes)] * n
    max_dev = rng.choice([16 if n < 10 else 32, 128, 384])
    numbers = n + 3
    if rng.random() < 0.15:  # after many members came and went
        numbers = 27 if ver == "0.90" else max_dev
    a = {
        "level": level,
        "ver": ver,
        "chunk": chunk,
        "n": n,
        "layout": layout,
        "rows": rows,
        "sizes": sizes,  # usable data sectors per member
        "doff": [rng.choice([0, 8, 16, 40, 264]) for _ in range(n)],
        "tail": [rng.choice([0, 0, 3, 8, 11, 64]) for _ in range(n)],
        "devnum": rng.sample(range(numbers), n),
        "spares": rng.choice([0, 0, 0, 1, 2]) if level >= 1 else 0,
        "journal": level in (4, 5, 6) and ver != "0.90" and rng.random() < 0.15,
        "name": f"host:{rng.choice(['md', 'data', 'root', 'x', 'größe', chr(0xDCE9)])}{idx}",
        "uuid": rng.randbytes(16).hex(),
        "events": rng.randint(1, 1 << rng.choice([4, 16, 40])) if rng.random() < 0.9 else (1 << 32) - rng.randint(40, 120),
        "max_dev": max_dev,
    }
    if rng.random() < 0.25:  # the name fills its field
        a["name"] += "y" * (32 - len(a["name"].encode(errors="surrogateescape")))
    if ver == "0.90":
        # data area ends at the superblock, which sits at a 64 KiB multiple; sizes follow from the device size
        a["spares"] = min(a["spares"], 2)
        if level == -1:
            a["sizes"] = [-(-s // 128) * 128 for s in a["sizes"]]
        a["tail"] = [rng.choice([0, 0, 1, 17, 100]) for _ in range(n)]
    return a


def capacity(a: dict) -> int:
    """True usable size of the array in bytes."""
    level, n, chunk, rows = a["level"], a["n"], a["chunk"], a["rows"]
    sizes = member_sizes(a)
    if level == -1:
        return sum(s // chunk * chunk if chunk else s for s in sizes)
    if level == 0:
        return sum(s // chunk * chunk for s in sizes)
    if level == 1:
        return rows * 4096
    if level in (4, 5):
        return rows * chunk * (n - 1)
    if level == 6:
        return rows * chunk * (n - 2)
    near, far = a["layout"] & 0xFF, (a["layout"] >> 8) & 0xFF
    return raid10_capacity(n, near, far, rows) * chunk


def component(a: dict) -> int:
    return a["rows"] * (a["chunk"] or 4096)


def member_sizes(a: dict) -> list[int]:
    """Usable bytes of each member as the kernel would see them."""
    if a["ver"] == "0.90" and a["level"] not in (0, -1):
        return [(-(-s // 128) * 128) * S for s in a["sizes"]]
    return [s * S for s in a["sizes"]]


def members_content(a: dict, content: bytes) -> list[bytes]:
    """Place the array content on the members (data areas only)."""
    level, n, chunk, rows = a["level"], a["n"], a["chunk"], a["rows"]
    sizes = member_sizes(a)
    if level == -1:
        out, pos = [], 0
        for s in sizes:
            use = s // chunk * chunk if chunk else s
            out.append(content[pos : pos + use])
            pos += use
        return out
    if level == 0:
        return place_raid0([s // chunk * chunk for s in sizes], chunk, content, orig=a["layout"] == 1)
    if level == 1:
        return [content] * n
    if level in (4, 5, 6):
        return place_parity(level, a["layout"], n, chunk, rows, content)
    lay = a["layout"]
    return place_raid10(n, lay & 0xFF, (lay >> 8) & 0xFF, bool(lay & 1 << 16), lay >> 17, chunk, rows, content)


def times(a: dict) -> tuple[int, int, int, int]:
    """When the array was created and last updated: seconds and microseconds."""
    created = 10**9 + int(a["uuid"][:8], 16) % (10**9 if a["ver"] == "0.90" else 10**10)
    fraction = 0 if a["ver"] == "0.90" else int(a["uuid"][8:16], 16) % 10**6
    return created, fraction, created + 1 + int(a["uuid"][16:24], 16) % 10**8, fraction * 7 % 10**6


TICK = timedelta(microseconds=10)  # conversion goes through floating point


def moment(seconds: int, micro: int) -> datetime:
    return datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=seconds, microseconds=micro)


def sb1(a: dict, dev_number: int, role_of: dict[int, int], data_offset: int, data_size: int, super_offset: int, **kw) -> bytes:
    events = kw.get("events", a["events"])
    created, micro, updated, umicro = times(a)
    updated += kw.get("skew", 0)
    sb = bytearray(256 + 2 * a["max_dev"])
    feature = 0
    if a["level"] == 0 and a["layout"]:
        feature |= 4096
    if a.get("journal"):
        feature |= 512
    comp = 0 if a["level"] in (0, -1) else component(a) // S
    name = a["name"].encode(errors="surrogateescape")[:32]
    struct.pack_into("<IIII16s32s", sb, 0, MAGIC, 1, feature, 0, bytes.fromhex(a["uuid"]), name)
    struct.pack_into("<QiIQII", sb, 64, created | micro << 40, a["level"], a["layout"], comp, a["chunk"] // S, a["n"])
    struct.pack_into("<QQQQII", sb, 128, data_offset, data_size, super_offset, 0, dev_number, 0)
    sb[168:184] = member_uuid(a, dev_number)
    struct.pack_into("<QQQII", sb, 192, updated | umicro << 40, events, 0xFFFFFFFFFFFFFFFF, 0, a["max_dev"])
    for i in range(a["max_dev"]):
        struct.pack_into("<H", sb, 256 + 2 * i, role_of.get(i, 0xFFFE))
    total = 0
    for i in range(0, len(sb) - 3, 4):
        total += struct.unpack_from("<I", sb, i)[0]
    struct.pack_into("<I", sb, 216, ((total & 0xFFFFFFFF) + (total >> 32)) & 0xFFFFFFFF)
    return bytes(sb)


def member_uuid(a: dict, dev_number: int) -> bytes:
    return blob(dev_number, a["uuid"] + "dev", 16)


def sb090(a: dict, dev_number: int, role_of: dict[int, int], **kw) -> bytes:
    events = kw.get("events", a["events"])
    created, _, updated, _ = times(a)
    updated += kw.get("skew", 0)
    w = [0] * 1024
    u = struct.unpack("<4I", bytes.fromhex(a["uuid"]))
    comp = 0 if a["level"] in (0, -1) else component(a) // 1024
    w[0:12] = [MAGIC, 0, 90, 0, 0, u[0], created, a["level"] & 0xFFFFFFFF, comp, len(role_of), a["n"], 0]
    w[13:16] = [u[1], u[2], u[3]]
    w[32] = updated
    w[33] = 1
    w[34] = a["n"]
    w[39] = events & 0xFFFFFFFF
    w[40] = events >> 32
    w[64] = a["layout"]
    w[65] = a["chunk"]
    for num, role in role_of.items():
        active = role < a["n"]
        state = (1 << 1 | 1 << 2) if active else 0
        if role == 0xFFFE:
            state = 1 << 0 | 1 << 3
        base = 128 + num * 32
        # spares keep their own number as role
        w[base : base + 5] = [num, 8, 16 * num, role if active else num, state]
    base = 128 + dev_number * 32
    w[992 : 992 + 5] = w[base : base + 5]
    return struct.pack("<1024I", *w)


def member_image(a: dict, data: bytes, doff: int, size: int, tail: int, dev_number: int, role_of: dict[int, int], cseed: int, tag: str, **kw) -> tuple[bytes, list]:
    """Build one member device. ``size`` is the usable data size in sectors."""
    ver = a["ver"]
    if ver == "0.90":
        sb_sector = -(-size // 128) * 128
        total = sb_sector + 128 + tail % 128
        img = sparse.Canvas(cseed, tag, total * S) if callable(data) else bytearray(blob(cseed, tag, total * S))
        if callable(data):
            data(img, 0)
        else:
            put(img, 0, data)
        put(img, sb_sector * S, sb090(a, dev_number, role_of, **kw))
        return sparse.done(img), [(sb_sector * S, 4096)]
    if ver == "1.0":
        # superblock at least 8 KiB, but less than 12 KiB, from the end, 4 KiB aligned
        total = doff + size + 16 + 8 + tail
        sb_sector = (total - 16) & ~7
        data_offset = doff
    else:
        sb_sector = 0 if ver == "1.1" else 8
        data_offset = sb_sector + 8 + doff
        total = data_offset + size + tail
    img = sparse.Canvas(cseed, tag, total * S) if callable(data) else bytearray(blob(cseed, tag, total * S))
    for probe in (0, 8):
        # the generator's filler must not look like metadata
        if not callable(data):
            put(img, probe * S, b"\0" * 16)
    if callable(data):
        data(img, data_offset * S)
    else:
        put(img, data_offset * S, data)
    sb = sb1(a, dev_number, role_of, data_offset, size, sb_sector, **kw)
    put(img, sb_sector * S, sb)
    return sparse.done(img), [(sb_sector * S, len(sb))]


def all_numbers(a: dict) -> list[int]:
    """Device numbers of the active members, spares and the journal."""
    free = [i for i in range(a["n"] + 6) if i not in a["devnum"]]
    return [*a["devnum"], *free[: a["spares"] + bool(a["journal"])]]


def build_array(a: dict, cseed: int, tag: str, content: bytes | None = None) -> tuple[bytes, list[Device]]:
    cap = capacity(a)
    if a.get("big"):
        content = sparse.Content(cseed, tag + "/content", cap)
        datas = big_members(a, content)
    else:
        full = blob(cseed, tag + "/content", cap)
        content = full if content is None else content + full[len(content) :]
        datas = members_content(a, content)
    roles = {num: role for role, num in enumerate(a["devnum"])}
    free = [i for i in range(a["n"] + 6) if i not in roles]
    extra = []
    for _ in range(a["spares"]):
        num = free.pop(0)
        roles[num] = 0xFFFF
        extra.append(num)
    if a["journal"]:
        num = free.pop(0)
        roles[num] = 0xFFFD
        extra.append(num)
    devices = []
    for role in range(a["n"]):
        img, meta = member_image(a, datas[role], a["doff"][role], a["sizes"][role], a["tail"][role], a["devnum"][role], roles, cseed, f"{tag}/m{role}")
        devices.append(Device(f"{tag}m{role}", img, 0, meta))
    for num in extra:
        img, meta = member_image(a, (lambda img, at: None) if a.get("big") else b"", a["doff"][0], a["sizes"][0], 0, num, roles, cseed, f"{tag}/x{num}")
        devices.append(Device(f"{tag}{'s' if roles[num] == 0xFFFF else 'j'}{num}", img, 0, meta))
    return content, devices


def big_members(a: dict, content: sparse.Content) -> list:
    """How the members of a very large array hold its content."""
    level, n, chunk, rows = a["level"], a["n"], a["chunk"], a["rows"]
    sizes = member_sizes(a)
    if level == -1:
        out, pos = [], 0
        for s in sizes:
            use = s // chunk * chunk if chunk else s
            out.append(lambda img, at, pos=pos, use=use: img.holding(at, content, pos, use))
            pos += use
        return out
    if level == 1:
        return [lambda img, at: img.holding(at, content, 0, content.size)] * n
    if level == 0:
        counts = [s // chunk for s in sizes]
        maps = sparse.raid0_rows(counts, a["layout"] == 1)
    elif level == 10:
        lay = a["layout"]
        counts = [rows] * n
        maps = sparse.raid10_rows(n, lay & 0xFF, (lay >> 8) & 0xFF, bool(lay & 1 << 16), rows)
    else:
        counts = [rows] * n
        maps = sparse.parity_rows(parity_row, level, a["layout"], n)
    return [lambda img, at, c=c, m=m: img.chunked(at, c, chunk, content, m) for c, m in zip(counts, maps)]


def marks(a: dict) -> list[int]:
    """Where members and zones of a very large array begin."""
    sizes, chunk = member_sizes(a), a["chunk"]
    if a["level"] == 0:
        return [c * chunk for c in sparse.raid0_marks([s // chunk for s in sizes])]
    out, pos = [], 0
    if a["level"] == -1:
        for s in sizes:
            pos += s // chunk * chunk if chunk else s
            out.append(pos)
    return out


def gen_big(rng: Random) -> dict:
    """One array with very large members."""
    while True:
        a = gen_array(rng, 0)
        if not clashing(a) and not a["layout"] >> 17:
            break
    # 0.90 counts components in KiB with 32 bits
    top = 1 << 40 if a["ver"] == "0.90" else 1 << 44
    unit = a["chunk"] or 4096
    if a["level"] in (0, -1):
        k = sparse.scale(rng, unit, top) * unit // S
        a["sizes"] = [s + k * rng.choice([1, 1, 1, 2]) if rng.random() < 0.9 else s for s in a["sizes"]]
        if len(set(s * S // unit for s in a["sizes"])) > 1 and not a["layout"]:
            a["sizes"] = [a["sizes"][0] // (unit // S) * (unit // S)] * a["n"]
        if a["ver"] == "0.90":
            a["sizes"] = [-(-s // 128) * 128 for s in a["sizes"]]
            if a["level"] == 0:
                a["sizes"] = [min(a["sizes"])] * a["n"]
    else:
        a["rows"] += sparse.scale(rng, unit, top)
        if a["level"] == 10:
            a["rows"] += -a["rows"] % ((a["layout"] >> 8) & 0xFF)
        a["sizes"] = [a["rows"] * unit // S + rng.choice([0, 0, rng.randint(0, 64)]) for _ in range(a["n"])]
    if a["ver"] not in ("0.90", "1.0") or rng.random() < 0.5:
        a["doff"] = [rng.choice([d, d, d + (1 << 33), d + (1 << 23)]) for d in a["doff"]]
    a["big"] = True
    return a


def clashing(a: dict) -> bool:
    """RAID 10 with near and offset copies whose near copies wrap: the kernel lets copies of different chunks overlap."""
    lay = a["layout"]
    return a["level"] == 10 and bool(lay & 1 << 16) and a["n"] % (lay & 0xFF) != 0


def find_array(system, a: dict):
    uuid = str(UUID(bytes_le=bytes.fromhex(a["uuid"])))
    found = [vd for conf in system.configurations for vd in conf.virtual_disks if vd.uuid == uuid]
    if len(found) != 1:
        raise Violation("listing", f"expected exactly one array with uuid {uuid}, found {len(found)}")
    return found[0]


class MDWorld(World):
    kind = "md"

    def __init__(self, w: dict, given: list[bytes] | None = None):
        super().__init__(w)
        for i, a in enumerate(w["arrays"]):
            content, devs = build_array(a, w["cseed"], f"a{i}", given[i] if given else None)
            self.devices += devs
            self.vols.append(self.vol_for(a, i, content))
        order = w["order"]
        self.devices = [self.devices[j] for j in sorted(range(len(self.devices)), key=lambda j: order[j % len(order)] * 1000 + j)]
        for j, d in enumerate(self.devices):
            d.mode = w["modes"][j % len(w["modes"])]

    def vol_for(self, a: dict, i: int, content: bytes) -> Vol:
        level = a["level"]
        exact = level != 1
        reported = self.component_quirk(a)
        if level == 1:
            reported = None
        return Vol(
            f"a{i}", content, lambda s: find_array(s, a).open(), exact_end=exact, grain=a["chunk"] or 4096, quirk=reported, quirk_sig="md-size-component",
            marks=marks(a) if a.get("big") else [],
        )

    def component_quirk(self, a: dict) -> int | None:
        """The size of one component, which is what is reported instead of the capacity (known finding)."""
        if a["level"] in (0, -1) or (a["level"] == 1 and a["ver"] != "0.90"):
            return None
        comp = component(a)
        return comp // 2 if a["ver"] == "0.90" else comp

    def assemble(self, fhs: list):
        from dissect.volume.md.md import MD

        return MD(fhs if len(fhs) > 1 else fhs[0])

    def parse(self, fh):
        from dissect.volume.md.md import MDPhysicalDisk

        return MDPhysicalDisk(fh)

    def survives(self, key: str, present: set[str]) -> bool:
        a = self.w["arrays"][int(key[1:])]
        n = a["n"]
        there = [f"{key}m{role}" in present for role in range(n)]
        if a["level"] == 1:
            return any(there)
        if a["level"] == 10 and a["layout"] & 0xFF > 1:
            # near copies stand on consecutive members
            near = a["layout"] & 0xFF
            return all(any(there[(k + c) % n] for c in range(near)) for k in range(0, n * near, near))
        return all(there)

    replaced = False  # members that are no longer part of an array are handed over as well

    def check_members(self, system, a: dict) -> None:
        conf = next(conf for conf in system.configurations for vd in conf.virtual_disks if vd is find_array(system, a))
        created, micro, updated, umicro = times(a)
        for disk in conf.physical_disks:
            what = f"member of array {a['name']}"
            expect(abs(disk.creation_time - moment(created, micro)) < TICK, "listing", f"{what} created {disk.creation_time}, expected {moment(created, micro)}")
            expect(self.replaced or abs(disk.update_time - moment(updated, umicro)) < TICK, "listing", f"{what} updated {disk.update_time}, expected {moment(updated, umicro)}")
        if a["ver"] != "0.90" and not self.replaced:
            got = sorted(disk.device_uuid.bytes_le for disk in conf.physical_disks)
            want = sorted(member_uuid(a, num) for num in all_numbers(a))
            expect(got == want, "listing", f"members {[g.hex() for g in got]}, expected {[g.hex() for g in want]}")
            for disk in conf.physical_disks:
                role = next((r for r, num in enumerate(a["devnum"]) if member_uuid(a, num) == disk.device_uuid.bytes_le), None)
                expect(disk.raid_disk == role, "listing", f"member {disk.device_uuid} has position {disk.raid_disk}, expected {role}")

    def check_listing(self, system) -> None:
        vds = [vd for conf in system.configurations for vd in conf.virtual_disks]
        expect(len(vds) == len(self.w["arrays"]), "listing", f"{len(vds)} arrays reported, expected {len(self.w['arrays'])}")
        for i, a in enumerate(self.w["arrays"]):
            vd = find_array(system, a)
            self.check_members(system, a)
            name = None if a["ver"] == "0.90" else a["name"]
            expect(vd.name == name, "listing", f"array name {vd.name!r}, expected {name!r}")
            expect(vd.level == a["level"], "listing", f"array level {vd.level}, expected {a['level']}")
            cap = capacity(a)
            if vd.size != cap:
                quirk = self.component_quirk(a)
                if quirk is not None and vd.size == quirk:
                    self.known["md-size-component"] = f"MD level {a['level']} metadata {a['ver']}: reported size is not the array capacity but the component size field times 512"
                else:
                    raise Violation("size", f"array size {vd.size}, expected {cap} (level {a['level']}, {a['ver']})")


def gen(rng: Random, small: bool = False, big: bool = False) -> dict:
    arrays = [gen_array(rng, i, small=small) for i in range(1 if rng.random() < 0.75 else 2)]
    if big:
        arrays = [gen_big(rng)]
    return {
        "kind": "md",
        "cseed": rng.getrandbits(32),
        "arrays": arrays,
        "order": [rng.randint(0, 99) for _ in range(24)],
        "modes": [rng.choice([0, 0, 1, 2]) for _ in range(5)],
    }
