"""LVM2 writer model (labels, metadata areas, text metadata, extent placement) and world."""
from __future__ import annotations

import struct
from datetime import datetime, timedelta, timezone
from random import Random

from sim import sparse, w_thin
from sim.core import Violation
from sim.world import Device, Vol, World, blob, expect, place_raid0, put

S = 512
MAGIC = b" LVM2 x[5A%r0N*>"
QUIRK = "lvm-pv-size"
CHARS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def uuid(rng: Random) -> str:
    return "".join(rng.choice(CHARS) for _ in range(32))


def dashed(u: str) -> str:
    parts, pos = [], 0
    for n in (6, 4, 4, 4, 4, 4, 6):
        parts.append(u[pos : pos + n])
        pos += n
    return "-".join(parts)


class Alloc:
    """Physical extent allocator."""

    def __init__(self, rng: Random, counts: list[int], used: list[int]):
        self.rng = rng
        self.counts = counts
        self.used = used  # next free extent per PV

    def room(self, p: int) -> int:
        return self.counts[p] - self.used[p]

    def take(self, p: int, n: int) -> int:
        skip = self.rng.choice([0, 0, 1, 2])
        if self.room(p) < n + skip:
            skip = 0
        assert self.room(p) >= n
        start = self.used[p] + skip
        self.used[p] = start + n
        return start


def linear_segs(rng: Random, al: Alloc, extents: int, pieces: int) -> list[dict]:
    segs = []
    left = extents
    pos = 0
    while left > 0:
        n = left if pieces <= 1 else rng.randint(1, left if pieces < 8 else max(1, left // 5))
        pieces -= 1
        fits = [i for i in range(len(al.counts)) if al.room(i) > 0]
        if not fits:  # make the physical volume larger
            fits = [rng.randrange(len(al.counts))]
            al.counts[fits[0]] += left
        p = rng.choice(fits)
        n = min(n, al.room(p))
        segs.append({"type": "striped", "start": pos, "count": n, "stripes": [[p, al.take(p, n)]], "ss": 0})
        pos += n
        left -= n
    return segs


def striped_seg(rng: Random, al: Alloc, start: int, rows: int, ext: int) -> dict | None:
    npv = len(al.counts)
    want = rng.randint(2, 4)
    areas = []
    pool = [p for p in range(npv) if al.room(p) >= rows]
    if len(pool) >= want and rng.random() < 0.8:
        order = rng.sample(pool, want)
    else:
        order = [rng.choice(pool) for _ in range(want)] if pool else []
    for p in order:
        if al.room(p) < rows:
            return None if not areas else {"fail": True}
        areas.append([p, al.take(p, rows)])
    if len(areas) < 2:
        return None
    ss = rng.choice([s for s in (8, 16, 32, 64, 128) if s <= ext] or [ext])
    return {"type": "striped", "start": start, "count": rows * len(areas), "stripes": areas, "ss": ss}


def gen_layout(rng: Random, small: bool = False, npv: int | None = None, kinds: list[str] | None = None, payloads: list[int] | None = None, ext: int | None = None) -> dict:
    """payloads: sizes in bytes for which logical volumes pay0, pay1... must exist (for stacked worlds)."""
    npv = npv or rng.choice([1, 1, 2, 3, 4])
    ext = ext or (rng.choice([8, 8, 16, 32, 64, 128]) if not small else rng.choice([8, 16]))
    counts = [rng.randint(24, 90 if ext <= 32 else 40) for _ in range(npv)]
    al = Alloc(rng, counts, [rng.choice([0, 0, 1, 5]) for _ in range(npv)])
    kinds = kinds or ["linear", "linear", "multi", "striped", "striped", "mixed", "mirror", "thin"]
    lvs: list[dict] = []

    def free() -> int:
        return sum(al.room(p) for p in range(npv))

    def lv(name: str, segs: list[dict], visible: bool = True, **kw) -> dict:
        if rng.random() < 0.1:
            rng.choice(segs)["flags"] = rng.choice([["CROP_METADATA"], ["CACHE_USES_CACHEVOL", "X"]])
        d = {"name": name, "id": uuid(rng), "segs": segs, "visible": visible, "role": "data", **kw}
        lvs.append(d)
        return d

    for i, size in enumerate(payloads or []):
        need = -(-size // (ext * S))
        n = rng.randint(2, 3)
        if rng.random() < 0.4 and need >= n:
            # striped over n areas, the rest linear
            rows = need // n
            order = rng.sample(range(npv), n) if npv >= n else [rng.randrange(npv) for _ in range(n)]
            for p in order:
                counts[p] += rows + 2
            ss = rng.choice([x for x in (8, 16, 32) if x <= ext])
            segs = [{"type": "striped", "start": 0, "count": rows * n, "stripes": [[p, al.take(p, rows)] for p in order], "ss": ss}]
            if need - rows * n:
                segs += [dict(x, start=x["start"] + rows * n) for x in linear_segs(rng, al, need - rows * n, 1)]
        else:
            segs = linear_segs(rng, al, need, rng.randint(1, 4))
        lv(f"pay{i}", segs)
    nlv = rng.choice([1, 2, 3, 4]) if not small else rng.choice([1, 2])
    if payloads:
        nlv = rng.choice([0, 0, 1])
    for v in range(nlv):
        kind = rng.choice(kinds)
        name = rng.choice([f"lv{v}", f"lvol{v}", f"my-lv_{v}.x", f"root{v}"])
        if free() < 8:
            break
        size = rng.randint(1, min(24, free() // 2))
        if kind == "linear":
            lv(name, linear_segs(rng, al, size, 1))
        elif kind == "multi":
            lv(name, linear_segs(rng, al, size, rng.randint(2, 5) if rng.random() < 0.85 else 14))
        elif kind in ("striped", "mixed"):
            segs: list[dict] = []
            pos = 0
            for _ in range(1 if kind == "striped" else rng.randint(2, 3)):
                if kind == "mixed" and rng.random() < 0.5 and free() > 6:
                    for s in linear_segs(rng, al, rng.randint(1, 4), 1):
                        segs.append(dict(s, start=s["start"] + pos))
                else:
                    sg = striped_seg(rng, al, pos, rng.randint(1, 6), ext)
                    if sg is not None and "fail" not in sg:
                        segs.append(sg)
                if segs:
                    pos = segs[-1]["start"] + segs[-1]["count"]
            if segs:
                lv(name, segs)
        elif kind == "mirror" and free() > 2 * size + 2:
            copies = rng.choice([2, 2, 3]) if free() > 3 * size + 3 else 2
            imgs = []
            for c in range(copies):
                # a mirror image lives on one PV when possible
                fits = [p for p in range(npv) if al.room(p) >= size]
                if fits:
                    best = [p for p in fits if p not in [i[1] for i in imgs]] or fits
                    p = rng.choice(best)
                    segs = [{"type": "striped", "start": 0, "count": size, "stripes": [[p, al.take(p, size)]], "ss": 0}]
                else:
                    p = -1
                    segs = linear_segs(rng, al, size, 1)
                imgs.append((lv(f"{name}_mimage_{c}", segs, False, role="mimage", of=name), p))
            log = None
            if rng.random() < 0.5 and free() > 1:
                log = lv(f"{name}_mlog", linear_segs(rng, al, 1, 1), False, role="internal")["name"]
            lv(name, [{"type": "mirror", "start": 0, "count": size, "mirrors": [i[0]["name"] for i in imgs], "log": log}], role="mirror")
        elif kind == "thin":
            g = w_thin.gen_pool(rng, True)
            pool, meta, data, _ = w_thin.build_pool(g, 0, "probe")
            ms = -(-len(meta) // (ext * S))
            ds = -(-len(data) // (ext * S))
            if free() < ms + ds + 2 or not pool.devs:
                continue
            tm = lv(f"{name}_tmeta", linear_segs(rng, al, ms, rng.randint(1, 2)), False, role="tmeta", pool=g)
            td = lv(f"{name}_tdata", linear_segs(rng, al, ds, rng.randint(1, 3)), False, role="tdata", pool=g)
            lv(f"{name}pool", [{"type": "thin-pool", "start": 0, "count": ds, "metadata": tm["name"], "pool": td["name"], "chunk": g["bs"] // S}], False, role="pool")
            for dev in sorted(pool.devs):
                ne = max(1, g["sizes"][str(dev)] // (ext * S))
                lv(f"{name}thin{dev}", [{"type": "thin", "start": 0, "count": ne, "pool": f"{name}pool", "dev": dev}], role="thin", pool=g, dev=dev)
    if not small and not payloads and rng.random() < 0.03:
        lvs.clear()  # a new volume group
    elif not lvs:
        lv("lv0", linear_segs(rng, al, 4, 1))
    else:
        for v in range(rng.choice([1, 2]) if rng.random() < 0.25 else 0):
            if free() < 12:
                break
            for other in other_lvs(rng, f"x{v}"):
                segs = [other["seg"]] if "seg" in other else linear_segs(rng, al, 1, 1)
                d = {"name": other["name"], "id": uuid(rng), "segs": segs, "visible": "seg" in other, "role": "other" if "seg" in other else "data"}
                lvs.append(d)
    # where the logical volumes stand in the text is not significant
    if rng.random() < 0.5:
        rng.shuffle(lvs)
    mdas = [rng.choice([1, 1, 1, 2, 0]) for _ in range(npv)]
    if not any(mdas):
        mdas[rng.randrange(npv)] = 1
    return {
        "text": gen_text(rng, [v["name"] for v in lvs]),
        "vg": rng.choice(["vg0", "data", "vg-root", "centos_x"]),
        "vgid": uuid(rng),
        "ext": ext,
        "lvs": lvs,
        "seqno": rng.randint(1, 300),
        "pvs": [
            {
                "id": uuid(rng),
                "count": counts[p],
                "mdas": mdas[p],
                "label": rng.choice([1, 1, 1, 0, 2, 3]),
                "hoff": rng.choice([32, 32, 64]),
                "align": rng.choice([1, 8, 64, 128]),
                "slack": rng.choice([0, 0, 3, 17]),
                "oldsize": rng.random() < 0.15,  # the header still has the size of before a resize
            }
            for p in range(npv)
        ],
    }


def other_lvs(rng: Random, name: str) -> list[dict]:
    """A volume of a type that can't be read, in the words of LVM2, with the volumes that it is made of."""
    kind = rng.choice(["raid1", "raid5_ls", "raid6", "raid10", "raid0", "raid0_meta", "snapshot", "cache", "writecache", "integrity", "vdo", "error", "zero"])
    parts: list[str] = []
    more: list[dict] = []

    def part(suffix: str) -> str:
        parts.append(name + suffix)
        return f'"{name}{suffix}"'

    def seg(kind: str, count: int, lines: list[str]) -> dict:
        return {"type": kind, "start": 0, "count": count, "lines": lines}

    region = ["region_size = 4096\t# 2 Megabytes"] if rng.random() < 0.8 else []
    if kind in ("raid0", "raid0_meta"):
        lines = ["stripe_count = 2", "stripe_size = 128\t# 64 Kilobytes", "", "raid0_lvs = ["]
        lines += [f"\t{part('_rimage_0')},", f"\t{part('_rimage_1')}", "]"]
    elif kind.startswith("raid"):
        n = {"raid1": 2, "raid5_ls": 3, "raid6": 5, "raid10": 4}[kind]
        lines = [f"device_count = {n}", *(["data_copies = 2"] if kind == "raid10" else []), *region]
        lines += ["stripe_size = 128\t# 64 Kilobytes"] if kind != "raid1" else ["writebehind = 16"] if rng.random() < 0.2 else []
        lines += ["min_recovery_rate = 128"] if rng.random() < 0.2 else []
        lines += ["max_recovery_rate = 512"] if rng.random() < 0.2 else []
        lines += ["", "raids = ["]
        for i in range(n):
            lines.append(f"\t{part(f'_rmeta_{i}')}, {part(f'_rimage_{i}')}" + ("," if i < n - 1 else ""))
        lines.append("]")
    elif kind == "snapshot":
        lines = ["chunk_size = 8\t# 4 Kilobytes", f"origin = {part('_origin')}", f"{rng.choice(['cow_store', 'merging_store'])} = {part('_cow')}"]
    elif kind == "cache":
        lines = [f'cache_pool = "{name}_pool"', f"origin = {part('_corig')}"]
        body = [f"data = {part('_cdata')}", f"metadata = {part('_cmeta')}", "metadata_format = 2", "chunk_size = 128", 'cache_mode = "writethrough"', 'policy = "smq"']
        if rng.random() < 0.5:
            body += ["policy_settings {", "\tmigration_threshold = 2048", "}"]
        more = [{"name": f"{name}_pool", "seg": seg("cache-pool", 1, body)}]
    elif kind == "writecache":
        lines = [f"origin = {part('_wcorig')}", f"writecache = {part('_cvol')}", "writecache_block_size = 4096"]
    elif kind == "integrity":
        lines = [f"origin = {part('_iorig')}", "data_sectors = 8", 'mode = "J"', "tag_size = 4", "block_size = 512", 'internal_hash = "crc32c"', f"meta_dev = {part('_imeta')}"]
    elif kind == "vdo":
        lines = [f'vdo_pool = "{name}_vpool"', "vdo_offset = 0"]
        body = [f"data = {part('_vdata')}", "header_size = 1024", "virtual_extents = 1"]
        body += [f"{x} = 1" for x in ("use_compression", "use_deduplication", "use_metadata_hints") if rng.random() < 0.6]
        body += ["minimum_io_size = 4096", "block_map_cache_size_mb = 128", "block_map_era_length = 16380"]
        body += ["use_sparse_index = 1"] if rng.random() < 0.3 else []
        body += ["index_memory_size_mb = 256", "max_discard = 1", "slab_size_mb = 2048", "ack_threads = 1", "bio_threads = 4", "bio_rotation = 64"]
        body += ["cpu_threads = 2", "hash_zone_threads = 1", "logical_threads = 1", "physical_threads = 1", 'write_policy = "auto"']
        more = [{"name": f"{name}_vpool", "seg": seg("vdo-pool", 1, body)}]
    else:
        lines = []
    return [{"name": n} for n in parts] + more + [{"name": name, "seg": seg(kind, 1, lines)}]


# -- text ----------------------------------------------------------------------------------------------------------

TAGS = ["db", "db#1", "a/b", "x=y", "k:v", "r&d", "q!", "@host", "v1.2-3+x", "#", "tag_with_#"]


def gen_text(rng: Random, names: list[str]) -> dict:
    """Parts of the text that have no influence on the volumes."""
    text: dict = {}
    if rng.random() < 0.4:
        return text
    text["last"] = rng.random() < 0.5  # header lines after the volume group, as it is in metadata areas
    text["desc"] = rng.choice(
        ["", "Created *after* executing 'lvcreate -n a#1 vg'", "resize # 2", 'quoted \\"name\\" here', "a = b", "ends with {", "x } y", "[1, 2", "back\\\\slash", "caf\u00e9 #"]
    )
    text["vgtags"] = rng.sample(TAGS, rng.choice([0, 0, 1, 3]))
    text["system_id"] = rng.choice(["", "", "host#1", "host.example"])
    text["lvtags"] = {n: rng.sample(TAGS, rng.choice([1, 2])) for n in names if rng.random() < 0.3}
    text["policy"] = rng.choice(["", "normal", "contiguous"])
    text["old"] = rng.choice([0, 0, 0, 1, 2])  # volumes that were removed
    text["pvtags"] = rng.sample(TAGS, rng.choice([0, 0, 1, 2]))
    text["host"] = rng.choice(["host.example", "h", "db#1", "a b"])
    text["time"] = rng.choice([1704067200, 1, (1 << 31) - 1, 1 << 31, (1 << 32) + 5, rng.randrange(1 << 32)])  # of the text, then of the volumes
    text["plain"] = rng.random() < 0.2  # written by a version that recorded no time and host of the volumes
    text["nosize"] = rng.random() < 0.2  # nor the size of the devices
    return text


def unescape(s: str) -> str:
    return s.replace('\\"', '"').replace("\\\\", "\\")


def when(t: int) -> datetime:
    return datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=t)


def listed(values: list[str]) -> str:
    return "[" + ", ".join(f'"{v}"' for v in values) + "]"


def seg_text(sg: dict, n: int) -> list[str]:
    out = [f"segment{n} {{", f"\tstart_extent = {sg['start']}", f"\textent_count = {sg['count']}\t# {sg['count']} extents", ""]
    more = "".join(f"+{f}" for f in sg.get("flags", []))
    if "lines" in sg:
        out += [f'\ttype = "{sg["type"]}"', *("\t" + x if x else "" for x in sg["lines"])]
    elif sg["type"] == "striped":
        out += [f'\ttype = "striped{more}"', f"\tstripe_count = {len(sg['stripes'])}" + ("\t# linear" if len(sg["stripes"]) == 1 else "")]
        if len(sg["stripes"]) > 1:
            out.append(f"\tstripe_size = {sg['ss']}\t# {sg['ss'] // 2} Kilobytes")
        out += ["", "\tstripes = ["]
        rows = [f'\t\t"pv{p}", {e}' for p, e in sg["stripes"]]
        out += [r + ("," if i < len(rows) - 1 else "") for i, r in enumerate(rows)]
        out.append("\t]")
    elif sg["type"] == "mirror":
        out += [f'\ttype = "mirror{more}"', f"\tmirror_count = {len(sg['mirrors'])}"]
        if sg["log"]:
            out.append(f'\tmirror_log = "{sg["log"]}"')
        out += ["\tregion_size = 1024\t# 512 Kilobytes", "", "\tmirrors = ["]
        rows = [f'\t\t"{m}", 0' for m in sg["mirrors"]]
        out += [r + ("," if i < len(rows) - 1 else "") for i, r in enumerate(rows)]
        out.append("\t]")
    elif sg["type"] == "thin-pool":
        out += [f'\ttype = "thin-pool{more}"', f'\tmetadata = "{sg["metadata"]}"', f'\tpool = "{sg["pool"]}"', "\ttransaction_id = 3"]
        out += [f"\tchunk_size = {sg['chunk']}\t# Kilobytes", '\tdiscards = "passdown"', "\tzero_new_blocks = 1"]
    else:
        out += [f'\ttype = "thin{more}"', f'\tthin_pool = "{sg["pool"]}"', "\ttransaction_id = 1", f"\tdevice_id = {sg['dev']}"]
    out.append("}")
    return out


def vg_text(lay: dict, starts: list[int], sizes: list[int], seqno: int) -> str:
    opt = lay.get("text", {})
    base = opt.get("time", 1704067200)
    out = [
        "# Generated by LVM2 version 2.03.11(2) (2021-01-08): Mon Jan  1 00:00:00 2024",
        "",
        'contents = "Text Format Volume Group"',
        "version = 1",
        "",
        'description = "' + opt.get("desc", f"Created *after* executing 'vgcreate {lay['vg']}'") + '"',
        "",
        f'creation_host = "{opt.get("host", "host.example")}"\t# Linux host 6.1.0 #1 SMP x86_64',
        f"creation_time = {base}\t# Mon Jan  1 00:00:00 2024",
        "",
    ]
    vg = [
        f'id = "{dashed(lay["vgid"])}"',
        f"seqno = {seqno}",
        'format = "lvm2"\t\t\t# informational',
        'status = ["RESIZEABLE", "READ", "WRITE"]',
        "flags = []",
        f"extent_size = {lay['ext']}\t\t# {lay['ext'] // 2} Kilobytes",
        "max_lv = 0",
        "max_pv = 0",
        "metadata_copies = 0",
    ]
    if opt.get("system_id"):
        vg.append(f'system_id = "{opt["system_id"]}"')
    if opt.get("policy"):
        vg.append(f'allocation_policy = "{opt["policy"]}"')
    if opt.get("vgtags"):
        vg.append(f"tags = {listed(opt['vgtags'])}")
    vg += ["", "physical_volumes {", ""]
    for p, pv in enumerate(lay["pvs"]):
        vg += [
            f"\tpv{p} {{",
            f'\t\tid = "{dashed(pv["id"])}"',
            f'\t\tdevice = "/dev/sd{chr(97 + p)}"\t# Hint only',
            "",
            '\t\tstatus = ["ALLOCATABLE"]',
            "\t\tflags = []",
            *([f"\t\ttags = {listed(opt['pvtags'])}"] if opt.get("pvtags") else []),
            *([f"\t\tdev_size = {sizes[p] // S}\t# {sizes[p] >> 20} Megabytes"] if not opt.get("nosize") else []),
            f"\t\tpe_start = {starts[p]}",
            f"\t\tpe_count = {pv['count']}\t# {pv['count']} extents",
            "\t}",
            "",
        ]
    vg += ["}", ""]
    if lay["lvs"]:
        vg += ["logical_volumes {", ""]
    for v, lv in enumerate(lay["lvs"]):
        status = '["READ", "WRITE", "VISIBLE"]' if lv["visible"] else '["READ", "WRITE"]'
        vg += [
            f"\t{lv['name']} {{",
            f'\t\tid = "{dashed(lv["id"])}"',
            f"\t\tstatus = {status}",
            "\t\tflags = []",
            *([f"\t\ttags = {listed(opt['lvtags'][lv['name']])}"] if lv["name"] in opt.get("lvtags", {}) else []),
            *([] if opt.get("plain") else [f"\t\tcreation_time = {base + 1 + v}\t# 2024-01-01 00:00:01 +0000", f'\t\tcreation_host = "{opt.get("host", "host.example")}{v}"']),
            f"\t\tsegment_count = {len(lv['segs'])}",
            "",
        ]
        for n, sg in enumerate(lv["segs"], 1):
            vg += ["\t\t" + t if t else "" for t in seg_text(sg, n)]
            vg.append("")
        vg += ["\t}", ""]
    if lay["lvs"]:
        vg += ["}", ""]
    if opt.get("old"):
        vg += ["historical_logical_volumes {", ""]
        for i in range(opt["old"]):
            vg += [f"\tgone{i} {{", f'\t\tid = "{dashed(lay["vgid"])}"', *([f'\t\tname = "old#{i}"'] if i == 0 else []), f"\t\tcreation_time = {base + 50 + i}\t# 2024-01-01 00:00:01 +0000"]
            vg += [f"\t\tremoval_time = {base + 100 + i}\t# 2024-01-01 00:01:41 +0000", '\t\tdescendants = ["x", "-y"]', "\t}", ""]
        vg += ["}", ""]
    head = out
    out = [f"{lay['vg']} {{"]
    out += ["\t" + t if t else "" for t in vg[:-1]]
    out += ["}", ""]
    return "\n".join(out + head if opt.get("last") else head + out)


# -- devices -------------------------------------------------------------------------------------------------------


def mda_image(size: int, start: int, text: bytes, at: int, filler: bytes, flags: int = 0, extra: bytes = b"") -> tuple[bytearray, int]:
    """A metadata area: header sector plus ring buffer. Returns the image and the ring offset after the text."""
    img = bytearray(filler)
    img[0:S] = bytes(S)
    end = ring_write(img, at, text + b"\0")
    head = struct.pack("<I16sIQQ", 0xDEADBEEF, MAGIC, 1, start, size)
    locn = struct.pack("<QQII", at, len(text) + 1, 0x11223344, flags) if text else b""
    img[0:S] = (head + locn + extra).ljust(S, b"\0")
    return img, end


def ring_write(img: bytearray, at: int, data: bytes) -> int:
    size = len(img)
    assert len(data) <= size - S and S <= at < size
    first = min(len(data), size - at)
    img[at : at + first] = data[:first]
    rest = data[first:]
    img[S : S + len(rest)] = rest
    return S + len(rest) if rest else at + first


def pv_plan(lay: dict, text_len: int, pad: int) -> tuple[list[int], list[int], list[int]]:
    """Return (mda size per PV, data start in bytes per PV, device size per PV)."""
    need = -(-(text_len + 1) // S) * S
    msize, starts, sizes = [], [], []
    for p, pv in enumerate(lay["pvs"]):
        m = 2 * need + S + S * ((pad + p) % 5)
        lead = 4096 + (m if pv["mdas"] else 0)
        a = pv["align"] * S
        st = -(-lead // a) * a
        total = st + pv["count"] * lay["ext"] * S + pv["slack"] * S + (m if pv["mdas"] == 2 else 0)
        msize.append(m)
        starts.append(st)
        sizes.append(total)
    return msize, starts, sizes


def label_sector(pv: dict, dsize: int, start: int, mdas: list[tuple[int, int]]) -> bytes:
    body = pv["id"].encode() + struct.pack("<Q", dsize)
    body += struct.pack("<QQ", start, 0) + bytes(16)
    for off, size in mdas:
        body += struct.pack("<QQ", off, size)
    body += bytes(16)
    body += struct.pack("<II", 2, 1) + bytes(16)  # extension: version, flags
    head = struct.pack("<8sQII8s", b"LABELONE", pv["label"], 0x1234ABCD, pv["hoff"], b"LVM2 001")
    return (head.ljust(pv["hoff"], b"\0") + body).ljust(S, b"\0")


def lv_contents(lay: dict, cseed: int, given: dict | None = None) -> dict[str, bytes]:
    """Expected content of every logical volume (pools have none)."""
    ext = lay["ext"] * S
    out: dict[str, bytes] = {}
    given = given or {}
    for lv in lay["lvs"]:
        size = sum(s["count"] for s in lv["segs"]) * ext
        name = lv["name"]
        if name in given:
            out[name] = given[name].ljust(size, b"\0")
            assert len(out[name]) == size
        elif lay.get("big"):
            out[name] = sparse.Content(cseed, f"lv{lv.get('of', name)}", size)
        elif lv["role"] == "mimage":
            out[name] = blob(cseed, f"lv{lv['of']}", size) if lv["of"] not in given else given[lv["of"]].ljust(size, b"\0")
        elif lv["role"] in ("tmeta", "tdata"):
            pool, meta, data, _ = w_thin.build_pool(lv["pool"], cseed, name.rsplit("_", 1)[0])
            img = meta if lv["role"] == "tmeta" else data
            out[name] = img + blob(cseed, f"pad{name}", size - len(img))
        elif lv["role"] == "thin":
            tag = lv["segs"][0]["pool"].removesuffix("pool")
            pool, _, _, _ = w_thin.build_pool(lv["pool"], cseed, tag)
            out[name] = pool.content(lv["dev"], size)
        elif lv["role"] not in ("pool", "other"):
            out[name] = blob(cseed, f"lv{name}", size)
    return out


def place(lay: dict, contents: dict[str, bytes], images: list[bytearray], starts: list[int]) -> None:
    """Put the content of all logical volumes that own extents on the physical volumes."""
    ext = lay["ext"] * S
    for lv in lay["lvs"]:
        if lv["role"] in ("pool", "thin", "mirror", "other"):
            continue
        data = contents[lv["name"]]
        if lay.get("big"):
            place_big(lay, lv, data, images, starts)
            continue
        for sg in lv["segs"]:
            part = data[sg["start"] * ext : (sg["start"] + sg["count"]) * ext]
            if len(sg["stripes"]) == 1:
                areas = [part]
            else:
                each = sg["count"] // len(sg["stripes"]) * ext
                areas = place_raid0([each] * len(sg["stripes"]), sg["ss"] * S, part)
            for (p, e), a in zip(sg["stripes"], areas):
                put(images[p], starts[p] + e * ext, bytes(a))


def place_big(lay: dict, lv: dict, data: sparse.Content, images: list[sparse.Canvas], starts: list[int]) -> None:
    ext = lay["ext"] * S
    for sg in lv["segs"]:
        n = len(sg["stripes"])
        first = sg["start"] * ext
        each = sg["count"] // n * ext
        maps = sparse.raid0_rows([1 << 62] * n, False)
        for (p, e), fn in zip(sg["stripes"], maps):
            if n == 1:
                images[p].holding(starts[p] + e * ext, data, first, each)
            else:
                chunk = sg["ss"] * S
                images[p].chunked(starts[p] + e * ext, each // chunk, chunk, data, lambda row, fn=fn, base=first // chunk: base + fn(row))


def stretch(rng: Random, lay: dict) -> dict:
    """The same volume group with very many extents."""
    counts = [pv["count"] for pv in lay["pvs"]]
    k = min(sparse.scale(rng, lay["ext"] * S, 1 << 42), ((1 << 32) - 4) // max(counts))
    shift = [rng.choice([0, 1, 3]) for _ in counts]
    for pv, more in zip(lay["pvs"], shift):
        pv["count"] = min(pv["count"] * k + more, (1 << 32) - 1)
        if rng.random() < 0.3:
            pv["align"] = 1 << rng.choice([22, 24, 33])
    for lv in lay["lvs"]:
        for sg in lv["segs"]:
            sg["start"] *= k
            sg["count"] *= k
            if "stripes" in sg:
                sg["stripes"] = [[p, e * k + shift[p]] for p, e in sg["stripes"]]
    return dict(lay, big=True)


def find_lv(system, name: str):
    found = [lv for lv in system.volume_group.lv if lv.name == name]
    if len(found) != 1:
        raise Violation("listing", f"expected exactly one logical volume {name}, found {len(found)}")
    return found[0]


class LVMWorld(World):
    kind = "lvm"

    def __init__(self, w: dict, given: dict | None = None):
        super().__init__(w)
        lay = w["layout"]
        cseed = w["cseed"]
        probe = len(vg_text(lay, [10**12] * len(lay["pvs"]), [10**16] * len(lay["pvs"]), 10**6).encode())
        self.msize, self.starts, self.sizes = pv_plan(lay, probe, w["pad"])
        self.contents = lv_contents(lay, cseed, given)
        if lay.get("big"):
            self.images = [sparse.Canvas(cseed, f"pv{p}", n) for p, n in enumerate(self.sizes)]
        else:
            self.images = [bytearray(blob(cseed, f"pv{p}", n)) for p, n in enumerate(self.sizes)]
        place(lay, self.contents, self.images, self.starts)
        self.text = vg_text(lay, [s // S for s in self.starts], self.sizes, lay["seqno"]).encode()
        self.mdas: list[list[tuple[int, int]]] = []
        for p, pv in enumerate(lay["pvs"]):
            areas = []
            if pv["mdas"] >= 1:
                areas.append((4096, self.msize[p]))
            if pv["mdas"] >= 2:
                areas.append((self.sizes[p] - self.msize[p], self.msize[p]))
            self.mdas.append(areas)
            img = self.images[p]
            img[0 : 4 * S] = bytes(4 * S)
            dsize = self.sizes[p] if not pv["oldsize"] else max(S, self.sizes[p] // 2 // S * S)
            put(img, pv["label"] * S, label_sector(pv, dsize, self.starts[p], areas))
        self.write_metadata()
        self.finish(lay)

    def write_metadata(self) -> None:
        w = self.w
        for p in range(len(self.images)):
            for a, (off, size) in enumerate(self.mdas[p]):
                at = S + (w["ring"][(2 * p + a) % len(w["ring"])] * S) % (size - S)
                img, _ = mda_image(size, off, self.text, at, blob(w["cseed"], f"mda{p}.{a}", size))
                put(self.images[p], off, bytes(img))
                end = at + len(self.text) + 1
                if end > size:
                    self.probes["lvm_text_wraps"] += 1

    def finish(self, lay: dict) -> None:
        w = self.w
        for p, img in enumerate(self.images):
            meta = [(0, 2048)] + list(self.mdas[p])
            self.devices.append(Device(f"pv{p}", sparse.done(img), w["modes"][p % len(w["modes"])], meta))
        order = w["order"]
        self.devices = [self.devices[j] for j in sorted(range(len(self.devices)), key=lambda j: order[j % len(order)] * 1000 + j)]
        grain = lay["ext"] * S
        for lv in lay["lvs"]:
            if lv["role"] in ("pool", "other"):
                self.probes["lvm_unreadable_type"] += lv["role"] == "other"
                continue
            g = grain
            if lv["segs"][0].get("ss"):
                g = lv["segs"][0]["ss"] * S
            marks = [sg["start"] * grain for sg in lv["segs"]]
            self.vols.append(Vol(lv["name"], self.contents[lv["name"]], lambda s, n=lv["name"]: find_lv(s, n).open(), grain=g, marks=marks))

    def assemble(self, fhs: list):
        from dissect.volume.lvm.lvm2 import LVM2

        return LVM2(fhs if len(fhs) > 1 else fhs[0])

    def parse(self, fh):
        from dissect.volume.lvm.physical import LVM2Device

        return LVM2Device(fh)

    def survives(self, key: str, present: set[str]) -> bool:
        lvs = {lv["name"]: lv for lv in self.w["layout"]["lvs"]}
        if not any(f"pv{p}" in present and pv["mdas"] for p, pv in enumerate(self.w["layout"]["pvs"])):
            return False

        def whole(name: str) -> bool:
            for sg in lvs[name]["segs"]:
                if sg["type"] == "striped":
                    ok = all(f"pv{p}" in present for p, _ in sg["stripes"])
                elif sg["type"] == "mirror":
                    ok = any(whole(m) for m in sg["mirrors"])
                elif sg["type"] == "thin-pool":
                    ok = whole(sg["metadata"]) and whole(sg["pool"])
                else:
                    ok = whole(sg["pool"])
                if not ok:
                    return False
            return True

        return whole(key)

    def check_listing(self, system) -> None:
        lay = self.w["layout"]
        vg = system.volume_group
        expect(vg.name == lay["vg"], "listing", f"volume group name {vg.name}, expected {lay['vg']}")
        expect(vg.id == dashed(lay["vgid"]), "listing", f"volume group id {vg.id}")
        got = sorted(lv.name for lv in vg.lv)
        want = sorted(lv["name"] for lv in lay["lvs"])
        expect(got == want, "listing", f"logical volumes {got}, expected {want}")
        for lv in lay["lvs"]:
            real = find_lv(system, lv["name"])
            expect(real.id == dashed(lv["id"]), "listing", f"id of {lv['name']} is {real.id}")
            expect(real.is_visible == lv["visible"], "listing", f"visibility of {lv['name']} is {real.is_visible}")
            expect(real.type == lv["segs"][0]["type"], "listing", f"type of {lv['name']} is {real.type}")
        self.check_records(system)
        gotp = sorted(pv.name for pv in vg.pv)
        expect(gotp == sorted(f"pv{p}" for p in range(len(lay["pvs"]))), "listing", f"physical volumes {gotp}")

    def check_records(self, system) -> None:
        """What else is on record about the volume group, its volumes and its devices."""
        lay = self.w["layout"]
        opt = lay.get("text", {})
        base = opt.get("time", 1704067200)
        host = opt.get("host", "host.example")
        vg = system.volume_group

        def same(what: str, got, want) -> None:
            expect(got == want, "listing", f"{what} is {got!r}, expected {want!r}")

        same("description", system.description, unescape(opt.get("desc", f"Created *after* executing 'vgcreate {lay['vg']}'")))
        same("creation host", system.creation_host, host)
        same("creation time", system.creation_time, when(base))
        same("extent size", vg.extent_size, lay["ext"])
        same("sequence number", vg.seqno, lay["seqno"])
        same("status of the volume group", vg.status, ["RESIZEABLE", "READ", "WRITE"])
        same("system id", vg.system_id, opt.get("system_id") or None)
        same("tags of the volume group", vg.tags or [], opt.get("vgtags", []))
        for v, lv in enumerate(lay["lvs"]):
            real = find_lv(system, lv["name"])
            name = lv["name"]
            same(f"tags of {name}", real.tags or [], opt.get("lvtags", {}).get(name, []))
            same(f"creation time of {name}", real.creation_time, None if opt.get("plain") else when(base + 1 + v))
            same(f"creation host of {name}", real.creation_host, None if opt.get("plain") else f"{host}{v}")
            same(f"segments of {name}", sorted((s.start_extent, s.extent_count) for s in real.segments), [(s["start"], s["count"]) for s in lv["segs"]])
            same(f"segment flags of {name}", sorted(s.flags for s in real.segments), sorted(s.get("flags", []) for s in lv["segs"]))
        for p, pv in enumerate(lay["pvs"]):
            real = next((x for x in vg.pv if x.name == f"pv{p}"), None)
            expect(real is not None, "listing", f"physical volume pv{p} is not listed")
            same(f"id of pv{p}", real.id, dashed(pv["id"]))
            same(f"device of pv{p}", real.device, f"/dev/sd{chr(97 + p)}")
            same(f"tags of pv{p}", real.tags or [], opt.get("pvtags", []))
            same(f"extents of pv{p}", (real.pe_start, real.pe_count), (self.starts[p] // S, pv["count"]))
            if opt.get("nosize"):
                same(f"size of pv{p}", real.size, self.starts[p] + pv["count"] * lay["ext"] * S)
            elif real.size != self.sizes[p]:
                same(f"size of pv{p}", real.size, self.sizes[p] // S * lay["ext"])
                self.known[QUIRK] = "the size of a physical volume is its number of sectors times the extent size"
        old = vg.historical_logical_volumes or {}
        same("removed volumes", sorted(old), [f"gone{i}" for i in range(opt.get("old") or 0)])
        for i in range(opt.get("old") or 0):
            real = old[f"gone{i}"]
            same(f"name of removed volume {i}", real.name, "old#0" if i == 0 else f"gone{i}")
            same(f"times of removed volume {i}", (real.creation_time, real.removal_time), (when(base + 50 + i), when(base + 100 + i)))
            same(f"descendants of removed volume {i}", real.descendants, ["x", "-y"])

    def shrinks(self) -> list[dict]:
        out = []
        lay = self.w["layout"]
        for v, lv in enumerate(lay["lvs"]):
            if lv["role"] in ("data", "thin", "other") and len(lay["lvs"]) > 1:
                out.append(dict(self.w, layout=dict(lay, lvs=lay["lvs"][:v] + lay["lvs"][v + 1 :])))
            if lv["role"] == "mirror":
                rest = [x for x in lay["lvs"] if x is not lv and x.get("of") != lv["name"]]
                if rest:
                    out.append(dict(self.w, layout=dict(lay, lvs=rest)))
            if lv["role"] == "pool":
                sg = lv["segs"][0]
                rest = [x for x in lay["lvs"] if x is not lv and x["name"] not in (sg["metadata"], sg["pool"]) and x["segs"][0].get("pool") != lv["name"]]
                if rest:
                    out.append(dict(self.w, layout=dict(lay, lvs=rest)))
        if any(self.w["ring"]):
            out.append(dict(self.w, ring=[0]))
        return out


def gen(rng: Random, small: bool = False, npv: int | None = None, kinds: list[str] | None = None, payloads: list[int] | None = None, big: bool = False) -> dict:
    if big:
        kinds = ["linear", "multi", "striped", "mixed", "mirror"]
    layout = gen_layout(rng, small, npv, kinds, payloads)
    if big:
        layout = stretch(rng, layout)
    return {
        "kind": "lvm",
        "cseed": rng.getrandbits(32),
        "layout": layout,
        "pad": rng.randrange(5),
        "ring": [rng.choice([0, rng.randrange(64), rng.randrange(64)]) for _ in range(8)],
        "order": [rng.randint(0, 99) for _ in range(8)],
        "modes": [rng.choice([0, 0, 1, 2]) for _ in range(5)],
        "shape": f"{len(layout['pvs'])}/{layout['ext']}/" + ",".join(f"{lv['role'][0]}{len(lv['segs'])}:{len(lv['segs'][0].get('stripes', []))}" for lv in layout["lvs"]) + "/big" * big,
    }
