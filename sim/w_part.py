"""Partition table writer models (MBR, GPT, APM, BSD disklabels) and world."""
from __future__ import annotations

import struct
from random import Random
from uuid import UUID

from sim import sparse
from sim.core import Violation
from sim.world import Device, Vol, World, blob, expect, put

GPT_TYPES = [
    "C12A7328-F81F-11D2-BA4B-00A0C93EC93B",
    "EBD0A0A2-B9E5-4433-87C0-68B6B72699C7",
    "0FC63DAF-8483-4772-8E79-3D69D8477DE4",
    "E6D6D379-F507-44C2-A23C-238F2A3DF928",
    "A19D880F-05FC-4D3B-A006-743F0F84911E",
    "11111111-2222-3333-4444-555555555555",
]
GPT_BSD = {
    "9D087404-1CA5-11DC-8817-01301BB8A9F5": ("bsd32",),
    "3D48CE54-1D16-11DC-8696-01301BB8A9F5": ("bsd64",),
    "516E7CB4-6ECF-11D6-8FF8-00022D09712B": ("bsd32",),
}
MBR_TYPES = [0x01, 0x06, 0x07, 0x0B, 0x0C, 0x82, 0x83, 0x8E, 0xDA, 0xEF, 0xFB, 0xFD, 0x42, 0x27]
MBR_BSD = {0xA5: ("bsd32", "bsd64"), 0x6C: ("bsd32", "bsd64"), 0xA9: ("bsd32",)}
EXTENDED = [0x05, 0x0F, 0x85]
QUIRK = "gpt-last-sector"
OEM = [b"MSDOS5.0", b"MSWIN4.1", b"NTFS    ", b"EXFAT   ", b"-FVE-FS-", b"SYSLINUX"]


class Space:
    """Hands out sector ranges of pairwise different size."""

    def __init__(self, rng: Random, start: int, end: int, used: set[int]):
        self.rng = rng
        self.pos = start
        self.end = end
        self.used = used

    def take(self, lo: int, hi: int) -> tuple[int, int] | None:
        gap = self.rng.choice([0, 0, 0, 1, 7, 63])
        for _ in range(60):
            n = self.rng.randint(lo, hi)
            if not {n - 1, n, n + 1} & self.used and self.pos + gap + n <= self.end:
                self.used.add(n)
                start = self.pos + gap
                self.pos = start + n
                return start, n
            if _ % 10 == 9:
                hi += 40
        return None


def guid(rng: Random) -> str:
    return str(UUID(int=rng.getrandbits(128)))


def gpt_name(rng: Random) -> str:
    return rng.choice(
        ["", "EFI System Partition", "Linux filesystem", "data", "größe-ß", "日本語", "x" * 36, "Basic data partition", "a b", " a  b ", "\U0001f600 disk"]
    )


def gen_bsd(rng: Random, kind: str, nsect: int, used: set[int], nested: bool, base: int, big: bool = False) -> dict:
    """A disklabel inside a range of nsect sectors."""
    slots = rng.choice([8, 8, 10, 16, 20]) if kind == "bsd32" else rng.choice([8, 16])
    free = [s for s in range(slots) if s != 2]
    sp = Space(rng, 18, nsect - 1, used)
    parts = []
    lo, hi = (4, max(6, min(80, nsect // 5))) if not big else (4, nsect // 5)
    nested = nested and base + nsect < 1 << 32
    for _ in range(rng.randint(1, 5)):
        got = sp.take(lo, hi)
        if got is None or not free:
            break
        slot = free.pop(0) if rng.random() < 0.5 else free.pop(rng.randrange(len(free)))
        parts.append({"slot": slot, "start": got[0], "n": got[1], "type": rng.choice([1, 7, 9, 14, 22, 27, 99]), "guid": guid(rng), "tguid": guid(rng)})
    junk = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        if free:
            junk.append({"slot": free.pop(rng.randrange(len(free))), "how": rng.choice(["nosize", "notype", "before"])})
    return {"kind": kind, "slots": slots, "parts": parts, "junk": junk, "base": base if nested else 0, "nsect": nsect}


def gen_disk(rng: Random, small: bool = False, scheme: str | None = None, fill: list[int] | None = None, big: bool = False) -> dict:
    """fill: sizes in sectors that must be present as plain partitions (for stacked worlds)."""
    scheme = scheme or rng.choice(["mbr", "mbr", "gpt", "gpt", "hybrid", "apm", "bsd32", "bsd64"])
    ss = rng.choice([512, 512, 512, 4096]) if scheme in ("mbr", "gpt", "hybrid", "bsd32") else 512
    if fill:
        ss = 512
    used: set[int] = set()
    d: dict = {"scheme": scheme, "ss": ss, "serial": rng.getrandbits(32)}
    small = small or ss == 4096
    lo, hi = (2, 60) if small else (2, rng.choice([100, 300, 600]))
    total = (700 if small else 3500) if not fill else sum(fill) + 4000
    nlo, nhi = 120, 260  # ranges that hold a disklabel
    if big:
        lo, hi = rng.choice([2, 1 << 20]), 1 << rng.choice([23, 26, 29, 30])
        total = (1 << 32) - 2 if scheme not in ("gpt", "hybrid", "bsd64") else 1 << rng.choice([33, 36, 38])
        if total > 1 << 32:
            hi = total // 8
        nlo, nhi = 1 << 20, 1 << 28
        d["big"] = True
    if scheme == "mbr":
        sp = Space(rng, rng.choice([1, 2, 63]), total, used)
        # sector 1 may hold leftovers of another scheme
        d["decoy"] = rng.choice(["", "", "", "bsd32", "bsd64", "gpt", "apm"]) if sp.pos > 1 else ""
        d["lead"] = rng.choice([1, 7, 100]) if not big and not fill and rng.random() < 0.1 else 0
        slots = rng.sample(range(4), rng.randint(1, 4))
        ext = rng.sample(range(len(slots)), min(len(slots), rng.choice([1, 1, 1, 2]))) if rng.random() < 0.6 else []
        prim = []
        wanted = list(fill or [])
        for i, slot in enumerate(slots):
            if i in ext:
                chain = gen_chain(rng, sp, lo, hi, big)
                if chain:
                    prim.append({"slot": slot, "type": rng.choice(EXTENDED), **chain})
                    continue
            if wanted:
                n = wanted.pop(0)
                prim.append({"slot": slot, "start": sp.pos, "n": n, "type": 0xFD, "boot": 0, "payload": len(fill) - len(wanted) - 1})
                sp.pos += n
                used |= {n}
                continue
            if not fill and rng.random() < 0.3:
                t = rng.choice(list(MBR_BSD))
                got = sp.take(nlo, nhi)
                if got:
                    kind = rng.choice(MBR_BSD[t]) if ss == 512 else "bsd32"
                    p = {"slot": slot, "start": got[0], "n": got[1], "type": t, "boot": 0}
                    if rng.random() < 0.2:
                        p["unlabeled"] = rng.choice(["", "", "half"])
                    else:
                        p["bsd"] = gen_bsd(rng, kind, got[1], used, rng.random() < 0.7, got[0], big)
                    prim.append(p)
                    continue
            got = sp.take(lo, hi)
            if got:
                prim.append({"slot": slot, "start": got[0], "n": got[1], "type": rng.choice(MBR_TYPES), "boot": rng.choice([0, 0, 0x80])})
        d["prim"] = prim
        d["end"] = sp.pos
        d["boot"] = rng.choice(["zero", "code", "grub"])
    elif scheme in ("gpt", "hybrid"):
        esize = rng.choice([128, 128, 128, 256, 512]) if not small else 128
        count = rng.choice([4, 8, 16, 128]) if esize == 128 else rng.choice([4, 8, 16])
        if ss == 4096:
            count = rng.choice([4, 8, 32])
        array = rng.choice([2, 2, 2, 3, 6]) if not big else rng.choice([2, 2, 6, 1 << 23, 1 << 32])
        nsec = -(-count * esize // ss)
        sp = Space(rng, array + nsec, total + 400, used)
        slots = rng.sample(range(count), min(count, rng.randint(1, 6)))
        parts = []
        wanted = list(fill or [])
        if fill:
            slots = rng.sample(range(count), max(len(fill), min(count, 4)))
        for slot in slots:
            p = {"slot": slot, "guid": guid(rng), "name": gpt_name(rng), "flags": rng.choice([0, 0, 1, 1 << 60, 1 << 63])}
            if wanted:
                n = wanted.pop(0) + 1  # the last sector is out of reach
                p |= {"start": sp.pos, "n": n, "type": GPT_TYPES[4], "payload": len(fill) - len(wanted) - 1}
                sp.pos += n
                parts.append(p)
                continue
            if not fill and rng.random() < 0.2:
                t = rng.choice(list(GPT_BSD))
                kind = GPT_BSD[t][0]
                got = sp.take(nlo, nhi) if kind == "bsd32" or ss == 512 else None
                if got and rng.random() < 0.1:
                    parts.append(p | {"start": got[0], "n": got[1], "type": t})
                    continue
                if got:
                    parts.append(p | {"start": got[0], "n": got[1], "type": t, "bsd": gen_bsd(rng, kind, got[1], used, rng.random() < 0.5, got[0], big)})
                    continue
            got = sp.take(max(2, lo), hi)
            if got:
                parts.append(p | {"start": got[0], "n": got[1], "type": rng.choice(GPT_TYPES)})
        stale = []
        for s in rng.sample(range(count), min(count, 2)):
            if s not in [p["slot"] for p in parts] and rng.random() < 0.25:
                stale.append(s)
        d |= {"esize": esize, "count": count, "array": array, "parts": parts, "stale": stale, "end": sp.pos + 33}
        hyb = []
        d["eeslot"] = 0
        if scheme == "hybrid":
            plain = [p for p in parts if "bsd" not in p and p["start"] + p["n"] < 1 << 32]
            picks = rng.sample(plain, min(len(plain), rng.randint(1, 2)))
            # where the protective entries are among the others
            d["eeslot"] = rng.randint(0, len(picks))
            d["ee2"] = rng.randint(d["eeslot"] + 1, len(picks) + 1) if rng.random() < 0.5 and not big else None
            free = [i for i in range(4) if i not in (d["eeslot"], d["ee2"])]
            for slot, p in zip(free, picks):
                hyb.append({"slot": slot, "start": p["start"], "n": p["n"], "type": rng.choice(MBR_TYPES), "boot": 0})
        d["hyb"] = hyb
    elif scheme == "apm":
        nent = max(rng.randint(2, 7), len(fill or []) + 1)
        sp = Space(rng, 1 + max(nent, 63 if rng.random() < 0.5 else nent), total, used)
        mapsize = sp.pos - 1
        used |= {mapsize}
        parts = [{"start": 1, "n": mapsize, "type": "Apple_partition_map", "name": "Apple"}]
        wanted = list(fill or [])
        for _ in range(max(nent - 1, len(wanted))):
            if wanted:
                n = wanted.pop(0)
                parts.append({"start": sp.pos, "n": n, "type": "Apple_HFS", "name": "payload", "payload": len(fill) - len(wanted) - 1})
                sp.pos += n
                continue
            got = sp.take(lo, hi)
            if got:
                parts.append({"start": got[0], "n": got[1], "type": rng.choice(["Apple_HFS", "Apple_Free", "Apple_Boot", "Windows_NTFS", "T" * 32]), "name": rng.choice(["", "disk image", "Macintosh HD", "n" * 32, " a disk "])})
        d |= {"parts": parts, "end": sp.pos}
    else:
        lab = gen_bsd(rng, scheme, total if big else 260 if small else 900, used, False, 0, big)
        d |= {"label": lab, "end": lab["nsect"]}
        if rng.random() < 0.3 and lab["nsect"] < 1 << 32:
            d["dedicated"] = rng.choice([0xA5, 0xA9] if scheme == "bsd32" else [0xA5, 0x6C])  # an MBR entry that covers the whole disk
    d["end"] += rng.choice([0, 0, 1, 40])
    return d


def gen_chain(rng: Random, sp: Space, lo: int, hi: int, big: bool = False) -> dict | None:
    """An extended partition with a chain of logical partitions, not necessarily in disk order."""
    n = rng.randint(1, 6) if rng.random() < 0.8 else rng.randint(7, 28)
    if n > 6:
        hi = lo + 6
    start = sp.pos + rng.choice([0, 1])
    sp.pos = start
    ebrs = []
    for _ in range(n):
        at = sp.pos
        sp.pos += 1
        got = sp.take(lo, hi if big else min(hi, 120))
        if got is None:
            break
        ebrs.append({"at": at, "start": got[0], "n": got[1], "type": rng.choice(MBR_TYPES), "boot": 0, "empty": rng.random() < 0.1})
    if not ebrs:
        return None
    first, rest = ebrs[0], ebrs[1:]
    if rng.random() < 0.4:
        rng.shuffle(rest)
    return {"start": start, "n": sp.pos - start, "chain": [first, *rest], "link": [rng.choice(EXTENDED) for _ in range(n)]}


# -- writers -------------------------------------------------------------------------------------------------------


def mbr_entry(boot: int, typ: int, start: int, n: int) -> bytes:
    return struct.pack("<BBHBBHII", boot, 0xFE, 0xFFFF, typ, 0xFE, 0xFFFF, start, n)


def mbr_sector(entries: dict[int, bytes], serial: int, boot: bytes) -> bytes:
    out = bytearray(512)
    out[0 : len(boot)] = boot
    struct.pack_into("<I", out, 0x1B8, serial)
    for slot, e in entries.items():
        out[0x1BE + 16 * slot : 0x1BE + 16 * slot + 16] = e
    out[510:512] = b"\x55\xaa"
    return bytes(out)


def write_bsd(img: bytearray, at: int, lab: dict, ss: int) -> None:
    """Write a disklabel for the range that starts at byte offset at."""
    if lab["kind"] == "bsd32":
        head = struct.pack("<IHH16s16sIIIIII", 0x82564557, 4, 0, b"disk", b"pack", ss, 63, 255, 10, 63 * 255, lab["nsect"])
        head += struct.pack("<HHIHHHHIII", 0, 0, 0, 3600, 1, 0, 0, 0, 0, 0)
        head += bytes(20) + bytes(20) + struct.pack("<IHHII", 0x82564557, 0, lab["slots"], 8192, 8192)
        assert len(head) == 148
        table = bytearray(16 * lab["slots"])

        def ent(slot, size, off, typ):
            struct.pack_into("<IIIBBH", table, slot * 16, size, off, 2048, typ, 8, 16)

        ent(2, lab["nsect"], lab["base"], 0)
        for p in lab["parts"]:
            ent(p["slot"], p["n"], lab["base"] + p["start"], p["type"])
        for j in lab["junk"]:
            if j["how"] == "nosize":
                ent(j["slot"], 0, lab["base"] + 5, 7)
            elif j["how"] == "notype":
                ent(j["slot"], 9, lab["base"] + 5, 0)
            elif lab["base"] > 0:  # belongs to another part of the disk
                ent(j["slot"], 9, lab["base"] - 1, 7)
    else:
        head = struct.pack("<IIII16sQQQQQ64s64s", 0xC4464C59, 0, 4096, lab["slots"], bytes(16), lab["nsect"] * ss, 32, 16 * ss, lab["nsect"] * ss, 0, b"pack", b"")
        table = bytearray(64 * lab["slots"])
        for p in lab["parts"]:
            struct.pack_into(
                "<QQB15s16s16s", table, p["slot"] * 64, p["start"] * ss, p["n"] * ss, p["type"], b"", UUID(p["tguid"]).bytes_le, UUID(p["guid"]).bytes_le
            )
        for j in lab["junk"]:
            if j["how"] == "notype":
                struct.pack_into("<QQB", table, j["slot"] * 64, 5 * ss, 9 * ss, 0)
    put(img, at + ss, head + bytes(table))


BOOT = {"zero": b"", "code": bytes.fromhex("fab80000d08ed88ec0fbbe007cbf0006b90002f3a4") * 8, "grub": b"\xeb\x63\x90\xd0\xbc\x00\x7c\x8e\xc0" + bytes(60) + b"GRUB \x00Geom\x00Hard Disk\x00"}


def write_disk(d: dict, cseed: int, tag: str = "", payloads: list[bytes] | None = None) -> tuple[bytes, list[dict]]:
    """Returns the disk image and the expected partitions."""
    ss = d["ss"]
    img = sparse.Canvas(cseed, f"{tag}disk", d["end"] * ss) if d.get("big") else bytearray(blob(cseed, f"{tag}disk", d["end"] * ss))
    img[0 : 2 * ss] = bytes(2 * ss)
    exp: list[dict] = []

    def expected(start: int, n: int, typ, number: int | None, base: int = 0, **kw) -> dict:
        e = {"offset": start * ss, "size": n * ss, "type": typ, "number": number, "abs": (base + start) * ss, "name": None, "guid": None, "flags": None, "quirk": None} | kw
        exp.append(e)
        return e

    def payload(p: dict) -> None:
        if "payload" in p and payloads is not None:
            put(img, p["start"] * ss, payloads[p["payload"]])

    def nested(p: dict) -> None:
        lab = p["bsd"]
        write_bsd(img, p["start"] * ss, lab, ss)
        for q in lab["parts"]:
            expected(q["start"], q["n"], q["type"], q["slot"] + 1, p["start"], nested=True, guid=UUID(q["guid"]) if lab["kind"] == "bsd64" else None)

    s = d["scheme"]
    if s == "mbr":
        ents = {}
        if d.get("decoy") == "gpt":
            put(img, ss, struct.pack("<8sIIIIQQQQ16sQIII", b"EFI PART", 0x10000, 92, 0, 0, 1, d["end"], 34, d["end"], bytes(16), 2, 128, 128, 0))
        elif d.get("decoy") == "apm":
            put(img, 512, struct.pack(">2sHIII32s32sIII", b"PM", 0, 1, 1, 63, b"Apple", b"Apple_partition_map", 0, 63, 0x33))
        elif d.get("decoy"):
            lab = {"kind": d["decoy"], "slots": 8, "nsect": d["end"], "base": 0, "junk": [], "parts": [{"slot": 0, "start": 16, "n": 20, "type": 7, "guid": str(UUID(int=1)), "tguid": str(UUID(int=2))}]}
            write_bsd(img, 0, lab, ss)
        for p in d["prim"]:
            ents[p["slot"]] = mbr_entry(p.get("boot", 0), p["type"], p["start"], p["n"])
            if "chain" in p:
                chain = p["chain"]
                for i, e in enumerate(chain):
                    sub = {}
                    if not e["empty"]:
                        sub[0] = mbr_entry(e["boot"], e["type"], e["start"] - e["at"], e["n"])
                        expected(e["start"], e["n"], e["type"], None, flags=e["boot"])
                    if i + 1 < len(chain):
                        nxt = chain[i + 1]
                        sub[1] = mbr_entry(0, p["link"][i], nxt["at"] - p["start"], nxt["start"] + nxt["n"] - nxt["at"])
                    put(img, e["at"] * ss, mbr_sector(sub, 0, b""))
            elif "bsd" in p:
                nested(p)
            else:
                payload(p)
                if p.get("unlabeled") == "half":  # leftovers of a label
                    put(img, (p["start"] + 1) * ss, struct.pack("<IHH", 0x82564557, 4, 0))
                expected(p["start"], p["n"], p["type"], p["slot"] + 1, payload=p.get("payload"), flags=p["boot"])
        put(img, 0, mbr_sector(ents, d["serial"], BOOT[d["boot"]]))
    elif s in ("gpt", "hybrid"):
        ents = {d["eeslot"]: mbr_entry(0, 0xEE, 1, min(d["end"] - 1, 0xFFFFFFFF))}
        for p in d["hyb"]:
            ents[p["slot"]] = mbr_entry(p["boot"], p["type"], p["start"], p["n"])
            expected(p["start"], p["n"], p["type"], p["slot"] + 1, flags=p["boot"])
        if d.get("ee2") is not None and d["ee2"] < 4:
            ents[d["ee2"]] = mbr_entry(0, 0xEE, d["end"] - 10, 9)
        put(img, 0, mbr_sector(ents, 0, b""))
        head = struct.pack(
            "<8sIIIIQQQQ16sQIII", b"EFI PART", 0x10000, 92, 0, 0, 1, d["end"] - 1, d["array"] + 1, d["end"] - 34, UUID(int=d["serial"] << 64).bytes_le, d["array"], d["count"], d["esize"], 0
        )
        put(img, ss, head)
        table = bytearray(d["count"] * d["esize"])
        for p in d["parts"]:
            ent = UUID(p["type"]).bytes_le + UUID(p["guid"]).bytes_le
            ent += struct.pack("<QQQ", p["start"], p["start"] + p["n"] - 1, p["flags"]) + p["name"].encode("utf-16-le")[:72].ljust(72, b"\0")
            table[p["slot"] * d["esize"] : p["slot"] * d["esize"] + 128] = ent
            if "bsd" in p:
                nested(p)
            else:
                payload(p)
                expected(p["start"], p["n"], UUID(p["type"]), p["slot"] + 1, name=p["name"], guid=UUID(p["guid"]), quirk=(p["n"] - 1) * ss, payload=p.get("payload"), flags=p["flags"])
        for slot in d["stale"]:
            # a deleted entry of which only the type was cleared
            ent = bytes(16) + UUID(int=slot + 7).bytes_le + struct.pack("<QQQ", d["array"] + 40, d["array"] + 60, 0) + "old".encode("utf-16-le").ljust(72, b"\0")
            table[slot * d["esize"] : slot * d["esize"] + 128] = ent
        put(img, d["array"] * ss, bytes(table))
    elif s == "apm":
        put(img, 0, struct.pack(">2sHI", b"ER", 512, d["end"]))
        for i, p in enumerate(d["parts"]):
            ent = struct.pack(">2sHIII32s32sIII", b"PM", 0, len(d["parts"]), p["start"], p["n"], p["name"].encode(), p["type"].encode(), 0, p["n"], 0x33)
            put(img, (1 + i) * 512, ent.ljust(512, b"\0"))
            payload(p)
            expected(p["start"], p["n"], p["type"], i + 1, name=p["name"], payload=p.get("payload"))
    elif s == "none":
        # no partition table, although the first sector may look a bit like one
        junk = bytearray(blob(cseed, "sector", 512))
        junk[:3] = b"\xeb\x58\x90"
        junk[0x1BE + 4] = 7
        if d["how"] == "protective":
            # the table itself was erased, or is not where it is looked for as the sectors are larger than claimed
            junk = bytearray(mbr_sector({0: mbr_entry(0, 0xEE, 1, d["end"] - 1)}, 0, b""))
            if d["serial"]:
                head = struct.pack("<8sIIIIQQQQ16sQIII", bytes(8), 0x10000, 92, 0, 0, 1, d["end"] - 1, 3, d["end"] - 34, bytes(16), 2, 4, 128, 0)
                put(img, ss, head)
                put(img, 2 * ss, UUID(GPT_TYPES[1]).bytes_le + bytes(16) + struct.pack("<QQQ", 10, 20, 0) + bytes(72 + 3 * 128))
        elif d["how"] == "blank":
            junk = bytearray(512)
        elif d["how"] in ("qnx4", "qnx6"):
            junk[0x1BE:512] = mbr_sector({0: mbr_entry(0, 7, 8, 8)}, 0, b"")[0x1BE:]
            at, what = (18, b"Hit Esc for .altboot") if d["how"] == "qnx4" else (168, b"\r\nQNX ")
            junk[at : at + len(what)] = what
        elif d["how"] != "noise":
            junk[0x1BE:512] = mbr_sector({0: mbr_entry(0, 7, 8, 8)}, 0, b"")[0x1BE:]
            junk[3:11] = d["how"].encode()
        else:
            junk[510:512] = b"\0\0"
        put(img, 0, bytes(junk))
    else:
        lab = d["label"]
        write_bsd(img, 0, lab, ss)
        if d.get("dedicated"):
            put(img, 0, mbr_sector({3: mbr_entry(0x80, d["dedicated"], 0, lab["nsect"])}, d["serial"], BOOT["code"]))
        for q in lab["parts"]:
            expected(q["start"], q["n"], q["type"], q["slot"] + 1, guid=UUID(q["guid"]) if lab["kind"] == "bsd64" else None)
    data = sparse.done(img)
    for e in exp:
        e["content"] = sparse.Window(data, e["abs"], e["size"]) if d.get("big") else data[e["abs"] : e["abs"] + e["size"]]
        assert len(e["content"]) == e["size"]
    return data, exp


def meta_regions(d: dict) -> list[tuple[int, int]]:
    """Where a disk description puts its metadata."""
    ss = d["ss"]
    out = [(0, 512)]
    if d["scheme"] == "mbr":
        for p in d["prim"]:
            out += [(e["at"] * ss + 0x1B8, 72) for e in p.get("chain", [])]
            if "bsd" in p:
                out.append(((p["start"] + 1) * ss, 512))
    elif d["scheme"] in ("gpt", "hybrid"):
        out += [(ss, 92), (d["array"] * ss, d["count"] * d["esize"])]
        out += [((p["start"] + 1) * ss, 512) for p in d["parts"] if "bsd" in p]
    elif d["scheme"] == "apm":
        out.append((512, 512 * len(d["parts"])))
    elif d["scheme"] != "none":
        out.append((ss, 512))
    return out


def matches(p, e: dict) -> bool:
    return p.type == e["type"] and p.offset == e["offset"] and p.size in (e["size"], e["quirk"])


def find_part(system, e: dict):
    found = [p for p in system.partitions if matches(p, e)]
    if len(found) != 1:
        raise Violation("listing", f"expected exactly one partition type {e['type']} at {e['offset']} of size {e['size']}, found {len(found)}")
    return found[0]


def check_partitions(system, exp: list[dict], known: dict) -> None:
    got = sorted((p.offset, p.size, str(p.type)) for p in system.partitions)
    want = sorted((e["offset"], e["size"], str(e["type"])) for e in exp)
    expect(len(got) == len(want), "listing", f"{len(got)} partitions reported, expected {len(want)}: {got[:8]} instead of {want[:8]}")
    for e in exp:
        p = find_part(system, e)
        if p.size != e["size"]:
            known[QUIRK] = "a GPT partition is reported without its last sector"
        if e["number"] is not None:
            expect(p.number == e["number"], "listing", f"partition at {e['offset']} has number {p.number}, expected {e['number']}")
        if e["name"] is not None:
            expect(p.name == e["name"], "listing", f"partition at {e['offset']} has name {p.name!r}, expected {e['name']!r}")
        if e["flags"] is not None:
            expect(p.flags == e["flags"], "listing", f"partition at {e['offset']} has flags {p.flags}, expected {e['flags']}")
        if e["guid"] is not None:
            expect(p.guid == e["guid"], "listing", f"partition at {e['offset']} has identifier {p.guid}, expected {e['guid']}")


class PartWorld(World):
    kind = "part"

    def __init__(self, w: dict, given: list[bytes] | None = None):
        super().__init__(w)
        d = w["disk"]
        data, self.exp = write_disk(d, w["cseed"], payloads=given)
        self.must_assemble = d["scheme"] != "none"
        regions = meta_regions(d)
        self.lead = d.get("lead", 0) * d["ss"]
        if self.lead:
            # the table does not start where the device does
            data = blob(w["cseed"], "lead", self.lead) + data
            regions = [(at + self.lead, n) for at, n in regions]
            self.exp = [e if e.get("nested") else dict(e, offset=e["offset"] + self.lead) for e in self.exp]
        self.devices = [Device("disk", data, w["modes"][0], regions)]
        for i, e in enumerate(self.exp):
            self.vols.append(Vol(f"p{i}", e["content"], lambda s, e=e: find_part(s, e).open(), grain=d["ss"], quirk=e["quirk"], quirk_sig=QUIRK))

    def assemble(self, fhs: list):
        from dissect.volume.disk.disk import Disk

        fh = fhs[0]
        fh.seek(self.lead)
        return Disk(fh, sector_size=self.w["disk"]["ss"])

    def check_listing(self, system) -> None:
        check_partitions(system, self.exp, self.known)
        d = self.w["disk"]
        if d["scheme"] == "mbr":
            expect(system.serial == d["serial"], "listing", f"serial number {system.serial}, expected {d['serial']}")

    def shrinks(self) -> list[dict]:
        out = []
        d = self.w["disk"]
        for k in ("prim", "parts"):
            for i in range(len(d.get(k, []))):
                if k == "parts" and d["scheme"] == "apm" and i == 0:
                    continue
                if d.get("hyb"):
                    continue
                out.append(dict(self.w, disk=dict(d, **{k: d[k][:i] + d[k][i + 1 :]})))
            for i, p in enumerate(d.get(k, [])):
                if "bsd" in p:
                    for j in range(len(p["bsd"]["parts"])):
                        lab = dict(p["bsd"], parts=p["bsd"]["parts"][:j] + p["bsd"]["parts"][j + 1 :])
                        out.append(dict(self.w, disk=dict(d, **{k: [*d[k][:i], dict(p, bsd=lab), *d[k][i + 1 :]]})))
        if d.get("stale"):
            out.append(dict(self.w, disk=dict(d, stale=[])))
        return out


def shape(d: dict) -> str:
    if d["scheme"] == "mbr":
        return f"mbr/{d['ss']}/" + ",".join(f"{p['slot']}" + ("e%d" % len(p["chain"]) if "chain" in p else "b" if "bsd" in p else "u" if "unlabeled" in p else "") for p in d["prim"]) + d.get("decoy", "") + "l" * bool(d.get("lead"))
    if d["scheme"] in ("gpt", "hybrid"):
        return f"{d['scheme']}/{d['ss']}/{d['esize']}/{d['count']}/{d['array']}/{len(d['parts'])}/{len(d['hyb'])}/{len(d['stale'])}/{sum('bsd' in p for p in d['parts'])}"
    if d["scheme"] == "apm":
        return f"apm/{len(d['parts'])}"
    if d["scheme"] == "none":
        return f"none/{d['how']}"
    return f"{d['scheme']}/{d['ss']}/{d['label']['slots']}/{len(d['label']['parts'])}"


def gen(rng: Random, small: bool = False, big: bool = False) -> dict:
    if not small and not big and rng.random() < 0.05:
        d = {"scheme": "none", "ss": rng.choice([512, 4096]), "serial": rng.choice([0, 1]), "end": rng.choice([64, 700]), "how": rng.choice(["blank", "noise", "protective", "protective", "qnx4", "qnx6", *[o.decode() for o in OEM]])}
        return {"kind": "part", "cseed": rng.getrandbits(32), "disk": d, "modes": [rng.choice([0, 0, 1, 2])], "shape": shape(d)}
    while True:
        d = gen_disk(rng, small, big=big)
        if d.get("prim", True) and d.get("parts", True):
            if d["scheme"] == "mbr" and all(e["empty"] for p in d["prim"] for e in p.get("chain", [{"empty": False}])):
                continue
            break
    return {"kind": "part", "cseed": rng.getrandbits(32), "disk": d, "modes": [rng.choice([0, 0, 1, 2])], "shape": shape(d) + "/big" * big}
