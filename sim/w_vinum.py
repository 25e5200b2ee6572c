"""Vinum writer model and world."""
from __future__ import annotations

import copy
import struct
from datetime import datetime, timedelta, timezone
from random import Random

from sim import sparse
from sim.core import Violation
from sim.world import Device, Vol, World, blob, expect, parity_row, place_parity, place_raid0, put

DATA_START = 135680
MAGIC = 0x56494E554D2D3100
OLD_MAGIC = 0x494E2056494E4F00
NO_MAGIC = [0x56494E554D2D2D00, 0x4E4F2056494E4F00]
S = 512


def gen_layout(rng: Random, small: bool = False, mirrors: float = 0.4, big: bool = False) -> dict:
    ndrives = rng.randint(1, 7)
    used = [DATA_START // S] * ndrives
    vols = []
    nvol = rng.choice([1, 1, 2, 3]) if not small else rng.choice([1, 1, 2])
    for v in range(nvol):
        orgs = ["concat", "concat", "striped", "striped"] + (["raid5"] * 2 if ndrives >= 3 else [])
        nplex = rng.choice([2, 2, 3]) if rng.random() < mirrors else 1
        unit = rng.choice([8, 8, 16, 32, 24])  # stripe size in sectors
        # all plexes of a volume have the same size
        wide = rng.random() < 0.08
        ndata = rng.choice([1, 2, 3, 2, 3, 4]) if not wide else rng.randint(10, 13)
        rows = rng.randint(4, 24) if small else rng.randint(6, 48)
        if wide:
            rows = rng.randint(2, 6)
        if big:
            rows += sparse.scale(rng, unit * S, 1 << 41)
        total = ndata * rows * unit
        plexes = []
        for p in range(nplex):
            org = rng.choice(orgs)
            stripe = unit
            if org == "concat":
                cuts = sorted(rng.sample(range(1, total), min(total - 1, rng.randint(0, 4) if not wide else rng.randint(9, 13))))
                lens = [b - a for a, b in zip([0, *cuts], [*cuts, total])]
            elif org == "striped":
                lens = [rows * unit] * ndata
            else:
                if ndata < 2 or ndata + 1 > ndrives:
                    org = "striped"
                    lens = [rows * unit] * ndata
                else:
                    lens = [rows * unit] * (ndata + 1)
            if org == "concat":
                drives = [rng.randrange(ndrives) for _ in lens]
            else:
                drives = rng.sample(range(ndrives), len(lens)) if len(lens) <= ndrives else [rng.randrange(ndrives) for _ in lens]
            sds = []
            for length, d in zip(lens, drives):
                used[d] += rng.choice([0, 0, 0, 1, 16])
                sds.append({"drive": d, "len": length, "off": used[d], "state": "up"})
                used[d] += length
            plexes.append({"org": org, "stripe": stripe, "sds": sds, "state": "up", "rows": rows, "good": True})
        for px in plexes:
            if px["org"] != "concat" and rng.random() < 0.1:
                px["state"] = "growable"  # has spare subdisks
        if nplex > 1 and rng.random() < 0.4:
            # one plex is not usable
            bad = rng.randrange(nplex)
            px = plexes[bad]
            px["good"] = False
            how = rng.random()
            if how < 0.4:
                px["state"] = rng.choice(["down", "faulty", "corrupt"])
            else:
                sd = rng.choice(px["sds"])
                sd["state"] = rng.choice(["down", "stale", "initializing", "crashed", "degraded"])
                px["state"] = rng.choice(["down", "up", "degraded"]) if px["org"] == "raid5" else rng.choice(["down", "up"])
        vols.append({"name": rng.choice([f"vol{v}", f"my-vol-{v}", f"v{v}.x"]), "plexes": plexes, "size": total})
    return {"ndrives": ndrives, "big": big, "vols": vols, "ends": used, "names": [f"{rng.choice(['drive', 'd', 'gvinumdrive'])}{i}" for i in range(ndrives)]}


def plex_name(vol: dict, p: int) -> str:
    return f"{vol['name']}.p{p}"


def plex_members(vol: dict, plex: dict, content: bytes) -> list[bytes]:
    unit = plex["stripe"] * S
    if plex["org"] == "concat":
        out, pos = [], 0
        for sd in plex["sds"]:
            n = sd["len"] * S
            out.append(content[pos : pos + n])
            pos += n
        return out
    if plex["org"] == "striped":
        return [bytes(m) for m in place_raid0([sd["len"] * S for sd in plex["sds"]], unit, content)]
    return [bytes(m) for m in place_parity(5, 0, len(plex["sds"]), unit, plex["sds"][0]["len"] // plex["stripe"], content)]


def fmt_size(rng: Random, sectors: int) -> str:
    n = sectors * S
    forms = [f"{sectors}s", f"{sectors}s", f"{sectors}b", str(n)]
    if n % 1024 == 0:
        forms.append(f"{n // 1024}k")
    if n % (1 << 20) == 0:
        forms.append(f"{n >> 20}m")
    return rng.choice(forms)


def config_lines(layout: dict, rng: Random) -> tuple[list[str], list[str], list[str]]:
    vlines, plines, slines = [], [], []
    for vol in layout["vols"]:
        vlines.append(f"volume {vol['name']} state {vol.get('state', 'up')}")
        for p, plex in enumerate(vol["plexes"]):
            pn = plex_name(vol, p)
            org = plex["org"] if plex["org"] == "concat" else f"{plex['org']} {fmt_size(rng, plex['stripe'])}"
            plines.append(f"plex name {pn} org {org} vol {vol['name']} state {plex['state']}")
            off = 0
            for i, sd in enumerate(plex["sds"]):
                plexoff = off if plex["org"] == "concat" else i * plex["stripe"]
                slines.append(
                    f"sd name {pn}.s{i} drive {layout['names'][sd['drive']]} len {fmt_size(rng, sd['len'])} "
                    f"driveoffset {fmt_size(rng, sd['off'])} plex {pn} plexoffset {fmt_size(rng, plexoff)} state {sd['state']}"
                )
                off += sd["len"]
    return vlines, plines, slines


def config_text(layout: dict, seed: int) -> bytes:
    rng = Random(f"cfg{seed}")
    groups = config_lines(layout, rng)
    lines = []
    for g in groups:
        rng.shuffle(g)
        lines += g
    return ("\n".join(lines) + "\n").encode()


def header(name: str, config_len: int, when: tuple[int, int], size: int, magic: int = MAGIC) -> bytes:
    return struct.pack(">QQ32s32sQQQQQ", magic, config_len, b"host.example", name.encode(), 1600000000, 0, when[0], when[1], size)


def drive_image(size: int, head: bytes, config: bytes, config_len: int, filler: bytes) -> bytearray:
    img = filler if isinstance(filler, sparse.Canvas) else bytearray(filler)
    assert len(img) == size
    img[0:DATA_START] = bytes(DATA_START)
    put(img, 4096, head)
    put(img, 4608, config.ljust(config_len, b"\0")[: max(config_len, len(config))])
    put(img, 4608 + 65536, config)
    return img


def find_vol(system, name: str):
    found = [vd for conf in system.configurations for vd in conf.virtual_disks if vd.name == name]
    if len(found) != 1:
        raise Violation("listing", f"expected exactly one volume {name}, found {len(found)}")
    return found[0]


LEVELS = {"concat": -1, "striped": 0, "raid5": 5}


class VinumWorld(World):
    kind = "vinum"

    def __init__(self, w: dict):
        super().__init__(w)
        lay = w["layout"]
        cseed = w["cseed"]
        self.build(lay, cseed)
        order = w["order"]
        for j, d in enumerate(self.devices):
            d.mode = w["modes"][j % len(w["modes"])]
        self.devices = [self.devices[j] for j in sorted(range(len(self.devices)), key=lambda j: order[j % len(order)] * 1000 + j)]

    def build(self, lay: dict, cseed: int) -> None:
        w = self.w
        config = config_text(lay, w["cfgseed"])
        clen = max(w["cfglen"], len(config) + 1)
        images = []
        for d in range(lay["ndrives"]):
            size = lay["ends"][d] * S + w["slack"][d % len(w["slack"])] * S
            lab = size if w["sized"] else 0
            head = header(lay["names"][d], clen, tuple(w["when"]), lab, w.get("magic", MAGIC))
            filler = sparse.Canvas(cseed, f"drive{d}", size) if lay.get("big") else blob(cseed, f"drive{d}", size)
            images.append(drive_image(size, head, config, clen, filler))
        for v, vol in enumerate(lay["vols"]):
            if lay.get("big"):
                self.place_big(v, vol, images)
                continue
            content = blob(cseed, f"vol{v}", vol["size"] * S)
            for plex in vol["plexes"]:
                # a RAID5 plex that lost one subdisk is still written to, other plexes are not
                degraded = plex["org"] == "raid5" and plex["state"] in ("up", "degraded")
                current = plex_members(vol, plex, content)
                old = current if plex["good"] else plex_members(vol, plex, blob(cseed, f"stale{v}", vol["size"] * S))
                for sd, new_part, old_part in zip(plex["sds"], current, old):
                    good = plex["good"] or (degraded and sd["state"] == "up")
                    put(images[sd["drive"]], sd["off"] * S, new_part if good else old_part)
            self.vols.append(Vol(f"v{v}", content, lambda s, vol=vol: find_vol(s, vol["name"]).open(), grain=vol["plexes"][0]["stripe"] * S))
        for d, img in enumerate(images):
            self.devices.append(Device(f"drive{d}", sparse.done(img), 0, [(4096, 512), (4608, len(config)), (4608 + 65536, len(config))]))
        if w.get("retired"):
            self.add_retired(lay, cseed)

    def add_retired(self, lay: dict, cseed: int) -> None:
        """A drive that was taken out of use. What it says about the volumes is of no importance any more."""
        r = self.w["retired"]
        vols = copy.deepcopy(lay["vols"])
        for vol in vols:
            for plex in vol["plexes"]:
                plex["state"] = r["state"]
                plex["stripe"] *= 2
                for sd in plex["sds"]:
                    sd["off"] += 8
                    sd["state"] = "up"
        vols.append({"name": "former", "plexes": [{"org": "concat", "stripe": 8, "sds": [{"drive": 0, "len": 8, "off": DATA_START // S, "state": "up"}], "state": "up"}]})
        config = config_text(dict(lay, vols=vols), cseed)
        clen = max(self.w["cfglen"], len(config) + 1)
        when = (self.w["when"][0] + r["later"], self.w["when"][1])
        size = DATA_START + 64 * S
        name = lay["names"][r["drive"] % lay["ndrives"]] if r["drive"] >= 0 else "retired"
        img = drive_image(size, header(name, clen, when, size, r["magic"]), config, clen, blob(cseed, "retired", size))
        self.devices.append(Device("retired", bytes(img), 0, [(4096, 512)]))
        self.probes["vinum_retired_drive"] += 1

    def place_big(self, v: int, vol: dict, images: list) -> None:
        content = sparse.Content(self.w["cseed"], f"vol{v}", vol["size"] * S)
        stale = sparse.Content(self.w["cseed"], f"stale{v}", vol["size"] * S)
        marks = set()
        for plex in vol["plexes"]:
            degraded = plex["org"] == "raid5" and plex["state"] in ("up", "degraded")
            unit, n, pos = plex["stripe"] * S, len(plex["sds"]), 0
            maps = sparse.raid0_rows([1 << 62] * n, False) if plex["org"] != "raid5" else sparse.parity_rows(parity_row, 5, 0, n)
            for sd, fn in zip(plex["sds"], maps):
                what = content if plex["good"] or (degraded and sd["state"] == "up") else stale
                img, at, size = images[sd["drive"]], sd["off"] * S, sd["len"] * S
                if plex["org"] == "concat":
                    img.holding(at, what, pos, size)
                    pos += size
                    marks.add(pos)
                else:
                    img.chunked(at, size // unit, unit, what, fn)
        self.vols.append(Vol(f"v{v}", content, lambda s, vol=vol: find_vol(s, vol["name"]).open(), grain=vol["plexes"][0]["stripe"] * S, marks=sorted(marks)))

    def assemble(self, fhs: list):
        from dissect.volume.vinum.vinum import Vinum

        return Vinum(fhs if len(fhs) > 1 else fhs[0])

    def parse(self, fh):
        from dissect.volume.vinum.vinum import VinumPhysicalDisk

        return VinumPhysicalDisk(fh)

    def survives(self, key: str, present: set[str]) -> bool:
        vol = self.w["layout"]["vols"][int(key[1:])]
        return any(p["good"] and all(f"drive{sd['drive']}" in present for sd in p["sds"]) for p in vol["plexes"])

    def check_listing(self, system) -> None:
        vds = [vd for conf in system.configurations for vd in conf.virtual_disks]
        vols = self.w["layout"]["vols"]
        expect(len(vds) == len(vols), "listing", f"{len(vds)} volumes reported, expected {len(vols)}")
        for vol in vols:
            vd = find_vol(system, vol["name"])
            expect(vd.size == vol["size"] * S, "size", f"volume {vol['name']} size {vd.size}, expected {vol['size'] * S}")
            if all(p["good"] for p in vol["plexes"]):
                level = 1 if len(vol["plexes"]) > 1 else LEVELS[vol["plexes"][0]["org"]]
                expect(vd.level == level, "listing", f"volume {vol['name']} level {vd.level}, expected {level}")
        if self.kind == "vinum":
            self.check_drives(system)

    def check_drives(self, system) -> None:
        lay, when = self.w["layout"], self.w["when"]
        disks = {disk.name: disk for conf in system.configurations for disk in conf.physical_disks if disk.active}
        expect(sorted(disks) == sorted(lay["names"]), "listing", f"drives {sorted(disks)}, expected {sorted(lay['names'])}")
        moment = datetime.fromtimestamp(when[0], timezone.utc) + timedelta(microseconds=when[1])
        for name, disk in disks.items():
            expect(abs(disk.config_time - moment) < timedelta(microseconds=10), "listing", f"drive {name} was updated at {disk.config_time}, expected {moment}")

    def shrinks(self) -> list[dict]:
        out = []
        lay = self.w["layout"]
        if self.w.get("retired"):
            out.append(dict(self.w, retired=None))
        for v in range(len(lay["vols"])):
            if len(lay["vols"]) > 1:
                out.append(dict(self.w, layout=dict(lay, vols=lay["vols"][:v] + lay["vols"][v + 1 :])))
            vol = lay["vols"][v]
            for p in range(len(vol["plexes"])):
                if len(vol["plexes"]) > 1 and any(x["good"] for i, x in enumerate(vol["plexes"]) if i != p):
                    v2 = dict(vol, plexes=vol["plexes"][:p] + vol["plexes"][p + 1 :])
                    out.append(dict(self.w, layout=dict(lay, vols=[*lay["vols"][:v], v2, *lay["vols"][v + 1 :]])))
        return out


def gen(rng: Random, small: bool = False, mirrors: float = 0.4, big: bool = False) -> dict:
    layout = gen_layout(rng, small, mirrors, big)
    return {
        "kind": "vinum",
        "cseed": rng.getrandbits(32),
        "layout": layout,
        "cfgseed": rng.getrandbits(32),
        "cfglen": (65536 if rng.random() < 0.005 else rng.choice([512, 512, 1024, 2048])) if not small else rng.choice([512, 2048]),
        "when": [1700000000 + rng.randrange(1 << 20), rng.randrange(1000000)],
        "sized": rng.random() < 0.7,
        "slack": [rng.choice([0, 0, 7, 100]) for _ in range(4)],
        "magic": rng.choice([MAGIC, MAGIC, OLD_MAGIC]),
        "retired": {"magic": rng.choice(NO_MAGIC), "drive": rng.randint(-1, 5), "later": rng.choice([-1000, 1000]), "state": rng.choice(["up", "down"])} if rng.random() < 0.12 else None,
        "order": [rng.randint(0, 99) for _ in range(24)],
        "modes": [rng.choice([0, 0, 1, 2]) for _ in range(5)],
        "shape": "|".join(",".join(f"{p['org']}{len(p['sds'])}/{p['stripe']}/{p['state']}" for p in v["plexes"]) for v in layout["vols"]) + "/big" * big,
    }
