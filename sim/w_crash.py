"""Worlds left behind by a writer that crashed in the middle of a metadata update, or whose members missed updates.

Every world here carries several generations of metadata. The expected volumes are those of the newest generation that was
completely committed to at least one member.
"""
from __future__ import annotations

import copy
import struct
from random import Random

from sim import w_ddf, w_lvm, w_md, w_thin, w_vinum
from sim.world import Device, Vol, World, blob, put

S = 512


# -- thin pools ----------------------------------------------------------------------------------------------------


class ThinCrashWorld(w_thin.ThinWorld):
    """A pool whose history contains crashes: trees of the open transaction are partly written, the superblock is not."""

    kind = "crash_thin"

    def __init__(self, w: dict):
        World.__init__(self, w)
        g = w["pool"]
        pool, img, data = self.run(g, w["cseed"])
        self.pool = pool
        self.devices = [Device("metadata", img, w["modes"][0], [(0, len(img))]), Device("data", data, w["modes"][1])]
        for dev in sorted(pool.devs):
            size = max(S, g["sizes"][str(dev)])
            content = pool.content(dev, size)
            self.vols.append(Vol(f"thin{dev}", content, lambda s, dev=dev, size=size: s.open(dev, size), grain=g["bs"]))

    def run(self, g: dict, cseed: int) -> tuple[w_thin.Pool, bytes, bytes]:
        # first pass: how many metadata blocks are needed
        need = 0
        pool = w_thin.Pool(cseed, "", g["bs"], g["nblocks"], g["aseed"])
        for op in g["history"]:
            pool.apply(op)
            if op[0] in ("commit", "crash"):
                need = max(need, w_thin.meta_blocks(pool, g["mbs"], g["fan"]))
        need = max(need, w_thin.meta_blocks(pool, g["mbs"], g["fan"]))

        mw = w_thin.MetaWriter(g["mbs"], 3 * need + 4, g["mseed"])
        pool = w_thin.Pool(cseed, "", g["bs"], g["nblocks"], g["aseed"])
        trans = 1
        live: list[int] = []  # blocks of the last committed trees
        mw.commit(pool, g["fan"], trans)
        saved = copy.deepcopy((pool.devs, pool.free, pool.pending, pool.time, pool.dead))

        def write(flip: bool) -> list[int]:
            before = list(mw.free)
            mw.commit(pool, g["fan"], trans, flip)
            return [b for b in before if b not in set(mw.free)]

        for op in [*g["history"], ["crash", g["last"]]]:
            if op[0] == "commit":
                trans += 1
                new = write(True)
                mw.free[:0] = live  # the previous trees are free again
                live = new
                pool.commit()
                saved = copy.deepcopy((pool.devs, pool.free, pool.pending, pool.time, pool.dead))
            elif op[0] == "crash":
                rng = Random(f"crash{op[1]}")
                old = bytes(mw.img)
                trans += 1
                new = write(False)
                trans -= 1
                done = 0
                for b in new:
                    # each block of the open transaction is written, not written, or torn
                    at = b * g["mbs"]
                    how = rng.choice(["all", "all", "none", "torn"])
                    if how == "none":
                        mw.img[at : at + g["mbs"]] = old[at : at + g["mbs"]]
                    elif how == "torn":
                        cut = rng.randrange(0, g["mbs"] + 1, S)
                        mw.img[at + cut : at + g["mbs"]] = old[at + cut : at + g["mbs"]]
                    done += how != "none"
                mw.free += new
                pool.devs, pool.free, pool.pending, pool.time, pool.dead = copy.deepcopy(saved)
                self.probes["thin_crash_with_blocks_written"] += bool(done)
                self.injected = {"crash_before_superblock": self.probes["thin_crash_with_blocks_written"]}
            else:
                pool.apply(op)
        data = pool.data_image(blob(cseed, "data", g["nblocks"] * g["bs"]))
        return pool, bytes(mw.img), data

    def shrinks(self) -> list[dict]:
        out = []
        h = self.w["pool"]["history"]
        size = max(1, len(h) // 2)
        while size >= 1:
            for i in range(0, len(h), size):
                out.append(dict(self.w, pool=dict(self.w["pool"], history=h[:i] + h[i + size :])))
            size //= 2
        return [w for w in out if w["pool"]["history"]]


def gen_thin(rng: Random) -> dict:
    w = w_thin.gen(rng, small=True)
    g = w["pool"]
    hist = [op for op in g["history"]]
    for _ in range(rng.randint(1, 4)):
        hist.insert(rng.randint(1, len(hist)), ["commit"])
    for _ in range(rng.choice([0, 0, 1, 2])):
        hist.insert(rng.randint(1, len(hist)), ["crash", rng.getrandbits(16)])
    g["history"] = hist
    g["last"] = rng.getrandbits(16)
    return dict(w, kind="crash_thin", shape=f"{w.get('shape', '')}/{sum(op[0] == 'crash' for op in hist)}/{sum(op[0] == 'commit' for op in hist)}")


# -- LVM -----------------------------------------------------------------------------------------------------------


class LVMCrashWorld(w_lvm.LVMWorld):
    """Metadata areas with different generations of the text.

    An update writes the new text to the ring of every area, then points the precommit slot of every area header to it,
    then the committed slot. The last update is interrupted; areas can have missed earlier updates.
    """

    kind = "crash_lvm"

    def __init__(self, w: dict):
        World.__init__(self, w)
        gens = w["gens"]
        areas = [(p, a) for p, pv in enumerate(w["pvs"]) for a in range(pv["mdas"])]
        areas = [areas[i] for i in sorted(range(len(areas)), key=lambda i: w["arder"][i % len(w["arder"])] * 100 + i)]
        takes = [[m for m in areas if m not in [tuple(x) for x in miss]] for miss in w["missed"]]
        last = len(gens) - 1
        steps = [(m, what) for what in ("text", "pre", "commit") for m in takes[last]]
        done = min(w["crash"], len(steps))
        self.newest = last
        if not any(what == "commit" for _, what in steps[:done]):
            self.newest = last - 1
        lay = self.lay = dict(gens[self.newest], pvs=w["pvs"], seqno=w["seq"][self.newest])
        cseed = w["cseed"]

        def text_of(g: int, probe: bool = False) -> bytes:
            n = w["npvs"][g]
            one = dict(gens[g], pvs=w["pvs"][:n])
            st, sz = ([10**7] * n, [10**11] * n) if probe else ([s // S for s in self.starts], self.sizes)
            return w_lvm.vg_text(one, st, sz, 10**6 if probe else w["seq"][g]).encode()

        probe = max(len(text_of(g, True)) for g in range(len(gens)))
        self.msize, self.starts, self.sizes = w_lvm.pv_plan(lay, probe, w["pad"])
        self.contents = w_lvm.lv_contents(lay, cseed)
        self.images = [bytearray(blob(cseed, f"pv{p}", n)) for p, n in enumerate(self.sizes)]
        w_lvm.place(lay, self.contents, self.images, self.starts)
        self.mdas = []
        for p, pv in enumerate(w["pvs"]):
            spots = [(4096, self.msize[p])][: pv["mdas"]]
            if pv["mdas"] >= 2:
                spots.append((self.sizes[p] - self.msize[p], self.msize[p]))
            self.mdas.append(spots)
            self.images[p][0 : 4 * S] = bytes(4 * S)
            put(self.images[p], pv["label"] * S, w_lvm.label_sector(pv, self.sizes[p], self.starts[p], spots))

        rings: dict[tuple[int, int], dict] = {}
        for i, (p, a) in enumerate(areas):
            size = self.mdas[p][a][1]
            rings[p, a] = {
                "img": bytearray(blob(cseed, f"mda{p}.{a}", size)),
                "at": S + (w["ring"][i % len(w["ring"])] * S) % (size - S),
                "slots": [None, None],
                "gen": None,
            }
        for g in range(len(gens)):
            text = text_of(g) + b"\0"
            steps = [(m, what) for what in ("text", "pre", "commit") for m in takes[g]]
            stop = len(steps) if g < last else done
            for i, (m, what) in enumerate(steps):
                r = rings[m]
                size = len(r["img"])
                if i > stop:
                    break
                if i == stop:
                    # the write that was in flight: any number of sectors of the text; a header sector is atomic
                    if what == "text":
                        w_lvm.ring_write(r["img"], r["at"], text[: w["torn"] * S % (len(text) + 1)])
                    break
                if what == "text":
                    end = w_lvm.ring_write(r["img"], r["at"], text)
                    r["new"] = (r["at"], len(text))
                    at = -(-end // S) * S
                    r["next"] = S if at >= size else at
                elif what == "pre":
                    r["slots"] = [r["slots"][0], r["new"]]
                else:
                    r["slots"] = [r["new"], None]
                    r["at"] = r["next"]
                    r["gen"] = g
        self.injected = {"crash_in_update": int(done < 3 * len(takes[last])), "missed_update": sum(len(x) for x in w["missed"])}
        old = sum(1 for r in rings.values() if r["gen"] is not None and r["gen"] < self.newest)
        self.probes["lvm_areas_with_old_text"] += old
        self.probes["lvm_areas_without_text"] += sum(1 for r in rings.values() if r["gen"] is None)
        self.probes["lvm_precommitted_only"] += sum(1 for r in rings.values() if r["slots"][1])
        for (p, a), r in rings.items():
            off, size = self.mdas[p][a]
            head = struct.pack("<I16sIQQ", 0xDEADBEEF, w_lvm.MAGIC, 1, off, size)
            slots = list(r["slots"])
            ignored = w["ignored"] and r["gen"] != self.newest
            body = b""
            for i, s in enumerate(slots):
                if s is None and i == 0 and ignored:
                    body += struct.pack("<QQII", 0, 0, 0, 1)
                elif s is None:
                    body += bytes(24)
                else:
                    body += struct.pack("<QQII", s[0], s[1], 0x11223344, 1 if ignored and i == 0 else 0)
            img = r["img"]
            img[0:S] = (head + body).ljust(S, b"\0")
            put(self.images[p], off, bytes(img))
            if ignored:
                self.probes["lvm_ignored_area"] += 1
        self.finish(lay)

    def check_listing(self, system) -> None:
        n = self.w["npvs"][self.newest]
        keep = self.w
        try:
            self.w = dict(keep, layout=dict(self.lay, pvs=keep["pvs"][:n]))
            super().check_listing(system)
        finally:
            self.w = keep

    def shrinks(self) -> list[dict]:
        out = []
        w = self.w
        if len(w["gens"]) > 2:
            out.append(dict(w, gens=w["gens"][1:], missed=w["missed"][1:], seq=w["seq"][1:], npvs=w["npvs"][1:]))
        if w["ignored"]:
            out.append(dict(w, ignored=False))
        if any(w["ring"]):
            out.append(dict(w, ring=[0]))
        if w["torn"]:
            out.append(dict(w, torn=0))
        for i, m in enumerate(w["missed"]):
            for x in m:
                out.append(dict(w, missed=[*w["missed"][:i], [y for y in m if y != x], *w["missed"][i + 1 :]]))
        return out


def gen_lvm(rng: Random) -> dict:
    npv = rng.choice([1, 2, 2, 3, 4])
    ext = rng.choice([8, 16])
    kinds = ["linear", "linear", "multi", "striped", "mixed", "mirror"]
    ngen = rng.choice([2, 2, 3, 4])
    gens, npvs = [], []
    n = npv if npv == 1 or rng.random() < 0.7 else npv - 1
    for g in range(ngen):
        if g and n < npv and rng.random() < 0.5:
            n += 1  # vgextend
        npvs.append(n)
        gens.append(w_lvm.gen_layout(rng, True, npv=n, kinds=kinds, ext=ext))
    npvs[-1] = max(npvs)
    if npvs[-1] < npv:
        npv = npvs[-1]
    if len(gens[-1]["pvs"]) < npv:
        gens[-1] = w_lvm.gen_layout(rng, True, npv=npv, kinds=kinds, ext=ext)
    pvs = [dict(pv) for pv in gens[-1]["pvs"]]
    for p in range(npv):
        pvs[p]["count"] = max(g["pvs"][p]["count"] for g in gens if p < len(g["pvs"]))
        pvs[p]["oldsize"] = False
        pvs[p]["mdas"] = rng.choice([1, 1, 1, 2, 2, 0])
    # there is always an area on a volume that was there from the start
    if not any(pv["mdas"] for pv in pvs[: npvs[0]]):
        pvs[0]["mdas"] = rng.choice([1, 2])
    vgid = gens[0]["vgid"]
    name = gens[0]["vg"]
    for g in gens:
        if rng.random() < 0.15:
            name = g["vg"]
        g["vg"], g["vgid"] = name, vgid
        del g["pvs"]
    areas = [[p, a] for p in range(npv) for a in range(pvs[p]["mdas"])]
    missed = []
    seq = rng.randint(1, 200) if rng.random() < 0.6 else rng.choice([7, 97, 996, 0x7FFD, 0xFFFD, 0x7FFFFFF0])
    seqs = []
    for g in range(ngen):
        out = [m for m in areas if m[0] >= npvs[g]]
        rest = [m for m in areas if m not in out]
        if rng.random() < 0.5 and len(rest) > 1:
            gone = rng.sample(sorted({m[0] for m in rest}), 1) if rng.random() < 0.7 else []
            miss = [m for m in rest if m[0] in gone] or [rng.choice(rest)]
            if len(miss) < len(rest):
                out = out + miss
        missed.append(out)
        seqs.append(seq)
        seq += rng.choice([1, 1, 2, 9])
    if ngen >= 2 and not [m for m in areas if m not in missed[-2]]:
        missed[-2] = [m for m in areas if m[0] >= npvs[-2]]
    nsteps = 3 * len([m for m in areas if m not in missed[-1]])
    crash = rng.randint(0, nsteps) if rng.random() < 0.85 else nsteps
    return {
        "kind": "crash_lvm",
        "cseed": rng.getrandbits(32),
        "gens": gens,
        "pvs": pvs,
        "npvs": npvs,
        "missed": missed,
        "seq": seqs,
        "crash": crash,
        "torn": rng.randint(0, 12),
        "ignored": rng.random() < 0.15,
        "arder": [rng.randint(0, 99) for _ in range(8)],
        "pad": rng.randrange(5),
        "ring": [rng.choice([0, rng.randrange(64), rng.randrange(64)]) for _ in range(8)],
        "order": [rng.randint(0, 99) for _ in range(8)],
        "modes": [rng.choice([0, 0, 1, 2]) for _ in range(5)],
        "shape": f"{npv}/{ext}/{ngen}/{[len(m) for m in missed]}/{crash}of{nsteps}",
    }


# -- MD ------------------------------------------------------------------------------------------------------------


class MDCrashWorld(w_md.MDWorld):
    """Arrays of which members dropped out earlier, and whose superblocks were being updated when the writer crashed."""

    kind = "crash_md"
    replaced = True

    def __init__(self, w: dict):
        World.__init__(self, w)
        a = w["arrays"][0]
        cseed = w["cseed"]
        cap = w_md.capacity(a)
        content = blob(cseed, "a0/content", cap)
        datas = w_md.members_content(a, content)
        olds = w_md.members_content(a, blob(cseed, "a0/older", cap))
        stale = {int(k): v for k, v in w["stale"].items()}
        replaced = [r for r in w["replaced"] if r in stale]
        first = {num: role for role, num in enumerate(a["devnum"])}
        free = [i for i in range(a["n"] + 6 + len(first)) if i not in first]
        spares = [free.pop(0) for _ in range(a["spares"])]
        journal = [free.pop(0) for _ in range(int(a["journal"]))]
        for s in spares:
            first[s] = 0xFFFF
        for s in journal:
            first[s] = 0xFFFD
        now = dict(first)
        # members that were removed after they had failed leave no mark in the table, not even that they failed
        gone = [r for r in w.get("gone", []) if stale.get(r, 0) >= 2 and a["ver"] != "0.90"]
        for role in stale:
            now[a["devnum"][role]] = 0xFFFF if role in gone else 0xFFFE
        newdev = {}
        for role in replaced:
            newdev[role] = free.pop(0)
            now[newdev[role]] = role
        e = a["events"] + 100
        skews = {e - 1: w["skew"], e: 0} | {e - b: w["skew"] * b for b in stale.values()} if w.get("skew") else {}  # clocks are not to be trusted
        ndev = 0

        def add(name: str, role: int, num: int, table: dict, events: int, data: bytes) -> None:
            img, meta = w_md.member_image(a, data, a["doff"][role], a["sizes"][role], a["tail"][role], num, table, cseed, f"a0/{name}", events=events, skew=skews.get(events, 0))
            self.devices.append(Device(f"a0{name}", img, 0, meta))

        # the last superblock update reached only some members: the others are one event behind, with the old table
        # when that update was the one that recorded the drop out
        fresh = []
        for role in range(a["n"]):
            if role not in stale:
                fresh.append((f"m{role}", role, a["devnum"][role]))
            elif role in newdev:
                fresh.append((f"n{role}", role, newdev[role]))
        lag = [x for i, x in enumerate(fresh) if i in w["lag"]]
        if len(lag) == len(fresh):
            lag = lag[1:]
        for x in fresh:
            name, role, num = x
            if x in lag:
                before = dict(now)
                if w["recorded_last"]:
                    for r in stale:
                        if r in gone:
                            before[a["devnum"][r]] = 0xFFFE
                        elif r not in newdev:
                            before[a["devnum"][r]] = r
                add(name, role, num, before, e - 1, datas[role])
            else:
                add(name, role, num, now, e, datas[role])
        for role, behind in stale.items():
            add(f"o{role}", role, a["devnum"][role], first, e - behind, olds[role])
        for num in spares + journal:
            add(f"x{num}", 0, num, now, e - w["xlag"], b"")
        ndev = len(self.devices)
        present = {f"a0m{role}" for _, role, _ in fresh}
        vol = self.vol_for(a, 0, content)
        if not w_md.MDWorld.survives(self, "a0", present):
            vol.must = False
            self.probes["md_incomplete"] += 1
        self.vols.append(vol)
        self.probes["md_stale_member"] += len(stale)
        self.probes["md_removed_member"] += len(gone)
        self.probes["md_stale_by_one"] += sum(1 for b in stale.values() if b == 1)
        self.probes["md_replaced_member"] += len(newdev)
        self.probes["md_member_one_event_behind"] += len(lag)
        self.injected = {"crash_in_superblock_update": int(bool(lag)), "missed_update": len(stale)}
        order = w["order"]
        self.devices = [self.devices[j] for j in sorted(range(ndev), key=lambda j: order[j % len(order)] * 1000 + j)]
        for j, d in enumerate(self.devices):
            d.mode = w["modes"][j % len(w["modes"])]

    def shrinks(self) -> list[dict]:
        w = self.w
        out = []
        for k in w["stale"]:
            out.append(dict(w, stale={x: y for x, y in w["stale"].items() if x != k}))
        for key in ("lag", "replaced", "gone"):
            for x in w.get(key, []):
                out.append(dict(w, **{key: [y for y in w[key] if y != x]}))
        a = w["arrays"][0]
        for key, val in (("spares", 0), ("journal", False)):
            if a[key] != val:
                out.append(dict(w, arrays=[dict(a, **{key: val})]))
        return out


def gen_md(rng: Random) -> dict:
    level = rng.choice([0, 1, 1, 1, 4, 5, 5, 6, 10, 10, 10])
    a = w_md.gen_array(rng, 0, level, small=True)
    while w_md.clashing(a):
        a = w_md.gen_array(rng, 0, level, small=True)
    a["max_dev"] = max(a["max_dev"], 32)  # room for replacements
    if rng.random() < 0.4:
        # the count of the newest update has just passed a boundary
        a["events"] = (1 << rng.choice([8, 15, 16, 31, 32])) - 100 + rng.randrange(3)
    n = a["n"]
    limit = {1: n - 1, 4: 1, 5: 1, 6: 2, 10: n // 2}.get(level, 0)
    stale: dict[str, int] = {}
    if limit > 0 and rng.random() < 0.85:
        for role in rng.sample(range(n), rng.randint(1, limit) if rng.random() < 0.5 else 1):
            stale[str(role)] = rng.choice([1, 2, 3, 50])
    lag = sorted(rng.sample(range(n), rng.randint(0, n - 1))) if rng.random() < 0.7 else []
    recorded_last = rng.random() < 0.5
    return {
        "kind": "crash_md",
        "cseed": rng.getrandbits(32),
        "arrays": [a],
        "stale": stale,
        "replaced": sorted(int(r) for r in stale if rng.random() < 0.35) if len(a["devnum"]) < 12 else [],
        "gone": [int(r) for r in stale if rng.random() < 0.5],
        "lag": lag,
        "recorded_last": recorded_last,
        "xlag": rng.choice([0, 0, 1]),
        "skew": rng.choice([-60, 0, 7, 3600]),
        "order": [rng.randint(0, 99) for _ in range(24)],
        "modes": [rng.choice([0, 0, 1, 2]) for _ in range(5)],
        "shape": f"{level}/{a['ver']}/{a['layout']}/{n}/{sorted(stale.items())}/{len(lag)}/{recorded_last}",
    }


# -- Vinum ---------------------------------------------------------------------------------------------------------


class VinumCrashWorld(w_vinum.VinumWorld):
    """Drives that carry configurations of different age. Every drive is updated as a whole, one after the other."""

    kind = "crash_vinum"

    def build(self, lay: dict, cseed: int) -> None:
        super().build(lay, cseed)
        w = self.w
        behind = 0
        for d in range(lay["ndrives"]):
            gen = w["drive_gen"][d % len(w["drive_gen"])]
            dev = next(x for x in self.devices if x.name == f"drive{d}")
            when = w["when"][0] * 1000000 + w["when"][1] + w["tick"][d % len(w["tick"])]
            conf = lay
            if 0 < gen <= len(w["older"]):
                conf = dict(lay, vols=[v for v in w["older"][gen - 1]])
                when -= w["age"] * gen
                behind += 1
            text = w_vinum.config_text(conf, w["cfgseed"] + gen)
            clen = max(w["cfglen"], len(text) + 1)
            img = bytearray(dev.data)
            img[0 : w_vinum.DATA_START] = bytes(w_vinum.DATA_START)
            lab = len(img) if w["sized"] else 0
            put(img, 4096, w_vinum.header(lay["names"][d], clen, divmod(when, 1000000), lab, w.get("magic", w_vinum.MAGIC)))
            put(img, 4608, text.ljust(clen, b"\0"))
            put(img, 4608 + 65536, text)
            dev.data = bytes(img)
        self.probes["vinum_drives_behind"] += behind
        self.injected = {"crash_in_update" if w["prefix"] else "missed_update": behind}

    def shrinks(self) -> list[dict]:
        w = self.w
        out = []
        for i, g in enumerate(w["drive_gen"]):
            if g:
                out.append(dict(w, drive_gen=[*w["drive_gen"][:i], 0, *w["drive_gen"][i + 1 :]]))
        return out


def older_vinum(rng: Random, lay: dict) -> list[dict]:
    """An earlier configuration: the same or fewer objects, with other states and places."""
    vols = copy.deepcopy(lay["vols"])
    if len(vols) > 1 and rng.random() < 0.3:
        vols.pop(rng.randrange(len(vols)))
    for vol in vols:
        for plex in vol["plexes"]:
            r = rng.random()
            if r < 0.5:
                # before something failed
                plex["state"] = "up"
                for sd in plex["sds"]:
                    sd["state"] = "up"
            elif r < 0.7 and len(plex["sds"]) > 1:
                # subdisks were in another place
                i, j = rng.sample(range(len(plex["sds"])), 2)
                x, y = plex["sds"][i], plex["sds"][j]
                x["drive"], x["off"], y["drive"], y["off"] = y["drive"], y["off"], x["drive"], x["off"]
            elif r < 0.8:
                sd = rng.choice(plex["sds"])
                sd["off"] += rng.choice([1, 8, 16])
            elif r < 0.9:
                sd = rng.choice(plex["sds"])
                sd["state"] = rng.choice(["down", "initializing"])
                plex["state"] = "down"
            elif plex["org"] != "concat":
                plex["stripe"] = rng.choice([4, 8, 16, 64])
        if len(vol["plexes"]) > 1 and rng.random() < 0.2:
            vol["plexes"].pop()  # a plex was added later
    return vols


def gen_vinum(rng: Random) -> dict:
    w = w_vinum.gen(rng, small=True, mirrors=0.6)
    lay = w["layout"]
    while lay["ndrives"] < 2:
        w = w_vinum.gen(rng, small=True, mirrors=0.6)
        lay = w["layout"]
    older = [older_vinum(rng, lay) for _ in range(rng.choice([1, 1, 2]))]
    nd = lay["ndrives"]
    prefix = rng.random() < 0.5
    if prefix:  # crash after some drives got the newest configuration
        order = rng.sample(range(nd), nd)
        cut = rng.randint(1, nd)
        gen = [0 if order.index(d) < cut else 1 for d in range(nd)]
    else:
        gen = [rng.randint(0, len(older)) for _ in range(nd)]
        gen[rng.randrange(nd)] = 0
    return dict(
        w,
        kind="crash_vinum",
        older=older,
        drive_gen=gen,
        prefix=prefix,
        tick=[rng.randrange(400) for _ in range(nd)],
        age=rng.choice([500, 1000, 1000000, 86400 * 1000000]),
        shape=f"{w['shape']}/{gen}",
    )


# -- DDF -----------------------------------------------------------------------------------------------------------


class DDFCrashWorld(w_ddf.DDFWorld):
    """Disks with configuration records of different sequence numbers, disks that failed, and torn primary sections.

    An update rewrites the primary copy of a disk (its header is marked open meanwhile), then the secondary copy, disk by
    disk. A disk that failed keeps its old metadata and data, the other disks record that it failed.
    """

    kind = "crash_ddf"

    def __init__(self, w: dict):
        World.__init__(self, w)
        g = w["groups"][0]
        contents, disks = w_ddf.group_data(g, w["cseed"], "g0")
        _, olds = w_ddf.group_data(g, w["cseed"] ^ 1, "g0")
        failed = {int(p): state for p, state in w["failed"].items()}
        old_records = torn = behind = 0
        for p in range(g["npd"]):
            records = []
            for v, vd in enumerate(g["vds"]):
                past = w["past"][str(v)] if str(v) in w["past"] else []
                gen = w["disk_gen"].get(f"{p}/{v}", 0)
                if gen and gen <= len(past):
                    old = past[gen - 1]
                    if p in old["members"]:
                        records.append(w_ddf.config_record(g, old, old["members"].index(p) // old["pec"], seq=(vd["seq"] - gen) % 2**32))
                        old_records += 1
                elif p in vd["members"]:
                    records.append(w_ddf.config_record(g, vd, vd["members"].index(p) // vd["pec"], seq=vd["seq"] - (5 if p in failed else 0)))
            lag = w["hlag"][p % len(w["hlag"])]
            newest = w.get("hseq", 100)
            states, hseq = (failed, newest) if not lag else ({}, newest - lag)
            if p in failed:
                states, hseq = {}, newest - 50
            img, meta = w_ddf.build_disk(g, p, olds[p] if p in failed else disks[p], w["cseed"], f"g0d{p}", records=records, states=states, hseq=hseq)
            if p in w["torn"] and g["secondary"]:
                # the writer was busy with the primary copy; the secondary copy is complete
                rng = Random(f"torn{w['cseed']}/{p}")
                img = bytearray(img)
                base, length = meta[0]
                for at in range(base + g["ss"], base + length, S):
                    if rng.random() < 0.4:
                        put(img, at, rng.choice([bytes(S), b"\xff" * S, rng.randbytes(S)]))
                struct.pack_into(">I", img, base + 40, hseq + 1)
                img[base + 48] = 1
                img = bytes(img)
                torn += 1
            elif p in w.get("behind", {}).get("disks", []) and g["secondary"]:
                # the primary copy is complete; the writer did not get to the secondary copy, or was busy with it
                rng = Random(f"behind{w['cseed']}/{p}")
                base, length = meta[1]
                older = []
                for r in records:
                    vd = next(vd for vd in g["vds"] if r[8:32].hex() == vd["guid"])
                    was = dict(vd, starts=[x + 1 for x in vd["starts"]], strip_exp=(vd["strip_exp"] + 1) % 6)
                    sec = vd["members"].index(p) // vd["pec"] if p in vd["members"] else 0
                    older.append(w_ddf.config_record(g, was, sec, seq=struct.unpack_from(">I", r, 36)[0] - 1))
                other, _ = w_ddf.build_disk(g, p, disks[p], w["cseed"], f"g0d{p}", records=older, states={}, hseq=hseq - 1)
                img = bytearray(img)
                img[base : base + length] = other[base : base + length]
                if w["behind"]["busy"]:
                    for at in range(base + g["ss"], base + length, S):
                        if rng.random() < 0.4:
                            put(img, at, rng.choice([bytes(S), b"\xff" * S, rng.randbytes(S)]))
                    struct.pack_into(">I", img, base + 40, hseq)
                    img[base + 48] = 1
                img = bytes(img)
                behind += 1
            self.devices.append(Device(f"g0d{p}", img, 0, meta))
        good = {f"g0d{p}" for p in range(g["npd"]) if p not in failed}
        for v, vd in enumerate(g["vds"]):
            vol = Vol(f"g0v{v}", contents[v], lambda s, vd=vd: w_ddf.find_vd(s, vd["guid"]).open(), grain=w_ddf.strip_bytes(g, vd))
            if not w_ddf.DDFWorld.survives(self, vol.key, good):
                vol.must = False
                self.probes["ddf_incomplete"] += 1
            self.vols.append(vol)
        for j, d in enumerate(self.devices):
            d.mode = w["modes"][j % len(w["modes"])]
        order = w["order"]
        self.devices = [self.devices[j] for j in sorted(range(len(self.devices)), key=lambda j: order[j % len(order)] * 1000 + j)]
        self.probes["ddf_old_records"] += old_records
        self.probes["ddf_failed_disk"] += len(failed)
        self.probes["ddf_torn_primary"] += torn
        self.probes["ddf_secondary_behind"] += behind
        self.injected = {"missed_update": old_records + len(failed), "crash_in_update": torn + behind}

    def shrinks(self) -> list[dict]:
        w = self.w
        out = [dict(w, disk_gen={x: y for x, y in w["disk_gen"].items() if x != k}) for k in w["disk_gen"]]
        out += [dict(w, failed={x: y for x, y in w["failed"].items() if x != k}) for k in w["failed"]]
        out += [dict(w, torn=[x for x in w["torn"] if x != k]) for k in w["torn"]]
        if w.get("behind", {}).get("disks"):
            out.append(dict(w, behind={}))
        if any(w["hlag"]):
            out.append(dict(w, hlag=[0]))
        g = w["groups"][0]
        for key, val in (("holes", False), ("gap", 0)):
            if g[key] != val:
                out.append(dict(w, groups=[dict(g, **{key: val})]))
        return out


def gen_ddf(rng: Random) -> dict:
    w = w_ddf.gen(rng, small=True)
    w["groups"] = w["groups"][:1]
    g = w["groups"][0]
    past: dict[str, list[dict]] = {}
    disk_gen: dict[str, int] = {}
    for v, vd in enumerate(g["vds"]):
        vd["seq"] += 5
        versions = []
        for _ in range(rng.choice([0, 1, 1, 2])):
            old = copy.deepcopy(vd)
            r = rng.random()
            others = [p for p in range(g["npd"]) if p not in old["members"]]
            if r < 0.5 and others:
                # a member was replaced since
                k = rng.randrange(len(old["members"]))
                old["members"][k] = rng.choice(others)
            elif r < 0.75:
                i, j = rng.randrange(len(old["members"])), rng.randrange(len(old["members"]))
                old["members"][i], old["members"][j] = old["members"][j], old["members"][i]
            elif r < 0.85:
                old["strip_exp"] = (old["strip_exp"] + 1) % 6
            elif r < 0.95 and old["kind"] != "concat":
                old["starts"] = [s + rng.choice([0, 1]) for s in old["starts"]]
            else:
                old["shave"] += 2
            versions.append(old)
        if not versions:
            continue
        past[str(v)] = versions
        # of every secondary element, at least one disk has the newest record
        keep = {rng.choice(vd["members"][s * vd["pec"] : (s + 1) * vd["pec"]]) for s in range(vd["sec"])}
        for p in range(g["npd"]):
            if p not in keep and rng.random() < 0.5:
                disk_gen[f"{p}/{v}"] = rng.randint(1, len(versions))
    failed: dict[str, int] = {}
    redundant = ("raid1", "raid4", "raid5r0", "raid5rn", "raid5cn", "raid6r0", "raid6rn", "raid6cn", "raid1e", "raid10")
    options = [p for p in range(g["npd"]) if all(vd["kind"] in redundant for vd in g["vds"] if p in vd["members"])]
    if options and rng.random() < 0.5:
        p = rng.choice(options)
        # it has nothing newest of its own: give its records up, unless it is the only one that has them
        others = all(len([m for m in vd["members"] if m != p and f"{m}/{v}" not in disk_gen]) >= vd["sec"] for v, vd in enumerate(g["vds"]))
        groups_ok = all(
            any(m != p and f"{m}/{v}" not in disk_gen for m in vd["members"][s * vd["pec"] : (s + 1) * vd["pec"]])
            for v, vd in enumerate(g["vds"])
            for s in range(vd["sec"])
        )
        if others and groups_ok:
            failed[str(p)] = rng.choice([2, 2, 3, 0x40, 0x42, 4])
    # header sequence numbers: disks that did not get the newest headers yet. Without a failed disk they all tell the same.
    hlag = [rng.choice([0, 0, 1, 2]) for _ in range(g["npd"])]
    if failed:
        keep = rng.choice([p for p in range(g["npd"]) if str(p) not in failed])
        hlag = [0 if p == keep else x for p, x in enumerate(hlag)]
    torn = []
    if g["secondary"] and rng.random() < 0.4:
        torn = [rng.randrange(g["npd"])] if rng.random() < 0.7 else [p for p in range(g["npd"]) if rng.random() < 0.5]
    behind = {"disks": [p for p in range(g["npd"]) if rng.random() < share] if (share := rng.choice([0, 0.5, 1])) else [], "busy": rng.random() < 0.4}
    w.update(failed=failed, hlag=hlag, torn=torn, behind=behind, hseq=rng.choice([100, 100, 0x10001, 0x80000001, 0xFFFFFF00]))
    return dict(w, kind="crash_ddf", past=past, disk_gen=disk_gen, shape=f"{w['shape']}/{len(past)}/{sorted(disk_gen.values())}/{len(failed)}/{len(torn)}")


GEN = {"thin": gen_thin, "lvm": gen_lvm, "md": gen_md, "vinum": gen_vinum, "ddf": gen_ddf}
CLASSES = {c.kind: c for c in (ThinCrashWorld, LVMCrashWorld, MDCrashWorld, VinumCrashWorld, DDFCrashWorld)}
