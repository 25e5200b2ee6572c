"""Generation of client operation schedules. Swarm style: every plan draws its own mix of operations."""
from __future__ import annotations

from random import Random

from sim.world import World


def pick_offset(rng: Random, size: int, grain: int, marks: list[int] | None = None) -> int:
    if size > 1 << 32 and rng.random() < 0.4:
        # around the places where something changes, and where numbers get wider
        near = rng.choice([*(marks or []), *(1 << k for k in (31, 32, 33, 40, 41, 42) if 1 << k < size)])
        return min(size, max(0, near + rng.choice([0, 0, -1, 1, -512, 512, -grain, -rng.randrange(2 * grain)])))
    r = rng.random()
    if r < 0.15:
        return 0
    if r < 0.45:
        return min(size, max(0, rng.randrange(0, size // grain + 1) * grain + rng.choice([-1, 0, 0, 0, 1, -512, 512, 3])))
    if r < 0.55:
        return max(0, size - rng.choice([0, 1, 511, 512, 513, 4096, grain, grain + 7]))
    if r < 0.58:
        return size + rng.choice([0, 1, 5000])
    return rng.randrange(0, size + 1)


def pick_length(rng: Random, size: int, grain: int) -> int:
    r = rng.random()
    if r < 0.25:
        return rng.choice([0, 1, 2, 16, 100, 511, 512, 513, 600, 4096])
    if r < 0.5:
        return grain * rng.randint(1, 4) + rng.choice([-1, 0, 0, 1, -512, 512])
    if r < 0.75:
        return rng.randint(1, min(size + 100, 20 * grain) + 1)
    if r < 0.9:
        return rng.randint(1, size + 100)
    return -1


def gen_ops(
    rng: Random,
    world: World,
    nops: tuple[int, int] = (12, 36),
    nclients: tuple[int, int] = (1, 4),
    reasm: float = 0.06,
    close: float = 0.04,
    disturb: float = 0.1,
    relist: float = 0.04,
    full: float = 0.5,
    maxbytes: int = 12 << 20,
) -> list[list]:
    """Interleave several clients. Each client owns streams and acts on them; all share the devices."""
    nclients = rng.randint(*nclients)
    total = rng.randint(*nops)
    use_disturb = disturb if rng.random() < 0.7 else 0
    use_close = close if rng.random() < 0.6 else 0
    weights = {
        "read": rng.choice([2, 5, 8]),
        "pread": rng.choice([3, 6, 10]),
        "seek": rng.choice([1, 3]),
        "readinto": rng.choice([0, 1]),
        "peek": rng.choice([0, 1]),
        "tell": rng.choice([0, 1]),
        "open": rng.choice([1, 2]),
    }
    names = list(weights)
    wts = [weights[k] for k in names]
    # how members are handed over: as devices, or as objects that the library made of them
    hows = ["plain"] if rng.random() < 0.6 else ["plain", "fresh", "mixed", "kept", "kept", "kept"]
    ops: list[list] = [["asm", "s0", 0, rng.choice(hows)], ["list", "s0"]]
    systems = ["s0"]
    owned: list[list[tuple[str, object]]] = [[] for _ in range(nclients)]
    vols = list(world.vols)
    nstream = 0
    budget = maxbytes

    def new_stream(c: int, vol=None) -> None:
        nonlocal nstream
        vol = vol or rng.choice(vols)
        stid = f"f{nstream}"
        nstream += 1
        ops.append(["open", stid, rng.choice(systems), vol.key])
        owned[c].append((stid, vol))

    if not vols:
        return ops
    for c in range(nclients):
        new_stream(c)
    for _ in range(total):
        c = rng.randrange(nclients)
        r = rng.random()
        if r < reasm:
            sid = f"s{rng.randint(0, 2)}"
            ops.append(["asm", sid, rng.getrandbits(16), rng.choice(hows)])
            ops.append(["list", sid])
            if sid not in systems:
                systems.append(sid)
            continue
        r -= reasm
        if r < relist:
            ops.append(["list", rng.choice(systems)])
            continue
        r -= relist
        if r < use_disturb:
            d = rng.randrange(len(world.devices))
            ops.append(["disturb", d, rng.randrange(len(world.devices[d].data) + 1)])
            continue
        r -= use_disturb
        if r < use_close and owned[c]:
            stid, _ = owned[c].pop(rng.randrange(len(owned[c])))
            ops.append([rng.choice(["close", "close", "drop"]), stid])
            if not owned[c]:
                new_stream(c)
            continue
        what = rng.choices(names, wts)[0]
        if what == "open":
            new_stream(c)
            continue
        stid, vol = rng.choice(owned[c])
        size = len(vol.content)
        length = pick_length(rng, size, vol.grain)
        cost = size if length < 0 else min(length, size)
        if cost > budget:
            length = rng.randint(1, 600)
            cost = length
        if what in ("read", "readinto", "peek"):
            if what != "read" and length < 0:
                length = rng.randint(0, vol.grain)
            ops.append([what, stid, length])
            budget -= cost
        elif what == "pread":
            ops.append(["pread", stid, pick_offset(rng, size, vol.grain, vol.marks), length])
            budget -= cost
        elif what == "seek":
            whence = rng.choice([0, 0, 1, 2])
            if whence == 0:
                ops.append(["seek", stid, pick_offset(rng, size, vol.grain, vol.marks), 0])
            elif whence == 1:
                ops.append(["seek", stid, rng.randint(-size // 2 - 1, size // 2 + 1), 1])
            else:
                ops.append(["seek", stid, -rng.randint(0, size), 2])
        else:
            ops.append(["tell", stid])
    if rng.random() < full:
        # closing sweep: every volume completely, in one or more pieces
        for vol in vols:
            size = len(vol.content)
            if size > budget + (8 << 20):
                continue
            stid = f"f{nstream}"
            nstream += 1
            ops.append(["open", stid, rng.choice(systems), vol.key])
            if rng.random() < 0.5:
                ops.append(["read", stid, -1])
            else:
                cut = sorted(rng.randrange(size + 1) for _ in range(rng.randint(1, 4)))
                last = 0
                for x in cut:
                    ops.append(["read", stid, x - last])
                    last = x
                ops.append(["read", stid, -1])
    return ops


def add_closing(rng: Random, ops: list[list]) -> list[list]:
    """Add the ways in which clients end the use of streams and systems, and their attempts to write."""
    out: list[list] = []
    streams: list[str] = []
    poke = rng.choice([0, 0, 0.1])
    for op in ops:
        if op[0] == "close" and rng.random() < 0.35:
            op = ["with", op[1]]
        if op[0] == "open":
            streams.append(op[1])
        out.append(op)
        if op[0] == "drop" and rng.random() < 0.6:
            out.append(["gc"])
        if op[0] == "close" and rng.random() < 0.15:
            out += [["close", op[1]], ["drop", op[1]], ["gc"]]
        if streams and rng.random() < poke:
            out.append(["poke", rng.choice(streams), rng.choice(["write", "writelines", "truncate", "flush"])])
        if op[0] == "asm" and op[1] != "s0" and rng.random() < 0.3:
            out += [["dropsys", op[1]], ["gc"]]
    return out
