"""Generation of fault sequences for a given operation schedule."""
from __future__ import annotations

from random import Random

from sim.world import World

TOUCHING = ("asm", "open", "read", "pread", "readinto", "peek", "list", "need")


def io_errors(rng: Random, world: World, ops: list[list], generations: bool = False) -> list[dict]:
    """Device errors aimed at single calls of operations, at regions and at whole devices."""
    faults: list[dict] = []
    asm = [i for i, op in enumerate(ops) if op[0] in ("asm", "list", "need")]
    use = [i for i, op in enumerate(ops) if op[0] in TOUCHING]
    ndev = len(world.devices)
    style = rng.choice(["single", "single", "burst", "parse", "region", "dead", "mixed"])
    if generations and rng.random() < 0.75:
        # some structures cannot be read while the metadata is looked at
        op, share = asm[0] if rng.random() < 0.8 else rng.choice(asm), rng.choice([0.15, 0.3, 0.6, 1])
        how = rng.choice(["body", "body", "body", "copy", "copy", "any"])
        which = rng.choice([0, 0, 0, 1])
        if how == "copy" and rng.random() < 0.7:
            share = 1
        for dev in range(ndev):
            for i, (off, n) in enumerate(world.devices[dev].meta):
                if rng.random() >= share or (how == "body" and n <= 2048) or (how == "copy" and i != which):
                    continue
                lo = off + {"body": 512, "copy": 0, "any": rng.randrange(n)}[how]
                faults.append({"kind": "bad_region", "op": op, "until": op + 1, "dev": dev, "lo": lo, "hi": off + n})
        if faults:
            return faults
    for _ in range(rng.choice([1, 1, 2, 3, 6, 12])):
        kind = {"single": "eio_any", "burst": "eio_any", "parse": "eio_any", "region": "bad_region", "dead": "dead", "mixed": rng.choice(["eio_any", "bad_region", "dead"])}[style]
        if kind == "eio_any":
            op = rng.choice(asm if style == "parse" or rng.random() < 0.4 else use)
            kind = rng.choice(["eio_read", "eio_read", "eio_seek", "eio_any"])
            nth = rng.choice([0, 0, 1, 2, rng.randrange(8), rng.randrange(40), int(2 ** (rng.random() * 9))])
            count = rng.choice([1, 1, 1, 2, 5]) if style != "burst" else rng.choice([3, 10, 100])
            dev = -1 if rng.random() < 0.6 else rng.randrange(ndev)
            faults.append({"kind": kind, "op": op, "dev": dev, "nth": nth, "count": count})
            continue
        dev = rng.randrange(ndev)
        start = rng.choice([0, rng.choice(use)])
        until = start + rng.choice([1, 2, 5, 10, len(ops)])
        until = min(until, len(ops) - rng.choice([0, 3, 6]))
        if kind == "dead":
            faults.append({"kind": "dead", "op": start, "until": until, "dev": dev})
            continue
        d = world.devices[dev]
        if d.meta and rng.random() < 0.5:
            off, n = rng.choice(d.meta)
            lo = off + rng.randrange(max(1, n))
        else:
            lo = rng.randrange(max(1, len(d.data)))
        faults.append({"kind": "bad_region", "op": start, "until": until, "dev": dev, "lo": lo, "hi": lo + rng.choice([1, 512, 4096, 65536])})
    return faults
