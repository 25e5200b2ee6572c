"""Stacked volume layers. Every layer stores images of the layer above it and produces images for the layer below."""
from __future__ import annotations

import struct
from random import Random

from sim import w_lvm, w_md, w_part, w_thin
from sim.core import HarnessError
from sim.w_lvm import LVMWorld
from sim.w_md import MDWorld
from sim.w_part import PartWorld
from sim.w_thin import ThinWorld
from sim.world import Device, Vol, World, extend_short

S = 512
MAX_IMAGE = 3 << 20


class _Thin(ThinWorld):
    def assemble(self, fhs: list):
        from dissect.volume.dm.thin import ThinPool

        return ThinPool(fhs[0], fhs[1])


def sub_world(w: dict, given: list[bytes] | None) -> World:
    """The world of one layer, storing the given images."""
    kind = w["kind"]
    if kind == "lvm":
        return LVMWorld(w, {f"pay{i}": g for i, g in enumerate(given)} if given else None)
    if kind == "md":
        return MDWorld(w, given)
    if kind == "part":
        return PartWorld(w, given)
    if kind == "thin":
        return _Thin(w)
    raise HarnessError(kind)


def carrier_vol(sub: World, i: int) -> Vol:
    """The volume of a layer that holds the i-th given image."""
    kind = sub.w["kind"]
    if kind == "lvm":
        return next(v for v in sub.vols if v.key == f"pay{i}")
    if kind == "md":
        return sub.vols[i]
    if kind == "part":
        return next(v for v, e in zip(sub.vols, sub.exp) if e.get("payload") == i)
    raise HarnessError(kind)


def build_layers(layers: list[dict]) -> tuple[list[dict], dict[str, bytes]]:
    """Build from the top. Returns the built layers and the remaining images, which are the devices."""
    images: dict[str, bytes] = {}
    built = []
    for n, layer in enumerate(layers):
        take = layer["take"]
        sub = sub_world(layer["w"], [images.pop(t) for t in take] if take else None)
        made = []
        for j, d in enumerate(sub.devices):
            made.append(f"{n}.{j}")
            images[made[-1]] = d.data
        built.append({"sub": sub, "take": take, "made": made, "n": n})
    return built, images


class System:
    def __init__(self):
        self.layers: dict[int, object] = {}


class StackWorld(World):
    kind = "stack"

    def __init__(self, w: dict):
        super().__init__(w)
        self.built, images = build_layers(w["layers"])
        self.names = list(images)
        for j, name in enumerate(self.names):
            self.devices.append(Device(name, images[name], w["modes"][j % len(w["modes"])], self.meta_of(name)))
        for b in self.built:
            n, sub = b["n"], b["sub"]
            sub.known = self.known
            self.probes.update(sub.probes)
            for v in sub.vols:
                self.vols.append(
                    Vol(f"{n}:{v.key}", v.content, lambda s, v=v, n=n: v.open(s.layers[n]), v.exact_end, v.must, v.grain, v.quirk, v.quirk_sig)
                )

    def meta_of(self, name: str) -> list[tuple[int, int]]:
        for b in self.built:
            if name in b["made"]:
                return b["sub"].devices[b["made"].index(name)].meta
        return []

    def assemble(self, fhs: list):
        handles = {f.dev_name: f for f in fhs}
        system = System()
        for b in reversed(self.built):
            sub, n = b["sub"], b["n"]
            system.layers[n] = low = sub.assemble([handles[m] for m in b["made"]])
            for i, name in enumerate(b["take"]):
                vol = carrier_vol(sub, i)
                stream = vol.open(low)
                extend_short(vol, stream, self.known)
                handles[name] = stream
        return system

    def check_listing(self, system) -> None:
        for b in self.built:
            b["sub"].check_listing(system.layers[b["n"]])

    def shrinks(self) -> list[dict]:
        out = []
        layers = self.w["layers"]
        for n, layer in enumerate(layers):
            if n == len(layers) - 1 and len(layers) > 1:
                out.append(dict(self.w, layers=layers[:n]))
        return out


# -- generation ----------------------------------------------------------------------------------------------------


def array_for(rng: Random, idx: int, size: int, exact: bool) -> dict:
    """An array that can hold size bytes. Only with exact, metadata may be at the end of the members."""
    level = rng.choice([-1, 0, 0, 1, 1, 4, 5, 5, 6, 10, 10])
    ver = rng.choice(["0.90", "1.0", "1.1", "1.2"] if exact else ["1.1", "1.2"])
    a = w_md.gen_array(rng, idx, level=level, small=True, ver=ver)
    n, chunk = a["n"], a["chunk"] or 4096
    a["spares"] = rng.choice([0, 0, 0, 1]) if level >= 1 else 0
    a["journal"] = False
    if level in (0, -1):
        per = -(-size // n)
        per = -(-per // chunk) * chunk
        a["sizes"] = [-(-per // S // 128) * 128 if ver == "0.90" else per // S] * n
        if level == 0:
            a["layout"] = 0 if ver == "0.90" else rng.choice([1, 2])
        return a
    data = {1: 1, 4: n - 1, 5: n - 1, 6: n - 2}.get(level)
    if level == 10:
        near, far = a["layout"] & 0xFF, (a["layout"] >> 8) & 0xFF
        rows = -(-size * near * far // (n * chunk)) + far * 2
        rows += -rows % far
        a["rows"] = rows
    else:
        a["rows"] = -(-size // (chunk * data)) + rng.choice([0, 0, 2])
    a["sizes"] = [a["rows"] * chunk // S] * n
    while w_md.capacity(a) < size:
        step = (a["layout"] >> 8) & 0xFF if level == 10 else 1
        a["rows"] += step
        a["sizes"] = [a["rows"] * chunk // S] * n
    return a


def gen_top(rng: Random, exact: bool) -> dict:
    kind = rng.choice(["lvm", "lvm", "md", "part", "part", "thin"])
    if kind == "lvm":
        return w_lvm.gen(rng, small=True, npv=rng.choice([1, 2, 3]))
    if kind == "part":
        return w_part.gen(rng, small=True)
    if kind == "thin":
        return w_thin.gen(rng, small=True)
    ver = None if exact else rng.choice(["1.1", "1.2"])
    a = w_md.gen_array(rng, 0, small=True, ver=ver)
    return md_world(rng, [a])


def md_world(rng: Random, arrays: list[dict]) -> dict:
    return {"kind": "md", "cseed": rng.getrandbits(32), "arrays": arrays, "order": [rng.randint(0, 99) for _ in range(24)], "modes": [0]}


def gen_carrier(rng: Random, images: dict[str, bytes], exact: bool, kinds: list[str]) -> dict | None:
    """One layer that stores some of the images."""
    names = list(images)
    kind = rng.choice(kinds)
    if kind == "md":
        ok = [x for x in names if len(images[x]) <= MAX_IMAGE // 2]
        take = rng.sample(ok, min(len(ok), rng.choice([1, 1, 2])))
        if not take:
            return None
        arrays = [array_for(rng, i, len(images[t]), exact) for i, t in enumerate(take)]
        return {"take": take, "w": md_world(rng, arrays)}
    if kind == "lvm":
        ok = [x for x in names if len(images[x]) <= MAX_IMAGE]
        take = rng.sample(ok, min(len(ok), rng.randint(1, 4)))
        if not take:
            return None
        return {"take": take, "w": w_lvm.gen(rng, small=True, npv=rng.choice([1, 2, 3]), payloads=[len(images[t]) for t in take])}
    scheme = rng.choice(["mbr", "gpt", "apm"])
    room = 3
    take = rng.sample(names, min(len(names), rng.randint(1, room)))
    fill = [len(images[t]) // S for t in take]
    if any(len(images[t]) % S for t in take):
        return None
    for _ in range(20):
        d = w_part.gen_disk(rng, True, scheme, fill)
        got = [p.get("payload") for p in d.get("prim", []) + d.get("parts", [])]
        if sorted(x for x in got if x is not None) == list(range(len(fill))):
            break
    else:
        return None
    return {"take": take, "w": {"kind": "part", "cseed": rng.getrandbits(32), "disk": d, "modes": [0], "shape": w_part.shape(d)}}


def ambiguous(img: bytes) -> bool:
    """Small members can hold a nested super block at the very place where one of their own could be."""
    size = len(img) // S
    found = 0
    for at in {(size & ~127) - 128, (size - 16) & ~7, 0, 8}:
        head = img[at * S : at * S + 152] if at >= 0 else b""
        if len(head) == 152 and head[:4] == b"\xfc\x4e\x2b\xa9":
            found += head[4:8] != b"\1\0\0\0" or struct.unpack_from("<Q", head, 144)[0] == at
    return found > 1


def gen(rng: Random, depth: int | None = None) -> dict:
    while True:
        depth_now = depth or rng.choice([2, 2, 3, 3, 4])
        layers = [{"take": [], "w": gen_top(rng, False)}]
        _, images = build_layers(layers)
        for _ in range(20):
            if len(layers) >= depth_now:
                break
            last = len(layers) + 1 == depth_now
            # nothing that looks like a member may end up at the start of a member with metadata at its end
            last = last and not any(x["w"]["kind"] == "md" for x in layers)
            layer = gen_carrier(rng, images, last, ["md", "lvm", "part", "part"])
            if layer is None:
                continue
            built, left = build_layers([*layers, layer])
            if layer["w"]["kind"] == "md" and any(ambiguous(d.data) for d in built[-1]["sub"].devices):
                continue
            if sum(len(x) for x in left.values()) > 12 << 20 or len(left) > 20:
                continue
            layers.append(layer)
            images = left
        if len(layers) >= 2:
            break
    return {
        "kind": "stack",
        "cseed": 0,
        "layers": layers,
        "modes": [rng.choice([0, 0, 1, 2]) for _ in range(5)],
        "shape": ">".join(x["w"]["kind"] + str(len(x["take"])) for x in layers) + "/" + str(len(images)),
    }
