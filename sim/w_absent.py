"""Worlds of which some members are not handed over."""
from __future__ import annotations

from dataclasses import replace
from random import Random

from sim.core import Violation
from sim.world import World
from sim.worlds import build_world


class Unlisted(Exception):
    """A volume that need not be presented is not presented."""


def lenient(opener):
    def open_(system):
        try:
            return opener(system)
        except Violation as v:
            if v.kind == "listing" and v.message.endswith("found 0"):
                raise Unlisted(v.message) from None
            raise

    return open_


class AbsentWorld(World):
    kind = "absent"

    def __init__(self, w: dict):
        super().__init__(w)
        self.inner = inner = build_world(w["inner"])
        self.devices = [d for d in inner.devices if d.name not in w["gone"]]
        if not self.devices:
            self.devices = inner.devices[:1]
        present = {d.name for d in self.devices}
        self.gone = [d for d in inner.devices if d.name not in present]
        self.probes = inner.probes
        self.known = inner.known
        for vol in inner.vols:
            if inner.survives(vol.key, present):
                self.vols.append(vol)
                self.probes["readable_without_members" if len(present) < len(inner.devices) else "complete"] += 1
            else:
                self.vols.append(replace(vol, must=False, open=lenient(vol.open)))
                self.probes["incomplete_volume"] += 1
        self.injected = {"absent_member": len(inner.devices) - len(self.devices)}
        self.must_assemble = inner.must_assemble_with(present)

    def assemble(self, fhs: list):
        return self.inner.assemble(fhs)

    def parse(self, fh):
        return self.inner.parse(fh)

    def check_listing(self, system) -> None:
        if len(self.devices) == len(self.inner.devices):
            self.inner.check_listing(system)

    def shrinks(self) -> list[dict]:
        out = [dict(self.w, gone=[g for g in self.w["gone"] if g != name]) for name in self.w["gone"]]
        return out + [dict(self.w, inner=w) for w in self.inner.shrinks()]


def wrap(rng: Random, inner: dict) -> dict:
    """Remove a random set of members: a few, or whole groups of them."""
    names = sorted(d.name for d in build_world(inner).devices)
    how = rng.random()
    if how < 0.45:
        gone = rng.sample(names, min(len(names) - 1, 1))
    elif how < 0.75:
        gone = rng.sample(names, min(len(names) - 1, rng.randint(1, 3)))
    else:
        keep = rng.randint(1, max(1, len(names) // 2))
        gone = rng.sample(names, len(names) - min(keep, len(names)))
    return {"kind": "absent", "inner": inner, "gone": sorted(gone), "shape": ""}
