"""Registry of world kinds."""
from __future__ import annotations

from sim.core import HarnessError
from sim.world import World


def build_world(w: dict) -> World:
    kind = w["kind"]
    if kind == "md":
        from sim.w_md import MDWorld as cls
    elif kind == "ddf":
        from sim.w_ddf import DDFWorld as cls
    elif kind == "vinum":
        from sim.w_vinum import VinumWorld as cls
    elif kind == "lvm":
        from sim.w_lvm import LVMWorld as cls
    elif kind == "thin":
        from sim.w_thin import ThinWorld as cls
    elif kind == "part":
        from sim.w_part import PartWorld as cls
    elif kind == "vss":
        from sim.w_vss import VSSWorld as cls
    elif kind == "stack":
        from sim.w_stack import StackWorld as cls
    elif kind == "absent":
        from sim.w_absent import AbsentWorld as cls
    elif kind.startswith("crash_"):
        from sim.w_crash import CLASSES

        cls = CLASSES[kind]
    else:
        raise HarnessError(f"unknown world {kind}")
    return cls(w)
