"""Process environment of a simulation process: imports the code under test from the working tree of /repo."""
from __future__ import annotations

import gc
import importlib
import io
import os
import pkgutil
import resource
import sys

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_done = False


def prepare() -> None:
    """Import the code under test with the seams in place. Called once per process."""
    global _done
    if _done:
        return
    sys.dont_write_bytecode = True
    from sim import core, sched

    import logging  # noqa: F401

    import dissect.cstruct
    import dissect.util.stream  # noqa: F401

    restore = sched.patch_threading()

    import dissect.volume

    paths = [os.path.realpath(p) for p in dissect.volume.__path__]
    if paths != [os.path.join(REPO, "dissect", "volume")]:
        raise core.HarnessError(f"dissect.volume is imported from {paths}, not from {REPO}")
    import dissect.volume.ddf
    import dissect.volume.disk
    import dissect.volume.dm
    import dissect.volume.lvm
    import dissect.volume.md
    import dissect.volume.vinum
    import dissect.volume.vss  # noqa: F401

    # Import all there is now, so that no import (which takes locks of its own) happens while threads are scheduled
    for _, name, _ in pkgutil.walk_packages(dissect.volume.__path__, "dissect.volume.", onerror=lambda name: None):
        try:
            importlib.import_module(name)
        except Exception:  # noqa: BLE001, S112
            continue
    restore()
    sched.patch_modules()
    core.install_loop_budget()
    _done = True


def limit_memory(gigabytes: float = 4.0) -> None:
    n = int(gigabytes * (1 << 30))
    resource.setrlimit(resource.RLIMIT_AS, (n, n))


class Quiet(io.TextIOBase):
    """Swallows what the code under test prints."""

    def write(self, s: str) -> int:
        return len(s)


def tidy() -> None:
    gc.collect()
