"""Property definitions: how plans are generated, executed and counted."""
from __future__ import annotations

import gc
from random import Random

from sim import damage, threads, w_absent, w_crash, w_ddf, w_lvm, w_md, w_part, w_stack, w_thin, w_vinum, w_vss
from sim.execute import Executor
from sim.genfaults import io_errors
from sim.genops import add_closing, gen_ops
from sim.worlds import build_world

COMMON_RULE = (
    "A case is one seeded plan: a generated disk layout plus an interleaved schedule of client operations on it, executed "
    "against the real code. distinct = distinct sequences of (device, seek/read) calls reaching the simulated devices. "
)


class Prop:
    id = "?"
    level = "exploration"
    runs = {"quick": 400, "thorough": 4000}
    rule = COMMON_RULE + "Non-trivial: at least one volume was opened and at least one byte compared with the model."
    stubs: list[str] = []
    assumptions: list[str] = []

    def generate(self, rng: Random, tier: str, index: int) -> dict:
        raise NotImplementedError

    def execute(self, plan: dict, keep_log: bool = False):
        return Executor(plan, keep_log).run()

    def nontrivial(self, plan: dict, out) -> bool:
        return out.stats.get("bytes", 0) > 0

    def shape(self, plan: dict) -> str:
        return build_shape(plan["world"])

    def describe(self, plan: dict, out) -> dict:
        return {"run": plan["run"], "world": summary(plan["world"]), "ops": plan["ops"][:12], "faults": plan.get("faults", [])[:4], "digest": out.digest}

    def shrinks(self, plan: dict) -> list[dict]:
        out = []
        for w in build_world(plan["world"]).shrinks():
            out.append(dict(plan, world=w))
        return out


BIG = 0.15  # share of the plans with very large devices


def summary(w: dict) -> dict:
    text = {}
    for k, v in w.items():
        s = str(v)
        text[k] = v if len(s) < 400 else s[:400] + "..."
    return text


def build_shape(w: dict) -> str:
    """Configuration measure: the world description without content seeds and device order."""
    kind = w["kind"]
    if kind == "md":
        return "md:" + ",".join(f"{a['level']}/{a['ver']}/{a['layout']}/{a['n']}/{a['chunk']}/{len(set(a['sizes']))}{'big' * a.get('big', 0)}" for a in w["arrays"])
    if kind == "absent":
        return f"{build_shape(w['inner'])}-{','.join(w['gone'])}"
    return kind + ":" + str(w.get("shape", ""))


class C01(Prop):
    id = "C01"
    runs = {"quick": 8000, "thorough": 20000}
    stubs = ["mdadm writer model (superblocks and data placement)"]

    def generate(self, rng, tier, index):
        w = w_md.gen(rng, big=rng.random() < BIG)
        world = build_world(w)
        return {"world": w, "ops": gen_ops(rng, world), "faults": []}


class C02(Prop):
    id = "C02"
    runs = {"quick": 5000, "thorough": 40000}
    stubs = ["DDF controller firmware model (headers, records and data placement)"]

    def generate(self, rng, tier, index):
        w = w_ddf.gen(rng, big=rng.random() < BIG)
        world = build_world(w)
        return {"world": w, "ops": gen_ops(rng, world), "faults": []}


class C03(Prop):
    id = "C03"
    runs = {"quick": 5000, "thorough": 40000}
    stubs = ["gvinum writer model (drive headers, configuration text and data placement)"]

    def generate(self, rng, tier, index):
        w = w_vinum.gen(rng, big=rng.random() < BIG)
        world = build_world(w)
        return {"world": w, "ops": gen_ops(rng, world), "faults": []}


class C04(Prop):
    id = "C04"
    runs = {"quick": 7000, "thorough": 40000}
    stubs = ["LVM2 writer model (labels, metadata areas, text and extent placement)", "dm-thin writer model"]

    def generate(self, rng, tier, index):
        w = w_lvm.gen(rng, big=rng.random() < BIG)
        world = build_world(w)
        return {"world": w, "ops": gen_ops(rng, world), "faults": []}


class C05(Prop):
    id = "C05"
    runs = {"quick": 9000, "thorough": 40000}
    stubs = ["dm-thin writer model (pool histories, btrees and superblock)"]

    def generate(self, rng, tier, index):
        w = w_thin.gen(rng, big=rng.random() < BIG)
        world = build_world(w)
        return {"world": w, "ops": gen_ops(rng, world), "faults": []}


class C06(Prop):
    id = "C06"
    runs = {"quick": 20000, "thorough": 60000}
    stubs = ["partitioning tool model (MBR, GPT, APM and disklabel writers)"]

    def generate(self, rng, tier, index):
        w = w_part.gen(rng, big=rng.random() < BIG)
        world = build_world(w)
        return {"world": w, "ops": gen_ops(rng, world), "faults": []}


class C12(Prop):
    id = "C12"
    runs = {"quick": 3000, "thorough": 40000}
    stubs = ["volsnap writer model (histories of writes and snapshots, catalog, stores)"]

    def generate(self, rng, tier, index):
        w = w_vss.gen(rng, big=rng.random() < BIG)
        world = build_world(w)
        return {"world": w, "ops": gen_ops(rng, world), "faults": []}


class C14(Prop):
    id = "C14"
    runs = {"quick": 6000, "thorough": 20000}
    stubs = ["mdadm, LVM2, dm-thin and partitioning tool writer models"]

    def generate(self, rng, tier, index):
        w = w_stack.gen(rng)
        world = build_world(w)
        return {"world": w, "ops": gen_ops(rng, world, maxbytes=6 << 20), "faults": []}


GENERATORS = {
    "md": lambda rng: w_md.gen(rng, small=True),
    "ddf": lambda rng: w_ddf.gen(rng, small=True),
    "vinum": lambda rng: w_vinum.gen(rng, small=True),
    "lvm": lambda rng: w_lvm.gen(rng, small=True),
    "thin": lambda rng: w_thin.gen(rng, small=True),
    "part": lambda rng: w_part.gen(rng, small=True),
    "vss": lambda rng: w_vss.gen(rng, small=True),
    "stack": lambda rng: w_stack.gen(rng),
}
ALL_KINDS = ["md", "md", "ddf", "vinum", "lvm", "lvm", "thin", "part", "part", "vss", "stack"]


class C07(Prop):
    id = "C07"
    runs = {"quick": 10000, "thorough": 80000}
    rule = COMMON_RULE + "Non-trivial: at least one injected device error reached the code under test and at least one byte was compared."
    stubs = ["writer models of all supported volume types"]

    def generate(self, rng, tier, index):
        if rng.random() < 0.75:
            w = GENERATORS[rng.choice(ALL_KINDS)](rng)
        else:  # several generations of metadata: an error does not make an older one acceptable
            w = w_crash.GEN[rng.choice(["thin", "lvm", "lvm", "md", "vinum", "ddf", "ddf"])](rng)
        world = build_world(w)
        ops = gen_ops(rng, world, nops=(6, 24), reasm=0.1, relist=0.1, close=0.02, full=0, maxbytes=3 << 20)
        faults = io_errors(rng, world, ops, w["kind"] in w_crash.CLASSES)
        # afterwards every system is examined again, without new errors
        ops.insert(2, ["need", "s0"])
        for f in faults:
            f["op"] += f["op"] >= 2
            if "until" in f:
                f["until"] += f["until"] >= 2
        last = len(ops)
        for f in faults:
            if "until" in f:
                f["until"] = min(f["until"], last)
        ops += recovery(rng, world, ops)
        return {"world": w, "ops": ops, "faults": faults}

    def nontrivial(self, plan, out):
        return sum(out.sim.fired.values()) > 0 and out.stats.get("bytes", 0) > 0


def recovery(rng: Random, world, ops: list[list]) -> list[list]:
    """Examine the systems and streams that exist by now, and a new system."""
    out = []
    systems = sorted({op[1] for op in ops if op[0] == "asm"})
    streams = sorted({op[1] for op in ops if op[0] == "open"})
    for sid in systems:
        out.append(["list", sid])
    for stid in rng.sample(streams, min(len(streams), 4)):
        out.append(["pread", stid, 0, -1])
    if rng.random() < 0.7:
        out += [["asm", "s9", 0, rng.choice(["plain", "plain", "kept"])], ["list", "s9"]]
        systems.append("s9")
    budget = 4 << 20
    vols = list(world.vols)
    rng.shuffle(vols)
    for n, vol in enumerate(vols):
        if len(vol.content) > budget:
            continue
        budget -= len(vol.content)
        out += [["open", f"r{n}", rng.choice(systems), vol.key], ["read", f"r{n}", -1]]
    return out


class C08(Prop):
    id = "C08"
    runs = {"quick": 9000, "thorough": 80000}
    rule = COMMON_RULE + "Non-trivial: at least one member was not handed over, and either bytes were compared or a volume that lacks members was refused."
    stubs = ["mdadm, DDF, gvinum and LVM2 writer models"]

    def generate(self, rng, tier, index):
        kind = rng.choice(["md", "md", "ddf", "ddf", "vinum", "vinum", "lvm", "lvm"])
        if kind == "vinum":
            inner = w_vinum.gen(rng, small=True, mirrors=0.7)
        elif kind == "lvm":
            kinds = ["linear", "multi", "striped", "mixed", "mirror", "mirror", "thin"]
            inner = w_lvm.gen(rng, small=True, npv=rng.randint(2, 4), kinds=kinds)
        elif kind == "ddf":
            inner = w_ddf.gen(rng, small=True, kinds=[*w_ddf.LAYOUTS, "raid1", "raid1e", "raid10", "raid10"])
        else:
            inner = w_md.gen(rng, small=True)
            while any(map(w_md.clashing, inner["arrays"])):
                inner = w_md.gen(rng, small=True)
        w = w_absent.wrap(rng, inner)
        world = build_world(w)
        ops = gen_ops(rng, world, maxbytes=3 << 20)
        if rng.random() < 0.3:
            ops.insert(0, ["warm", rng.getrandbits(16)])
        return {"world": w, "ops": ops, "faults": []}

    def nontrivial(self, plan, out):
        return bool(plan["world"]["gone"]) and (out.stats.get("bytes", 0) > 0 or out.stats.get("errors", 0) > 0)


class C09(Prop):
    id = "C09"
    runs = {"quick": 10000, "thorough": 80000}
    rule = COMMON_RULE + "Non-trivial: members carry at least two generations of metadata (interrupted or missed updates), and bytes were compared."
    stubs = ["writer models of MD, LVM2, Vinum, DDF and thin pool metadata that can crash between and during device writes"]

    def generate(self, rng, tier, index):
        w = w_crash.GEN[rng.choice(["thin", "lvm", "lvm", "md", "md", "vinum", "ddf"])](rng)
        world = build_world(w)
        return {"world": w, "ops": gen_ops(rng, world, nops=(6, 20), reasm=0.15, maxbytes=3 << 20), "faults": []}

    def nontrivial(self, plan, out):
        return sum(out.sim.fired.values()) > 0 and (out.stats.get("bytes", 0) > 0 or out.stats.get("errors", 0) > 0)


class C10(Prop):
    id = "C10"
    runs = {"quick": 10000, "thorough": 80000}
    rule = (
        "A case is one seeded plan: a generated disk layout, the calls of two to four threads that share one stream of it (or each use their own), and a list of "
        "preemptions. distinct = distinct event logs (thread switches, device calls and results). Non-trivial: at least one switch "
        "happened between two threads and at least one byte was compared."
    )
    stubs = ["writer models of all supported volume types", "thread scheduler: real threads, one runs at a time, switches at device calls, lock operations and, in half of the plans, lines"]

    def generate(self, rng, tier, index):
        while True:
            w = GENERATORS[rng.choice(ALL_KINDS)](rng)
            world = build_world(w)
            if world.vols:
                break
        if rng.random() < 0.35:
            bodies, lines = threads.gen_each(rng, world)
            return {"world": w, "ops": [["each", bodies, lines]], "faults": [], "sched": threads.gen_sched(rng, len(bodies), lines)}
        vols = [v for v in world.vols if v.must]
        vol = rng.choice(vols or world.vols)
        bodies, lines = threads.gen_threads(rng, vol)
        ops = [["asm", "s0", 0], ["open", "f0", "s0", vol.key]]
        if rng.random() < 0.3 and vol.exact_end:
            ops.append(["pread", "f0", rng.randrange(len(vol.content) + 1), rng.choice([0, 1, 700])])
        ops.append(["par", "f0", bodies, lines])
        ops.append(["pread", "f0", 0, min(len(vol.content), 1 << 18)])
        return {"world": w, "ops": ops, "faults": [], "sched": threads.gen_sched(rng, len(bodies), lines)}

    def execute(self, plan, keep_log=False):
        ex = threads.ThreadExecutor(plan, keep_log)
        out = ex.run()
        out.stats["switches"] = ex.switches
        out.access = out.digest
        return out

    def nontrivial(self, plan, out):
        return out.stats.get("switches", 0) > 0 and out.stats.get("bytes", 0) > 0

    def shrinks(self, plan):
        out = super().shrinks(plan)
        for i, op in enumerate(plan["ops"]):
            if op[0] not in ("par", "each"):
                continue
            at = 2 if op[0] == "par" else 1
            for t, body in enumerate(op[at]):
                for k in range(len(body)):
                    less = [b if j != t else b[:k] + b[k + 1 :] for j, b in enumerate(op[at])]
                    new = [*op[:at], less, *op[at + 1 :]]
                    out.append(dict(plan, ops=[*plan["ops"][:i], new, *plan["ops"][i + 1 :]]))
        return out


class C11(Prop):
    id = "C11"
    runs = {"quick": 12000, "thorough": 150000}
    rule = (
        "A case is one seeded plan: a generated disk layout, one to twelve corruptions of what the undamaged run of the plan reads, and a "
        "schedule of assembling, opening and reading. distinct = distinct event logs (device calls and results). Non-trivial: the code "
        "read at least one of the damaged places."
    )
    stubs = ["writer models of all supported volume types"]

    def generate(self, rng, tier, index):
        w = GENERATORS[rng.choice(ALL_KINDS)](rng)
        plan = {"world": w, "ops": damage.base_ops(rng, build_world(w)), "faults": [], "prop": self.id}
        plan["corrupt"] = damage.gen(rng, plan)
        return plan

    def execute(self, plan, keep_log=False):
        out = damage.DamageExecutor(plan, keep_log).run()
        out.access = out.digest
        return out

    def nontrivial(self, plan, out):
        return out.stats.get("hits", 0) > 0

    def describe(self, plan, out):
        return dict(super().describe(plan, out), corrupt=[dict(c, hex=c["hex"][:40]) if "hex" in c else c for c in plan["corrupt"][:3]])


class C13(Prop):
    id = "C13"
    runs = {"quick": 9000, "thorough": 80000}
    rule = (
        COMMON_RULE + "Non-trivial: a stream was closed, left through a with statement or abandoned, and bytes of another one were compared "
        "after that."
    )
    stubs = ["writer models of all supported volume types"]

    def generate(self, rng, tier, index):
        w = GENERATORS[rng.choice(ALL_KINDS)](rng)
        world = build_world(w)
        ops = gen_ops(rng, world, nops=(8, 30), nclients=(1, 4), reasm=rng.choice([0.03, 0.12]), close=rng.choice([0.15, 0.3]), maxbytes=4 << 20)
        ops = add_closing(rng, ops)
        faults = io_errors(rng, world, ops) if rng.random() < 0.25 else []
        return {"world": w, "ops": ops, "faults": faults, "strict": True}

    def execute(self, plan, keep_log=False):
        gc.collect()
        gc.disable()
        try:
            return super().execute(plan, keep_log)
        finally:
            gc.enable()

    def nontrivial(self, plan, out):
        return out.stats.get("bytes_after_close", 0) > 0


PROPS = {p.id: p for p in [C01(), C02(), C03(), C04(), C05(), C06(), C07(), C08(), C09(), C10(), C11(), C12(), C13(), C14()]}
