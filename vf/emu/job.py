"""One configuration under the emulator, as a process of its own:
python3 -m vf.emu.job CONFIG PROPERTY TIER SEED -> one JSON line."""
import json, os, random, re, sys
from .run import ORD, Prog, Session
from ..asmblocks import declared
from .table import isa_for
from ..cross import CrossError
from ..report import Report
from ..xconf import BY_NAME, L

# executed alone / with other agents / ordering analysis, per property
MODES = {
    "C01": ("inject",), "C02": ("solo",), "C03": ("order", "effects"), "C04": ("order", "pairs"), "C06": ("solo", "inject"),
    "C05": ("uninit",), "C07": ("loads",), "C13": ("solo", "inject"), "C10": ("solo", "alloc"), "C11": ("solo", "inject", "effects"),
}
ALSO = {"aarch64_be-unknown-linux-gnu", "arm64_32-apple-watchos"}


def configs(quick):
    """Implemented elsewhere than on the host, and known to the emulator."""
    return [x for x in L if not x.target.host and x.want and not x.target.stable and (not quick or x.quick or x.name in ALSO) and isa_for(x.name) and "arm64ec" not in x.name and x.name != "thumbv6-none-eabi"]


def effects(prog, s):
    """What the compiler is told about the assembly blocks of each operation."""
    tag = [x for x in os.listdir(prog.dir) if x.endswith(".ll")][0]
    fns = {f.name: f for f in prog.fns}
    strong = lambda n: n in fns and any(ORD.get(o) for o in fns[n].orders)
    for n, kind, text in declared(open(os.path.join(prog.dir, tag)).read(), strong, prog.isa.touches):
        if n not in fns:
            continue
        if kind is None:
            s.stat("block_effects_checked")
        else:
            s.bad(fns[n], kind, text)


def main(name, prop, tier, seed, accept):
    quick = tier == "quick"
    rep = Report(prop, tier, seed, "", [], [])
    job = "emulated " + name
    rng = random.Random(f"{name} {prop} {seed}")
    modes = MODES[prop]
    opts = ("3",) if quick else ("3", "1", "s")
    for opt in opts:
        try:
            prog = Prog(BY_NAME[name], isa_for(name), opt)
        except CrossError as e:
            rep.unsure(job, str(e)[-400:])
            continue
        s = Session(prog, rep, job, rng, accept, f"python3 -m vf.emu.job '{name}' {prop} {tier} {seed}")
        sc, gs = {}, prog.groups()
        s.stat("functions_emulated", len(prog.fns))
        s.stat("distinct_code_emulated", len(gs))
        if not prog.fns:
            rep.unsure(job, "no compiled operations found")
        for f in gs:
            # the compiler spills with displaced stores, which these CPUs do not have
            if f.op == "fu" and name == "avr attiny":
                continue
            if prop == "C13" and f.op != "fu" or f.op == "fu" and prop not in ("C01", "C11", "C13"):
                continue
            if "solo" in modes or "loads" in modes and f.op == "ld":
                s.solo(f, 10 if quick else 60)
            if "uninit" in modes:
                s.uninit(f, 16 if quick else 96)
            if "inject" in modes:
                s.inject(f, 2 if quick else 8, 4 if quick else 16)
            if "order" in modes:
                s.order(f, sc)
        if "pairs" in modes:
            s.std(sc)
            s.pairs(sc)
        if "effects" in modes:
            effects(prog, s)
        s.finish()
        if "alloc" not in modes or prog.isa.pools is None:
            continue
        for k in range(2 if quick else 16):
            try:
                prog = Prog(BY_NAME[name], isa_for(name), opt, random.Random(f"{name} {seed} {k}"))
            except CrossError as e:
                rep.unsure(job, str(e)[-400:])
                continue
            s = Session(prog, rep, job + f" allocation {k}", rng, accept, f"python3 -m vf.emu.job '{name}' {prop} {tier} {seed}")
            s.stat("hostile_allocations", len(prog.contracts))
            s.stat("shared_registers", prog.shared)
            for f in prog.groups():
                if f.op == "fu":
                    continue
                s.solo(f, 4 if quick else 12)
                if not quick:
                    s.inject(f, 1, 2)
            s.finish()
    return {"stats": rep.stats, "violations": rep.violations, "inconclusive": rep.inconclusive, "other": rep.other}


if __name__ == "__main__":
    from ..checks import CLASSES
    n, p, t, sd = sys.argv[1:5]
    print(json.dumps(main(n, p, t, int(sd), CLASSES[p])))
