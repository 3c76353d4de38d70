"""What each property's check runs. A check is a list of jobs (callables taking the report)."""
import functools, json, os, random, sys
from concurrent.futures import ThreadPoolExecutor
from .common import *
from .report import Report
from .native import native_job, run_binary
from .build import CONFIGS, build, BuildError

# ---- configurations ------------------------------------------------------------------------------
REL = ["x64", "x64-cx16", "i686", "i686-sse", "i686-x87", "i686-nox87", "i686-nocx8", "i686-nocx", "x64-cx16-legacy", "x64-cx16-pre20", "i686-legacy", "i686-x87-legacy"]
MORE = ["x64-cx16-opt1", "x64-cx16-opts", "x64-native", "x64-nopic", "i686-nopic", "i686-softfloat"]
DEEP = ["x64-legacy", "x64-stable", "x64-nightly", "i686-sse-legacy", "i686-nox87-legacy"]
DBG = ["x64-cx16-debug", "i686-debug"]
DEEPDBG = ["x64-debug", "x64-cx16-legacy-debug", "i686-legacy-debug", "i686-x87-debug"]

WRONG = {"wrong-result"}
ATOMIC = {"sc-without-ll", "intermediate-value", "not-atomic", "rmw-not-locked", "handler-op-wrong", "lost-update", "torn-or-invented-value", "went-backwards", "not-linearizable", "lane-disturbed"}
CLASSES = {
    "C01": ATOMIC | WRONG,
    "C02": WRONG | {"crash", "fault"},
    "C03": {"release-not-ordered", "acquire-not-ordered", "no-publication", "store-not-seen", "message-passing", "no-access"},
    "C04": {"seqcst-reordered", "seqcst-no-fence", "store-buffering", "no-access"},
    "C05": {"uninit-not-carried", "definedness", "acts-on-uninitialized"},
    "C06": {"touches-outside-object", "neighbour-modified", "operand-modified", "lane-disturbed", "fault", "crash"},
    "C07": {"load-faults-on-read-only-memory", "load-changes-memory", "load-writes", "load-does-not-access-location", "crash"},
    "C08": {"invalid-ordering-touches-memory", "invalid-ordering-accepted", "closure-called-before-validation", "invalid-ordering-had-effect", "valid-ordering-panics", "crash"},
    "C09": {"views-disagree", "debug-reads-memory", "crash", "differs"},
    "C10": {"machine-state", "operand-modified", "wrong-result", "crash", "fault", "differs", "contract"},
    "C11": {"blocked", "unbounded", "handler-op-wrong", "store-not-seen", "access-between-ll-sc", "sc-without-ll"},
    "C13": {"fetch_update-closure", "fetch_update-result", "fetch_update-reentrant", "lost-update", "not-atomic", "crash"},
}


class Ctx:
    def __init__(self, rep, quick, seed):
        self.rep, self.quick, self.seed = rep, quick, seed
        self.jobs = []
        self.accept = CLASSES.get(rep.prop)
        self.rng = random.Random(seed * 7919 + int(rep.prop[1:]))

    def add(self, f, *a, **k):
        self.jobs.append(functools.partial(f, *a, **k))

    def native(self, cmds, rel=True, dbg=False, scale=1, dbg_scale=1, more=True, **k):
        """Each command in every configuration; the thorough tier repeats with more seeds and scale."""
        cfgs = (REL + (MORE if more else []) if rel else []) + (DBG if dbg else [])
        if not self.quick:
            cfgs = cfgs + (DEEP if rel else []) + (DEEPDBG if dbg else [])
        rounds = 1 if self.quick else 4
        for c in cfgs:
            for cmd in cmds:
                for r in range(rounds):
                    sc = (scale if CONFIGS[c].release else dbg_scale) * (1 if self.quick else 4)
                    self.add(native_job, self.rep, c, cmd, sc, self.accept, self.seed + 1000003 * r, tag="" if rounds == 1 else f"#{r}", timeout=300 if self.quick else 1200, crash_is="crash" if not self.accept or "crash" in self.accept or True else None, **k)

    def emulated(self):
        """The operations compiled for other architectures, executed by the instruction-level emulator."""
        from .emu.job import configs
        for c in configs(self.quick):
            self.add(emulated_job, self, c.name)

    def run(self, workers=8):
        def go(j):
            try:
                j()
            except Exception as e:  # a harness problem is never a verdict
                import traceback
                self.rep.unsure(str(getattr(j, "args", "?"))[:120], "harness: " + traceback.format_exc()[-500:])
        # builds of one configuration are shared; start with distinct configurations
        with ThreadPoolExecutor(workers) as ex:
            list(ex.map(go, self.jobs))


def emulated_job(x, name):
    rep = x.rep
    p = run([sys.executable, "-m", "vf.emu.job", name, rep.prop, rep.tier, str(x.seed)], timeout=600 if x.quick else 3600, cwd=VERIF)
    try:
        r = json.loads(p.out.splitlines()[-1])
    except (ValueError, IndexError):
        rep.unsure("emulated " + name, "timed out" if p.timed_out else "harness: " + p.err[-500:])
        return
    for k, v in r["stats"].items():
        rep.stat(k, v, "emulated " + name)
    for v in r["violations"]:
        rep.violation(v["job"], v["class"], v["detail"], v["replay"])
    for i in r["inconclusive"]:
        rep.unsure(i["job"], i["reason"])
    with rep.lock:
        for k, n in r["other"].items():
            rep.other[k] = rep.other.get(k, 0) + n


def c01(x):
    x.native(["interleave", "lin", "chain", "lanes"], more=False)
    x.native(["fuchain"], more=False)
    x.native(["lin"], rel=False, dbg=True)
    x.emulated()


def c02(x):
    x.native(["seq", "casbits"], dbg=True)
    x.emulated()


def told(x):
    from .contract import effects
    from .xconf import L
    for c in L:
        if c.want and not c.target.stable and (c.target.host or c.name.startswith(("x86_64-unknown-linux-gnux32", "arm64ec"))):
            x.add(effects, x, c)


def c03(x):
    x.native(["order", "litmus"])
    told(x)
    x.emulated()


def c04(x):
    x.native(["sctrace", "litmus"])
    x.native(["sctrace"], rel=False, dbg=True)
    x.emulated()


def c05(x):
    from .views import uninit_jobs
    uninit_jobs(x)
    x.native(["uninit"], dbg=True)
    for c in ["x64", "x64-cx16", "x64-cx16-legacy", "x64-cx16-pre20"] + (["x64-cx16-opt1", "x64-nopic", "x64-stable", "x64-nightly", "x64-cx16-debug"] if not x.quick else []):
        x.add(native_job, x.rep, c, "vbits", 1, x.accept, x.seed, valgrind=True, timeout=600)
    x.emulated()


def c06(x):
    x.native(["footprint", "lanes", "seq"])
    x.emulated()


def c07(x):
    x.native(["readonly"], dbg=True)
    x.emulated()


def c08(x):
    x.native(["panics"], dbg=True)


def c09(x):
    from .views import jobs
    jobs(x)
    from .gen import job
    for i, c in enumerate(["x64-cx16", "i686", "x64-cx16-debug"] + ([] if x.quick else REL + MORE + DEEP + DEEPDBG + ["i686-debug"])):
        for n in range(1 if x.quick else 4):
            x.add(job, x, c, x.seed + 13 + 101 * i + 10007 * n, 80 if x.quick else 300, 1 if x.quick else 5, 0.4)
    from .availability import LAYOUT, layout
    for n in LAYOUT:
        x.add(layout, x, n)


def c10(x):
    from .gen import job
    cfgs = REL + MORE + ["x64-cx16-debug", "i686-debug"] + ([] if x.quick else DEEP + DEEPDBG)
    for n in range(1 if x.quick else 5):
        for i, c in enumerate(cfgs):
            x.add(job, x, c, x.seed + 101 * i + 10007 * n, (200 if "i686" in c else 110) if x.quick else 400, 1 if x.quick else 10)
    from .contract import job as contract
    from .xconf import L
    for n in range(1 if x.quick else 5):
        for c in L:
            if c.target.host or c.name.startswith("x86_64-unknown-linux-gnux32"):
                x.add(contract, x, c, x.seed + 7 * n, 40 if x.quick else 200, 1 if x.quick else 4)
    x.native(["seq", "footprint"])
    x.emulated()


def c11(x):
    x.native(["interleave", "spin", "handlers"])
    told(x)
    x.emulated()


def c12(x):
    from .availability import check
    x.add(check, x.rep, x.quick)


def c13(x):
    x.native(["fu", "fuchain"])
    x.emulated()


RULES = {
    "C01": ("each evaluation is one concurrent execution: an operation single-stepped with foreign operations injected at instruction boundaries, or a threaded round/history of up to 4 threads checked for linearizability; counted non-trivial when a foreign action really hit the location inside the operation, or when threads observed each other's values",
            ["foreign_actions_injected", "histories_with_cross_thread_observation", "thread_handoffs_observed", "emulated_actions"], ["interleaved_runs", "histories_checked", "events_checked", "lane_calls", "emulated_interleavings"]),
    "C02": ("each evaluation is one call of one operation (type x operation x ordering x access path) on hostile bit patterns checked against a byte-wise model; non-trivial counts distinct (function, initial value, arguments) cases and single-bit mismatches",
            ["distinct_cases", "single_bit_mismatches", "emulated_calls"], ["calls", "single_bit_mismatches", "emulated_calls"]),
    "C03": ("each evaluation is one single-stepped run of surrounding accesses + operation (the monitor checks that surrounding accesses stay on their side and that release publications and acquire reads carry the needed machine ordering), or one message received in a two-thread message-passing run; non-trivial counts checked publications/acquisitions and messages received",
            ["publications_checked", "acquisitions_checked", "mp_messages_received", "emulated_acquisitions", "emulated_publications"], ["ordering_runs", "mp_polls", "orderings_traced"]),
    "C04": ("each evaluation is a traced store->load pair of SeqCst operations (instruction trace checked for a full fence between) or one two-thread store-buffering run; non-trivial counts traced pairs and runs in which the two threads really overlapped",
            ["seqcst_pairs_traced", "sb_outcome_1_1", "seqcst_pairs_emulated"], ["seqcst_pairs_traced", "sb_runs", "seqcst_pairs_emulated"]),
    "C05": ("each evaluation is one operation on a value with uninitialized bytes (padding structs, arbitrary masks of undefined bytes under valgrind's definedness tracking), or on emulated architectures one pair of calls that differ only in the contents of bytes that count as uninitialized; non-trivial counts calls whose operands had undefined bytes and the undefined bytes",
            ["padded_exchanges", "undefined_bytes_tracked", "uninitialized_bytes"], ["padded_operations", "vbit_runs", "emulated_uninit_pairs"]),
    "C06": ("each evaluation is one call with the object against inaccessible pages or surrounded by guard bytes, single-stepped with every memory access decoded; non-trivial counts observed accesses and lane-neighbour calls",
            ["accesses_observed", "lane_calls", "emulated_interleavings"], ["traced_calls", "calls", "lane_calls", "emulated_calls"]),
    "C07": ("each evaluation is one load on memory mapped read-only, each memory access of the load decoded; non-trivial counts the accesses observed",
            ["read_accesses_observed", "emulated_loads"], ["loads", "emulated_loads"]),
    "C08": ("each evaluation is one call with one ordering combination, invalid ones on inaccessible memory; non-trivial counts the invalid combinations",
            ["invalid_ordering_calls"], ["invalid_ordering_calls", "valid_ordering_calls"]),
    "C09": ("each evaluation is one comparison of two views of the same atomic (or one const-evaluated/layout fact), natively and under Miri, or one run of an optimized generated program that mixes operations with ordinary accesses through the views; non-trivial counts comparisons after a change through another view, and programs with distinct results",
            ["operation_view_comparisons", "debug_formats_on_inaccessible_memory", "distinct_program_results"], ["pure_view_comparisons", "operation_view_comparisons", "view_checks", "generated_program_runs"]),
    "C10": ("each evaluation is one call in a surrounding computation with live registers, flags, x87/SIMD state and red zone checked, one generated program compared with its twin on an ideal atomic, or one run of an assembly block under a register allocation its constraints allow; non-trivial counts distinct cases",
            ["distinct_cases", "generated_operations", "distinct_block_results", "emulated_calls"], ["calls", "generated_operations", "block_runs", "emulated_calls"]),
    "C11": ("each evaluation is one operation executed instruction by instruction, alone (step count bounded), with changes injected (retries only then), or stopped for ever while another operation completes; polls must see the published value; non-trivial counts runs with an injected action and polls",
            ["outcomes_with_change", "poll_runs", "emulated_actions"], ["interleaved_runs", "poll_runs", "emulated_interleavings"]),
    "C12": ("each evaluation is one fact (type x operation implemented, macro expansion, layout) of one build configuration, compared with its counterpart and with the documented table; non-trivial counts facts that say 'implemented'",
            ["implementations_seen"], ["facts_compared"]),
    "C13": ("each evaluation is one fetch_update with a recorded closure-call history, single-stepped with foreign changes injected, scripted (re-entrant, panicking) or contended by threads; non-trivial counts runs with repeated closure calls and hand-overs between threads",
            ["runs_with_repeated_closure_calls", "scripted_with_retries", "thread_handoffs_observed", "emulated_repeated_closure_calls"], ["stepped_fetch_updates", "scripted_fetch_updates", "updates_in_chain", "emulated_fetch_updates"]),
}
COMMON_ASSUMPTIONS = ["executions observed are those of this machine and of the listed build configurations; an interleaving, value or ordering not exercised is not covered"]


def main(prop, tier, seed):
    quick = tier != "thorough"
    rule, nt, ev = RULES[prop]
    rep = Report(prop, "quick" if quick else "thorough", seed, rule, nt, ev)
    rep.assumptions = list(COMMON_ASSUMPTIONS)
    x = Ctx(rep, quick, seed)
    globals()[prop.lower()](x)
    x.run()
    gc_cache("native", 40)
    gc_cache("gen", 60)
    gc_cache("contract", 40)
    gc_cache("cross", 6)
    return rep.finish()
