"""Runs the compiled operations of one configuration under the monitors."""
import random, re, os, shutil, tempfile
from .alloc import transform, watch
from .core import *
from ..common import *
from ..cross import compile_harness, CrossError, tool

ORD = {"R": "", "A": "a", "L": "r", "X": "ar", "S": "ars"}


class Fn:
    def __init__(self, name, lines):
        self.name, self.lines = name, lines
        self.op, self.ty, o = name.split("__")
        self.signed = self.ty[0] == "i"
        self.orders = o
        self.entry = lines[0][0] if lines else 0

    def size(self, usize):
        return usize if self.ty[1:] == "size" else int(self.ty[1:]) // 8

    def success(self):
        return ORD[self.orders[0]]

    def failure(self):
        return ORD[self.orders[1]] if len(self.orders) > 1 else ""


def parse(dis, marks=None):
    marks = {} if marks is None else marks
    fns, cur, name = [], None, None
    for l in dis.splitlines():
        m = re.match(r"(?:[0-9a-f]+ )?<(?:[^>]*?[ .])?[_#]?([a-z]{2}__[iu]\w+__\w+)>:", l) or re.match(r"Disassembly of section .*?([a-z]{2}__[iu]\w+__\w+):$", l)
        if m:
            if name == m[1] and cur == []:
                continue
            name, cur = m[1], []
            fns.append(Fn.__new__(Fn))
            fns[-1].name, fns[-1].lines = name, cur
            continue
        if re.match(r"(?:[0-9a-f]+ )?<.*>:$", l):
            # local labels inside a function (mapping symbols) do not end it
            k = re.match(r"([0-9a-f]+) <vf_([se])(\d+)_\d+>:$", l)
            if k:
                if fns:
                    marks.setdefault(name, []).append((int(k[1], 16), k[2], int(k[3])))
                continue
            if not re.search(r"<(\$|\.L)", l):
                cur = None
            continue
        if cur is None:
            continue
        m = re.match(r"\s+([0-9a-f]+):\s+(R_\w+|IMAGE_\w+|\w*RELOC\w*)\s+(.*)", l)
        if m:
            if cur:
                cur[-1][2].append((m[2], m[3].strip()))
            continue
        m = re.match(r"\s+([0-9a-f]+):\s*(.*)", l)
        if m:
            cur.append((int(m[1], 16), m[2].strip(), []))
    out = []
    for f in fns:
        if f.lines:
            g = Fn(f.name, f.lines)
            out.append(g)
    return out


class Prog:
    def __init__(self, conf, isa, opt="3", alloc=None):
        self.conf, self.isa = conf, isa
        self.marks, self.contracts, self.shared = {}, {}, 0
        self.dir = compile_harness(conf.target, "ops.rs", "obj,asm,llvm-ir", opt=opt, out_tag="ops" + ("" if opt == "3" else opt))
        tag = "ops" + ("" if opt == "3" else opt)
        obj = os.path.join(self.dir, tag + ".o")
        asm = os.path.join(self.dir, tag + ".s")
        work = None
        if alloc is not None:
            # the same operations with other registers in the assembly blocks
            ir, self.contracts, self.shared = transform(open(os.path.join(self.dir, tag + ".ll")).read(), isa, alloc)
            work = tempfile.mkdtemp(prefix="vf-alloc-")
            obj, asm = os.path.join(work, "a.o"), os.path.join(work, "a.s")
            a = re.search(r'"target-features"="([^"]*)"', ir)
            u = re.search(r'"target-cpu"="([^"]*)"', ir)
            more = (["-mattr=" + a[1]] if a else []) + (["-mcpu=" + u[1]] if u else [])
            p = run([tool("llc"), "-O3", "-function-sections"] + more + ["-filetype=" + ("asm" if isa.from_asm else "obj"), "-o", asm if isa.from_asm else obj] + isa.llc_args(conf), stdin=ir)
            if p.rc != 0:
                shutil.rmtree(work)
                raise CrossError("llc: " + " | ".join(l for l in p.err.splitlines() if not l.startswith(("#", " #")) and "bug report" not in l)[-600:])
        p = run([tool("llvm-objdump"), "-dr", "--no-show-raw-insn", "--show-all-symbols"] + isa.dump_args() + [obj]) if not isa.from_asm else None
        if isa.from_asm:
            self.fns = isa.parse_asm(open(asm).read(), Fn, self.marks)
        else:
            self.fns = parse(p.out, self.marks)
        for f in self.fns:
            isa.packets(f)
        isa.load(self, obj)
        # operations of the standard library
        self.std = [f for f in self.fns if f.op[0] == "z"]
        self.fns = [f for f in self.fns if f.op[0] != "z"]
        if work:
            shutil.rmtree(work)
        self.cache = {}

    def groups(self):
        """Functions with the same operation, width, orderings and code once."""
        seen = {}
        for f in self.fns:
            n = f.size(self.isa.usize)
            base = f.lines[0][0]
            key = (f.op, n, f.orders, tuple((a - base, re.sub(r"<[^>]*>", "", re.sub(r"\b0x[0-9a-f]+ <[^>]*\+0x([0-9a-f]+)>", r"+\1", t)), str(r)) for a, t, r in f.lines))
            seen.setdefault(key, f)
        return list(seen.values())

    def code(self, f):
        c = self.cache.get(f.name)
        if c is None:
            c = dict(self.isa.helpers())
            self.isa.literals(f)
            for i, (a, t, r) in enumerate(f.lines):
                nxt = f.lines[i + 1][0] if i + 1 < len(f.lines) else a + 1
                c[a] = self.isa.decode(a, t, nxt, r)
            if f.name in self.marks:
                watch(c, self.marks[f.name], self.contracts, self.isa)
            self.cache[f.name] = c
        return c


class Case:
    """One execution: initial object and neighbour bytes, arguments, plan."""

    def __init__(self, isa, n, rng):
        self.isa, self.n = isa, n
        g = max(isa.granule, 2 * n)
        self.mem0 = bytearray(rng.getrandbits(8) for _ in range(4 * g))
        slots = g // n
        self.off = g + n * rng.randrange(slots) if slots > 1 else g
        self.args = []

    def bytes_at(self):
        return bytes(self.mem0[self.off:self.off + self.n])


def execute(prog, f, case, rng, plan=None, spurious=0, path=None):
    isa = prog.isa
    n = case.n
    B = isa.base
    regs = [(B, case.mem0, "object")]
    inp = b""
    u = isa.usize
    if n <= u:
        # narrower than a register: a full word whose upper bits are garbage
        for v in case.args:
            w = (rng.getrandbits(8 * u) & ~mask(8 * n)) | v
            inp += w.to_bytes(u, "big" if isa.big else "little")
    else:
        for v in case.args:
            inp += v.to_bytes(n, "big" if isa.big else "little")
    inp += bytes(rng.getrandbits(8) for _ in range(16))
    i_addr, o_addr, s_addr = B + isa.layout[0], B + isa.layout[1], B + isa.layout[2]
    regs.append((i_addr, inp, "operands"))
    out0 = bytes(rng.getrandbits(8) for _ in range(n + 16))
    regs.append((o_addr, out0, "out"))
    stack0 = bytes(rng.getrandbits(8) for _ in range(isa.stack[0]))
    regs.append((s_addr, stack0, "stack"))
    mem = Memory(regs + prog.extra)
    m = isa.machine(mem, B + case.off, n)
    m.plan = plan or {}
    m.spurious = spurious
    m.path = path
    sp = s_addr + isa.stack[1]
    m.whole = f.op != "fu"  # nothing but the operation
    isa.enter(m, rng, sp, (B + case.off, i_addr, o_addr), isa.stop)
    try:
        m.run(prog.code(f), f.entry, isa.stop)
    except Bad as e:
        e.m = m
        raise
    isa.leave(m)
    # the caller's frame
    if mem.get(sp + isa.frame, isa.stack[0] - isa.stack[1] - isa.frame) != stack0[isa.stack[1] + isa.frame:]:
        raise Bad("touches-outside-object", "writes to the caller's stack frame")
    if mem.get(i_addr, len(inp)) != inp:
        raise Bad("operand-modified", "changes its operands in memory")
    res_v = m.val(mem.get(o_addr, n))
    if f.op == "st":
        if mem.get(o_addr, n + 16) != out0:
            raise Bad("touches-outside-object", "store writes to unrelated memory")
        res_v = None
    elif f.op == "fu":
        # the closure counts its calls here
        m.calls = mem.get(o_addr + n, 1)[0] - out0[n] & 255
        if mem.get(o_addr + n + 1, 15) != out0[n + 1:]:
            raise Bad("touches-outside-object", "writes past the result")
    elif mem.get(o_addr + n, 16) != out0[n:]:
        raise Bad("touches-outside-object", "writes past the result")
    flag = isa.result(m) & mask(8 * u)
    return m, flag, res_v, mem.get(B, len(case.mem0))


def model(f, state, args, n):
    """(flag, result, new state) of one atomic step on integer state."""
    if f.op == "ld":
        return 1, state, state
    if f.op == "st":
        return None, None, args[0]
    if f.op == "sw":
        return 1, state, args[0]
    if f.op == "fu":
        return (0, state, state) if state == args[0] else (1, state, state ^ args[1])
    if state == args[0]:
        return 1, state, args[1]
    return 0, state, state


class Session:
    def __init__(self, prog, rep, job, rng, accept, replay=None):
        self.prog, self.rep, self.job, self.rng, self.accept, self.replay = prog, rep, job, rng, accept, replay
        self.st = {}
        self.skip = {}
        self.seen = set()

    def stat(self, k, v=1):
        self.st[k] = self.st.get(k, 0) + v

    def bad(self, f, cls, text):
        if self.accept is not None and cls not in self.accept:
            with self.rep.lock:
                self.rep.other[cls] = self.rep.other.get(cls, 0) + 1
            return
        if (f.name, cls) not in self.seen and len(self.seen) < 60:
            self.seen.add((f.name, cls))
            self.rep.violation(self.job, cls, f"{f.name}: {text}", self.replay)

    def value(self, n):
        r = self.rng
        k = r.randrange(8)
        if k == 0:
            return 0
        if k == 1:
            return mask(8 * n)
        if k == 2:
            return 1 << r.randrange(8 * n)
        if k == 3:
            return mask(8 * n) ^ 1 << r.randrange(8 * n)
        if k == 4:
            b = r.getrandbits(8)
            return int.from_bytes(bytes([b]) * n, "big")
        return r.getrandbits(8 * n)

    def case(self, f, kind=None):
        """kind for compare-exchange: equal, one bit different, or unrelated."""
        n = f.size(self.prog.isa.usize)
        c = Case(self.prog.isa, n, self.rng)
        r = self.rng
        E = "big" if self.prog.isa.big else "little"
        v = self.value(n)
        c.mem0[c.off:c.off + n] = v.to_bytes(n, E)
        if f.op in ("st", "sw"):
            c.args = [self.value(n)]
        elif f.op == "fu":
            c.args = [v if kind == "other" or r.randrange(4) == 0 else self.value(n), self.value(n)]
        elif f.op == "zc":
            c.args = [v if kind == "eq" else v ^ 1, self.value(n)]
        elif f.op[0] == "z":
            c.args = [self.value(n), 0]
        elif f.op in ("cx", "cw"):
            kind = kind or r.choice(["eq", "eq", "bit", "other", "same"])
            exp = v if kind in ("eq", "same") else v ^ 1 << r.randrange(8 * n) if kind == "bit" else self.value(n)
            c.args = [exp, v if kind == "same" else self.value(n)]
        return c

    def guard(self, f, g):
        """Run g; violations are recorded, unsupported instructions make it inconclusive."""
        try:
            return g()
        except Bad as e:
            self.bad(f, e.args[0], e.args[1])
        except Unsupported as e:
            self.skip[f.name] = str(e)
        return None

    def state(self, c, memory):
        E = "big" if self.prog.isa.big else "little"
        return int.from_bytes(memory[c.off:c.off + c.n], E)

    # --- alone
    def solo(self, f, reps):
        for k in range(reps):
            c = self.case(f)

            def g(c=c):
                return execute(self.prog, f, c, self.rng, spurious=0)
            x = self.guard(f, g)
            if x is None:
                return
            m, flag, res, memory = x
            self.stat("emulated_calls")
            self.stat("emulated_instructions", m.steps)
            if self.prog.contracts:
                self.stat("monitored_blocks", getattr(m, "blocks", 0))
            self.st["max_emulated_steps"] = max(self.st.get("max_emulated_steps", 0), m.steps)
            s0 = self.state(c, c.mem0)
            ef, er, es = model(f, s0, c.args, c.n)
            self.outcome(f, c, m, flag, res, memory, [(ef, er, es)], {}, "alone")
            if f.op == "fu" and m.calls != 1:
                self.bad(f, "fetch_update-closure", f"without interference the closure is called {m.calls} times")
            if f.op == "ld":
                self.stat("emulated_loads")
                if m.writes and c.n <= self.prog.isa.usize:
                    self.bad(f, "load-writes", f"the load writes to memory ({m.events})")
            if m.reads + m.writes == 0:
                self.bad(f, "no-access", "the operation does not access the location")
            if m.reads > (8 if f.op == "fu" else 4) or m.writes > 2:
                # repeated without need
                self.bad(f, "unbounded", f"without interference: {m.reads} reads, {m.writes} writes")

    def outcome(self, f, c, m, flag, res, memory, allowed, neighbours, how):
        """allowed: (flag, result, final state) triples; neighbours: offset -> byte expected."""
        s1 = self.state(c, memory)
        ok = any((a is None or a == flag) and (b is None or b == res) and s == s1 for a, b, s in allowed)
        if not ok:
            cls = "not-atomic" if how != "alone" else "fetch_update-result" if f.op == "fu" else "wrong-result"
            self.bad(f, cls, f"{how}: object {self.state(c, c.mem0):#x}, arguments {[hex(a) for a in c.args]}: flag {flag}, result {res if res is None else hex(res)}, object afterwards {s1:#x}; possible: {[(a, b if b is None else hex(b), hex(s)) for a, b, s in allowed][:4]}")
        for i, (x, y) in enumerate(zip(c.mem0, memory)):
            if c.off <= i < c.off + c.n:
                continue
            if y != neighbours.get(i, x):
                self.bad(f, "neighbour-modified", f"{how}: byte at offset {i - c.off} from the object is {y:#x}, not {neighbours.get(i, x):#x}")
                break

    # --- uninitialized bytes
    def uninit(self, f, reps):
        """The same call twice, differing only in the contents of bytes that count as uninitialized: the
        initialized bytes of the results, the instructions executed and the addresses accessed must agree."""
        n, E = f.size(self.prog.isa.usize), "big" if self.prog.isa.big else "little"
        r = self.rng
        junk = lambda v, u: int.from_bytes(bytes(r.getrandbits(8) if u >> i & 1 else b for i, b in enumerate(v.to_bytes(n, E))), E)
        for k in range(reps):
            # compare_exchange: equal everywhere, or different in an initialized byte
            kind = ("eq", "diff")[k % 2] if f.op in ("cx", "cw") else None
            un = mask(n) if kind != "diff" and r.randrange(4) == 0 else r.randrange(1, 1 << n)
            un &= ~(1 << r.randrange(n)) if kind == "diff" else -1
            if not un:
                continue
            c = self.case(f, "eq" if kind else None)
            un2 = r.randrange(1 << n)
            got = []
            s = r.getrandbits(32)
            base = self.state(c, c.mem0)
            args = list(c.args)
            if kind == "diff":
                p = r.choice([i for i in range(n) if not un >> i & 1])
                b = bytearray(base.to_bytes(n, E))
                b[p] ^= 1 << r.randrange(8)
                args[0] = int.from_bytes(b, E)
            for run in range(2):
                v = junk(base, un)
                c.mem0[c.off:c.off + n] = v.to_bytes(n, E)
                if f.op in ("st", "sw"):
                    c.args = [junk(args[0], un2)]
                elif kind:
                    c.args = [v if kind == "eq" else junk(args[0], un), junk(args[1], un2)]
                path = []
                x = self.guard(f, lambda: execute(self.prog, f, c, random.Random(s), path=path))
                if x is None:
                    return
                m, flag, res, memory = x
                keep = lambda v, u: None if v is None else bytes(0 if u >> i & 1 else b for i, b in enumerate(v.to_bytes(n, E)))
                new = un2 if f.op in ("st", "sw") or kind == "eq" else un
                got.append((path if kind != "diff" else None, flag if f.op != "st" else None, keep(res, un), keep(self.state(c, memory), new)))
            self.stat("emulated_uninit_pairs")
            self.stat("uninitialized_bytes", bin(un).count("1") + bin(un2).count("1"))
            a, b = got
            for i, what in enumerate(("the instructions executed or the addresses accessed", "the flag returned", "an initialized byte of the result", "an initialized byte of the object")):
                if a[i] != b[i]:
                    self.bad(f, "acts-on-uninitialized", f"{what} depends on the contents of uninitialized bytes (object mask {un:#x}, argument mask {un2:#x})")
                    break

    # --- with other agents
    def inject(self, f, reps, pairs):
        for k in range(reps):
            c = self.case(f, self.rng.choice(["eq", "eq", "bit", "other"]))
            x = self.guard(f, lambda: execute(self.prog, f, c, self.rng))
            if x is None:
                return
            pts = x[0].points
            self.st["max_injection_points"] = max(self.st.get("max_injection_points", 0), pts)
            plans = [(p,) for p in range(pts)]
            for _ in range(pairs):
                plans.append(tuple(sorted(self.rng.randrange(pts + 2) for _ in range(self.rng.choice([2, 2, 3])))))
            for plan in plans:
                for mode in ("object", "aba", "neighbour") if len(plan) == 1 else ("mixed",):
                    self.one(f, c, plan, mode)
        if self.prog.isa.llsc:
            for s in (1, 2, 5, 17):
                c = self.case(f, "eq")
                x = self.guard(f, lambda: execute(self.prog, f, c, self.rng, spurious=s))
                if x is None:
                    return
                m, flag, res, memory = x
                allowed = [model(f, self.state(c, c.mem0), c.args, c.n)]
                if f.op == "cw":
                    allowed.append((0, self.state(c, c.mem0), self.state(c, c.mem0)))
                self.outcome(f, c, m, flag, res, memory, allowed, {}, f"after {s} spurious store-conditional failures")
                if f.op == "fu":
                    self.closure(f, m, 0, m.sc_fail)
                self.stat("spurious_failures", m.sc_fail)

    def one(self, f, c, points, mode):
        r, n, isa = self.rng, c.n, self.prog.isa
        E = "big" if isa.big else "little"
        state0 = self.state(c, c.mem0)
        acts, neigh, history = {}, {}, [state0]
        done = []
        g = max(isa.granule, n)
        lo = c.off // g * g
        others = [i for i in range(lo, lo + g) if not c.off <= i < c.off + n]

        def mk(kind):
            def act(m):
                if kind == "neighbour" and others:
                    i = r.choice(others)
                    b = r.getrandbits(8)
                    neigh[i] = b
                    m.foreign(isa.base + i, bytes([b]))
                elif kind == "aba":
                    cur = m.mem.get(isa.base + c.off, n)
                    m.foreign(isa.base + c.off, cur)
                    history.append(int.from_bytes(cur, E))
                else:
                    # an unrelated value, the expected or new value, a bit flip
                    cur = int.from_bytes(m.mem.get(isa.base + c.off, n), E)
                    v = r.choice([self.value(n), cur ^ 1 << r.randrange(8 * n), *(c.args or [0]), state0])
                    m.foreign(isa.base + c.off, v.to_bytes(n, E))
                    history.append(v)
                done.append(kind)
            return act
        for p in points:
            kind = mode if mode != "mixed" else r.choice(["object", "object", "neighbour", "aba"])
            prev = acts.get(p)
            a = mk(kind)
            acts[p] = a if prev is None else (lambda m, a=a, b=prev: (b(m), a(m)))
        x = self.guard(f, lambda: execute(self.prog, f, c, r, plan=acts))
        if x is None:
            return
        m, flag, res, memory = x
        self.stat("emulated_interleavings")
        self.stat("emulated_actions", len(done))
        # any position among the foreign writes
        allowed = []
        for i, s in enumerate(history):
            ef, er, es = model(f, s, c.args, c.n)
            final = history[-1] if i < len(history) - 1 else es
            allowed.append((ef, er, final))
            if f.op == "cw" and self.prog.isa.llsc and s == c.args[0]:
                allowed.append((0, s, history[-1]))
        if f.op == "fu":
            # a change of the same word may make a store-conditional fail
            self.closure(f, m, len(done), m.sc_fail)
        self.outcome(f, c, m, flag, res, memory, allowed, neigh, f"with {'+'.join(done) or 'no'} changes by another agent at points {points}")

    def closure(self, f, m, changes, spurious):
        self.stat("emulated_fetch_updates")
        if m.calls > 1:
            self.stat("emulated_repeated_closure_calls", m.calls - 1)
        if not 1 <= m.calls <= 1 + changes + spurious:
            self.bad(f, "fetch_update-closure", f"the closure is called {m.calls} times although the location was touched {changes} times and {spurious} store-conditionals failed")

    # --- orderings
    def trace(self, f, kind=None):
        c = self.case(f, kind)
        x = self.guard(f, lambda: execute(self.prog, f, c, self.rng))
        if x is None:
            return None
        return x[0].events, x[1]

    def order(self, f, sc):
        isa = self.prog.isa
        if isa.single_core or isa.in_order:
            return
        for kind in (None,) if f.op not in ("cx", "cw") else ("eq", "bit"):
            t = self.trace(f, kind)
            if t is None:
                return
            evs, flag = t
            ok = f.op not in ("cx", "cw") or kind == "eq"
            o = f.success() if ok else f.failure()
            rs = [i for i, e in enumerate(evs) if e.k == "R"]
            ws = [i for i, e in enumerate(evs) if e.k == "W"]
            self.stat("orderings_traced")
            if f.op != "st" and not rs or f.op in ("st", "sw") and not ws:
                self.bad(f, "no-access", f"{evs}")
                continue
            if "a" in o and f.op != "st":
                for k in "RW":
                    if not ordered_t(evs + [Ev(k)], rs[-1], len(evs), isa):
                        self.bad(f, "acquire-not-ordered", f"{'failed ' if not ok else ''}a later {'read' if k == 'R' else 'write'} may take effect before the acquire read: {evs}")
                        break
                else:
                    self.stat("emulated_acquisitions")
            if "r" in o and ws and f.op != "ld" and ok:
                for k in "RW":
                    if not ordered_t([Ev(k)] + evs, 0, ws[-1] + 1, isa):
                        self.bad(f, "release-not-ordered", f"an earlier {'read' if k == 'R' else 'write'} may take effect after the release write: {evs}")
                        break
                else:
                    self.stat("emulated_publications")
            if "s" in o:
                key = str(evs)
                sc.setdefault((f.op, ok, f.size(isa.usize), key), (f, evs))

    def std(self, sc):
        """The standard library's SeqCst operations take part in the same total order."""
        isa = self.prog.isa
        if isa.single_core or isa.in_order:
            return
        mine = {}
        for f in self.prog.std:
            for kind in ("eq", "bit") if f.op == "zc" else (None,):
                try:
                    evs = execute(self.prog, f, self.case(f, kind), self.rng)[0].events
                except (Bad, Unsupported):
                    # not inlined on this target
                    continue
                mine[f.op, kind, str(evs)] = f, evs
        # judged by these rules, the compiler's own code must be sequentially consistent
        for kind in (None, "bit", "eq", "load"):
            for k in [k for k in mine if kind == "load" and k[0] == "zl" or kind is not None and k[1] == kind]:
                del mine[k]
                self.stat("std_operations_not_understood")
            if not any(self.unordered(a, b) for _, a in mine.values() for _, b in mine.values()):
                break
        self.stat("std_operations_traced", len(mine))
        sc.update(mine)

    def unordered(self, a, b):
        """Accesses of two successive SeqCst operations that may take effect in the other order."""
        for i, e in enumerate(a):
            if e.k not in "RW" or self.stale(a, i):
                continue
            for j, g in enumerate(b):
                if g.k not in "RW" or self.stale(b, j):
                    continue
                if not ordered_t(a + b, i, len(a) + j, self.prog.isa, strong=True):
                    return e, g
        return None

    def pairs(self, sc):
        items = list(sc.values())
        for fa, a in items:
            for fb, b in items:
                if fa.op[0] == "z" and fb.op[0] == "z":
                    continue
                self.stat("seqcst_pairs_emulated")
                x = self.unordered(a, b)
                if x:
                    self.bad(fa if fa.op[0] != "z" else fb, "seqcst-reordered", f"{fa.name} ({a}) then {fb.name} ({b}) on another location: {x[0]} may take effect after {x[1]}")

    def stale(self, evs, i):
        """Reads whose value was not used: an earlier attempt of a loop."""
        return evs[i].k == "R" and any(e.k == "R" for e in evs[i + 1:])

    def finish(self):
        for k, v in self.st.items():
            self.rep.stat(k, v, self.job)
        if self.skip:
            k = next(iter(self.skip))
            self.rep.unsure(self.job, f"{len(self.skip)} functions use instructions the emulator does not know, e.g. {k}: {self.skip[k]}")
