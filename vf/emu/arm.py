"""32-bit Arm (A32 and T32/T16), including the Linux kernel user helpers."""
from .isa import *
from .aarch64 import CC, add_flags

ALIAS = {"fp": "r11", "ip": "r12", "sp": "r13", "lr": "r14", "pc": "r15", "sb": "r9", "sl": "r10"}
BASES = {"mov", "mvn", "add", "adc", "sub", "sbc", "rsb", "rsc", "and", "orr", "orn", "eor", "bic", "lsl", "lsr", "asr", "ror", "cmp", "cmn", "tst", "teq", "mul",
         "b", "bx", "blx", "bl", "push", "pop", "ldm", "stm", "ldr", "str", "ldrb", "strb", "ldrh", "strh", "ldrsb", "ldrsh", "ldrd", "strd", "ldmib", "stmib", "ldmdb", "stmdb",
         "uxtb", "uxth", "sxtb", "sxth", "movw", "movt", "clz", "rbit", "bfi", "bfc", "ubfx", "sbfx", "rev", "rev16", "revsh", "rrx", "nop",
         "uxtab", "uxtah", "sxtab", "sxtah", "addw", "subw", "mla", "mls", "umull", "smull", "cbz", "cbnz"}
KUSER = {0xFFFF0FC0: "cmpxchg", 0xFFFF0FA0: "barrier", 0xFFFF0F60: "cmpxchg64"}


class Arm(Isa):
    name = "arm"
    allregs = [f"r{i}" for i in range(15)]
    args, ret, sp, link = ("r0", "r1", "r2"), "r0", "r13", "r14"
    saved = tuple(f"r{i}" for i in range(4, 12)) + ("r13",)
    word = usize = 4
    granule = 8
    res_granule = 64
    single_copy = 4
    strict_align = True
    base = 0x9ABC_0000
    amask = mask(32)
    stop = 0x7FFF_0000

    def __init__(self, big=False, thumb=False, v8=False, kuser=False, darwin=False):
        self.darwin = darwin
        if darwin:
            self.saved = tuple(r for r in self.saved if r != "r9")
        self.big, self.thumb, self.v8, self.kuser = big, thumb, v8, kuser
        self.non_mca = not v8
        self.min_atomic = 4 if kuser else 1
        self.lits = {}

    thumb1 = False

    @property
    def pools(self):
        return {"r": [f"r{i}" for i in range(6)] if self.thumb1 else [f"r{i}" for i in ((0, 1, 2, 3, 4, 5, 8, 10, 12) if self.thumb else (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12))] + ["lr"]}

    def regname(self, s):
        return ALIAS.get(s, s)

    def flags_random(self, m, rng):
        m.rng = rng
        for f in "nzcv":
            m.fl[f] = bool(rng.getrandbits(1))

    def load(self, prog, obj):
        prog.extra = [(0xFFFF0FFC, (5).to_bytes(4, "big" if self.big else "little"), "kuser version")] if self.kuser else []

    def dump_args(self):
        return ["--mcpu=cortex-a7"] if self.darwin else []

    def literals(self, f):
        self.lits = {}
        for a, t, r in f.lines:
            k = re.search(r"\.word\s+(0x[0-9a-f]+)", t)
            if k:
                self.lits[a] = int(k[1], 16)

    def helpers(self):
        return {a: getattr(self, "k_" + n) for a, n in KUSER.items()} if self.kuser else {}

    def trash(self, m, *regs):
        for r in regs:
            m.r[r] = m.rng.getrandbits(32)
        for f in "nzv":
            m.fl[f] = bool(m.rng.getrandbits(1))

    def k_barrier(self, m):
        m.fence()
        return m.r["r14"] & ~1

    def k_cmpxchg(self, m):
        a, old, new = m.r["r2"], m.r["r0"], m.r["r1"]
        m.fence()
        fail = m.spurious > 0
        m.spurious -= fail
        m.sc_tries += 1
        got = m.rmw(a, 4, lambda v: new if v == old and not fail else None)
        m.fence()
        ok = got == old and not fail
        m.sc_fail += not ok
        ret = m.r["r14"] & ~1
        self.trash(m, "r3", "r12")
        m.r["r0"] = 0 if ok else m.rng.getrandbits(32) | 1
        m.fl["c"] = ok
        return ret

    def k_cmpxchg64(self, m):
        a = m.r["r2"]
        old, new = m.ld(m.r["r0"], 8), m.ld(m.r["r1"], 8)
        m.fence()
        fail = m.spurious > 0
        m.spurious -= fail
        m.sc_tries += 1
        got = m.rmw(a, 8, lambda v: new if v == old and not fail else None)
        m.fence()
        ok = got == old and not fail
        m.sc_fail += not ok
        ret = m.r["r14"] & ~1
        self.trash(m, "r3", "r14")
        m.r["r0"] = 0 if ok else m.rng.getrandbits(32) | 1
        m.fl["c"] = ok
        return ret

    def rn(self, s):
        s = ALIAS.get(s, s)
        if not re.fullmatch(r"r(\d|1[0-5])", s):
            raise KeyError(s)
        return s

    def src(self, s, addr):
        if s.startswith("#"):
            v = num(s) & mask(32)
            return lambda m: v
        r = self.rn(s)
        if r == "r15":
            v = addr + (4 if self.thumb else 8)
            return lambda m: v
        return lambda m: m.r[r]

    def dst(self, s):
        r = self.rn(s)
        if r == "r15":
            raise KeyError("pc as a destination")

        def f(m, v):
            m.r[r] = v & mask(32)
        return f

    def op2(self, ops, addr):
        """(value, carry or None)"""
        f = self.src(ops[0], addr)
        if len(ops) == 1:
            return lambda m: (f(m), None)
        w = ops[1].split()
        kind = w[0]
        a = self.src(w[1], addr) if len(w) > 1 else lambda m: 0
        return lambda m: self.shift(kind, f(m), a(m) & 255, m)

    def shift(self, kind, v, k, m):
        if k == 0 and kind != "rrx":
            return v, None
        if kind == "lsl":
            return (v << k) & mask(32), bool(v << k >> 32 & 1)
        if kind == "lsr":
            return v >> k, bool(v >> (k - 1) & 1)
        if kind == "asr":
            s = sx(v, 32)
            return (s >> min(k, 31)) & mask(32), bool(s >> min(k - 1, 31) & 1)
        if kind == "rrx":
            return v >> 1 | int(m.fl["c"]) << 31, bool(v & 1)
        if kind == "ror":
            k %= 32
            r = (v >> k | v << (32 - k)) & mask(32)
            return r, bool(r >> 31)
        raise KeyError(kind)

    def mem(self, ops, addr):
        s = ops[0]
        parts = operands(s.rstrip("!")[1:-1])
        bn = self.rn(parts[0])
        if bn == "r15":
            k = num(parts[1]) if len(parts) > 1 else 0
            v = ((addr + 4) & ~3 if self.thumb else addr + 8) + k
            return lambda m: v
        if len(ops) > 1:
            o = self.op2(ops[1:], addr)

            def f(m):
                a = m.r[bn]
                m.r[bn] = (a + o(m)[0]) & mask(32)
                return a
            return f
        o = self.op2(parts[1:], addr) if len(parts) > 1 else lambda m: (0, None)
        wb = s.endswith("!")

        def f(m):
            a = (m.r[bn] + o(m)[0]) & mask(32)
            if wb:
                m.r[bn] = a
            return a
        return f

    def split(self, mn):
        """(base, sets flags, condition)"""
        if mn.endswith((".w", ".n")):
            mn = mn[:-2]
        if mn in BASES:
            return mn, False, None
        for cut in (2, 0):
            cc = mn[-2:] if cut else None
            if cut and cc not in CC:
                continue
            b = mn[:len(mn) - cut]
            if b in BASES:
                return b, False, cc
            if b.endswith("s") and b[:-1] in BASES and b[:-1] not in ("b", "bx", "bl", "blx"):
                return b[:-1], True, cc
        return None, False, None

    def ins(self, mn, o, addr, nxt, relocs, rest):
        U32 = mask(32)

        def seq(f, cc=None):
            c = CC[cc] if cc else None

            def g(m):
                if c is None or c(m.fl):
                    f(m)
                return nxt
            return g
        if re.fullmatch(r"it[te]{0,3}", mn):
            return lambda m: nxt
        if mn == "dmb":
            k = o[0] if o else "sy"
            if k in ("sy", "ish", "nsh", "osh"):
                return seq(lambda m: m.fence())
            if k.endswith("st"):
                return seq(lambda m: m.fence("w", "w"))
            if k.endswith("ld"):
                return seq(lambda m: m.fence("r", "rw"))
            return None
        if mn == "mcr":
            # CP15 data memory barrier
            if (o[0], num(o[1]), o[3], o[4], num(o[5])) == ("p15", 0, "c7", "c10", 5):
                return seq(lambda m: m.fence())
            return None
        if mn == "clrex":
            return seq(lambda m: m.clrex())
        k = re.fullmatch(r"(ldrex|strex|ldaex|stlex)([bhd]?)(\w\w)?", mn)
        if k and (not k[3] or k[3] in CC):
            n = {"b": 1, "h": 2, "": 4, "d": 8}[k[2]]
            x = k[1][2] == "a" or k[1][2] == "l"
            if k[1].startswith("ld"):
                a = self.mem(o[-1:], addr)
                if n == 8:
                    lo, hi = (self.dst(o[1]), self.dst(o[0])) if self.big else (self.dst(o[0]), self.dst(o[1]))

                    def f(m):
                        v = m.ll(a(m), 8, acq=x, sc=x)
                        lo(m, v), hi(m, v >> 32)
                    return seq(f, k[3])
                d = self.dst(o[0])
                return seq(lambda m: d(m, m.ll(a(m), n, acq=x, sc=x)), k[3])
            a, d = self.mem(o[-1:], addr), self.dst(o[0])
            rs = [self.rn(q) for q in o[1:-1]] + [self.rn(operands(o[-1][1:-1])[0])]
            if self.rn(o[0]) in rs:
                raise ValueError("status register overlaps an operand")
            if n == 8:
                lo, hi = (self.src(o[2], addr), self.src(o[1], addr)) if self.big else (self.src(o[1], addr), self.src(o[2], addr))
                return seq(lambda m: d(m, int(not m.sc(a(m), 8, hi(m) << 32 | lo(m), rel=x, sc=x))), k[3])
            s = self.src(o[1], addr)
            return seq(lambda m: d(m, int(not m.sc(a(m), n, s(m), rel=x, sc=x))), k[3])
        k = re.fullmatch(r"(lda|stl)([bh]?)", mn)
        if k:
            n = {"b": 1, "h": 2, "": 4}[k[2]]
            a = self.mem(o[1:], addr)
            if k[1] == "lda":
                d = self.dst(o[0])
                return seq(lambda m: d(m, m.ld(a(m), n, acq=True, sc=True)))
            s = self.src(o[0], addr)
            return seq(lambda m: m.st(a(m), n, s(m), rel=True, sc=True))
        b, fl, cc = self.split(mn)
        if b is None:
            return None
        if b == "nop":
            return lambda m: nxt
        if b == "b":
            t, c = num(o[0]), CC[cc or "al"]
            return lambda m: t if c(m.fl) else nxt
        if b == "bx":
            r, c = self.src(o[0], addr), CC[cc or "al"]
            return lambda m: r(m) & ~1 if c(m.fl) else nxt
        if b == "blx":
            if o[0].startswith(("0x", "#")) or o[0][0].isdigit():
                return None
            r = self.rn(o[0])

            def f(m):
                t = m.r[r]
                m.r["r14"] = nxt | self.thumb
                return t & ~1
            return f if not cc else None
        if b in ("push", "pop", "ldm", "stm", "ldmdb", "stmdb", "ldmib", "stmib"):
            if b == "push":
                b, base, wb, lst = "stmdb", "r13", True, o[0]
            elif b == "pop":
                b, base, wb, lst = "ldm", "r13", True, o[0]
            else:
                base, wb, lst = self.rn(o[0].rstrip("!")), o[0].endswith("!"), o[1]
            rs = []
            for x in operands(lst.strip("{}")):
                if "-" in x:
                    lo, hi = (int(self.rn(y)[1:]) for y in x.split("-"))
                    rs += [f"r{i}" for i in range(lo, hi + 1)]
                else:
                    rs.append(self.rn(x))
            rs.sort(key=lambda r: int(r[1:]))
            c = CC[cc or "al"]

            def f(m):
                if not c(m.fl):
                    return nxt
                s = m.r[base]
                start = s - 4 * len(rs) if b.endswith("db") else s + 4 if b.endswith("ib") else s
                pc = nxt
                end = s - 4 * len(rs) if b.endswith("db") else s + 4 * len(rs)
                if b.startswith("st"):
                    for i, r in enumerate(rs):
                        m.st(start + 4 * i, 4, m.r[r])
                    if wb:
                        m.r[base] = end & U32
                else:
                    if wb:
                        m.r[base] = end & U32
                    for i, r in enumerate(rs):
                        v = m.ld(start + 4 * i, 4)
                        if r == "r15":
                            pc = v & ~1
                        else:
                            m.r[r] = v
                return pc
            return f
        LD = {"ldr": (4, 0), "ldrb": (1, 0), "ldrh": (2, 0), "ldrsb": (1, 1), "ldrsh": (2, 1)}
        if b in LD:
            n, sg = LD[b]
            d, a = self.dst(o[0]), self.mem(o[1:], addr)
            lits = self.lits
            if re.match(r"\[pc", o[1]):
                v = lits[a(None)]
                return seq(lambda m: d(m, v), cc)
            return seq(lambda m: d(m, sx(m.ld(a(m), n), 8 * n) if sg else m.ld(a(m), n)), cc)
        ST = {"str": 4, "strb": 1, "strh": 2}
        if b in ST:
            n, s, a = ST[b], self.src(o[0], addr), self.mem(o[1:], addr)
            return seq(lambda m: m.st(a(m), n, s(m)), cc)
        if b in ("ldrd", "strd"):
            a = self.mem(o[2:], addr)
            if b == "ldrd":
                d0, d1 = self.dst(o[0]), self.dst(o[1])

                def f(m):
                    x = a(m)
                    v, w = m.ld(x, 4), m.ld(x + 4, 4)
                    d0(m, v), d1(m, w)
                return seq(f, cc)
            s0, s1 = self.src(o[0], addr), self.src(o[1], addr)

            def f(m):
                x = a(m)
                m.st(x, 4, s0(m)), m.st(x + 4, 4, s1(m))
            return seq(f, cc)

        def nz(m, r):
            m.fl["n"], m.fl["z"] = bool(r >> 31 & 1), r & U32 == 0
        if b in ("cmp", "cmn", "tst", "teq"):
            x, y = self.src(o[0], addr), self.op2(o[1:], addr)

            def f(m):
                p, (q, c) = x(m), y(m)
                if b == "cmp":
                    add_flags(m.fl, p, q ^ U32, 1, 32)
                elif b == "cmn":
                    add_flags(m.fl, p, q, 0, 32)
                else:
                    nz(m, p & q if b == "tst" else p ^ q)
                    if c is not None:
                        m.fl["c"] = c
            return seq(f, cc)
        if b in ("mov", "mvn", "movw"):
            d, y = self.dst(o[0]), self.op2(o[1:], addr)

            def f(m):
                v, c = y(m)
                v = v ^ U32 if b == "mvn" else v
                d(m, v)
                if fl:
                    nz(m, v)
                    if c is not None:
                        m.fl["c"] = c
            return seq(f, cc)
        if b == "movt":
            d, s, k = self.dst(o[0]), self.src(o[0], addr), num(o[1])
            return seq(lambda m: d(m, s(m) & 0xFFFF | k << 16), cc)
        if b in ("lsl", "lsr", "asr", "ror"):
            d = self.dst(o[0])
            if len(o) == 2:
                o = [o[0], o[0], o[1]]
            x, y = self.src(o[1], addr), self.src(o[2], addr)

            def f(m):
                v, c = self.shift(b, x(m), y(m) & 255, m)
                d(m, v)
                if fl:
                    nz(m, v)
                    if c is not None:
                        m.fl["c"] = c
            return seq(f, cc)
        if b in ("uxtb", "uxth", "sxtb", "sxth"):
            d, x, n = self.dst(o[0]), self.op2(o[1:], addr), 8 if b[-1] == "b" else 16
            return seq(lambda m: d(m, x(m)[0] & mask(n) if b[0] == "u" else sx(x(m)[0], n)), cc)
        if b in ("uxtab", "uxtah", "sxtab", "sxtah"):
            d, a, x, n = self.dst(o[0]), self.src(o[1], addr), self.op2(o[2:], addr), 8 if b[-1] == "b" else 16
            return seq(lambda m: d(m, a(m) + (x(m)[0] & mask(n) if b[0] == "u" else sx(x(m)[0], n))), cc)
        UN = {"clz": lambda v: 32 - v.bit_length(), "rbit": lambda v: int(f"{v:032b}"[::-1], 2), "rev": lambda v: int.from_bytes(v.to_bytes(4, "big"), "little"),
              "rev16": lambda v: (v & 0xFF00FF) << 8 | v >> 8 & 0xFF00FF, "revsh": lambda v: sx((v & 255) << 8 | v >> 8 & 255, 16)}
        if b in UN:
            d, x, u = self.dst(o[0]), self.src(o[1], addr), UN[b]
            return seq(lambda m: d(m, u(x(m))), cc)
        if b in ("ubfx", "sbfx"):
            d, x, lo, w = self.dst(o[0]), self.src(o[1], addr), num(o[2]), num(o[3])
            return seq(lambda m: d(m, x(m) >> lo & mask(w) if b == "ubfx" else sx(x(m) >> lo, w)), cc)
        if b in ("bfi", "bfc"):
            d, me = self.dst(o[0]), self.src(o[0], addr)
            x, lo, w = (self.src(o[1], addr), num(o[2]), num(o[3])) if b == "bfi" else (lambda m: 0, num(o[1]), num(o[2]))
            return seq(lambda m: d(m, me(m) & ~(mask(w) << lo) | (x(m) & mask(w)) << lo), cc)
        if b == "rrx":
            d, x = self.dst(o[0]), self.src(o[1], addr)

            def f(m):
                v, c = self.shift("rrx", x(m), 1, m)
                d(m, v)
                if fl:
                    nz(m, v)
                    m.fl["c"] = c
            return seq(f, cc)
        if b in ("cbz", "cbnz"):
            x, t = self.src(o[0], addr), num(o[1])
            return lambda m: t if (x(m) == 0) == (b == "cbz") else nxt
        if b in ("mla", "mls") and not fl:
            d, x, y, z = self.dst(o[0]), self.src(o[1], addr), self.src(o[2], addr), self.src(o[3], addr)
            return seq(lambda m: d(m, z(m) + x(m) * y(m) if b == "mla" else z(m) - x(m) * y(m)), cc)
        if b in ("umull", "smull") and not fl:
            lo, hi, x, y = self.dst(o[0]), self.dst(o[1]), self.src(o[2], addr), self.src(o[3], addr)

            def f(m):
                p = x(m) * y(m) if b == "umull" else sx(x(m), 32) * sx(y(m), 32)
                lo(m, p), hi(m, p >> 32)
            return seq(f, cc)
        b = {"addw": "add", "subw": "sub"}.get(b, b)
        if b in ("add", "adc", "sub", "sbc", "rsb", "rsc", "and", "orr", "orn", "eor", "bic", "mul"):
            if len(o) == 2 or (len(o) == 3 and re.match(r"(lsl|lsr|asr|ror) ", o[2])):
                o = [o[0]] + o
            d, x, y = self.dst(o[0]), self.src(o[1], addr), self.op2(o[2:], addr)

            def f(m):
                p, (q, c) = x(m), y(m)
                t = dict(m.fl)
                if b == "add":
                    r = add_flags(t, p, q, 0, 32)
                elif b == "adc":
                    r = add_flags(t, p, q, int(m.fl["c"]), 32)
                elif b == "sub":
                    r = add_flags(t, p, q ^ U32, 1, 32)
                elif b == "sbc":
                    r = add_flags(t, p, q ^ U32, int(m.fl["c"]), 32)
                elif b == "rsb":
                    r = add_flags(t, q, p ^ U32, 1, 32)
                elif b == "rsc":
                    r = add_flags(t, q, p ^ U32, int(m.fl["c"]), 32)
                else:
                    r = {"and": p & q, "orr": p | q, "orn": p | q ^ U32, "eor": p ^ q, "bic": p & (q ^ U32), "mul": p * q & U32}[b]
                    t["n"], t["z"] = bool(r >> 31), r == 0
                    if c is not None:
                        t["c"] = c
                d(m, r)
                if fl:
                    m.fl.update(t)
            return seq(f, cc)
        return None
