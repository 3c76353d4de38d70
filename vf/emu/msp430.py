"""MSP430 (single core: atomicity comes from disabled interrupts)."""
from .isa import *


class IrqMachine(Machine):
    """Interrupts may still be taken during the instruction after the one that disables them."""
    late = True
    off_at = None
    _irq = True

    @property
    def irq(self):
        return self._irq or (self.late and self.off_at is not None and self.steps <= self.off_at + 1)

    @irq.setter
    def irq(self, v):
        if self._irq and not v:
            # an interrupt may come just before
            self.point()
            self.off_at = self.steps
        self._irq = v
        if v:
            # and a pending one just after
            self.flush()


class OneCore(Isa):
    single_core = True
    llsc = False
    amask = mask(16)
    base = 0x4000
    stop = 0x7FF0
    word = usize = single_copy = 2
    granule = 4
    delayed_disable = False

    def machine(self, mem, obj, n):
        m = IrqMachine(self, mem, obj, n)
        m.late = self.delayed_disable
        return m

    def enter(self, m, rng, sp, args, stop):
        super().enter(m, rng, sp, args, stop)
        m._irq = m.irq0 = rng.random() < 0.7

    def leave(self, m):
        for r, v in m.before.items():
            if r != self.sp and m.r[r] != v:
                raise Bad("machine-state", f"{r} is {m.r[r]:#x} after the operation, was {v:#x}")
        if m.r[self.sp] != m.before[self.sp] + self.frame:
            raise Bad("machine-state", "the stack pointer is not as before")
        if m._irq != m.irq0:
            raise Bad("machine-state", f"interrupts were {'enabled' if m.irq0 else 'disabled'} before the operation and are {'enabled' if m._irq else 'disabled'} after it")


class Msp430(OneCore):
    name = "msp430"
    allregs = ["r1"] + [f"r{i}" for i in range(4, 16)]
    args, ret, sp = ("r12", "r13", "r14"), "r12", "r1"
    saved = ("r1",) + tuple(f"r{i}" for i in range(4, 11))
    frame = 2
    strict_align = True
    delayed_disable = True
    touches = r"[@(&]|int\b|\b(r2|sr|r1|sp)\b|push|pop"
    comments = False
    pools = {"r": [f"r{i}" for i in range(5, 16)]}

    def set_link(self, m, stop):
        m.mem.put(m.r["r1"], stop.to_bytes(2, "little"))

    def flags_random(self, m, rng):
        for f in "nzcv":
            m.fl[f] = rng.getrandbits(1)
        m.other = rng.getrandbits(4) << 4 & 0xD0

    def clobber(self, c):
        return ("cc",) if c in ("sr", "SR", "r2") else (c,)

    def sr(self, m):
        return m.fl["c"] | m.fl["z"] << 1 | m.fl["n"] << 2 | m._irq << 3 | m.other | m.fl["v"] << 8

    def rn(self, s):
        s = {"pc": "r0", "sp": "r1", "sr": "r2"}.get(s, s)
        if not re.fullmatch(r"r\d+", s) or int(s[1:]) > 15:
            raise KeyError(s)
        return s

    def src(self, s, n):
        """m -> value"""
        if s.startswith("#"):
            v = num(s) & mask(16)
            return lambda m: v & mask(8 * n)
        k = re.fullmatch(r"(-?\w+)\((\w+)\)", s)
        if k and k[2] not in ("r0", "r2", "pc", "sr"):
            o, r = num(k[1]), self.rn(k[2])
            return lambda m: m.ld(m.r[r] + o, n)
        if s.startswith("@"):
            r = self.rn(s[1:].rstrip("+"))

            def f(m):
                v = m.ld(m.r[r], n)
                if s.endswith("+"):
                    m.r[r] = m.r[r] + n & mask(16)
                return v
            return f
        r = self.rn(s)
        if r == "r2":
            return lambda m: self.sr(m) & mask(8 * n)
        if r == "r0":
            return None
        return lambda m: m.r[r] & mask(8 * n)

    def dst(self, s, n):
        k = re.fullmatch(r"(-?\w+)\((\w+)\)", s)
        if k and k[2] not in ("r0", "r2", "pc", "sr"):
            o, r = num(k[1]), self.rn(k[2])
            return lambda m, v: m.st(m.r[r] + o, n, v)
        r = self.rn(s)
        if r == "r2":
            def f(m, v):
                m.fl.update(c=v & 1, z=v >> 1 & 1, n=v >> 2 & 1, v=v >> 8 & 1)
                m.other = v & 0xD0
                m.irq = bool(v >> 3 & 1)
            return f
        if r == "r0":
            return None

        # byte results clear the upper byte
        def f(m, v):
            m.r[r] = v & mask(8 * n)
        return f

    def ins(self, mn, o, addr, nxt, relocs, rest):
        n = 1 if mn.endswith(".b") else 2
        mn = mn[:-2] if mn.endswith((".b", ".w")) else mn
        B = 8 * n

        def seq(f):
            def g(m):
                f(m)
                return nxt
            return g
        if mn == "nop":
            return lambda m: nxt
        if mn == "dint":
            def f(m):
                m.irq = False
            return seq(f)
        if mn == "eint":
            def f(m):
                m.irq = True
            return seq(f)
        if mn == "push":
            s = self.src(o[0], 2)

            def f(m):
                v = s(m)
                m.r["r1"] = m.r["r1"] - 2 & mask(16)
                m.st(m.r["r1"], 2, v)
            return seq(f)
        if mn in ("pop", "ret"):
            d = self.dst(o[0], 2) if o else None

            def f(m):
                v = m.ld(m.r["r1"], 2)
                m.r["r1"] = m.r["r1"] + 2 & mask(16)
                if d is None:
                    return v
                d(m, v)
                return nxt
            return f
        if mn == "mov":
            s, d = self.src(o[0], n), self.dst(o[1], n)
            return seq(lambda m: d(m, s(m))) if s and d else None
        if mn == "clr":
            d = self.dst(o[0], n)
            return seq(lambda m: d(m, 0))

        def nz(m, v):
            m.fl["n"], m.fl["z"] = v >> (B - 1) & 1, int(v == 0)
        if mn == "tst":
            s = self.src(o[0], n)

            def f(m):
                nz(m, s(m))
                m.fl["c"], m.fl["v"] = 1, 0
            return seq(f)
        if mn in ("clrc", "setc", "clrn", "setn", "clrz", "setz"):
            k, v = mn[3], int(mn[0] == "s")

            def f(m):
                m.fl[k] = v
            return seq(f)
        if mn in ("rra", "rrc", "swpb", "sxt"):
            s, d = self.src(o[0], n), self.dst(o[0], n)

            def f(m):
                x = s(m)
                if mn == "swpb":
                    d(m, x >> 8 | (x & 255) << 8)
                    return
                if mn == "sxt":
                    r = sx(x, 8) & mask(16)
                    m.fl["c"] = int(r != 0)
                else:
                    r = x >> 1 | (m.fl["c"] if mn == "rrc" else x >> (B - 1)) << (B - 1)
                    m.fl["c"] = x & 1
                m.fl["v"] = 0
                nz(m, r)
                d(m, r)
            return seq(f) if s and d else None
        if mn in ("rla", "rlc"):
            mn, o = {"rla": "add", "rlc": "addc"}[mn], [o[0], o[0]]
        K = {"inc": ("add", 1), "incd": ("add", 2), "dec": ("sub", 1), "decd": ("sub", 2), "inv": ("xor", mask(B)), "adc": ("addc", 0), "sbc": ("subc", 0)}
        if mn in K:
            mn, o = K[mn][0], [f"#{K[mn][1]}", o[0]]
        if mn in ("xor", "and", "bis", "bic", "bit", "add", "sub", "cmp", "addc", "subc"):
            a, b, d = self.src(o[0], n), self.src(o[1], n), self.dst(o[1], n) if mn not in ("bit", "cmp") else None

            def f(m):
                x, y = a(m), b(m)
                if mn == "xor":
                    r = x ^ y
                    nz(m, r)
                    m.fl["c"], m.fl["v"] = int(r != 0), x >> (B - 1) & y >> (B - 1) & 1
                elif mn in ("and", "bit"):
                    r = x & y
                    nz(m, r)
                    m.fl["c"], m.fl["v"] = int(r != 0), 0
                elif mn == "bis":
                    r = x | y
                elif mn == "bic":
                    r = y & ~x
                else:
                    x2 = x if mn[0] == "a" else ~x & mask(B)
                    c = m.fl["c"] if mn[-1] == "c" else int(mn[0] != "a")
                    r = y + x2 + c
                    m.fl["c"] = r >> B & 1
                    r &= mask(B)
                    m.fl["v"] = int(sx(r, B) != sx(y, B) + sx(x2, B) + c)
                    nz(m, r)
                if d:
                    d(m, r)
            return seq(f)
        J = {"jeq": lambda m: m.fl["z"], "jz": lambda m: m.fl["z"], "jne": lambda m: not m.fl["z"], "jnz": lambda m: not m.fl["z"], "jmp": lambda m: True, "jc": lambda m: m.fl["c"], "jhs": lambda m: m.fl["c"], "jnc": lambda m: not m.fl["c"], "jlo": lambda m: not m.fl["c"], "jn": lambda m: m.fl["n"], "jge": lambda m: m.fl["n"] == m.fl["v"], "jl": lambda m: m.fl["n"] != m.fl["v"]}
        if mn in J:
            t, c = addr + num(o[0].lstrip("$")), J[mn]
            return lambda m: t if c(m) else nxt
        return None
