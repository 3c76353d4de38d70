"""AVR (single core: atomicity comes from disabled interrupts)."""
from .isa import *
from .msp430 import OneCore


class Avr(OneCore):
    name = "avr"
    allregs = [f"r{i}" for i in range(32)] + ["sp"]
    sp = "sp"
    single_copy = 1
    frame = 2
    comments = True
    alloc_bits = 8
    touches = r"\b(ldd?|ldd?s|std?|sts|cli|sei|in|out|push|pop)\b"

    @property
    def pools(self):
        return {"r": [f"r{i}" for i in range(18 if self.tiny else 2, 26)], "d": [f"r{i}" for i in range(18, 26)]}

    def clobber(self, c):
        return ("cc",) if c.lower() == "sreg" else (c,)

    def __init__(self, tiny=False):
        self.tiny = tiny
        self.zero = "r17" if tiny else "r1"
        if tiny:
            # one-byte stack pointer
            self.stack = (0xE0, 0xA0)
            self.layout = (0x1000, 0x2000, 0x10 - self.base)
        self.saved = ("sp",) + (tuple(f"r{i}" for i in (18, 19, 28, 29)) if tiny else tuple(f"r{i}" for i in range(2, 18)) + ("r28", "r29"))
        self.allregs = [f"r{i}" for i in range(16 if tiny else 0, 32)] + ["sp"]

    def max_align(self, n):
        return 1

    def machine(self, mem, obj, n):
        m = super().machine(mem, obj, n)
        m.skip = False
        return m

    def enter(self, m, rng, sp, args, stop):
        super().enter(m, rng, sp, (), stop)
        for r in m.r:
            if r != "sp":
                m.r[r] &= 255
        for i, v in enumerate(args):
            m.r[f"r{24 - 2 * i}"], m.r[f"r{25 - 2 * i}"] = v & 255, v >> 8
        m.r[self.zero] = 0
        m.before = {r: m.r[r] for r in self.saved}

    def set_link(self, m, stop):
        # the return address is stored high byte first
        m.mem.put(m.r["sp"], stop.to_bytes(2, "big"))

    def leave(self, m):
        super().leave(m)
        if m.r[self.zero]:
            raise Bad("machine-state", "the zero register is not zero")

    def result(self, m):
        return m.r["r24"] | m.r["r25"] << 8

    def flags_random(self, m, rng):
        for f in "cznvt":
            m.fl[f] = rng.getrandbits(1)
        m.rest = rng.getrandbits(1) << 5

    def sreg(self, m):
        return m.fl["c"] | m.fl["z"] << 1 | m.fl["n"] << 2 | m.fl["v"] << 3 | (m.fl["n"] ^ m.fl["v"]) << 4 | m.rest | m.fl["t"] << 6 | m._irq << 7

    def rn(self, s):
        if not re.fullmatch(r"r\d+", s) or s not in self.allregs:
            raise KeyError(s)
        return s

    def decode(self, addr, text, nxt, relocs):
        f = super().decode(addr, text, nxt, relocs)

        def g(m):
            if m.skip:
                m.skip = False
                return nxt
            return f(m)
        return g

    def ins(self, mn, o, addr, nxt, relocs, rest):
        rn = self.rn

        def seq(f):
            def g(m):
                f(m)
                return nxt
            return g

        def pair(m, r):
            i = int(r[1:])
            return m.r[r] | m.r[f"r{i + 1}"] << 8

        def setp(m, r, v):
            m.r[r], m.r[f"r{int(r[1:]) + 1}"] = v & 255, v >> 8 & 255

        def ea(s):
            """(m -> address) of X, Y, Z with displacement, increment or decrement."""
            k = re.fullmatch(r"(-)?([XYZ])(\+)?(\d+)?", s)
            r = {"X": "r26", "Y": "r28", "Z": "r30"}[k[2]]
            if k[4]:
                d = int(k[4])
                return lambda m: pair(m, r) + d & mask(16)

            def f(m):
                a = pair(m, r)
                if k[1]:
                    a = a - 1 & mask(16)
                    setp(m, r, a)
                if k[3]:
                    setp(m, r, a + 1)
                return a
            return f

        def target():
            for k, t in relocs:
                x = re.search(r"\+0x([0-9a-f]+)$", t)
                if "PCREL" in k:
                    return int(x[1], 16) if x else 0
            k = re.fullmatch(r"\.([+-]\d+)", o[-1])
            return nxt + int(k[1])
        if mn == "nop":
            return lambda m: nxt
        if mn == "cli":
            def f(m):
                m.irq = False
            return seq(f)
        if mn == "sei":
            def f(m):
                m.irq = True
            return seq(f)
        if mn == "in" and num(o[1]) == 0x3F:
            d = rn(o[0])

            def f(m):
                m.r[d] = self.sreg(m)
            return seq(f)
        if mn == "out" and num(o[0]) == 0x3F:
            s = rn(o[1])

            def f(m):
                v = m.r[s]
                m.fl.update(c=v & 1, z=v >> 1 & 1, n=v >> 2 & 1, v=v >> 3 & 1, t=v >> 6 & 1)
                m.rest = v & 0x20
                m.irq = bool(v >> 7)
            return seq(f)
        # the hardware stack pointer names the next free byte
        if mn == "in" and num(o[1]) in (0x3D, 0x3E):
            d, h = rn(o[0]), 8 * (num(o[1]) - 0x3D)

            def f(m):
                m.r[d] = (m.r["sp"] - 1) >> h & 255
            return seq(f)
        if mn == "out" and num(o[0]) in (0x3D, 0x3E):
            s, h = rn(o[1]), 8 * (num(o[0]) - 0x3D)

            def f(m):
                v = m.r["sp"] - 1
                m.r["sp"] = (v & ~(255 << h) | m.r[s] << h) + 1 & mask(16)
            return seq(f)
        if mn in ("ld", "ldd"):
            d, a = rn(o[0]), ea(o[1])

            def f(m):
                m.r[d] = m.ld(a(m), 1)
            return seq(f)
        if mn in ("st", "std"):
            a, s = ea(o[0]), rn(o[1])
            return seq(lambda m: m.st(a(m), 1, m.r[s]))
        if mn == "mov":
            d, s = rn(o[0]), rn(o[1])

            def f(m):
                m.r[d] = m.r[s]
            return seq(f)
        if mn == "movw":
            d, s = rn(o[0]), rn(o[1])
            return seq(lambda m: setp(m, d, pair(m, s)))
        if mn in ("ldi", "clr"):
            d, k = rn(o[0]), num(o[1]) & 255 if mn == "ldi" else 0

            def f(m):
                m.r[d] = k
                if mn == "clr":
                    m.fl["z"], m.fl["n"], m.fl["v"] = 1, 0, 0
            return seq(f)
        if mn == "push":
            s = rn(o[0])

            def f(m):
                # post-decrement; the stack pointer here names the last used byte
                m.r["sp"] = m.r["sp"] - 1 & mask(16)
                m.st(m.r["sp"], 1, m.r[s])
            return seq(f)
        if mn == "pop":
            d = rn(o[0])

            def f(m):
                m.r[d] = m.ld(m.r["sp"], 1)
                m.r["sp"] = m.r["sp"] + 1 & mask(16)
            return seq(f)
        if mn == "ret":
            def f(m):
                v = m.ld(m.r["sp"], 1) << 8 | m.ld(m.r["sp"] + 1, 1)
                m.r["sp"] = m.r["sp"] + 2 & mask(16)
                return v
            return f
        LOG = {"eor": lambda a, b: a ^ b, "or": lambda a, b: a | b, "and": lambda a, b: a & b, "ori": lambda a, b: a | b, "andi": lambda a, b: a & b}
        if mn in LOG or mn == "tst":
            d = rn(o[0])
            b = (lambda m: m.r[d]) if mn == "tst" else (lambda m, k=num(o[1]) & 255: k) if mn.endswith("i") else (lambda m, s=rn(o[1]): m.r[s])
            F = LOG.get(mn, lambda a, b: a & b)

            def f(m):
                v = F(m.r[d], b(m)) & 255
                m.r[d] = v
                m.fl["z"], m.fl["n"], m.fl["v"] = int(v == 0), v >> 7, 0
            return seq(f)
        if mn in ("lsl", "rol"):
            mn, o = {"lsl": "add", "rol": "adc"}[mn], [o[0], o[0]]
        if mn in ("lsr", "asr", "ror"):
            d = rn(o[0])

            def f(m):
                x = m.r[d]
                v = m.r[d] = x >> 1 | {"lsr": 0, "asr": x & 0x80, "ror": m.fl["c"] << 7}[mn]
                m.fl.update(c=x & 1, z=int(v == 0), n=v >> 7, v=v >> 7 ^ x & 1)
            return seq(f)
        if mn in ("com", "neg"):
            d = rn(o[0])

            def f(m):
                v = m.r[d] = (~m.r[d] if mn == "com" else -m.r[d]) & 255
                m.fl.update(c=int(mn == "com" or v != 0), z=int(v == 0), n=v >> 7, v=int(mn == "neg" and v == 0x80))
            return seq(f)
        if mn == "swap":
            d = rn(o[0])

            def f(m):
                m.r[d] = m.r[d] >> 4 | m.r[d] << 4 & 0xF0
            return seq(f)
        if mn in ("adiw", "sbiw"):
            d, k = rn(o[0]), num(o[1]) * (1 if mn == "adiw" else -1)

            def f(m):
                x = pair(m, d)
                v = x + k
                setp(m, d, v)
                m.fl["c"] = int(v != v & mask(16))
                m.fl.update(z=int(v & mask(16) == 0), n=v >> 15 & 1, v=int(sx(v, 16) != sx(x, 16) + k))
            return seq(f)
        if mn in ("bst", "bld"):
            d, b = rn(o[0]), num(o[1])

            def f(m):
                if mn == "bst":
                    m.fl["t"] = m.r[d] >> b & 1
                else:
                    m.r[d] = m.r[d] & ~(1 << b) | m.fl["t"] << b
            return seq(f)
        if mn in ("sbrc", "sbrs", "cpse"):
            d, e = rn(o[0]), rn(o[1]) if mn == "cpse" else num(o[1])

            def f(m):
                m.skip = m.r[d] == m.r[e] if mn == "cpse" else m.r[d] >> e & 1 == (mn == "sbrs")
            return seq(f)
        if mn in ("mul", "muls"):
            d, e = rn(o[0]), rn(o[1])

            def f(m):
                v = m.r[d] * m.r[e] if mn == "mul" else sx(m.r[d], 8) * sx(m.r[e], 8)
                setp(m, "r0", v)
                m.fl.update(c=v >> 15 & 1, z=int(v & mask(16) == 0))
            return seq(f)
        if mn in ("sec", "clc", "set", "clt"):
            k, v = mn[-1], int(mn[0] == "s")

            def f(m):
                m.fl[k] = v
            return seq(f)
        if mn in ("cpi", "cp", "cpc", "subi", "sbci", "sub", "sbc", "add", "adc"):
            d = rn(o[0])
            b = (lambda m, k=num(o[1]) & 255: k) if mn.endswith("i") else (lambda m, s=rn(o[1]): m.r[s])
            carry = mn in ("cpc", "sbci", "sbc", "adc")
            add = mn in ("add", "adc")

            def f(m):
                x, y, c = m.r[d], b(m), m.fl["c"] if carry else 0
                v = x + y + c if add else x - y - c
                m.fl["c"] = int(v != v & 255)
                v &= 255
                m.fl["v"] = int(sx(v, 8) != (sx(x, 8) + sx(y, 8) + c if add else sx(x, 8) - sx(y, 8) - c))
                z = int(v == 0)
                m.fl["z"] = z & m.fl["z"] if carry and not add else z
                m.fl["n"] = v >> 7
                if not mn.startswith("cp"):
                    m.r[d] = v
            return seq(f)
        if mn in ("inc", "dec"):
            d, k = rn(o[0]), 1 if mn == "inc" else -1

            def f(m):
                v = m.r[d] = m.r[d] + k & 255
                m.fl["z"], m.fl["n"], m.fl["v"] = int(v == 0), v >> 7, int(v == (0x80 if k > 0 else 0x7F))
            return seq(f)
        BR = {"breq": ("z", 1), "brne": ("z", 0), "brcs": ("c", 1), "brlo": ("c", 1), "brcc": ("c", 0), "brsh": ("c", 0), "brmi": ("n", 1), "brpl": ("n", 0)}
        if mn in ("brlt", "brge"):
            t, lt = target(), int(mn == "brlt")
            return lambda m: t if m.fl["n"] ^ m.fl["v"] == lt else nxt
        if mn in ("brvs", "brvc", "brts", "brtc"):
            t, k, v = target(), mn[2], int(mn[3] == "s")
            return lambda m: t if m.fl[k] == v else nxt
        if mn in BR:
            t, (k, v) = target(), BR[mn]
            return lambda m: t if m.fl[k] == v else nxt
        if mn in ("rjmp", "jmp"):
            t = target()
            return lambda m: t
        return None
