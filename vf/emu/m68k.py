"""M68k. The disassembler does not know all instructions; the compiler's assembly output is read instead."""
from .isa import *


class M68k(Isa):
    name = "m68k"
    big = True
    word = usize = single_copy = 4
    granule = 4
    base = 0x4012_3000
    amask = mask(32)
    allregs = [f"d{i}" for i in range(8)] + [f"a{i}" for i in range(8)]
    ret, sp = "d0", "a7"
    saved = tuple(f"d{i}" for i in range(2, 8)) + tuple(f"a{i}" for i in range(2, 7))
    frame = 16
    from_asm = True
    comments = False
    llsc = False
    in_order = True   # one processor order for all accesses
    stop = 0x7FFF_FFF0
    alloc_min = 32    # the compiler crashes on narrow operands in explicit registers
    pools = {"d": [f"d{i}" for i in range(8)], "a": [f"a{i}" for i in range(5)]}

    def parse_asm(self, text, Fn, marks):
        return asm_functions(text, Fn, marks, ";", "\1")

    def decode(self, addr, text, nxt, relocs):
        """The code generator does not know that its moves change the flags and at times puts one between a
        comparison and the branch on it. Where flags of such a move are used the code says nothing about the crate."""
        ours = text.endswith("\1")
        text = text.rstrip("\1")
        f = super().decode(addr, text, nxt, relocs)
        mn = text.split()[0].partition(".")[0]
        if mn in ("move", "moveq", "movea", "movem", "lea", "adda", "suba", "bra", "rts", "exg", "nop"):
            if ours or not mn.startswith("move") or mn == "movem" or "%a" in text.rpartition(",")[2] and "(" not in text.rpartition(",")[2]:
                return f

            def g(m):
                m.stray = True
                return f(m)
            return g
        if not ours and (re.fullmatch(r"[bs][a-z][a-z]", mn) and mn != "sub"):
            def g(m):
                if m.stray:
                    raise Unsupported("flags of a compiler-made move decide a branch")
                return f(m)
            return g

        def g(m):
            m.stray = False
            return f(m)
        return g

    def machine(self, mem, obj, n):
        m = super().machine(mem, obj, n)
        m.stray = False
        return m

    def enter(self, m, rng, sp, args, stop):
        super().enter(m, rng, sp, (), stop)
        for i, v in enumerate(args):
            m.mem.put(sp + 4 + 4 * i, v.to_bytes(4, "big"))
        m.sp0 = sp

    def set_link(self, m, stop):
        m.mem.put(m.r["a7"], stop.to_bytes(4, "big"))

    def leave(self, m):
        super().leave(m)
        if m.r["a7"] != m.sp0 + 4:
            raise Bad("machine-state", "the stack pointer is not as before")

    def flags_random(self, m, rng):
        for f in "xnzvc":
            m.fl[f] = rng.getrandbits(1)

    def clobber(self, c):
        return ("cc",) if c == "ccr" else (c,)

    def regname(self, s):
        s = s.lstrip("%")
        s = {"sp": "a7"}.get(s, s)
        if s not in self.allregs:
            raise KeyError(s)
        return s

    def ea(self, s, n):
        """(read, write)"""
        if s.startswith("#"):
            v = num(s) & mask(8 * n)
            return (lambda m: v), None
        k = re.fullmatch(r"\((-?\w+),\s*(%\w+),\s*(%\w+(?:\.l)?)\)", s)
        if k:
            d, r, x = num(k[1]), self.regname(k[2]), self.regname(k[3][:-2] if k[3].endswith(".l") else k[3])
            return (lambda m: m.ld(m.r[r] + m.r[x] + d, n)), (lambda m, v: m.st(m.r[r] + m.r[x] + d, n, v))
        k = re.fullmatch(r"\((?:(-?\w+),\s*)?(%\w+)\)", s)
        if k:
            d, r = num(k[1] or "0"), self.regname(k[2])
            return (lambda m: m.ld(m.r[r] + d, n)), (lambda m, v: m.st(m.r[r] + d, n, v))
        r = self.regname(s)

        def w(m, v):
            if r[0] == "a":
                m.r[r] = sx(v, 8 * n) & mask(32)
            else:
                m.r[r] = m.r[r] & ~mask(8 * n) | v & mask(8 * n)
        return (lambda m: m.r[r] & mask(8 * n)), w

    def ins(self, mn, o, addr, nxt, relocs, rest):
        n = {"b": 1, "w": 2, "l": 4}.get(mn.rpartition(".")[2] if "." in mn else "", 4)
        mn = mn.partition(".")[0]
        B = 8 * n

        def seq(f):
            def g(m):
                f(m)
                return nxt
            return g

        def nz(m, v):
            m.fl.update(n=v >> (B - 1) & 1, z=int(v & mask(B) == 0), v=0, c=0)

        def cmpf(m, x, y):
            """flags of x - y"""
            r = x - y & mask(B)
            nz(m, r)
            m.fl.update(c=int(x < y), v=int(sx(r, B) != sx(x, B) - sx(y, B)))
        if mn in ("move", "movea"):
            s, d = self.ea(o[0], n), self.ea(o[1], n)
            toreg = re.fullmatch(r"%(a\d|sp)", o[1])

            def f(m):
                v = s[0](m)
                if not toreg:
                    nz(m, v)
                d[1](m, v)
            return seq(f)
        if mn == "moveq":
            k, d = sx(num(o[0]), 8) & mask(32), self.regname(o[1])

            def f(m):
                m.r[d] = k
                nz(m, k)
            return seq(f)
        if mn in ("and", "or", "eor", "andi", "ori", "eori"):
            F = {"a": lambda a, b: a & b, "o": lambda a, b: a | b, "e": lambda a, b: a ^ b}[mn[0]]
            s, d = self.ea(o[0], n), self.ea(o[1], n)

            def f(m):
                v = F(d[0](m), s[0](m))
                nz(m, v)
                d[1](m, v)
            return seq(f)
        if mn in ("cmp", "cmpi", "tst"):
            s, d = ((lambda m: 0), None) if mn == "tst" else self.ea(o[0], n), self.ea(o[-1], n)
            return seq(lambda m: cmpf(m, d[0](m), s[0](m)))
        if mn in ("suba", "adda", "sub", "add", "subq", "addq", "lea"):
            if mn == "lea":
                k = re.fullmatch(r"\((-?\w+),\s*(%\w+)\)", o[0])
                d, a, r = num(k[1]), self.regname(k[2]), self.regname(o[1])

                def f(m):
                    m.r[r] = m.r[a] + d & mask(32)
                return seq(f)
            if mn in ("add", "sub", "addq", "subq") and not re.fullmatch(r"%(a\d|sp)", o[1]):
                s, d, g = self.ea(o[0], n), self.ea(o[1], n), mn[0] == "s"

                def f(m):
                    x, y = d[0](m), s[0](m) & mask(B)
                    if g:
                        cmpf(m, x, y)
                        v = x - y
                    else:
                        v = x + y
                        nz(m, v)
                        m.fl.update(c=v >> B, v=int(sx(v, B) != sx(x, B) + sx(y, B)))
                    m.fl["x"] = m.fl["c"]
                    d[1](m, v)
                return seq(f)
            if not re.fullmatch(r"%(a\d|sp)", o[1]) or n != 4:
                return None
            s, r, g = self.ea(o[0], 4), self.regname(o[1]), -1 if mn[0] == "s" else 1

            def f(m):
                m.r[r] = m.r[r] + g * s[0](m) & mask(32)
            return seq(f)
        if mn == "movem" and n == 4:
            def regs(s):
                out = []
                for x in s.split("/"):
                    a, _, b = x.partition("-")
                    a, b = self.regname(a), self.regname(b or a)
                    out += self.allregs[self.allregs.index(a):self.allregs.index(b) + 1]
                return sorted(out, key=self.allregs.index)
            k = [re.fullmatch(r"\((?:(-?\w+),\s*)?(%\w+)\)", x) for x in o]
            i = 0 if k[0] else 1
            d, a, rs = num(k[i][1] or "0"), self.regname(k[i][2]), regs(o[1 - i])

            def f(m):
                for j, r in enumerate(rs):
                    if i:
                        m.st(m.r[a] + d + 4 * j, 4, m.r[r])
                    else:
                        m.r[r] = m.ld(m.r[a] + d + 4 * j, 4)
            return seq(f)
        if mn in ("neg", "not", "clr"):
            d = self.ea(o[0], n)

            def f(m):
                x = d[0](m) if mn != "clr" else 0
                if mn == "neg":
                    cmpf(m, 0, x)
                    m.fl["x"] = m.fl["c"]
                    d[1](m, -x)
                else:
                    nz(m, ~x if mn == "not" else 0)
                    d[1](m, ~x if mn == "not" else 0)
            return seq(f)
        if mn == "cas":
            c, u = self.regname(o[0]), self.regname(o[1])
            k = re.fullmatch(r"\((?:(-?\w+),\s*)?(%\w+)\)", o[2])
            d, a = num(k[1] or "0"), self.regname(k[2])

            def f(m):
                x = m.r[c] & mask(B)
                old = m.rmw(m.r[a] + d, n, lambda v: m.r[u] if v == x else None)
                cmpf(m, old, x)
                if old != x:
                    m.r[c] = m.r[c] & ~mask(B) | old
            return seq(f)
        if mn in ("lsl", "lsr", "asl", "asr", "rol", "ror", "roxl", "roxr"):
            s = (lambda m: 1) if len(o) == 1 else self.ea(o[0], 4)[0]
            d = self.ea(o[-1], n)
            left, kind = mn[-1] == "l", mn[:-1]

            def f(m):
                k, x = s(m) & 63, d[0](m)
                c, v = m.fl["x"] if kind == "rox" else 0, 0
                for _ in range(k):
                    out = x >> (B - 1) & 1 if left else x & 1
                    fill = {"ls": 0, "as": 0 if left else x >> (B - 1), "ro": out, "rox": c}[kind]
                    y = (x << 1 | fill) & mask(B) if left else x >> 1 | fill << (B - 1)
                    v |= kind == "as" and (x ^ y) >> (B - 1) & 1
                    x, c = y, out
                nz(m, x)
                m.fl.update(c=c, v=int(v))
                if kind != "ro" and k:
                    m.fl["x"] = c
                d[1](m, x)
            return seq(f)
        if mn in ("addx", "subx", "negx"):
            s, d = self.ea(o[0], n), self.ea(o[-1], n)

            def f(m):
                x, y, c = 0 if mn == "negx" else d[0](m), s[0](m), m.fl["x"]
                v = x + y + c if mn == "addx" else x - y - c
                t = sx(x, B) + sx(y, B) + c if mn == "addx" else sx(x, B) - sx(y, B) - c
                z = m.fl["z"]
                nz(m, v)
                m.fl.update(c=int(v != v & mask(B)), v=int(sx(v, B) != t), z=m.fl["z"] & z)
                m.fl["x"] = m.fl["c"]
                d[1](m, v)
            return seq(f)
        if mn in ("ext", "extb"):
            d, k = self.ea(o[0], n), 8 if n == 2 or mn == "extb" else 16

            def f(m):
                v = sx(d[0](m), k)
                nz(m, v)
                d[1](m, v)
            return seq(f)
        if mn == "swap":
            r = self.regname(o[0])

            def f(m):
                v = m.r[r] = m.r[r] >> 16 | (m.r[r] & 0xFFFF) << 16
                m.fl.update(n=v >> 31, z=int(v == 0), v=0, c=0)
            return seq(f)
        if mn == "exg":
            a, b = self.regname(o[0]), self.regname(o[1])

            def f(m):
                m.r[a], m.r[b] = m.r[b], m.r[a]
            return seq(f)
        if mn in ("mulu", "muls") and ":" not in o[1]:
            s, d = self.ea(o[0], n), self.regname(o[1])

            def f(m):
                g = sx if mn == "muls" else lambda v, k: v & mask(k)
                v = g(s[0](m), B) * g(m.r[d], B)
                m.r[d] = v & mask(32)
                m.fl.update(n=v >> 31 & 1, z=int(v & mask(32) == 0), v=0, c=0)
                if n == 4:
                    m.fl["v"] = int(v != g(v, 32))
            return seq(f)
        if mn in ("btst", "bset", "bclr", "bchg"):
            reg = not o[1].startswith("(")
            s, d, w = self.ea(o[0], 4), self.ea(o[1], 4 if reg else 1), 31 if reg else 7

            def f(m):
                b, v = 1 << (s[0](m) & w), d[0](m)
                m.fl["z"] = int(v & b == 0)
                if mn != "btst":
                    d[1](m, v | b if mn == "bset" else v & ~b if mn == "bclr" else v ^ b)
            return seq(f)
        CC = {"eq": lambda f: f["z"], "ne": lambda f: not f["z"], "cs": lambda f: f["c"], "cc": lambda f: not f["c"],
              "mi": lambda f: f["n"], "pl": lambda f: not f["n"],
              "hi": lambda f: not (f["c"] or f["z"]), "ls": lambda f: f["c"] or f["z"], "hs": lambda f: not f["c"], "lo": lambda f: f["c"],
              "vc": lambda f: not f["v"], "vs": lambda f: f["v"], "ge": lambda f: f["n"] == f["v"], "lt": lambda f: f["n"] != f["v"],
              "gt": lambda f: f["n"] == f["v"] and not f["z"], "le": lambda f: f["n"] != f["v"] or f["z"], "t": lambda f: True, "f": lambda f: False}
        if mn[0] == "s" and mn[1:] in CC:
            d, c = self.ea(o[0], 1), CC[mn[1:]]
            return seq(lambda m: d[1](m, 255 if c(m.fl) else 0))
        if mn == "bra" or mn[0] == "b" and mn[1:] in CC:
            t, c = int(o[0][1:]), CC.get(mn[1:], lambda f: True)
            return lambda m: t if c(m.fl) else nxt
        if mn == "rts":
            def f(m):
                v = m.ld(m.r["a7"], 4)
                m.r["a7"] = m.r["a7"] + 4 & mask(32)
                return v
            return f
        if mn == "nop":
            return lambda m: nxt
        return None
