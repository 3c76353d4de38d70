from .isa import *

REGS = ["zero", "ra", "tp", "sp"] + [f"a{i}" for i in range(8)] + [f"t{i}" for i in range(9)] + ["r21", "fp"] + [f"s{i}" for i in range(9)]


class LoongArch(Isa):
    name = "loongarch"
    ret, sp, link = "a0", "sp", "ra"
    args = ("a0", "a1", "a2")
    non_mca = True
    amo_atomic = True

    def __init__(self, xlen=64):
        self.xlen = xlen
        self.word = self.usize = xlen // 8
        self.granule = 2 * self.word
        self.single_copy = self.word
        self.min_atomic = 4
        self.strict_align = True
        self.amask = mask(xlen)
        self.base = 0x3F_1234_0000 if xlen == 64 else 0x9ABC_0000
        self.allregs = [r for r in REGS if r != "zero"]
        self.saved = ("sp", "tp", "r21", "fp") + tuple(f"s{i}" for i in range(9))

    pools = {"r": [f"$r{i}" for i in range(32) if i not in (0, 1, 2, 3, 21, 22)]}

    def regname(self, s):
        s = s.lstrip("$")
        return (["zero", "ra", "tp", "sp"] + REGS[4:])[int(s[1:])] if re.fullmatch(r"r\d+", s) else s

    def g(self, s):
        s = s.lstrip("$")
        if s == "zero":
            return lambda m: 0
        if s not in REGS:
            raise KeyError(s)
        return lambda m: m.r[s]

    def p(self, s):
        s = s.lstrip("$")
        if s == "zero":
            return lambda m, v: None
        if s not in REGS:
            raise KeyError(s)

        def f(m, v):
            m.r[s] = v & mask(self.xlen)
        return f

    def ins(self, mn, o, addr, nxt, relocs, rest):
        X = self.xlen

        def seq(f):
            def g(m):
                f(m)
                return nxt
            return g
        S = lambda v: sx(v, X)
        W = lambda v: sx(v, 32)
        if mn == "ret":
            return lambda m: m.r["ra"]
        if mn == "nop":
            return lambda m: nxt
        if mn == "b":
            t = addr + num(o[0])
            return lambda m: t
        BR = {"beq": lambda a, b: a == b, "bne": lambda a, b: a != b, "blt": lambda a, b: S(a) < S(b), "bge": lambda a, b: S(a) >= S(b), "bltu": lambda a, b: a < b, "bgeu": lambda a, b: a >= b}
        if mn in BR:
            a, b, t, c = self.g(o[0]), self.g(o[1]), addr + num(o[2]), BR[mn]
            return lambda m: t if c(a(m), b(m)) else nxt
        if mn in ("beqz", "bnez"):
            a, t, z = self.g(o[0]), addr + num(o[1]), mn == "beqz"
            return lambda m: t if (a(m) == 0) == z else nxt
        if mn == "dbar":
            h = num(o[0])
            # bit 4: completion/ordering; bits 3..2: earlier, 1..0: later (load=high bit, store=low)
            if h == 0x700:
                return seq(lambda m: None)
            if h == 0:
                return seq(lambda m: m.fence())
            if h & 0x10:
                pre = ("" if h & 8 else "r") + ("" if h & 4 else "w")
                suc = ("" if h & 2 else "r") + ("" if h & 1 else "w")
                return seq(lambda m: m.fence(pre, suc))
            return None
        mn2 = mn
        AL = {"add.d": lambda a, b: a + b, "sub.d": lambda a, b: a - b, "add.w": lambda a, b: W(a + b), "sub.w": lambda a, b: W(a - b), "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b, "nor": lambda a, b: ~(a | b), "andn": lambda a, b: a & ~b, "orn": lambda a, b: a | ~b,
              "sll.w": lambda a, b: W(a << (b % 32)), "srl.w": lambda a, b: W((a & mask(32)) >> (b % 32)), "sra.w": lambda a, b: W(a) >> (b % 32), "sll.d": lambda a, b: a << (b % 64), "srl.d": lambda a, b: a >> (b % 64), "sra.d": lambda a, b: S(a) >> (b % 64),
              "rotr.w": lambda a, b: W((a & mask(32)) >> (b % 32) | (a & mask(32)) << (32 - b % 32)), "rotr.d": lambda a, b: a >> (b % 64) | a << (64 - b % 64), "mul.d": lambda a, b: a * b, "mul.w": lambda a, b: W(a * b),
              "slt": lambda a, b: int(S(a) < S(b)), "sltu": lambda a, b: int(a < b), "maskeqz": lambda a, b: 0 if b == 0 else a, "masknez": lambda a, b: 0 if b != 0 else a}
        IM = {"addi.d": "add.d", "addi.w": "add.w", "andi": "and", "ori": "or", "xori": "xor", "rotri.w": "rotr.w", "rotri.d": "rotr.d", "slli.w": "sll.w", "srli.w": "srl.w", "srai.w": "sra.w", "slli.d": "sll.d", "srli.d": "srl.d", "srai.d": "sra.d", "slti": "slt", "sltui": "sltu"}
        if mn in AL or mn in IM:
            d, a = self.p(o[0]), self.g(o[1])
            if mn in IM:
                k, f = num(o[2]) & mask(X), AL[IM[mn]]
                return seq(lambda m: d(m, f(a(m), k)))
            b, f = self.g(o[2]), AL[mn]
            return seq(lambda m: d(m, f(a(m), b(m))))
        Z = {"bltz": lambda a: a < 0, "blez": lambda a: a <= 0, "bgtz": lambda a: a > 0, "bgez": lambda a: a >= 0}
        if mn in Z:
            a, t, c = self.g(o[0]), addr + num(o[1]), Z[mn]
            return lambda m: t if c(S(a(m))) else nxt
        if mn in ("lu32i.d", "lu52i.d"):
            d, k = self.p(o[0]), num(o[-1])
            if mn == "lu32i.d":
                a = self.g(o[0])
                return seq(lambda m: d(m, a(m) & mask(32) | sx(k, 20) << 32))
            a = self.g(o[1])
            return seq(lambda m: d(m, a(m) & mask(52) | (k & 0xFFF) << 52))
        UN = {"revb.2h": lambda v: W((v & 0xFF00FF) << 8 | v >> 8 & 0xFF00FF), "revb.4h": lambda v: (v & 0xFF00FF00FF00FF) << 8 | v >> 8 & 0xFF00FF00FF00FF, "revb.d": lambda v: int.from_bytes(v.to_bytes(8, "big"), "little"),
              "revb.2w": lambda v: int.from_bytes((v & mask(32)).to_bytes(4, "big"), "little") | int.from_bytes((v >> 32).to_bytes(4, "big"), "little") << 32,
              "clz.w": lambda v: 32 - (v & mask(32)).bit_length(), "clz.d": lambda v: 64 - v.bit_length()}
        if mn in UN:
            d, a, u = self.p(o[0]), self.g(o[1]), UN[mn]
            return seq(lambda m: d(m, u(a(m))))
        if mn in ("alsl.d", "alsl.w", "alsl.wu"):
            d, a, b, k = self.p(o[0]), self.g(o[1]), self.g(o[2]), num(o[3])
            e = W if mn == "alsl.w" else (lambda v: v & mask(32)) if mn == "alsl.wu" else (lambda v: v)
            return seq(lambda m: d(m, e((a(m) << k) + b(m))))
        k = re.fullmatch(r"(ld|st)x\.([bhwd])(u?)", mn)
        if k:
            n = {"b": 1, "h": 2, "w": 4, "d": 8}[k[2]]
            a, b = self.g(o[1]), self.g(o[2])
            if k[1] == "ld":
                d = self.p(o[0])
                return seq(lambda m: d(m, m.ld(a(m) + b(m) & mask(64), n) if k[3] else sx(m.ld(a(m) + b(m) & mask(64), n), 8 * n)))
            s = self.g(o[0])
            return seq(lambda m: m.st(a(m) + b(m) & mask(64), n, s(m)))
        if mn == "move":
            d, a = self.p(o[0]), self.g(o[1])
            return seq(lambda m: d(m, a(m)))
        if mn in ("ext.w.b", "ext.w.h"):
            d, a, k = self.p(o[0]), self.g(o[1]), 8 if mn[-1] == "b" else 16
            return seq(lambda m: d(m, sx(a(m), k)))
        if mn == "addu16i.d":
            d, a, k = self.p(o[0]), self.g(o[1]), num(o[2]) << 16
            return seq(lambda m: d(m, a(m) + k))
        if mn == "lu12i.w":
            d, k = self.p(o[0]), sx(num(o[1]) << 12, 32)
            return seq(lambda m: d(m, k))
        if mn in ("bstrins.d", "bstrins.w", "bstrpick.d", "bstrpick.w"):
            d, me, a, hi, lo = self.p(o[0]), self.g(o[0]), self.g(o[1]), num(o[2]), num(o[3])
            w = hi - lo + 1
            e = W if mn[-1] == "w" else (lambda v: v)
            if "ins" in mn:
                return seq(lambda m: d(m, e(me(m) & ~(mask(w) << lo) | (a(m) & mask(w)) << lo)))
            return seq(lambda m: d(m, e(a(m) >> lo & mask(w))))
        LD = {"ld.b": (1, 1), "ld.bu": (1, 0), "ld.h": (2, 1), "ld.hu": (2, 0), "ld.w": (4, 1), "ld.wu": (4, 0), "ld.d": (8, 1)}
        if mn in LD:
            n, sg = LD[mn]
            d, b, k = self.p(o[0]), self.g(o[1]), num(o[2])
            return seq(lambda m: d(m, sx(m.ld(b(m) + k, n), 8 * n) if sg else m.ld(b(m) + k, n)))
        ST = {"st.b": 1, "st.h": 2, "st.w": 4, "st.d": 8}
        if mn in ST:
            n, s, b, k = ST[mn], self.g(o[0]), self.g(o[1]), num(o[2])
            return seq(lambda m: m.st(b(m) + k, n, s(m)))
        if mn in ("ll.w", "ll.d"):
            n = 4 if mn[-1] == "w" else 8
            d, b, k = self.p(o[0]), self.g(o[1]), num(o[2])
            return seq(lambda m: d(m, sx(m.ll(b(m) + k, n), 8 * n)))
        if mn in ("sc.w", "sc.d"):
            n = 4 if mn[-1] == "w" else 8
            d, s, b, k = self.p(o[0]), self.g(o[0]), self.g(o[1]), num(o[2])

            def f(m):
                ok = m.sc(b(m) + k, n, s(m))
                if ok:
                    # LL/SC that succeeds is a full barrier on both sides; one that ends with the LL is none
                    i = max(i for i, e in enumerate(m.events) if e.k == "R")
                    m.events.insert(i, Ev("F", pred="rw", succ="rw", full=True))
                    m.fence()
                d(m, int(ok))
            return seq(f)
        k = re.fullmatch(r"amswap(_db)?\.([bhwd])", mn)
        if k:
            n, db = {"b": 1, "h": 2, "w": 4, "d": 8}[k[2]], bool(k[1])
            d, s, b = self.p(o[0]), self.g(o[1]), self.g(o[2].strip("()"))

            def f(m):
                # _db: a full barrier on both sides
                if db:
                    m.fence()
                v = m.rmw(b(m), n, lambda old, v=s(m): v)
                if db:
                    m.fence()
                d(m, sx(v, 8 * n))
            return seq(f)
        return None
