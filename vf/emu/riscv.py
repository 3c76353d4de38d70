from .isa import *

ABI = ["zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1"] + [f"a{i}" for i in range(8)] + [f"s{i}" for i in range(2, 12)] + [f"t{i}" for i in range(3, 7)]

ABI32 = ["zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1"] + [f"a{i}" for i in range(8)] + [f"s{i}" for i in range(2, 12)] + [f"t{i}" for i in range(3, 7)]

class RiscV(Isa):
    name = "riscv"
    ret, sp, link = "a0", "sp", "ra"
    args = ("a0", "a1", "a2")
    amo_atomic = True
    strict_align = True

    def __init__(self, xlen=64, zabha=False, e=False, single_core=False):
        self.xlen = xlen
        self.word = self.usize = xlen // 8
        self.granule = 2 * self.word
        self.single_copy = self.word
        self.min_atomic = 4  # compare-exchange is always done on words
        self.amask = mask(xlen)
        self.base = 0x3F_1234_0000 if xlen == 64 else 0x9ABC_0000
        self.allregs = [r for r in ABI if r != "zero"]
        self.saved = tuple(["sp", "gp", "tp", "s0", "s1"] + ([] if e else [f"s{i}" for i in range(2, 12)]))

    @property
    def pools(self):
        return {"r": [f"x{i}" for i in range(32) if i not in (0, 1, 2, 3, 4, 8) and (i < 16 or "s2" in self.saved)]}

    def regname(self, s):
        return {"x%d" % i: n for i, n in enumerate(ABI32)}.get(s, s)

    def g(self, s):
        s = "s0" if s == "fp" else s
        if s == "zero":
            return lambda m: 0
        if s not in ABI:
            raise KeyError(s)
        return lambda m: m.r[s]

    def p(self, s, n=None):
        if s == "zero":
            return lambda m, v: None
        s = "s0" if s == "fp" else s
        if s not in ABI:
            raise KeyError(s)
        k = mask(self.xlen)

        def f(m, v):
            m.r[s] = v & k
        return f

    def addr(self, s):
        k = re.fullmatch(r"(-?\w+)?\((\w+)\)", s)
        b, o = self.g(k[2]), num(k[1]) if k[1] else 0
        return lambda m: (b(m) + o) & mask(self.xlen)

    def ins(self, mn, o, addr, nxt, relocs, rest):
        X = self.xlen

        def seq(f):
            def g(m):
                f(m)
                return nxt
            return g
        if mn.startswith("c."):
            mn = mn[2:]
        if mn in ("nop",):
            return lambda m: nxt
        if mn == "ret":
            return lambda m: m.r["ra"]
        if mn in ("jr", "jalr") and len(o) == 1 and mn == "jr":
            a = self.g(o[0])
            return lambda m: a(m)
        if mn == "j":
            t = num(o[0])
            return lambda m: t
        S = lambda v: sx(v, X)
        U = lambda v: v
        BR = {"beq": lambda a, b: a == b, "bne": lambda a, b: a != b, "blt": lambda a, b: S(a) < S(b), "bge": lambda a, b: S(a) >= S(b), "bltu": lambda a, b: a < b, "bgeu": lambda a, b: a >= b, "bgt": lambda a, b: S(a) > S(b), "ble": lambda a, b: S(a) <= S(b), "bgtu": lambda a, b: a > b, "bleu": lambda a, b: a <= b}
        if mn in BR:
            a, b, t, c = self.g(o[0]), self.g(o[1]), num(o[2]), BR[mn]
            return lambda m: t if c(a(m), b(m)) else nxt
        BZ = {"beqz": lambda a: a == 0, "bnez": lambda a: a != 0, "bltz": lambda a: S(a) < 0, "bgez": lambda a: S(a) >= 0, "bgtz": lambda a: S(a) > 0, "blez": lambda a: S(a) <= 0}
        if mn in BZ:
            a, t, c = self.g(o[0]), num(o[1]), BZ[mn]
            return lambda m: t if c(a(m)) else nxt
        if mn == "fence":
            ops = o if o else ["rw", "rw"]
            return seq(lambda m: m.fence(ops[0], ops[1]))
        if mn == "fence.tso":
            def f(m):
                m.fence("r", "rw")
                m.fence("rw", "w")
            return seq(f)
        if mn in ("csrr", "csrw", "csrrci", "csrrsi", "csrrw", "csrrc", "csrrs", "csrsi", "csrci", "csrs", "csrc"):
            return self.csr(mn, o, seq)
        W = lambda v: sx(v, 32)
        AL = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b,
              "andn": lambda a, b: a & ~b, "orn": lambda a, b: a | ~b, "xnor": lambda a, b: ~(a ^ b),
              "sll": lambda a, b: a << (b % X), "srl": lambda a, b: a >> (b % X), "sra": lambda a, b: S(a) >> (b % X),
              "slt": lambda a, b: int(S(a) < S(b)), "sltu": lambda a, b: int(a < b), "mul": lambda a, b: a * b,
              "addw": lambda a, b: W(a + b), "subw": lambda a, b: W(a - b), "sllw": lambda a, b: W(a << (b % 32)), "srlw": lambda a, b: W((a & mask(32)) >> (b % 32)), "sraw": lambda a, b: W(a) >> (b % 32),
              "max": lambda a, b: max(S(a), S(b)), "min": lambda a, b: min(S(a), S(b)), "maxu": max, "minu": min}
        imm = {"addi": "add", "andi": "and", "ori": "or", "xori": "xor", "slli": "sll", "srli": "srl", "srai": "sra", "slti": "slt", "sltiu": "sltu", "addiw": "addw", "slliw": "sllw", "srliw": "srlw", "sraiw": "sraw"}
        if mn in AL or mn in imm:
            d, a = self.p(o[0]), self.g(o[1])
            if mn in imm:
                k = num(o[2]) & mask(X)
                f = AL[imm[mn]]
                return seq(lambda m: d(m, f(a(m), k)))
            b, f = self.g(o[2]), AL[mn]
            return seq(lambda m: d(m, f(a(m), b(m))))
        UN = {"mv": lambda a: a, "not": lambda a: ~a, "neg": lambda a: -a, "negw": lambda a: W(-a), "seqz": lambda a: int(a == 0), "snez": lambda a: int(a != 0), "sltz": lambda a: int(S(a) < 0), "sgtz": lambda a: int(S(a) > 0), "sext.w": W, "sext.b": lambda a: sx(a, 8), "sext.h": lambda a: sx(a, 16), "zext.b": lambda a: a & 255, "zext.h": lambda a: a & 0xffff, "zext.w": lambda a: a & mask(32)}
        if mn in UN:
            d, a, f = self.p(o[0]), self.g(o[1]), UN[mn]
            return seq(lambda m: d(m, f(a(m))))
        if mn == "li":
            d, k = self.p(o[0]), num(o[1])
            return seq(lambda m: d(m, k))
        if mn == "lui":
            d, k = self.p(o[0]), sx(num(o[1]) << 12, 32)
            return seq(lambda m: d(m, k))
        LD = {"lb": (1, 1), "lbu": (1, 0), "lh": (2, 1), "lhu": (2, 0), "lw": (4, 1), "lwu": (4, 0), "ld": (8, 1)}
        if mn in LD:
            n, sg = LD[mn]
            d, a = self.p(o[0]), self.addr(o[1])
            return seq(lambda m: d(m, sx(m.ld(a(m), n), 8 * n) if sg else m.ld(a(m), n)))
        ST = {"sb": 1, "sh": 2, "sw": 4, "sd": 8}
        if mn in ST:
            n, s, a = ST[mn], self.g(o[0]), self.addr(o[1])
            return seq(lambda m: m.st(a(m), n, s(m)))
        k = re.fullmatch(r"(lr|sc|amoswap|amoadd|amoand|amoor|amoxor|amomax|amomin|amomaxu|amominu|amocas)\.([bhwdq])(?:\.(aq|rl|aqrl))?", mn)
        if k:
            n = {"b": 1, "h": 2, "w": 4, "d": 8, "q": 16}[k[2]]
            q = k[3] or ""
            aq, rl = "aq" in q, "rl" in q
            fl = dict(acq=aq, rel=rl, sc=aq and rl)
            if n > self.word:
                return None
            if k[1] == "lr":
                d, a = self.p(o[0]), self.addr(o[1])
                return seq(lambda m: d(m, sx(m.ll(a(m), n, **fl), 8 * n)))
            d, s, a = self.p(o[0]), self.g(o[1]), self.addr(o[2])
            if k[1] == "sc":
                return seq(lambda m: d(m, int(not m.sc(a(m), n, s(m), **fl))))
            bits = 8 * n
            if k[1] == "amocas":
                e = self.g(o[0])

                def f(m):
                    x, y = e(m) & mask(bits), s(m)
                    d(m, sx(m.rmw(a(m), n, lambda old: y if old == x else None, **fl), bits))
                return seq(f)
            F = {"amoswap": lambda x, y: y, "amoadd": lambda x, y: x + y, "amoand": lambda x, y: x & y, "amoor": lambda x, y: x | y, "amoxor": lambda x, y: x ^ y, "amomaxu": max, "amominu": min}[k[1]]
            return seq(lambda m: d(m, sx(m.rmw(a(m), n, lambda old, v=s(m) & mask(bits): F(old, v), **fl), bits)))
        return None

    def csr(self, mn, o, seq):
        return None
