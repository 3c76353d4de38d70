"""MIPS, 32- and 64-bit, up to release 5 and release 6."""
from .isa import *

NAMES = {"zero": 0, "at": 1, "gp": 28, "sp": 29, "fp": 30, "ra": 31}


class Mips(Isa):
    name = "mips"
    non_mca = True
    args, ret, sp, link = ("r4", "r5", "r6"), "r2", "r29", "r31"
    allregs = [f"r{i}" for i in range(1, 32)]
    saved = tuple(f"r{i}" for i in range(16, 24)) + ("r28", "r29", "r30")
    stop = 0x7FFF_0000
    min_atomic = 4
    strict_align = True
    res_granule = 64
    comments = False

    def __init__(self, bits=32, big=True):
        self.bits, self.big = bits, big
        self.word = self.usize = self.single_copy = bits // 8
        self.granule = 2 * self.word
        self.frame = 16 if bits == 32 else 0
        self.amask = mask(bits)
        self.base = 0x3F_1234_0000 if bits == 64 else 0x1ABC_0000

    pools = {"r": [f"${i}" for i in (*range(2, 16), *range(16, 26))]}

    def regname(self, s):
        return "r" + s[1:] if s[0] == "$" else s

    def flags_random(self, m, rng):
        # addresses on a 32-bit machine are kept as they are; 32-bit values in 64-bit registers are sign-extended
        pass

    def rn(self, s):
        s = s.lstrip("$")
        i = NAMES.get(s, s)
        i = int(i)
        if not 0 <= i < 32:
            raise KeyError(s)
        return f"r{i}"

    def g(self, s):
        r = self.rn(s)
        if r == "r0":
            return lambda m: 0
        return lambda m: m.r[r]

    def p(self, s):
        r = self.rn(s)
        K = mask(self.bits)

        def f(m, v):
            if r != "r0":
                m.r[r] = v & K
        return f

    def ins(self, mn, o, addr, nxt, relocs, rest):
        B = self.bits
        W = lambda v: sx(v, 32)
        S = lambda v: sx(v, B)

        def seq(f):
            def g(m):
                f(m)
                return nxt
            return g

        def branch(cond, t):
            def f(m):
                if cond(m):
                    m.branch = t
                else:
                    m.branch = nxt + 4
                return nxt
            return f
        if mn in ("nop", "ssnop", "ehb"):
            return lambda m: nxt
        if mn in ("jr", "jalr") and len(o) == 1 or mn == "jrc":
            a = self.g(o[0])
            if mn == "jrc":
                return lambda m: a(m)

            def f(m):
                m.branch = a(m)
                return nxt
            return f if mn == "jr" else None
        if mn in ("b", "j"):
            return branch(lambda m: True, num(o[0]))
        if mn == "bc":
            t = num(o[0])
            return lambda m: t
        C = {"beq": lambda a, b: a == b, "bne": lambda a, b: a != b}
        if mn in C:
            a, b, c = self.g(o[0]), self.g(o[1]), C[mn]
            return branch(lambda m: c(a(m), b(m)), num(o[2]))
        if mn in ("beqz", "bnez"):
            a, z = self.g(o[0]), mn == "beqz"
            return branch(lambda m: (a(m) == 0) == z, num(o[1]))
        k = re.fullmatch(r"(beq|bne)z?c", mn)
        if k:
            z = k[1] == "beq"
            t = num(o[-1])
            a, b = self.g(o[0]), (self.g(o[1]) if len(o) == 3 else lambda m: 0)
            return lambda m: t if (a(m) == b(m)) == z else nxt
        if mn == "sync":
            k = num(o[0]) if o else 0
            if k == 0:
                return seq(lambda m: m.fence())
            if k == 0x10:
                return None
            return None
        AL = {"addu": lambda a, b: W(a + b), "subu": lambda a, b: W(a - b), "daddu": lambda a, b: a + b, "dsubu": lambda a, b: a - b, "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b, "nor": lambda a, b: ~(a | b), "slt": lambda a, b: int(S(a) < S(b)), "sltu": lambda a, b: int(a < b),
              "sllv": lambda a, b: W(a << (b & 31)), "srlv": lambda a, b: W((a & mask(32)) >> (b & 31)), "srav": lambda a, b: W(a) >> (b & 31), "dsllv": lambda a, b: a << (b & 63), "dsrlv": lambda a, b: a >> (b & 63), "dsrav": lambda a, b: S(a) >> (b & 63), "drotrv": lambda a, b: a >> (b & 63) | a << (64 - (b & 63)),
              "rotrv": lambda a, b: W((a & mask(32)) >> (b & 31) | (a & mask(32)) << (32 - (b & 31))), "mul": lambda a, b: W(a * b), "dmul": lambda a, b: a * b,
              "seleqz": lambda a, b: a if b == 0 else 0, "selnez": lambda a, b: a if b != 0 else 0}
        IM = {"addiu": "addu", "daddiu": "daddu", "andi": "and", "ori": "or", "xori": "xor", "slti": "slt", "sltiu": "sltu", "sll": "sllv", "srl": "srlv", "sra": "srav", "rotr": "rotrv", "drotr": "drotrv", "dsra": "dsrav", "dsll": "dsllv", "dsrl": "dsrlv"}
        if mn in AL or mn in IM:
            if len(o) == 2:
                o = [o[0]] + o
            d, a = self.p(o[0]), self.g(o[1])
            if mn in IM:
                k, f = num(o[2]) & mask(B), AL[IM[mn]]
                return seq(lambda m: d(m, f(a(m), k)))
            b, f = self.g(o[2]), AL[mn]
            return seq(lambda m: d(m, f(a(m), b(m))))
        if mn in ("dsll32", "dsrl32", "dsra32", "drotr32"):
            d, a, k, f = self.p(o[0]), self.g(o[-2]), num(o[-1]) + 32, AL[{"dsll32": "dsllv", "dsrl32": "dsrlv", "dsra32": "dsrav", "drotr32": "drotrv"}[mn]]
            return seq(lambda m: d(m, f(a(m), k)))
        if mn in ("movn", "movz"):
            d, a, b, x = self.p(o[0]), self.g(o[1]), self.g(o[2]), self.g(o[0])
            return seq(lambda m: d(m, a(m) if (b(m) == 0) == (mn == "movz") else x(m)))
        UN = {"negu": lambda v: W(-v), "dnegu": lambda v: -v, "not": lambda v: ~v, "clz": lambda v: 32 - (v & mask(32)).bit_length(), "dclz": lambda v: 64 - v.bit_length(),
              "wsbh": lambda v: W((v & 0xFF00FF) << 8 | v >> 8 & 0xFF00FF), "dsbh": lambda v: (v & 0xFF00FF00FF00FF) << 8 | v >> 8 & 0xFF00FF00FF00FF,
              "dshd": lambda v: (v & 0xFFFF) << 48 | (v >> 16 & 0xFFFF) << 32 | (v >> 32 & 0xFFFF) << 16 | v >> 48}
        if mn in UN:
            d, a, u = self.p(o[0]), self.g(o[-1]), UN[mn]
            return seq(lambda m: d(m, u(a(m))))
        ZB = {"bltz": lambda a: a < 0, "blez": lambda a: a <= 0, "bgtz": lambda a: a > 0, "bgez": lambda a: a >= 0}
        if mn in ZB:
            a, c = self.g(o[0]), ZB[mn]
            return branch(lambda m: c(S(a(m))), num(o[1]))
        ZC = {"bltzc": lambda a: a < 0, "blezc": lambda a: a <= 0, "bgtzc": lambda a: a > 0, "bgezc": lambda a: a >= 0}
        if mn in ZC:
            a, c, t = self.g(o[0]), ZC[mn], num(o[1])
            return lambda m: t if c(S(a(m))) else nxt
        if mn in ("bltc", "bgec", "bltuc", "bgeuc"):
            a, b, t = self.g(o[0]), self.g(o[1]), num(o[2])
            e = (lambda v: v) if "u" in mn else S
            return lambda m: t if (e(a(m)) < e(b(m))) == (mn[1] == "l") else nxt
        if mn in ("ext", "dext", "dextm", "dextu", "ins", "dins", "dinsm", "dinsu"):
            d, a, x, pos, n = self.p(o[0]), self.g(o[1]), self.g(o[0]), num(o[2]), num(o[3])
            if mn.startswith(("e", "de")):
                return seq(lambda m: d(m, W(a(m) >> pos & mask(n)) if mn == "ext" else a(m) >> pos & mask(n)))

            def f(m):
                v = x(m) & ~(mask(n) << pos) | (a(m) & mask(n)) << pos
                d(m, W(v) if mn == "ins" else v)
            return seq(f)
        if mn == "move":
            d, a = self.p(o[0]), self.g(o[1])
            return seq(lambda m: d(m, a(m)))
        if mn == "lui":
            d, k = self.p(o[0]), W(num(o[1]) << 16)
            return seq(lambda m: d(m, k))
        if mn == "li":
            d, k = self.p(o[0]), num(o[1])
            return seq(lambda m: d(m, k))
        if mn in ("seb", "seh"):
            d, a, k = self.p(o[0]), self.g(o[1]), 8 if mn == "seb" else 16
            return seq(lambda m: d(m, sx(a(m), k)))

        def ea(s):
            k = re.fullmatch(r"(-?\w+)\(([$\w]+)\)", s)
            off, b = num(k[1]), self.g(k[2])
            return lambda m: (b(m) + off) & mask(B)
        LD = {"lb": (1, 1), "lbu": (1, 0), "lh": (2, 1), "lhu": (2, 0), "lw": (4, 1), "lwu": (4, 0), "ld": (8, 0)}
        if mn in LD:
            n, sg = LD[mn]
            d, a = self.p(o[0]), ea(o[1])
            return seq(lambda m: d(m, sx(m.ld(a(m), n), 8 * n) if sg else m.ld(a(m), n))) if 8 * n <= B else None
        ST = {"sb": 1, "sh": 2, "sw": 4, "sd": 8}
        if mn in ST:
            n, s, a = ST[mn], self.g(o[0]), ea(o[1])
            return seq(lambda m: m.st(a(m), n, s(m)))
        if mn in ("ll", "lld"):
            n = 8 if mn == "lld" else 4
            d, a = self.p(o[0]), ea(o[1])
            return seq(lambda m: d(m, sx(m.ll(a(m), n), 8 * n)))
        if mn in ("sc", "scd"):
            n = 8 if mn == "scd" else 4
            d, s, a = self.p(o[0]), self.g(o[0]), ea(o[1])
            return seq(lambda m: d(m, int(m.sc(a(m), n, s(m)))))
        return None

    def result(self, m):
        return m.r["r2"]
