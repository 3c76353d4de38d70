"""s390x (z/Architecture)."""
from .isa import *

# branch mnemonic -> condition codes taken
JCC = {"j": (0, 1, 2, 3), "je": (0,), "jz": (0,), "jne": (1, 2, 3), "jnz": (1, 2, 3), "jl": (1,), "jm": (1,), "jnl": (0, 2, 3), "jnm": (0, 2, 3), "jh": (2,), "jp": (2,), "jnh": (0, 1, 3), "jnp": (0, 1, 3),
       "jlh": (1, 2), "jnlh": (0, 3), "jhe": (0, 2), "jnhe": (1, 3), "jle": (0, 1), "jnle": (2, 3), "jo": (3,), "jno": (0, 1, 2), "jg": (0, 1, 2, 3), "jge": (0,), "jglh": (1, 2), "jgne": (1, 2, 3)}


class S390x(Isa):
    name = "s390x"
    big = True
    tso = True
    llsc = False
    args, ret, sp, link = ("r2", "r3", "r4"), "r2", "r15", "r14"
    allregs = [f"r{i}" for i in range(16)]
    saved = tuple(f"r{i}" for i in range(6, 14)) + ("r15",)
    granule = 16
    min_atomic = 4
    stop = 0x7FFF_0000
    frame = 160
    comments = False

    def dump_args(self):
        return ["--mcpu=z14"]

    pools = {"r": [f"r{i}" for i in range(14) if i != 11], "a": [f"r{i}" for i in range(1, 14) if i != 11]}

    def state(self, m):
        return dict(m.r, **{"cc ": m.cc})

    def flags_random(self, m, rng):
        m.cc = rng.randrange(4)
        m.pm = rng.randrange(16)
        m.pm0 = m.pm

    def rn(self, s):
        s = s.lstrip("%r")
        if not re.fullmatch(r"\d+", s) or int(s) > 15:
            raise KeyError(s)
        return f"r{int(s)}"

    def ea(self, s):
        k = re.fullmatch(r"(-?\w+)?\(([^)]*)\)", s)
        if not k:
            v = num(s)
            return lambda m: v & mask(64)
        off = num(k[1]) if k[1] else 0
        rs = [self.rn(x) for x in k[2].split(",") if x.strip() and x.strip() != "0"]
        rs = [r for r in rs if r != "r0"]  # register 0 means none
        return lambda m: (off + sum(m.r[r] for r in rs)) & mask(64)

    def ins(self, mn, o, addr, nxt, relocs, rest):
        rn, ea = self.rn, self.ea
        K = mask(64)

        def seq(f):
            def g(m):
                f(m)
                return nxt
            return g

        def low(m, r, v):
            m.r[r] = m.r[r] & ~mask(32) & K | v & mask(32)

        def cmp(m, a, b):
            m.cc = 0 if a == b else 1 if a < b else 2
        if mn in ("nop", "nopr"):
            return lambda m: nxt
        if mn == "br" and o[0].startswith("%"):
            r = rn(o[0])
            return lambda m: m.r[r]
        if mn in ("br", "bnor", "bcr") and o[0] in ("0", "14", "15", "%r0"):
            # bcr 14,0 and bcr 15,0 serialize
            return seq(lambda m: m.fence())
        if mn in JCC:
            t, c = num(o[0]), JCC[mn]
            return lambda m: t if m.cc in c else nxt
        L64 = {"lg": (8, 0), "lgf": (4, 1), "llgf": (4, 0), "lgh": (2, 1), "llgh": (2, 0), "lgb": (1, 1), "llgc": (1, 0)}
        if mn in L64:
            n, sg = L64[mn]
            d, a = rn(o[0]), ea(o[1])

            def f(m):
                v = m.ld(a(m), n)
                m.r[d] = (sx(v, 8 * n) if sg else v) & K
            return seq(f)
        LH = {"lbh": (1, 1), "llch": (1, 0), "lhh": (2, 1), "llhh": (2, 0), "lfh": (4, 0)}
        if mn in LH:
            n, sg = LH[mn]
            d, a = rn(o[0]), ea(o[1])

            def f(m):
                v = m.ld(a(m), n)
                m.r[d] = m.r[d] & mask(32) | ((sx(v, 8 * n) if sg else v) & mask(32)) << 32
            return seq(f)
        k = re.fullmatch(r"c(l?)(g?)(r|i)(j\w+)", mn)
        if k and k[4] in JCC:
            b, t, c = 64 if k[2] else 32, num(o[2]), JCC[k[4]]
            x, y = rn(o[0]), rn(o[1]) if k[3] == "r" else num(o[1])

            def f(m):
                p, q = m.r[x] & mask(b), m.r[y] & mask(b) if k[3] == "r" else y & mask(b)
                if not k[1]:
                    p, q = sx(p, b), sx(q, b)
                return t if (0 if p == q else 1 if p < q else 2) in c else nxt
            return f
        L32 = {"l": (4, 0), "ly": (4, 0), "lh": (2, 1), "lhy": (2, 1), "llh": (2, 0), "lb": (1, 1), "llc": (1, 0)}
        if mn in L32:
            n, sg = L32[mn]
            d, a = rn(o[0]), ea(o[1])

            def f(m):
                v = m.ld(a(m), n)
                low(m, d, sx(v, 8 * n) if sg else v)
            return seq(f)
        ST = {"stg": 8, "st": 4, "sty": 4, "sth": 2, "sthy": 2, "stc": 1, "stcy": 1}
        if mn in ST:
            n, s, a = ST[mn], rn(o[0]), ea(o[1])
            return seq(lambda m: m.st(a(m), n, m.r[s]))
        if mn in ("lmg", "stmg"):
            i, j, a = int(rn(o[0])[1:]), int(rn(o[1])[1:]), ea(o[2])
            rs = [f"r{x % 16}" for x in range(i, (j if j >= i else j + 16) + 1)]

            def f(m):
                x = a(m)
                for q, r in enumerate(rs):
                    if mn == "stmg":
                        m.st(x + 8 * q, 8, m.r[r])
                    else:
                        m.r[r] = m.ld(x + 8 * q, 8)
            return seq(f)
        if mn in ("lpq", "stpq"):
            d, a = rn(o[0]), ea(o[1])
            d2 = f"r{int(d[1:]) + 1}"
            if int(d[1:]) % 2:
                return None
            if mn == "lpq":
                def f(m):
                    m.chk(a(m), 16, False, True)
                    v = m.ld(a(m), 16, parts=16)
                    m.r[d], m.r[d2] = v >> 64, v & K
                return seq(f)
            return seq(lambda m: m.st(a(m), 16, m.r[d] << 64 | m.r[d2], parts=16))
        if mn in ("cs", "csy", "csg", "cdsg", "cds"):
            n = {"cs": 4, "csy": 4, "csg": 8, "cdsg": 16}.get(mn)
            if n is None:
                return None
            r1, r3, a = rn(o[0]), rn(o[1]), ea(o[2])
            p1, p3 = f"r{int(r1[1:]) + 1}", f"r{int(r3[1:]) + 1}"
            if n == 16 and (int(r1[1:]) % 2 or int(r3[1:]) % 2):
                return None

            def f(m):
                if n == 16:
                    old, new = m.r[r1] << 64 | m.r[p1], m.r[r3] << 64 | m.r[p3]
                else:
                    old, new = m.r[r1] & mask(8 * n), m.r[r3] & mask(8 * n)
                m.fence()
                cur = m.rmw(a(m), n, lambda v: new if v == old else None, acq=True, rel=True, sc=True)
                m.fence()
                if cur == old:
                    m.cc = 0
                    return
                m.cc = 1
                if n == 16:
                    m.r[r1], m.r[p1] = cur >> 64, cur & K
                elif n == 8:
                    m.r[r1] = cur
                else:
                    low(m, r1, cur)
            return seq(f)
        if mn in ("lr", "lgr", "lghi", "lhi", "lcr", "lcgr", "llhr", "llcr", "lhr", "lbr", "llgfr", "lgfr", "lgbr", "lghr", "llghr", "llgcr", "ltr", "ltgr"):
            d = rn(o[0])
            if mn in ("lghi", "lhi"):
                k = num(o[1])
                return seq(lambda m: m.r.__setitem__(d, k & K) if mn == "lghi" else low(m, d, k))
            s = rn(o[1])

            def f(m):
                v = m.r[s]
                if mn == "lr":
                    low(m, d, v)
                elif mn == "lgr":
                    m.r[d] = v
                elif mn in ("lcr", "lcgr"):
                    b = 32 if mn == "lcr" else 64
                    x = -sx(v, b)
                    m.cc = 3 if x == 1 << (b - 1) else 0 if x == 0 else 1 if x < 0 else 2
                    if b == 32:
                        low(m, d, x)
                    else:
                        m.r[d] = x & K
                elif mn in ("ltr", "ltgr"):
                    b = 32 if mn == "ltr" else 64
                    cmp(m, sx(v, b), 0)
                    if b == 32:
                        low(m, d, v)
                    else:
                        m.r[d] = v
                elif mn in ("llhr", "llcr"):
                    low(m, d, v & mask(16 if mn == "llhr" else 8))
                elif mn in ("lhr", "lbr"):
                    low(m, d, sx(v, 16 if mn == "lhr" else 8))
                else:
                    m.r[d] = {"llgfr": v & mask(32), "lgfr": sx(v, 32) & K, "lghr": sx(v, 16) & K, "lgbr": sx(v, 8) & K, "llghr": v & 0xFFFF, "llgcr": v & 0xFF}[mn]
            return seq(f)
        def put(m, b, d, v):
            if b == 64:
                m.r[d] = v & K
            else:
                low(m, d, v)

        def arith(m, op, b, p, q, c=0):
            """p, q unsigned; sets the condition code, gives the result"""
            if op in ("n", "o", "x"):
                v = p & q if op == "n" else p | q if op == "o" else p ^ q
                m.cc = int(v & mask(b) != 0)
            elif op in ("al", "sl"):
                v = p + q + c if op == "al" else p + (q ^ mask(b)) + (1 if c is None else c)
                m.cc = (2 if v >> b & 1 else 0) + int(v & mask(b) != 0)
            elif op in ("a", "s"):
                v = sx(p, b) + sx(q, b) if op == "a" else sx(p, b) - sx(q, b)
                m.cc = 3 if v != sx(v, b) else 0 if v == 0 else 1 if v < 0 else 2
            elif op == "ms":
                v = p * q
            return v & mask(b)

        # binary operations: first operand, then register / memory / immediate
        k = re.fullmatch(r"(al|sl|ms|a|s|n|o|x)(g?)(r|rk|fr|hi|hik|fi|hsik|y|h|hy|f|ghi)?", mn)
        if k:
            op, b, x = k[1], 64 if k[2] else 32, k[3] or ""
            d = rn(o[0])
            if x in ("r", "rk", "fr"):
                p, q = (rn(o[0]), rn(o[1])) if x != "rk" else (rn(o[1]), rn(o[2]))
                w = 32 if x == "fr" else b
                g = (lambda m: m.r[q] & mask(w)) if op in ("al", "sl") or w == b else (lambda m: sx(m.r[q], w) & mask(b))
            elif x in ("hi", "hik", "fi", "hsik"):
                p, v = (rn(o[0]), num(o[1])) if x in ("hi", "fi") else (rn(o[1]), num(o[2]))
                if op in ("n", "o", "x"):
                    return None
                v = v & mask(32) if op in ("al", "sl") and x == "fi" else v & mask(b)
                g = lambda m: v
            else:
                w = {"": b, "y": b, "h": 16, "hy": 16, "f": 32}[x]
                e, p = ea(o[1]), rn(o[0])
                g = lambda m: m.ld(e(m), w // 8) if op in ("al", "sl") else sx(m.ld(e(m), w // 8), w) & mask(b)
            return seq(lambda m: put(m, b, d, arith(m, op, b, m.r[p] & mask(b), g(m), None if op == "sl" else 0)))
        if mn in ("alcr", "alcgr", "slbr", "slbgr"):
            b, d, q = 64 if "g" in mn else 32, rn(o[0]), rn(o[1])
            return seq(lambda m: put(m, b, d, arith(m, mn[:2], b, m.r[d] & mask(b), m.r[q] & mask(b), int(m.cc >= 2))))
        if mn in ("asi", "agsi", "alsi", "algsi"):
            b, e, v = 64 if "g" in mn else 32, ea(o[0]), num(o[1])
            return seq(lambda m: m.st(e(m), b // 8, arith(m, "al" if "l" in mn else "a", b, m.ld(e(m), b // 8), v & mask(b))))
        if mn in ("mhi", "mghi"):
            b, d, v = 64 if "g" in mn else 32, rn(o[0]), num(o[1])
            return seq(lambda m: put(m, b, d, m.r[d] * v))
        # comparisons
        k = re.fullmatch(r"c(l?)(g?)(r|fr|hi|fi|h|hy|f|y)?", mn)
        if k:
            lg, b, x = bool(k[1]), 64 if k[2] else 32, k[3] or ""
            p = rn(o[0])
            if x in ("r", "fr"):
                q, w = rn(o[1]), 32 if x == "fr" else b
                g = lambda m: m.r[q] & mask(w) if lg else sx(m.r[q], w)
            elif x in ("hi", "fi"):
                v = num(o[1]) & mask(32) if lg else num(o[1])
                g = lambda m: v
            else:
                w, e = {"": b, "y": b, "h": 16, "hy": 16, "f": 32}[x], ea(o[1])
                g = lambda m: m.ld(e(m), w // 8) if lg else sx(m.ld(e(m), w // 8), w)
            return seq(lambda m: cmp(m, m.r[p] & mask(b) if lg else sx(m.r[p], b), g(m)))
        k = {"chhsi": (2, 1), "chsi": (4, 1), "cghsi": (8, 1), "clhhsi": (2, 0), "clfhsi": (4, 0), "clghsi": (8, 0), "cli": (1, 0), "cliy": (1, 0)}.get(mn)
        if k:
            n, e, v = k[0], ea(o[0]), num(o[1])
            return seq(lambda m: cmp(m, sx(m.ld(e(m), n), 8 * n) if k[1] else m.ld(e(m), n), v))
        k = {"mvi": 1, "mviy": 1, "mvhhi": 2, "mvhi": 4, "mvghi": 8}.get(mn)
        if k:
            e, v = ea(o[0]), num(o[1])
            return seq(lambda m: m.st(e(m), k, v))
        if mn in ("ni", "oi", "xi", "niy", "oiy", "xiy"):
            e, v = ea(o[0]), num(o[1])
            return seq(lambda m: m.st(e(m), 1, arith(m, mn[0], 8, m.ld(e(m), 1), v)))
        if mn in ("tm", "tmy"):
            e, k = ea(o[0]), num(o[1])

            def f(m):
                v = m.ld(e(m), 1) & k
                m.cc = 0 if v == 0 else 3 if v == k else 1
            return seq(f)
        if mn in ("la", "lay"):
            d, e = rn(o[0]), ea(o[1])
            return seq(lambda m: m.r.__setitem__(d, e(m)))
        if mn in ("lt", "ltg", "ltgf"):
            d, e, n = rn(o[0]), ea(o[1]), 8 if mn == "ltg" else 4

            def f(m):
                v = sx(m.ld(e(m), n), 8 * n)
                cmp(m, v, 0)
                put(m, 32 if mn == "lt" else 64, d, v)
            return seq(f)
        k = re.fullmatch(r"(ll|i)i(ll|lh|hl|hh|lf|hf)", mn)
        if k:
            d, v, sh, w = rn(o[0]), num(o[1]), {"ll": 0, "lh": 16, "hl": 32, "hh": 48, "lf": 0, "hf": 32}[k[2]], 32 if k[2][1] == "f" else 16
            return seq(lambda m: m.r.__setitem__(d, (v & mask(w)) << sh | (0 if k[1] == "ll" else m.r[d] & ~(mask(w) << sh) & K)))
        if mn == "lgfi":
            d, v = rn(o[0]), num(o[1])
            return seq(lambda m: m.r.__setitem__(d, sx(v, 32) & K))
        k = re.fullmatch(r"(lrv|strv)(g|h)?(r)?", mn)
        if k:
            n = {"g": 8, "h": 2, None: 4}[k[2]]
            turn = lambda v: int.from_bytes((v & mask(8 * n)).to_bytes(n, "big"), "little")
            d = rn(o[0])
            if k[3]:
                s = rn(o[1])
                return seq(lambda m: put(m, 8 * n, d, turn(m.r[s])))
            e = ea(o[1])
            if k[1] == "strv":
                return seq(lambda m: m.st(e(m), n, turn(m.r[d])))
            if n == 2:
                return seq(lambda m: m.r.__setitem__(d, m.r[d] & ~0xFFFF & K | turn(m.ld(e(m), 2))))
            return seq(lambda m: put(m, 8 * n, d, turn(m.ld(e(m), n))))
        if mn in ("brct", "brctg"):
            d, t, b = rn(o[0]), num(o[1]), 64 if mn == "brctg" else 32

            def f(m):
                put(m, b, d, m.r[d] - 1)
                return t if m.r[d] & mask(b) else nxt
            return f
        if mn == "flogr":
            d, s = rn(o[0]), rn(o[1])

            def f(m):
                v = m.r[s]
                k = 64 - v.bit_length()
                m.r[d], m.r[f"r{int(d[1:]) + 1}"] = k, v & ~(1 << (63 - k)) & K if v else 0
                m.cc = 2 if v else 0
            return seq(f)
        if mn in ("tmll", "tmlh", "tmhl", "tmhh"):
            d, k, sh = rn(o[0]), num(o[1]) & mask(16), {"ll": 0, "lh": 16, "hl": 32, "hh": 48}[mn[2:]]

            def f(m):
                v = m.r[d] >> sh & k
                m.cc = 0 if v == 0 else 3 if v == k else 2 if v.bit_length() == k.bit_length() else 1
            return seq(f)
        k = re.fullmatch(r"(n|o|x)i(ll|lh|hl|hh|lf|hf)", mn)
        if k:
            d, v, sh, w = rn(o[0]), num(o[1]), {"ll": 0, "lh": 16, "hl": 32, "hh": 48, "lf": 0, "hf": 32}[k[2]], 32 if k[2][1] == "f" else 16

            def f(m):
                x = arith(m, k[1], w, m.r[d] >> sh & mask(w), v & mask(w))
                m.r[d] = m.r[d] & ~(mask(w) << sh) & K | x << sh
            return seq(f)
        if mn == "ipm":
            d = rn(o[0])

            def f(m):
                m.r[d] = m.r[d] & ~(0xFF << 24) & K | (m.cc << 28 | m.pm << 24)
            return seq(f)
        if mn == "aih":
            d, k = rn(o[0]), num(o[1])

            def f(m):
                v = sx(m.r[d] >> 32, 32) + k
                m.cc = 3 if v != sx(v, 32) else 0 if v == 0 else 1 if v < 0 else 2
                m.r[d] = m.r[d] & mask(32) | (v & mask(32)) << 32
            return seq(f)
        if mn in ("stch", "sthh", "stfh"):
            n, s, a = {"c": 1, "h": 2, "f": 4}[mn[2]], rn(o[0]), ea(o[1])
            return seq(lambda m: m.st(a(m), n, m.r[s] >> 32))
        if mn in ("rll", "rllg"):
            d, s, a, b = rn(o[0]), rn(o[1]), ea(o[2]), 32 if mn == "rll" else 64

            def f(m):
                k = a(m) & 63
                v = m.r[s] & mask(b)
                k %= b
                v = (v << k | v >> (b - k)) & mask(b)
                if b == 32:
                    low(m, d, v)
                else:
                    m.r[d] = v
            return seq(f)
        if mn in ("sll", "srl", "sra", "sllg", "srlg", "srag", "sllk", "srlk", "srak"):
            d, s, a = rn(o[0]), rn(o[-2]), ea(o[-1])
            b = 64 if mn[-1] == "g" else 32

            def f(m):
                k, v = a(m) & 63, m.r[s] & mask(b)
                if mn[2] == "a":
                    v = sx(v, b) >> k
                    cmp(m, v, 0)
                else:
                    v = v << k if mn[1] == "l" else v >> k
                put(m, b, d, v)
            return seq(f)
        k = re.fullmatch(r"(risbg|risbgn|rosbg|rxsbg|rnsbg)(z)?", mn)
        if k:
            d, s = rn(o[0]), rn(o[1])
            if num(o[2]) & 0x80:
                return None
            i3, i4, i5 = num(o[2]) & 63, num(o[3]), num(o[4]) & 63 if len(o) > 4 else 0
            z = bool(k[2]) or bool(i4 & 0x80)
            i4 &= 63
            if i3 <= i4:
                sel = mask(i4 - i3 + 1) << (63 - i4)
            else:
                sel = K & ~(mask(i3 - i4 - 1) << (63 - (i3 - 1)))

            def f(m):
                v = m.r[s]
                v = (v << i5 | v >> (64 - i5)) & K if i5 else v
                if k[1][:2] != "ri":
                    # operate on the selected bits; bit 0 of i3 (test only) is not used by compilers
                    x = m.r[d]
                    q = x & v if k[1] == "rnsbg" else x | v if k[1] == "rosbg" else x ^ v
                    m.r[d] = q & sel | x & ~sel & K
                    m.cc = int(q & sel != 0)
                    return
                m.r[d] = v & sel | (0 if z else m.r[d] & ~sel & K)
                if k[1] == "risbg":
                    cmp(m, sx(m.r[d], 64), 0)
            return seq(f)
        k = re.fullmatch(r"risb([hl])g(z)?", mn)
        if k:
            # one half of the first operand
            d, s = rn(o[0]), rn(o[1])
            i3, i4, i5 = num(o[2]) & 31, num(o[3]), num(o[4]) & 63 if len(o) > 4 else 0
            z = bool(k[2]) or bool(i4 & 0x80)
            i4 &= 31
            sh = 32 if k[1] == "h" else 0
            sel = mask(i4 - i3 + 1) << (31 - i4) if i3 <= i4 else mask(32) & ~(mask(i3 - i4 - 1) << (32 - i3))

            def f(m):
                v = m.r[s]
                v = (v << i5 | v >> (64 - i5)) & K if i5 else v
                old = m.r[d] >> sh & mask(32)
                x = v >> sh & sel | (0 if z else old & ~sel)
                m.r[d] = m.r[d] & ~(mask(32) << sh) & K | (x & mask(32)) << sh
            return seq(f)
        if mn.startswith(("locr", "locgr", "lochi", "locghi", "loc")):
            q = re.fullmatch(r"(locghi|lochi|locgr|locr|locg|loc)(\w+)", mn)
            if not q or "j" + q[2] not in JCC:
                # the longest match is not always the right one (locgrh / locg + rh)
                q = re.fullmatch(r"(locg|loc)(\w+)", mn)
            if not q or "j" + q[2] not in JCC:
                return None
            c, d = JCC["j" + q[2]], rn(o[0])
            if q[1].endswith("hi"):
                v = num(o[1])
                g = lambda m: v
            elif not q[1].endswith("r"):
                e, n = ea(o[1]), 8 if "g" in q[1] else 4
                g = lambda m: m.ld(e(m), n)
            else:
                s = rn(o[1])
                g = lambda m: m.r[s]

            def f(m):
                if m.cc in c:
                    if "g" in q[1]:
                        m.r[d] = g(m) & K
                    else:
                        low(m, d, g(m))
            return seq(f)
        return None
