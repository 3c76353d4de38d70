"""32- and 64-bit PowerPC. Reads are tracked through registers and condition bits to conditional
branches: isync makes the reads a preceding branch depends on acquire reads."""
from .isa import *

NONE = frozenset()


class PowerPC(Isa):
    name = "powerpc"
    non_mca = True
    ret, sp = "r3", "r1"
    args = ("r3", "r4", "r5")
    comments = False
    allregs = [f"r{i}" for i in range(32)]
    saved = ("r1", "r2", "r13") + tuple(f"r{i}" for i in range(14, 32))
    stop = 0x7FFF_0000
    res_granule = 128

    def __init__(self, bits=64, little=False, pwr8=False):
        self.bits = bits
        self.big = not little
        self.word = self.usize = self.single_copy = bits // 8
        self.granule = 2 * self.word
        self.min_atomic = 4
        self.amask = mask(bits)
        self.base = 0x3F_1234_0000 if bits == 64 else 0x9ABC_0000
        self.max = 16 if bits == 64 else 4

    def max_align(self, n):
        return n

    def set_link(self, m, stop):
        m.r["lr"] = stop

    pools = {"r": [f"r{i}" for i in (0, *range(3, 13), *range(14, 29))], "b": [f"r{i}" for i in (*range(3, 13), *range(14, 29))]}

    def state(self, m):
        d = dict(m.r)
        d.update((f"cr{i}", m.cr >> (28 - 4 * i) & 15) for i in range(8))
        return d

    def flags_random(self, m, rng):
        m.cr = rng.getrandbits(32)
        m.crt = {}
        m.ca = rng.getrandbits(1)
        m.brt = set()
        m.tt = {}
        m.cr0 = m.cr

    def leave(self, m):
        super().leave(m)
        # cr2 to cr4 are non-volatile
        if (m.cr ^ m.cr0) & 0x00FFF000:
            raise Bad("machine-state", f"non-volatile condition fields changed: {m.cr0:#x} -> {m.cr:#x}")

    def n(self, s):
        s = s.lstrip("r")
        if not re.fullmatch(r"\d+", s) or int(s) > 31:
            raise KeyError(s)
        return "r" + s

    def ins(self, mn, o, addr, nxt, relocs, rest):
        B = self.bits
        K = mask(B)
        n = self.n

        def seq(f):
            def g(m):
                f(m)
                return nxt
            return g

        def put(m, d, v, *srcs):
            m.r[d] = v & K
            m.tt[d] = frozenset().union(*(m.tt.get(s, NONE) for s in srcs)) if srcs else NONE

        def crf(m, i, v, t):
            sh = 28 - 4 * i
            m.cr = m.cr & ~(15 << sh) | (8 if v < 0 else 4 if v > 0 else 2) << sh
            m.crt[i] = t

        def cr0(m, v, t):
            crf(m, 0, sx(v, B), t)

        def bit(i):
            return 1 << (31 - i)

        rec = mn.endswith(".") and mn not in ("stwcx.", "stdcx.", "stqcx.", "sthcx.", "stbcx.")
        m0 = mn.rstrip(".") if rec else mn
        # extended mnemonics of the rotate instructions
        X = {"clrlwi": lambda k: ("rlwinm", 0, k, 31), "clrrwi": lambda k: ("rlwinm", 0, 0, 31 - k), "rotlwi": lambda k: ("rlwinm", k, 0, 31), "slwi": lambda k: ("rlwinm", k, 0, 31 - k), "srwi": lambda k: ("rlwinm", 32 - k & 31, k, 31),
             "clrldi": lambda k: ("rldicl", 0, k), "clrrdi": lambda k: ("rldicr", 0, 63 - k), "rotldi": lambda k: ("rldicl", k, 0), "sldi": lambda k: ("rldicr", k, 63 - k), "srdi": lambda k: ("rldicl", 64 - k & 63, k)}
        if m0 in X and len(o) == 3:
            m0, *k = X[m0](num(o[2]))
            o = [o[0], o[1], *map(str, k)]
            mn = m0 + "." if rec else m0
        if mn in ("nop",):
            return lambda m: nxt
        if mn == "blr":
            return lambda m: m.r["lr"]
        if mn == "b":
            t = num(o[0])
            return lambda m: t
        k = re.fullmatch(r"(bf|bt|bne|beq|blt|bge|bgt|ble|bso|bns|bclr|bc)(lr)?[-+]?", mn)
        if k and not (k[2] and k[1] in ("bclr", "bc")):
            if k[1] in ("bclr", "bc"):
                bo, i = num(o[0]), num(o[1])
                if bo & 0b10100 == 0b10100:
                    i = None
                elif bo & 4 == 0:
                    return None
                want, t = bool(bo & 8), None if mn == "bclr" else num(o[2])
            elif k[1] in ("bf", "bt"):
                i, want = num(o[0]), k[1] == "bt"
                t = None if k[2] else num(o[1])
            else:
                i, want = {"bne": (2, 0), "beq": (2, 1), "blt": (0, 1), "bge": (0, 0), "bgt": (1, 1), "ble": (1, 0), "bso": (3, 1), "bns": (3, 0)}[k[1]]
                if k[2]:
                    i, t = i + (4 * num(o[0].replace("cr", "")) if o else 0), None
                else:
                    i, t = i + (4 * num(o[0].replace("cr", "")) if len(o) == 2 else 0), num(o[-1])

            def f(m):
                if i is not None:
                    m.brt |= m.crt.get(i // 4, NONE)
                if i is None or bool(m.cr & bit(i)) == want:
                    return m.r["lr"] if t is None else t
                return nxt
            return f
        if mn == "sync" or mn == "hwsync" or (mn == "msync"):
            return seq(lambda m: m.fence())
        if mn in ("lwsync",):
            def f(m):
                m.fence("r", "rw")
                m.fence("rw", "w")
            return seq(f)
        if mn == "isync":
            def f(m):
                e = Ev("F", pred="", succ="rw")
                e.sys = set(m.brt)
                m.events.append(e)
            return seq(f)
        CR = {"crnot": lambda x, y: not x, "cror": lambda x, y: x | y, "crand": lambda x, y: x & y, "crxor": lambda x, y: x ^ y, "crmove": lambda x, y: x, "crnand": lambda x, y: not (x & y), "creqv": lambda x, y: x == y, "crnor": lambda x, y: not x | y, "crorc": lambda x, y: x | (not y), "crandc": lambda x, y: x & (not y)}
        if mn in CR:
            d, x, y, g = num(o[0]), num(o[1]), num(o[-1]), CR[mn]

            def f(m):
                v = g(bool(m.cr & bit(x)), bool(m.cr & bit(y)))
                m.cr = m.cr & ~bit(d) | (bit(d) if v else 0)
                m.crt[d // 4] = m.crt.get(d // 4, NONE) | m.crt.get(x // 4, NONE) | m.crt.get(y // 4, NONE)
            return seq(f)
        if mn == "mcrf":
            d, s = (num(x.removeprefix("cr")) for x in o)

            def f(m):
                v = m.cr >> (28 - 4 * s) & 15
                m.cr = m.cr & ~(15 << (28 - 4 * d)) | v << (28 - 4 * d)
                m.crt[d] = m.crt.get(s, NONE)
            return seq(f)
        if mn in ("crset", "crclr"):
            d = num(o[0])

            def f(m):
                m.cr = m.cr & ~bit(d) | (bit(d) if mn == "crset" else 0)
            return seq(f)
        if mn in ("isel", "isellt", "iselgt", "iseleq"):
            d, a, b, i = n(o[0]), n(o[1]), n(o[2]), num(o[3]) if mn == "isel" else {"lt": 0, "gt": 1, "eq": 2}[mn[4:]]

            def f(m):
                if m.cr & bit(i):
                    put(m, d, 0 if a == "r0" else m.r[a], *([] if a == "r0" else [a]))
                else:
                    put(m, d, m.r[b], b)
            return seq(f)
        if mn in ("mfcr", "mfocrf"):
            d = n(o[0])
            sel = num(o[1]) if mn == "mfocrf" else 255
            k = sum(15 << 4 * i for i in range(8) if sel >> i & 1)

            def f(m):
                put(m, d, m.cr & k)
                m.tt[d] = frozenset().union(*m.crt.values()) if m.crt else NONE
            return seq(f)
        if mn in ("mtcrf", "mtocrf"):
            s, sel = n(o[1]), num(o[0])
            k = sum(15 << 4 * i for i in range(8) if sel >> i & 1)

            def f(m):
                m.cr = m.cr & ~k | m.r[s] & k
                for i in range(8):
                    if sel >> (7 - i) & 1:
                        m.crt[i] = m.tt.get(s, NONE)
            return seq(f)
        k = re.fullmatch(r"cmp(l?)([wd])(i?)", mn)
        if k:
            fi = num(o[0].replace("cr", "")) if len(o) == 3 else 0
            w, a = 32 if k[2] == "w" else 64, n(o[-2])
            if w > B:
                return None
            b, v = (None, num(o[-1])) if k[3] else (n(o[-1]), 0)

            def f(m):
                x, y = m.r[a] & mask(w), v if b is None else m.r[b] & mask(w)
                if not k[1]:
                    x, y = sx(x, w), sx(y, w)
                crf(m, fi, x - y, m.tt.get(a, NONE) | (m.tt.get(b, NONE) if b else NONE))
            return seq(f)
        # arithmetic with carry
        CA = {"addc": (0, 0), "adde": (0, 1), "addic": (0, 0), "addze": (0, 1), "addme": (0, 1), "subfc": (1, 0), "subc": (1, 0), "subfe": (1, 1), "subfic": (1, 0), "subfze": (1, 1), "subfme": (1, 1)}
        if m0 in CA:
            inv, use = CA[m0]
            d = n(o[0])
            if m0 == "subc":
                o = [o[0], o[2], o[1]]
            a = n(o[1])
            if m0 in ("addic", "subfic"):
                b, v = None, num(o[2]) & K
            elif m0[-2:] in ("ze", "me"):
                b, v = None, K if m0[-2] == "m" else 0
            else:
                b, v = n(o[2]), 0

            def f(m):
                x = m.r[a] ^ K if inv else m.r[a]
                y = v if b is None else m.r[b]
                u = x + y + (m.ca if use else 1 if inv else 0)
                m.ca = u >> B & 1
                put(m, d, u, a, *([b] if b else []))
                if rec:
                    cr0(m, m.r[d], m.tt[d])
            return seq(f)
        if m0 in ("srawi", "sraw", "sradi", "srad"):
            d, a, w = n(o[0]), n(o[1]), 32 if m0[3] == "w" else 64
            b, v = (None, num(o[2])) if m0[-1] == "i" else (n(o[2]), 0)

            def f(m):
                k = v if b is None else m.r[b] & (2 * w - 1)
                x = sx(m.r[a], w)
                m.ca = int(x < 0 and x & mask(min(k, w)) != 0)
                put(m, d, x >> min(k, w), a, *([b] if b else []))
                if rec:
                    cr0(m, m.r[d], m.tt[d])
            return seq(f)
        if m0 == "sub":
            m0, o = "subf", [o[0], o[2], o[1]]
        if m0 in ("not", "neg", "cntlzw", "cntlzd", "extsb", "extsh", "extsw"):
            d, a = n(o[0]), n(o[1])
            u = {"not": lambda v: ~v, "neg": lambda v: -v, "cntlzw": lambda v: 32 - (v & mask(32)).bit_length(), "cntlzd": lambda v: 64 - v.bit_length(),
                 "extsb": lambda v: sx(v, 8), "extsh": lambda v: sx(v, 16), "extsw": lambda v: sx(v, 32)}[m0]

            def f(m):
                put(m, d, u(m.r[a]), a)
                if rec:
                    cr0(m, m.r[d], m.tt[d])
            return seq(f)
        LI = {"li": lambda v: v, "lis": lambda v: sx(v << 16, 32)}
        if mn in LI:
            d, v = n(o[0]), LI[mn](num(o[1]))
            return seq(lambda m: put(m, d, v))
        if mn == "mr":
            d, a = n(o[0]), n(o[1])
            return seq(lambda m: put(m, d, m.r[a], a))
        BI = {"ori": lambda a, v: a | v, "oris": lambda a, v: a | v << 16, "xori": lambda a, v: a ^ v, "xoris": lambda a, v: a ^ v << 16, "andi": lambda a, v: a & v, "andis": lambda a, v: a & v << 16,
              "addi": lambda a, v: a + v, "addis": lambda a, v: a + (v << 16), "mulli": lambda a, v: sx(a, B) * v}
        AL = {"add": lambda a, b: a + b, "subf": lambda a, b: b - a, "and": lambda a, b: a & b, "andc": lambda a, b: a & ~b, "or": lambda a, b: a | b, "orc": lambda a, b: a | ~b, "xor": lambda a, b: a ^ b, "nor": lambda a, b: ~(a | b), "eqv": lambda a, b: ~(a ^ b), "nand": lambda a, b: ~(a & b),
              "mullw": lambda a, b: sx(a, 32) * sx(b, 32), "mulld": lambda a, b: a * b,
              "slw": lambda a, b: (a & mask(32)) << (b & 31) & mask(32) if not b & 32 else 0, "srw": lambda a, b: (a & mask(32)) >> (b & 31) if not b & 32 else 0,
              "sld": lambda a, b: a << (b & 63) if not b & 64 else 0, "srd": lambda a, b: a >> (b & 63) if not b & 64 else 0}
        if m0 in BI or m0 in AL:
            d, a = n(o[0]), n(o[1])
            if m0 in BI:
                v, g = num(o[2]), BI[m0]
                z = m0 in ("addi", "addis") and a == "r0"

                def f(m):
                    put(m, d, g(0 if z else m.r[a], v), a)
                    if rec:
                        cr0(m, m.r[d], m.tt[d])
                return seq(f)
            b, g = n(o[2]), AL[m0]

            def f(m):
                put(m, d, g(m.r[a], m.r[b]), a, b)
                if rec:
                    cr0(m, m.r[d], m.tt[d])
            return seq(f)
        def MASK(b, e, w):
            """PowerPC bit numbering within w bits"""
            if b <= e:
                return mask(e - b + 1) << (w - 1 - e)
            return mask(w) & ~(mask(b - e - 1) << (w - 1 - (b - 1)))

        def rot(v, s, w):
            v &= mask(w)
            s %= w
            return (v << s | v >> (w - s)) & mask(w)
        if m0 in ("rlwinm", "rlwimi", "rlwnm"):
            d, a, mb, me = n(o[0]), n(o[1]), num(o[3]), num(o[4])
            sh = num(o[2]) if m0 != "rlwnm" else None
            sr = n(o[2]) if sh is None else None
            k = MASK(mb + B - 32, me + B - 32, B)

            def f(m):
                v = rot(m.r[a], sh if sr is None else m.r[sr] & 31, 32)
                if B == 64:
                    v |= v << 32
                if m0 == "rlwimi":
                    put(m, d, v & k | m.r[d] & ~k, a, d)
                else:
                    put(m, d, v & k, a, *([sr] if sr else []))
                if rec:
                    cr0(m, m.r[d], m.tt[d])
            return seq(f)
        if m0 == "rldimi" and B == 64:
            d, a, sh, e = n(o[0]), n(o[1]), num(o[2]), num(o[3])
            k = MASK(e, 63 - sh, 64)

            def f(m):
                put(m, d, rot(m.r[a], sh, 64) & k | m.r[d] & ~k, a, d)
                if rec:
                    cr0(m, m.r[d], m.tt[d])
            return seq(f)
        if m0 in ("rldicr", "rldicl", "rldic", "rldcr", "rldcl") and B == 64:
            d, a, e = n(o[0]), n(o[1]), num(o[3])
            sh = num(o[2]) if m0[3] == "i" else None
            sr = n(o[2]) if sh is None else None
            k = MASK(0, e, 64) if m0[-1] == "r" else MASK(e, 63, 64) if m0[-1] == "l" else MASK(e, 63 - sh, 64)

            def f(m):
                put(m, d, rot(m.r[a], sh if sr is None else m.r[sr] & 63, 64) & k, a, *([sr] if sr else []))
                if rec:
                    cr0(m, m.r[d], m.tt[d])
            return seq(f)
        # --- memory

        def ea(s):
            k = re.fullmatch(r"(-?\w+)\((r?\d+)\)", s)
            off, b = num(k[1]), n(k[2])
            if b == "r0":
                return lambda m: off & K
            return lambda m: (m.r[b] + off) & K

        def xa(a, b):
            a, b = n(a), n(b)
            if a == "r0":
                return lambda m: m.r[b]
            return lambda m: (m.r[a] + m.r[b]) & K

        def got(m, d, v, ev0):
            m.r[d] = v & K
            m.tt[d] = frozenset(m.events[ev0:])
        LD = {"lbz": (1, 0), "lhz": (2, 0), "lha": (2, 1), "lwz": (4, 0), "lwa": (4, 1), "ld": (8, 0)}
        if mn in LD:
            sz, sg = LD[mn]
            d, a = n(o[0]), ea(o[1])

            def f(m):
                e0 = len(m.events)
                v = m.ld(a(m), sz)
                got(m, d, sx(v, 8 * sz) if sg else v, e0)
            return seq(f) if sz * 8 <= B else None
        k = re.fullmatch(r"l([bhwd])(z|a|br)?x", mn)
        if k and (k[1], k[2]) in {("b", "z"), ("h", "z"), ("h", "a"), ("w", "z"), ("w", "a"), ("d", None), ("h", "br"), ("w", "br"), ("d", "br")}:
            sz = {"b": 1, "h": 2, "w": 4, "d": 8}[k[1]]
            d, a = n(o[0]), xa(o[1], o[2])

            def f(m):
                e0 = len(m.events)
                v = m.ld(a(m), sz)
                if k[2] == "br":
                    v = int.from_bytes(v.to_bytes(sz, "big"), "little")
                got(m, d, sx(v, 8 * sz) if k[2] == "a" else v, e0)
            return seq(f) if sz * 8 <= B else None
        k = re.fullmatch(r"st([bhwd])(br)?x", mn)
        if k and (k[1], k[2]) != ("b", "br"):
            sz = {"b": 1, "h": 2, "w": 4, "d": 8}[k[1]]
            s, a = n(o[0]), xa(o[1], o[2])

            def f(m):
                v = m.r[s] & mask(8 * sz)
                m.st(a(m), sz, int.from_bytes(v.to_bytes(sz, "big"), "little") if k[2] else v)
            return seq(f) if sz * 8 <= B else None
        if mn == "lq":
            d, a = n(o[0]), ea(o[1])
            d2 = f"r{int(d[1:]) + 1}"
            if int(d[1:]) % 2:
                return None

            def f(m):
                e0 = len(m.events)
                v = m.ld(a(m), 16, parts=16)
                got(m, d, v >> 64, e0), got(m, d2, v & mask(64), e0)
            return seq(f)
        ST = {"stb": 1, "sth": 2, "stw": 4, "std": 8}
        if mn in ST:
            sz, s, a = ST[mn], n(o[0]), ea(o[1])
            return seq(lambda m: m.st(a(m), sz, m.r[s]))
        if mn == "stq":
            s, a = n(o[0]), ea(o[1])
            s2 = f"r{int(s[1:]) + 1}"
            return seq(lambda m: m.st(a(m), 16, m.r[s] << 64 | m.r[s2], parts=16)) if int(s[1:]) % 2 == 0 else None
        if mn in ("stdu", "stwu"):
            sz, s, a = 8 if mn == "stdu" else 4, n(o[0]), ea(o[1])
            base = n(re.search(r"\((\w+)\)", o[1])[1])

            def f(m):
                t = a(m)
                m.st(t, sz, m.r[s])
                put(m, base, t, base)
            return seq(f)
        k = re.fullmatch(r"l([bhwdq])arx", mn)
        if k:
            sz = {"b": 1, "h": 2, "w": 4, "d": 8, "q": 16}[k[1]]
            d, a = n(o[0]), xa(o[1], o[2])
            d2 = f"r{int(d[1:]) + 1}" if sz == 16 else None

            def f(m):
                e0 = len(m.events)
                v = m.ll(a(m), sz)
                if d2:
                    got(m, d, v >> 64, e0), got(m, d2, v & mask(64), e0)
                else:
                    got(m, d, v, e0)
                m.lastll = frozenset(m.events[e0:])
            return seq(f)
        k = re.fullmatch(r"st([bhwdq])cx\.", mn)
        if k:
            sz = {"b": 1, "h": 2, "w": 4, "d": 8, "q": 16}[k[1]]
            s, a = n(o[0]), xa(o[1], o[2])
            s2 = f"r{int(s[1:]) + 1}" if sz == 16 else None

            def f(m):
                v = m.r[s] << 64 | m.r[s2] if s2 else m.r[s]
                ok = m.sc(a(m), sz, v)
                m.cr = m.cr & 0x1FFFFFFF | (2 if ok else 0) << 28
                m.crt[0] = m.lastll
            return seq(f)
        return None
