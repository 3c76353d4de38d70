"""SPARC V8 (with casa), V8+ and V9."""
from .isa import *


class Sparc(Isa):
    name = "sparc"
    big = True
    llsc = False
    strict_align = True
    min_atomic = 4
    comments = False
    args, ret, sp = ("%o0", "%o1", "%o2"), "%o0", "%o6"
    allregs = [f"%{k}{i}" for k in "goli" for i in range(8) if (k, i) != ("g", 0)]
    stop = 0x1FFF_0000

    def __init__(self, bits=32, v9=True):
        self.bits, self.v9 = bits, v9
        self.word = self.usize = bits // 8
        self.single_copy = 8 if bits == 64 or v9 else 4
        self.granule = 2 * self.word
        self.amask = mask(bits)
        self.base = 0x3F_1234_0000 if bits == 64 else 0x1ABC_0000
        self.saved = tuple(f"%{k}{i}" for k in "li" for i in range(8)) + ("%o6", "%g6", "%g7")
        self.frame = 176 if bits == 64 else 92
        self.bias = 2047 if bits == 64 else 0
        self.loads_ordered = not v9

    def dump_args(self):
        return [] if self.bits == 64 else ["--mattr=+v9"] if self.v9 else ["--mcpu=gr712rc"]

    def set_link(self, m, stop):
        m.r["%o7"] = stop - 8

    pools = {"r": [f"{k}{i}" for k, n in (("o", 6), ("l", 8), ("i", 6)) for i in range(n)] + ["g2", "g3", "g4"]}

    def regname(self, s):
        if re.fullmatch(r"r\d+", s):
            i = int(s[1:])
            s = "goli"[i // 8] + str(i % 8)
        return "%" + s.lstrip("%")

    def clobber(self, c):
        return ("icc", "xcc") if c in ("icc", "xcc") else (self.regname(c),)

    def state(self, m):
        return dict(m.r, icc=m.icc, xcc=m.xcc)

    def flags_random(self, m, rng):
        m.rng = rng
        m.wins = []
        m.icc = m.xcc = None
        m.icc, m.xcc = rng.getrandbits(4), rng.getrandbits(4)

    def enter(self, m, rng, sp, args, stop):
        super().enter(m, rng, sp - self.bias, args, stop)
        if self.bits == 32 and self.v9:
            # V8+: 64-bit %g and %o registers exist, but the halves are not preserved
            pass

    def leave(self, m):
        if m.wins:
            raise Bad("machine-state", "returns in another register window")
        super().leave(m)

    def rn(self, s):
        s = {"%sp": "%o6", "%fp": "%i6"}.get(s, s)
        if not re.fullmatch(r"%[goli][0-7]", s):
            raise KeyError(s)
        return s

    def g(self, s):
        if s.startswith("%"):
            r = self.rn(s)
            if r == "%g0":
                return lambda m: 0
            return lambda m: m.r[r]
        v = num(s)
        return lambda m: v

    def p(self, s):
        r = self.rn(s)
        K = mask(64 if self.bits == 64 else 32)

        def f(m, v):
            if r != "%g0":
                m.r[r] = v & K
        return f

    def ea(self, s):
        t = s.strip("[]")
        k = re.fullmatch(r"(%\w+)\s*(?:([+-])\s*(.+))?", t)
        b = self.g(k[1])
        if not k[2]:
            return lambda m: b(m)
        o, neg = self.g(k[3]), k[2] == "-"
        return lambda m: (b(m) - o(m) if neg else b(m) + o(m)) & mask(self.bits)

    def ins(self, mn, o, addr, nxt, relocs, rest):
        B = self.bits
        g, p, ea = self.g, self.p, self.ea

        def seq(f):
            def h(m):
                f(m)
                return nxt
            return h

        def sub(m, a, b):
            for n, name in ((32, "icc"), (64, "xcc")):
                if n > B:
                    continue
                x, y = a & mask(n), b & mask(n)
                r = (x - y) & mask(n)
                setattr(m, name, (8 if r >> (n - 1) else 0) | (4 if r == 0 else 0) | (2 if sx(x, n) - sx(y, n) != sx(r, n) else 0) | (1 if x < y else 0))
        CND = {"e": lambda c: c & 4, "ne": lambda c: not c & 4, "a": lambda c: True, "cs": lambda c: c & 1, "cc": lambda c: not c & 1, "lu": lambda c: c & 1, "geu": lambda c: not c & 1, "gu": lambda c: not c & 5, "leu": lambda c: c & 5, "n": lambda c: False,
               "l": lambda c: bool(c & 8) != bool(c & 2), "ge": lambda c: bool(c & 8) == bool(c & 2), "g": lambda c: not c & 4 and bool(c & 8) == bool(c & 2), "le": lambda c: c & 4 or bool(c & 8) != bool(c & 2),
               "neg": lambda c: c & 8, "pos": lambda c: not c & 8, "vs": lambda c: c & 2, "vc": lambda c: not c & 2}

        def save(m, v, d):
            m.wins.append({r: m.r[r] for r in self.allregs if r[1] in "oli"})
            new = {f"%i{i}": m.r[f"%o{i}"] for i in range(8)}
            for i in range(8):
                new[f"%o{i}"] = m.rng.getrandbits(B)
                new[f"%l{i}"] = m.rng.getrandbits(B)
            m.r.update(new)
            d(m, v)

        def restore(m, v, d):
            if not m.wins:
                raise Bad("machine-state", "restore without save")
            w = m.wins.pop()
            for i in range(8):
                w[f"%o{i}"] = m.r[f"%i{i}"]
            m.r.update(w)
            d(m, v)
        if mn == "nop":
            return lambda m: nxt
        if mn in ("save", "restore"):
            if not o:
                o = ["%g0", "%g0", "%g0"]
            a, b, d = g(o[0]), g(o[1]), p(o[2])
            f = save if mn == "save" else restore
            return seq(lambda m: f(m, a(m) + b(m), d))
        if mn in ("ret", "retl"):
            r = "%i7" if mn == "ret" else "%o7"

            def f(m):
                m.branch = m.r[r] + 8
                return nxt
            return f
        k = re.fullmatch(r"b(a|e|ne|cs|cc|gu|leu|lu|geu|n|l|ge|g|le|neg|pos|vs|vc)?(,a)?(,pn|,pt)?", mn)
        if k:
            ann = bool(k[2])
            c = CND[k[1] or "a"]
            t = num(o[-1])
            x = "xcc" if len(o) == 2 and o[0] == "%xcc" else "icc"
            always = (k[1] or "a") == "a"

            def f(m):
                if c(getattr(m, x)):
                    if ann and always:
                        return t
                    m.branch = t
                    return nxt
                if ann:
                    return nxt + 4
                m.branch = nxt + 4
                return nxt
            return f
        k = re.fullmatch(r"br(z|nz|lz|gez|gz|lez)(,a)?(,pn|,pt)?", mn)
        if k and B == 64:
            a, t, ann = g(o[0]), num(o[-1]), bool(k[2])
            c = {"z": lambda v: v == 0, "nz": lambda v: v != 0, "lz": lambda v: v < 0, "gez": lambda v: v >= 0, "gz": lambda v: v > 0, "lez": lambda v: v <= 0}[k[1]]

            def f(m):
                if c(sx(a(m), 64)):
                    m.branch = t
                elif ann:
                    return nxt + 4
                else:
                    m.branch = nxt + 4
                return nxt
            return f
        if mn == "membar":
            bits = 0
            for q in re.findall(r"#\w+|\d+|0x\w+", rest):
                if q[0] == "#":
                    bits |= {"#LoadLoad": 1, "#StoreLoad": 2, "#LoadStore": 4, "#StoreStore": 8, "#Sync": 15, "#MemIssue": 15, "#Lookaside": 2}[q]
                else:
                    bits |= num(q)

            def f(m):
                if bits & 15 == 15:
                    m.fence()
                    return
                for b, x, y in ((1, "r", "r"), (2, "w", "r"), (4, "r", "w"), (8, "w", "w")):
                    if bits & b:
                        m.fence(x, y)
            return seq(f)
        if mn == "stbar":
            return seq(lambda m: m.fence("w", "w"))
        AL = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "and": lambda a, b: a & b, "andn": lambda a, b: a & ~b, "or": lambda a, b: a | b, "orn": lambda a, b: a | ~b, "xor": lambda a, b: a ^ b, "xnor": lambda a, b: ~(a ^ b),
              "sll": lambda a, b: a << (b & 31), "srl": lambda a, b: (a & mask(32)) >> (b & 31), "sra": lambda a, b: sx(a, 32) >> (b & 31), "sllx": lambda a, b: a << (b & 63), "srlx": lambda a, b: a >> (b & 63), "srax": lambda a, b: sx(a, 64) >> (b & 63), "mulx": lambda a, b: a * b}
        if mn in AL:
            a, b, d, f = g(o[0]), g(o[1]), p(o[2]), AL[mn]
            return seq(lambda m: d(m, f(a(m), b(m))))
        if mn in ("neg", "not"):
            a, d = g(o[0]), p(o[-1])
            return seq(lambda m: d(m, -a(m) if mn == "neg" else ~a(m)))
        if mn in ("smul", "umul"):
            # %y is not modelled
            a, b, d = g(o[0]), g(o[1]), p(o[2])

            def f(m):
                x, y = a(m) & mask(32), b(m) & mask(32)
                d(m, x * y if mn == "umul" else sx(x, 32) * sx(y, 32))
            return seq(f)
        LG = {"andcc": "and", "andncc": "andn", "orcc": "or", "orncc": "orn", "xorcc": "xor", "xnorcc": "xnor", "tst": "or", "btst": "and"}
        if mn in LG:
            a, b, d, h = g(o[0]), g(o[1]) if mn != "tst" else (lambda m: 0), p(o[2]) if len(o) > 2 else p("%g0"), AL[LG[mn]]
            if mn == "btst":
                a, b = b, a

            def f(m):
                v = h(a(m), b(m))
                for n, name in ((32, "icc"), (64, "xcc")):
                    if n <= B:
                        x = v & mask(n)
                        setattr(m, name, (8 if x >> (n - 1) else 0) | (4 if x == 0 else 0))
                d(m, v)
            return seq(f)
        k = re.fullmatch(r"(add|sub)(x|c)?(cc)?", mn)
        if k and (k[2] or k[1] == "add" and k[3]):
            a, b, d = g(o[0]), g(o[1]), p(o[2])

            def f(m):
                x, y, c = a(m), b(m), m.icc & 1 if k[2] else 0
                neg = k[1] == "sub"
                if k[3]:
                    for n, name in ((32, "icc"), (64, "xcc")):
                        if n > B:
                            continue
                        p_, q = x & mask(n), y & mask(n)
                        u = p_ - q - c if neg else p_ + q + c
                        s_ = sx(p_, n) - sx(q, n) - c if neg else sx(p_, n) + sx(q, n) + c
                        r = u & mask(n)
                        setattr(m, name, (8 if r >> (n - 1) else 0) | (4 if r == 0 else 0) | (2 if s_ != sx(r, n) else 0) | (1 if u < 0 or u >> n else 0))
                d(m, x - y - c if neg else x + y + c)
            return seq(f)
        if mn in ("cmp", "subcc"):
            a, b = g(o[0]), g(o[1])
            d = p(o[2]) if len(o) > 2 else p("%g0")

            def f(m):
                x, y = a(m), b(m)
                sub(m, x, y)
                d(m, x - y)
            return seq(f)
        if mn in ("mov",):
            a, d = g(o[0]), p(o[1])
            return seq(lambda m: d(m, a(m)))
        if mn == "sethi":
            v, d = num(o[0]) << 10, p(o[1])
            return seq(lambda m: d(m, v))
        k = re.fullmatch(r"movr(z|nz|lz|gez|gz|lez)", mn)
        if k and B == 64:
            a, b, d = g(o[0]), g(o[1]), p(o[2])
            c = {"z": lambda v: v == 0, "nz": lambda v: v != 0, "lz": lambda v: v < 0, "gez": lambda v: v >= 0, "gz": lambda v: v > 0, "lez": lambda v: v <= 0}[k[1]]

            def f(m):
                if c(sx(a(m), 64)):
                    d(m, b(m))
            return seq(f)
        k = re.fullmatch(r"(ld|st)(d|a|ha|xa|wa|uha|uwa|da)", mn)
        if k and k[2] == "d":
            a, r = ea(o[0 if k[1] == "ld" else 1]), self.rn(o[1 if k[1] == "ld" else 0])
            if int(r[2:]) % 2:
                return None
            r2 = r[:2] + str(int(r[2:]) + 1)
            if k[1] == "ld":
                d, d2 = p(r), p(r2)

                def f(m):
                    v = m.ld(a(m), 8)
                    d(m, v >> 32), d2(m, v & mask(32))
                return seq(f)
            s, s2 = g(r), g(r2)
            return seq(lambda m: m.st(a(m), 8, (s(m) & mask(32)) << 32 | s2(m) & mask(32)))
        if k:
            # the little-endian address space
            q = o[0 if k[1] == "ld" else 1]
            if not re.search(r"\]\s*#ASI_P(RIMARY)?_L(ITTLE)?$", q):
                return None
            n = {"a": 4, "wa": 4, "uwa": 4, "ha": 2, "uha": 2, "xa": 8, "da": 8}[k[2]]
            a = ea(re.sub(r"\].*", "]", q))
            turn = lambda v: int.from_bytes((v & mask(8 * n)).to_bytes(n, "big"), "little")
            if k[2] == "da":
                return None
            if k[1] == "ld":
                d = p(o[1])
                return seq(lambda m: d(m, turn(m.ld(a(m), n))))
            s = g(o[0])
            return seq(lambda m: m.st(a(m), n, turn(s(m))))
        k = re.fullmatch(r"mov(a|e|ne|cs|cc|gu|leu|lu|geu|l|ge|g|le|neg|pos|vs|vc)", mn)
        if k:
            c, a, d, x = CND[k[1]], g(o[1]), p(o[2]), o[0][1:]

            def f(m):
                if c(getattr(m, x)):
                    d(m, a(m))
            return seq(f)
        LD = {"ld": (4, 0), "lduw": (4, 0), "ldsw": (4, 1), "lduh": (2, 0), "ldsh": (2, 1), "ldub": (1, 0), "ldsb": (1, 1), "ldx": (8, 0)}
        if mn in LD:
            n, sg = LD[mn]
            a, d = ea(o[0]), p(o[1])
            if 8 * n > B:
                return None
            return seq(lambda m: d(m, sx(m.ld(a(m), n), 8 * n) if sg else m.ld(a(m), n)))
        ST = {"st": 4, "stw": 4, "sth": 2, "stb": 1, "stx": 8}
        if mn in ST:
            n, s, a = ST[mn], g(o[0]), ea(o[1])
            return seq(lambda m: m.st(a(m), n, s(m)))
        if mn == "ldstub":
            a, d = ea(o[0]), p(o[1])

            def f(m):
                x = a(m)
                if m.mem.find(x, 1)[2] != "stack":
                    raise Bad("touches-outside-object", f"ldstub at {x:#x}")
                m.fence()
                d(m, m.ld(x, 1))
                m.st(x, 1, 0xFF)
            return seq(f)
        if mn in ("cas", "casx", "casa", "casxa"):
            n = 8 if "x" in mn else 4
            a = ea(re.sub(r"\].*", "]", o[0]))
            if mn.endswith("a"):
                asi = re.sub(r".*\]\s*", "", o[0])
                if num(asi) not in (10, 11, 0x80):
                    return None
            e, d, s = g(o[1]), p(o[2]), g(o[2])

            def f(m):
                x, y = e(m) & mask(8 * n), s(m)
                if not self.v9:
                    m.fence()
                v = m.rmw(a(m), n, lambda c: y if c == x else None)
                if not self.v9:
                    m.fence()
                d(m, v)
            return seq(f)
        if mn == "swap":
            a, s, d = ea(o[0]), g(o[1]), p(o[1])

            def f(m):
                y = s(m)
                d(m, m.rmw(a(m), 4, lambda c: y))
            return seq(f)
        return None
