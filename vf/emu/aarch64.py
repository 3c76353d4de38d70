from .isa import *

CC = {"eq": lambda f: f["z"], "ne": lambda f: not f["z"], "hs": lambda f: f["c"], "cs": lambda f: f["c"], "lo": lambda f: not f["c"], "cc": lambda f: not f["c"],
      "mi": lambda f: f["n"], "pl": lambda f: not f["n"], "vs": lambda f: f["v"], "vc": lambda f: not f["v"],
      "hi": lambda f: f["c"] and not f["z"], "ls": lambda f: not (f["c"] and not f["z"]),
      "ge": lambda f: f["n"] == f["v"], "lt": lambda f: f["n"] != f["v"], "gt": lambda f: not f["z"] and f["n"] == f["v"], "le": lambda f: f["z"] or f["n"] != f["v"], "al": lambda f: True}


def add_flags(fl, a, b, c, n):
    u = a + b + c
    r = u & mask(n)
    fl["n"], fl["z"], fl["c"] = bool(r >> (n - 1)), r == 0, u >> n != 0
    fl["v"] = sx(r, n) != sx(a, n) + sx(b, n) + c
    return r


class AArch64(Isa):
    name = "aarch64"
    allregs = [f"x{i}" for i in range(31)]
    args, ret, sp, link = ("x0", "x1", "x2"), "x0", "sp", "x30"
    saved = tuple(f"x{i}" for i in range(18, 30)) + ("sp",)
    reserved = ("x18",)
    granule = 16
    res_granule = 64
    base = 0x7F12_3456_0000

    def __init__(self, big=False, lse2=False, ilp32=False):
        self.big, self.lse2 = big, lse2
        self.usize = 8
        if ilp32:
            self.usize = 4
            self.base = 0x9ABC_0000

    pools = {"r": [f"x{i}" for i in range(31) if i not in (18, 19, 29, 30)]}

    def regname(self, s):
        return "x30" if s == "lr" else "x" + s[1:] if s[0] in "xw" else s

    def flags_random(self, m, rng):
        for f in "nzcv":
            m.fl[f] = bool(rng.getrandbits(1))

    def reg(self, s):
        """(name, bits)"""
        if s in ("sp", "wsp"):
            return "sp", 64 if s == "sp" else 32
        if s in ("xzr", "wzr"):
            return None, 64 if s[0] == "x" else 32
        if s == "lr":
            return "x30", 64
        if s == "fp":
            return "x29", 64
        if re.fullmatch(r"[xw]\d+", s):
            return "x" + s[1:], 64 if s[0] == "x" else 32
        raise KeyError(s)

    def src(self, s, ext=None):
        """A function m -> value of a register or immediate."""
        if s.startswith("#") or re.match(r"-?\d|0x", s):
            v = num(s)
            return lambda m: v
        r, n = self.reg(s)
        if r is None:
            return lambda m: 0
        k = mask(n)
        return lambda m: m.r[r] & k

    def dst(self, s):
        r, n = self.reg(s)
        if r is None:
            return lambda m, v: None
        k = mask(n)

        def f(m, v):
            m.r[r] = v & k
        return f

    def op2(self, ops, n):
        """Flexible second operand: register/immediate with optional shift or extension."""
        f = self.src(ops[0])
        if len(ops) == 1:
            return lambda m: f(m) & mask(n)
        w = ops[1].split()
        k = num(w[1]) if len(w) > 1 else 0
        ext = {"uxtb": 8, "uxth": 16, "uxtw": 32, "uxtx": 64}
        sext = {"sxtb": 8, "sxth": 16, "sxtw": 32, "sxtx": 64}
        if w[0] in ext:
            return lambda m: ((f(m) & mask(ext[w[0]])) << k) & mask(n)
        if w[0] in sext:
            return lambda m: (sx(f(m), sext[w[0]]) << k) & mask(n)
        if w[0] == "lsl":
            return lambda m: (f(m) << k) & mask(n)
        if w[0] == "lsr":
            return lambda m: (f(m) & mask(n)) >> k
        if w[0] == "asr":
            return lambda m: (sx(f(m), n) >> k) & mask(n)
        if w[0] == "ror":
            return lambda m: ((f(m) >> k) | (f(m) << (n - k))) & mask(n)
        raise KeyError(ops[1])

    def mem(self, ops):
        """Address operand(s): m -> address, with writeback."""
        s = ops[0]
        t = s.rstrip("!")
        parts = operands(t[1:-1])
        b = self.src(parts[0])
        bn = self.reg(parts[0])[0]
        if len(ops) == 2:  # post-index
            k = num(ops[1])

            def f(m):
                a = m.r[bn]
                m.r[bn] = (a + k) & mask(64)
                return a
            return f
        if len(parts) == 1:
            return b
        if parts[1].startswith("#"):
            k = num(parts[1])
            if s.endswith("!"):
                def f(m):
                    m.r[bn] = (m.r[bn] + k) & mask(64)
                    return m.r[bn]
                return f
            return lambda m: (b(m) + k) & mask(64)
        o = self.op2(parts[1:], 64)
        return lambda m: (b(m) + o(m)) & mask(64)

    def ins(self, mn, o, addr, nxt, relocs, rest):
        R = self.reg

        def seq(g):
            def f(m):
                g(m)
                return nxt
            return f
        if mn == "ret":
            return lambda m: m.r["x30"]
        if mn == "nop" or mn in ("hint", "bti", "paciasp", "autiasp"):
            return lambda m: nxt
        if mn == "b":
            t = num(o[0])
            return lambda m: t
        if mn.startswith("b.") and mn[2:] in CC:
            t, c = num(o[0]), CC[mn[2:]]
            return lambda m: t if c(m.fl) else nxt
        if mn in ("cbz", "cbnz"):
            s, t, z = self.src(o[0]), num(o[1]), mn == "cbz"
            return lambda m: t if (s(m) == 0) == z else nxt
        if mn in ("tbz", "tbnz"):
            s, k, t, z = self.src(o[0]), num(o[1]), num(o[2]), mn == "tbz"
            return lambda m: t if (s(m) >> k & 1 == 0) == z else nxt
        if mn == "clrex":
            return seq(lambda m: m.clrex())
        if mn == "isb":
            return seq(lambda m: None)
        if mn in ("dmb", "dsb"):
            k = {"ishld": ("r", "rw"), "ld": ("r", "rw"), "ishst": ("w", "w"), "st": ("w", "w"), "ish": ("rw", "rw"), "sy": ("rw", "rw")}[o[0]]
            return seq(lambda m: m.fence(*k))
        if mn in ("mov", "movz", "movn", "mvn", "neg", "movk"):
            d, n = self.dst(o[0]), R(o[0])[1]
            if mn == "movk":
                k = num(o[1])
                sh = num(o[2].split()[1]) if len(o) > 2 else 0
                r = R(o[0])[0]
                return seq(lambda m: d(m, m.r[r] & ~(0xffff << sh) | k << sh))
            s = self.op2(o[1:], n)
            g = {"mov": lambda v: v, "movz": lambda v: v, "movn": lambda v: ~v, "mvn": lambda v: ~v, "neg": lambda v: -v}[mn]
            return seq(lambda m: d(m, g(s(m))))
        AL = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "and": lambda a, b: a & b, "orr": lambda a, b: a | b, "eor": lambda a, b: a ^ b, "bic": lambda a, b: a & ~b, "orn": lambda a, b: a | ~b, "eon": lambda a, b: a ^ ~b, "mul": lambda a, b: a * b}
        if mn in AL:
            d, n = self.dst(o[0]), R(o[0])[1]
            a, b, g = self.src(o[1]), self.op2(o[2:], n), AL[mn]
            return seq(lambda m: d(m, g(a(m), b(m))))
        if mn in ("lsl", "lsr", "asr", "ror"):
            d, n = self.dst(o[0]), R(o[0])[1]
            a, b = self.src(o[1]), self.src(o[2])
            g = {"lsl": lambda x, k: x << k, "lsr": lambda x, k: x >> k, "asr": lambda x, k: sx(x, n) >> k, "ror": lambda x, k: (x >> k) | (x << (n - k))}[mn]
            return seq(lambda m: d(m, g(a(m) & mask(n), b(m) % n)))
        if mn in ("cmp", "subs", "cmn", "adds", "tst", "ands", "bics"):
            if mn in ("cmp", "cmn", "tst"):
                d, ops = (lambda m, v: None), o
            else:
                d, ops = self.dst(o[0]), o[1:]
            n = R(ops[0])[1]
            a, b = self.src(ops[0]), self.op2(ops[1:], n)

            def g(m):
                x, y = a(m), b(m)
                if mn in ("cmp", "subs"):
                    d(m, add_flags(m.fl, x, ~y & mask(n), 1, n))
                elif mn in ("cmn", "adds"):
                    d(m, add_flags(m.fl, x, y, 0, n))
                else:
                    r = x & ~y if mn == "bics" else x & y
                    m.fl.update(n=bool(r >> (n - 1)), z=r == 0, c=False, v=False)
                    d(m, r)
            return seq(g)
        if mn in ("ccmp", "ccmn"):
            n = R(o[0])[1]
            a, b, k, c = self.src(o[0]), self.op2(o[1:2], n), num(o[2]), CC[o[3]]

            def g(m):
                if c(m.fl):
                    y = b(m)
                    add_flags(m.fl, a(m), ~y & mask(n) if mn == "ccmp" else y, 1 if mn == "ccmp" else 0, n)
                else:
                    m.fl.update(n=bool(k & 8), z=bool(k & 4), c=bool(k & 2), v=bool(k & 1))
            return seq(g)
        if mn in ("cset", "csetm"):
            d, c = self.dst(o[0]), CC[o[1]]
            v = 1 if mn == "cset" else -1
            return seq(lambda m: d(m, v if c(m.fl) else 0))
        if mn in ("csel", "csinc", "csinv", "csneg", "cinc", "cinv", "cneg"):
            d = self.dst(o[0])
            if mn[:2] == "ci" or mn == "cneg":
                a = b = self.src(o[1])
                c0 = CC[o[2]]
                c = lambda f: not c0(f)
                kind = mn[1:]
            else:
                a, b, c = self.src(o[1]), self.src(o[2]), CC[o[3]]
                kind = mn[2:]
            g = {"el": lambda v: v, "inc": lambda v: v + 1, "inv": lambda v: ~v, "neg": lambda v: -v}[kind]
            return seq(lambda m: d(m, a(m) if c(m.fl) else g(b(m))))
        if mn in ("uxtb", "uxth", "sxtb", "sxth", "sxtw"):
            d, a = self.dst(o[0]), self.src(o[1])
            k = {"b": 8, "h": 16, "w": 32}[mn[3]]
            return seq(lambda m: d(m, a(m) & mask(k) if mn[0] == "u" else sx(a(m), k)))
        if mn in ("ubfx", "sbfx", "bfi", "bfxil", "ubfiz", "sbfiz"):
            d, a, lsb, w = self.dst(o[0]), self.src(o[1]), num(o[2]), num(o[3])
            me = self.src(o[0])
            g = {"ubfx": lambda m: a(m) >> lsb & mask(w), "sbfx": lambda m: sx(a(m) >> lsb, w), "bfi": lambda m: me(m) & ~(mask(w) << lsb) | (a(m) & mask(w)) << lsb, "bfxil": lambda m: me(m) & ~mask(w) | a(m) >> lsb & mask(w), "sbfiz": lambda m: sx(a(m), w) << lsb, "ubfiz": lambda m: (a(m) & mask(w)) << lsb}[mn]
            return seq(lambda m: d(m, g(m)))
        if mn in ("rev", "rev16", "rev32"):
            d, a, n = self.dst(o[0]), self.src(o[1]), R(o[0])[1]
            k = {"rev": n // 8, "rev16": 2, "rev32": 4}[mn]

            def g(m):
                b = a(m).to_bytes(n // 8, "little")
                d(m, int.from_bytes(b"".join(b[i:i + k][::-1] for i in range(0, n // 8, k)), "little"))
            return seq(g)
        if mn in ("mrs", "msr"):
            return None
        # --- memory
        mm = re.fullmatch(r"(ldar|ldapr|ldlar|ldr|ldur|ldapur|ldaxr|ldxr)(b|h|sb|sh|sw)?", mn)
        if mm:
            d, n = self.dst(o[0]), R(o[0])[1]
            sz = {None: n // 8, "b": 1, "h": 2, "sb": 1, "sh": 2, "sw": 4}[mm[2]]
            a = self.mem(o[1:])
            sgn = (mm[2] or "").startswith("s")
            k = mm[1]
            if k in ("ldaxr", "ldxr"):
                q = k == "ldaxr"
                return seq(lambda m: d(m, m.ll(a(m), sz, acq=q, sc=q)))
            q, s = k in ("ldar", "ldapr", "ldapur"), k == "ldar"
            return seq(lambda m: d(m, sx(m.ld(a(m), sz, acq=q, sc=s), 8 * sz) if sgn else m.ld(a(m), sz, acq=q, sc=s)))
        mm = re.fullmatch(r"(stlr|stllr|str|stur|stlur)(b|h)?", mn)
        if mm:
            s, n = self.src(o[0]), R(o[0])[1]
            sz = {None: n // 8, "b": 1, "h": 2}[mm[2]]
            a = self.mem(o[1:])
            q = mm[1] in ("stlr", "stlur")
            return seq(lambda m: m.st(a(m), sz, s(m), rel=q, sc=q))
        mm = re.fullmatch(r"(stlxr|stxr)(b|h)?", mn)
        if mm:
            d, s, n = self.dst(o[0]), self.src(o[1]), R(o[1])[1]
            sz = {None: n // 8, "b": 1, "h": 2}[mm[2]]
            a = self.mem(o[2:])
            q = mm[1] == "stlxr"
            if o[0][1:] == o[1][1:] or o[0][1:] == o[2][2:-1]:
                raise Unsupported("constrained unpredictable stxr")
            return seq(lambda m: d(m, int(not m.sc(a(m), sz, s(m), rel=q, sc=q))))
        if mn in ("ldp", "stp", "ldnp", "stnp", "ldiapp", "stilp"):
            n = R(o[0])[1]
            sz = n // 8
            a = self.mem(o[2:])
            whole = self.lse2
            if mn[0] == "l":
                d0, d1 = self.dst(o[0]), self.dst(o[1])
                q = mn == "ldiapp"

                def g(m):
                    ad = a(m)
                    v = m.ld(ad, 2 * sz, acq=q, parts=2 * sz if whole and ad % 16 == 0 else sz)
                    lo, hi = self.halves(v, n)
                    d0(m, lo)
                    d1(m, hi)
                return seq(g)
            s0, s1 = self.src(o[0]), self.src(o[1])
            q = mn == "stilp"

            def g(m):
                lo, hi = s0(m), s1(m)
                ad = a(m)
                m.st(ad, 2 * sz, self.join(lo, hi, n), rel=q, parts=2 * sz if whole and ad % 16 == 0 else sz)
            return seq(g)
        if mn in ("ldxp", "ldaxp"):
            n = R(o[0])[1]
            d0, d1, a, q = self.dst(o[0]), self.dst(o[1]), self.mem(o[2:]), mn == "ldaxp"

            def g(m):
                lo, hi = self.halves(m.llp(a(m), 2 * n // 8, q, n), n)
                d0(m, lo)
                d1(m, hi)
            return seq(g)
        if mn in ("stxp", "stlxp"):
            n = R(o[1])[1]
            d, s0, s1, a, q = self.dst(o[0]), self.src(o[1]), self.src(o[2]), self.mem(o[3:]), mn == "stlxp"
            if o[0][1:] in (o[1][1:], o[2][1:], o[3][2:-1]):
                raise Unsupported("constrained unpredictable stxp")

            def g(m):
                d(m, int(not m.sc(a(m), 2 * n // 8, self.join(s0(m), s1(m), n), rel=q, sc=q)))
            return seq(g)
        mm = re.fullmatch(r"(swp|cas)(a|al|l)?(b|h)?", mn)
        if mm:
            n = R(o[0])[1]
            sz = {None: n // 8, "b": 1, "h": 2}[mm[3]]
            s, a = mm[2] or "", self.mem(o[2:])
            acq, rel = "a" in s, "l" in s
            if mm[1] == "swp":
                src, d = self.src(o[0]), self.dst(o[1])
                return seq(lambda m: d(m, self.amo(m, a(m), sz, lambda old, v=src(m): v, acq, rel)))
            d, exp, new = self.dst(o[0]), self.src(o[0]), self.src(o[1])

            def g(m):
                e, w = exp(m) & mask(8 * sz), new(m)
                d(m, self.amo(m, a(m), sz, lambda old: w if old == e else None, acq, rel))
            return seq(g)
        mm = re.fullmatch(r"casp(a|al|l)?", mn)
        if mm:
            n = R(o[0])[1]
            s, a = mm[1] or "", self.mem(o[4:])
            d0, d1, e0, e1, n0, n1 = self.dst(o[0]), self.dst(o[1]), self.src(o[0]), self.src(o[1]), self.src(o[2]), self.src(o[3])

            def g(m):
                e, w = self.join(e0(m), e1(m), n), self.join(n0(m), n1(m), n)
                lo, hi = self.halves(self.amo(m, a(m), 2 * n // 8, lambda old: w if old == e else None, "a" in s, "l" in s), n)
                d0(m, lo)
                d1(m, hi)
            return seq(g)
        mm = re.fullmatch(r"swpp(a|al|l)?", mn)
        if mm:
            n = 64
            s, a = mm[1] or "", self.mem(o[2:])
            d0, d1, n0, n1 = self.dst(o[0]), self.dst(o[1]), self.src(o[0]), self.src(o[1])

            def g(m):
                w = self.join(n0(m), n1(m), n)
                lo, hi = self.halves(self.amo(m, a(m), 16, lambda old: w, "a" in s, "l" in s), n)
                d0(m, lo)
                d1(m, hi)
            return seq(g)
        return None

    def amo(self, m, a, n, f, acq, rel):
        """Acquire applies to the read, release to the write."""
        i = len(m.events)
        old = m.rmw(a, n, f)
        for e in m.events[i:]:
            if e.k == "R":
                e.acq = e.sc = acq
            else:
                e.rel = e.sc = rel
        return old

    def halves(self, v, n):
        """Register pair -> (first, second) for a pair in memory order."""
        a, b = v & mask(n), v >> n
        return (b, a) if self.big else (a, b)

    def join(self, a, b, n):
        return (a << n | b) if self.big else (b << n | a)
