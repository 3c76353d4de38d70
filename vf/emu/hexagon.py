"""Hexagon: packets of instructions that read before any of them writes."""
from .isa import *

R = r"(r\d+(?::\d+)?)"


class Hexagon(Isa):
    name = "hexagon"
    word = usize = 4
    single_copy = 8
    granule = 8
    min_atomic = 4
    strict_align = True
    in_order = True
    base = 0x4012_3000
    amask = mask(32)
    allregs = [f"r{i}" for i in range(32)] + [f"p{i}" for i in range(4)]
    args, ret, sp, link = ("r0", "r1", "r2"), "r0", "r29", "r31"
    saved = tuple(f"r{i}" for i in range(16, 28)) + ("r29", "r30")
    stop = 0x7FFF_FFF0
    comments = False
    pools = {"r": [f"r{i}" for i in range(0, 28)]}

    def max_align(self, n):
        return n

    def enter(self, m, rng, sp, args, stop):
        super().enter(m, rng, sp, args, stop)
        for i in range(4):
            m.r[f"p{i}"] &= 255

    def packets(self, f):
        out, cur = [], None
        for a, t, r in f.lines:
            t = re.sub(r"<[^>]*>", "", t).strip()
            if t.startswith("{"):
                if cur:
                    raise ValueError("packet in packet")
                cur = [a, [], []]
                t = t[1:].strip()
            if cur is None:
                cur = [a, [], []]
            end = "}" in t
            loop = t.partition("}")[2].strip()
            cur[1] += [x.strip() for x in t.partition("}")[0].split(";") if x.strip()]
            cur[1] += ["?" + loop] if loop else []
            cur[2] += r
            if end:
                out.append((cur[0], "\n".join(cur[1]), cur[2]))
                cur = None
        f.lines[:] = out

    def get(self, m, r):
        if ":" in r:
            h, l = r[1:].split(":")
            return m.r["r" + h] << 32 | m.r["r" + l]
        return m.r[r]

    def put(self, m, r, v):
        if ":" in r:
            h, l = r[1:].split(":")
            if int(h) != int(l) + 1 or int(l) % 2:
                raise Unsupported("register pair " + r)
            m.r["r" + h], m.r["r" + l] = v >> 32 & mask(32), v & mask(32)
        elif r[0] == "p":
            m.r[r] = v & 255
        else:
            m.r[r] = v & mask(32)

    def decode(self, addr, text, nxt, relocs):
        try:
            parts = [self.one(t) for t in text.split("\n") if not t.startswith("immext")]
        except (ValueError, KeyError, TypeError) as e:
            parts, text = [None], f"{text} {e}"
        if None in parts:
            def bad(m):
                raise Unsupported("instruction " + text.replace("\n", " ; "))
            return bad

        def step(m):
            new, todo = {}, []
            # predicates written in this packet are visible as .new
            m.newp = new
            for late, p in sorted(parts, key=lambda x: x[0]):
                p(m, new, todo)
            goto = nxt
            for k in todo:
                if k[0] == "jump":
                    goto = k[1]
                    break
            for r, v in new.items():
                self.put(m, r, v)
            for k in todo:
                if k[0] == "st":
                    m.st(k[1], k[2], k[3])
            return goto
        return step

    def one(self, t):
        """(runs after the others, f(m, new, todo))"""
        S = {"b": 1, "ub": 1, "h": 2, "uh": 2, "w": 4, "d": 8}

        def val(s):
            s = s.strip()
            if s.startswith("#"):
                v = num(s.lstrip("#")) & mask(32)
                return lambda m: v
            if not re.fullmatch(R, s):
                raise KeyError(s)
            return lambda m: self.get(m, s)
        k = re.fullmatch(r"if \((!?)(p\d)(\.new)?\) jump(?:r)?(?::n?t)?\s+(\S+)", t)
        if k:
            neg, p, nw = bool(k[1]), k[2], bool(k[3])
            reg = k[4] in self.allregs
            tgt = k[4] if reg else int(k[4], 16)

            def f(m, new, todo):
                v = (new[p] if nw else m.r[p]) & 1
                if v != neg:
                    todo.append(("jump", m.r[tgt] if reg else tgt))
            return (1 if nw else 0), f
        k = re.fullmatch(r"jump(?:r)?(?::n?t)?\s+(\S+)", t)
        if k:
            reg = k[1] in self.allregs
            tgt = k[1] if reg else int(k[1], 16)
            return 2, lambda m, new, todo: todo.append(("jump", m.r[tgt] if reg else tgt))
        k = re.fullmatch(r"if \((!?)(p\d)(\.new)?\) (.*)", t)
        if k:
            neg, p, nw, x = bool(k[1]), k[2], bool(k[3]), self.one(k[4])
            if x is None:
                return None

            def f(m, new, todo):
                if bool((new[p] if nw else m.r[p]) & 1) != neg:
                    x[1](m, new, todo)
            return max(x[0], 1 if nw else 0), f
        k = re.fullmatch(rf"{R} = mem([wd])_locked\((r\d+)\)", t)
        if k:
            d, n, a = k[1], S[k[2]], k[3]

            def f(m, new, todo):
                new[d] = m.ll(m.r[a], n)
            return 0, f
        k = re.fullmatch(rf"mem([wd])_locked\((r\d+),\s*(p\d)\) = {R}", t)
        if k:
            n, a, p, s = S[k[1]], k[2], k[3], k[4]

            def f(m, new, todo):
                new[p] = 255 if m.sc(m.r[a], n, self.get(m, s)) else 0
            return 0, f
        k = re.fullmatch(rf"{R} = mem(u?[bhwd])\((r\d+)(?:\+#(-?\w+))?\)", t)
        if k:
            d, n, a, o, signed = k[1], S[k[2]], k[3], num(k[4] or "0"), k[2] in "bh"

            def f(m, new, todo):
                v = m.ld(m.r[a] + o, n)
                new[d] = sx(v, 8 * n) if signed else v
            return 0, f
        k = re.fullmatch(rf"mem([bhwd])\((r\d+)(?:\+#(-?\w+))?\) = {R}(\.new|\.h)?", t)
        if k:
            n, a, o, s, nw, hi = S[k[1]], k[2], num(k[3] or "0"), k[4], k[5] == ".new", 16 * (k[5] == ".h")

            def f(m, new, todo):
                todo.append(("st", m.r[a] + o & mask(32), n, (new[s] if nw else self.get(m, s)) >> hi & mask(8 * n)))
            return (1 if nw else 0), f
        k = re.fullmatch(r"mem([bhw])\((r\d+)(?:\+#(-?\w+))?\) = #+(-?\w+)", t)
        if k:
            n, a, o, v = S[k[1]], k[2], num(k[3] or "0"), num(k[4])
            return 0, lambda m, new, todo: todo.append(("st", m.r[a] + o & mask(32), n, v & mask(8 * n)))
        k = re.fullmatch(rf"{R} = mem(u?[bhwd])\((r\d+)(?:\+(r\d+)<<#(\w+)|\+\+#(-?\w+))\)", t)
        if k:
            d, n, a, i, c, signed = k[1], S[k[2]], k[3], k[4], num(k[5] or k[6]), k[2] in "bh"

            def f(m, new, todo):
                v = m.ld(m.r[a] + (m.r[i] << c if i else 0), n)
                new[d] = sx(v, 8 * n) if signed else v
                if not i:
                    new[a] = m.r[a] + c
            return 0, f
        k = re.fullmatch(r"mem([bhw])\((r\d+)(?:\+#(-?\w+))?\) ([-+&|])= (#\w+|r\d+)", t)
        if k:
            n, a, o, op, b = S[k[1]], k[2], num(k[3] or "0"), k[4], val(k[5])
            F = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "&": lambda x, y: x & y, "|": lambda x, y: x | y}[op]

            def f(m, new, todo):
                x = m.r[a] + o & mask(32)
                todo.append(("st", x, n, F(m.ld(x, n), b(m)) & mask(8 * n)))
            return 0, f
        k = re.fullmatch(r"if \((!?)([a-z.]+)\((r\d+)(\.new)?,\s*(#?[-\w]+?)(\.new)?\)\) jump(?::n?t)?\s+(\S+)", t)
        if k:
            a, nw, tgt = k[5] if k[6] else k[3], k[4] or k[6], int(k[7], 16)
            x = self.expr(f"{k[1]}{k[2]}({k[3]},{k[5]})")

            def f(m, new, todo):
                if x({**m.r, a: new[a]} if nw else m.r):
                    todo.append(("jump", tgt))
            return (1 if nw else 0), f
        k = re.fullmatch(r"if \((r\d+)(==|!=|>=|<=)#0\) jump(?::n?t)?\s+(\S+)", t)
        if k:
            a, c, tgt = k[1], k[2], int(k[3], 16)

            def f(m, new, todo):
                v = sx(m.r[a], 32)
                if v == 0 if c == "==" else v != 0 if c == "!=" else v >= 0 if c == ">=" else v <= 0:
                    todo.append(("jump", tgt))
            return 0, f
        k = re.fullmatch(r"allocframe\((?:r29,)?#(\w+)\)(:raw)?", t)
        if k:
            n = num(k[1])

            def f(m, new, todo):
                a = m.r["r29"] - 8 & mask(32)
                todo.append(("st", a, 8, self.get(m, "r31:30")))
                new["r30"], new["r29"] = a, a - n
            return 0, f
        k = re.fullmatch(r"(?:r31:30 = )?(deallocframe|dealloc_return)(?:\(r30\))?(:raw)?", t)
        if k:
            def f(m, new, todo):
                v = new["r31:30"] = m.ld(m.r["r30"], 8)
                new["r29"] = m.r["r30"] + 8
                if k[1] == "dealloc_return":
                    todo.append(("jump", v >> 32))
            return 0, f
        k = re.fullmatch(rf"({R[1:-1]}|p\d) ([-+&|^]?)= (.*)", t)
        if k:
            d, acc, x = k[1], k[2], self.expr(k[3], k[1])
            if x is None:
                return None
            F = {"": lambda p, q: q, "+": lambda p, q: p + q, "-": lambda p, q: p - q, "&": lambda p, q: p & q, "|": lambda p, q: p | q, "^": lambda p, q: p ^ q}[acc]

            def f(m, new, todo):
                new[d] = F(self.get(m, d), x(m.r))
            return 0, f
        if t in ("barrier", "nop"):
            return 0, lambda m, new, todo: m.fence() if t == "barrier" else None
        return None

    def expr(self, t, dest=""):
        """registers -> value (not yet cut to the size of the destination)"""
        t = t.strip()
        neg = t.startswith("!")
        t = t.lstrip("!")
        if t.startswith("#"):
            v = num(t.lstrip("#"))
            return lambda r: v
        if re.fullmatch(r"r\d+:\d+", t):
            h, l = t[1:].split(":")
            return lambda r: r["r" + h] << 32 | r["r" + l]
        if re.fullmatch(r"r\d+\.[lh]", t):
            a, hi = t[:-2], 16 * (t[-1] == "h")
            return lambda r: r[a] >> hi & 0xFFFF
        if re.fullmatch(r"[rp]\d+", t):
            if t not in self.allregs:
                return None
            return (lambda r: r[t] ^ 255 if neg else r[t]) if t[0] == "p" else lambda r: r[t]
        k = re.fullmatch(r"~(r\d+(?::\d+)?)", t)
        if k:
            x = self.expr(k[1])
            return lambda r: ~x(r)
        k = re.fullmatch(r"add\((r\d+:\d+),(r\d+:\d+)\):raw:(lo|hi)", t)
        if k:
            a, b, o = self.expr(k[1]), self.expr(k[2]), 32 * (k[3] == "hi")
            return lambda r: sx(a(r) >> o, 32) + b(r)
        k = re.fullmatch(r"\+?([a-z]\w*(?:\.\w+)?)\((.*)\)", t)
        if not k:
            return None
        fn, args = k[1], operands(k[2])
        half = any(re.fullmatch(r"r\d+\.[lh]", a) for a in args)
        wide = ":" in dest or any(re.fullmatch(r"~?r\d+:\d+", a) for a in args)
        W = 64 if wide else 32
        x = [self.expr(a) for a in args]
        if None in x:
            return None
        pred = dest.startswith("p")
        T = lambda c: (255 if pred else 1) if bool(c) != neg else 0

        def sh(kind, v, c):
            if kind == "rol":
                c &= W - 1
                v &= mask(W)
                return v << c | v >> (W - c)
            c = sx(c, 7) * (1 if kind in ("asl", "lsl") else -1)
            v = sx(v, W) if kind[0] == "a" else v & mask(W)
            return v << c if c >= 0 else v >> -c
        k = re.fullmatch(r"(cmp|cmpb|cmph)\.(eq|gt|gtu|ge|lt)", fn)
        if k:
            b, c = {"cmp": W, "cmpb": 8, "cmph": 16}[k[1]], k[2]
            G = {"eq": lambda p, q: p == q, "gt": lambda p, q: sx(p, b) > sx(q, b), "gtu": lambda p, q: p > q, "ge": lambda p, q: sx(p, b) >= sx(q, b), "lt": lambda p, q: sx(p, b) < sx(q, b)}[c]
            return lambda r: T(G(x[0](r) & mask(b), x[1](r) & mask(b)))
        if fn in ("tstbit", "bitsclr", "bitsset"):
            G = {"tstbit": lambda p, q: p >> (q & 31) & 1, "bitsclr": lambda p, q: not p & q, "bitsset": lambda p, q: p & q == q & mask(32)}[fn]
            return lambda r: T(G(x[0](r), x[1](r)))
        if fn in ("asl", "lsl", "asr", "lsr", "rol"):
            return lambda r: sh(fn, x[0](r), x[1](r))
        if fn in ("add", "sub", "and", "or", "xor", "mpyi"):
            G = {"add": lambda p, q: p + q, "sub": lambda p, q: p - q, "and": lambda p, q: p & q, "or": lambda p, q: p | q, "xor": lambda p, q: p ^ q, "mpyi": lambda p, q: p * q}[fn]

            def f(r):
                v = x[0](r)
                for q in x[1:]:
                    v = G(v, q(r))
                return sx(v, 16) if half else v
            return f
        M = mask(W)
        ONE = {"neg": lambda v: -v, "not": lambda v: ~v, "zxtb": lambda v: v & 255, "zxth": lambda v: v & 0xFFFF, "sxtb": lambda v: sx(v, 8), "sxth": lambda v: sx(v, 16), "sxtw": lambda v: sx(v, 32),
               "abs": lambda v: abs(sx(v, W)), "aslh": lambda v: v << 16, "asrh": lambda v: sx(v, 32) >> 16, "swiz": lambda v: int.from_bytes(v.to_bytes(4, "little"), "big"),
               "cl0": lambda v: W - v.bit_length(), "ct0": lambda v: ((v & -v).bit_length() - 1) % (W + 1) if v else W, "brev": lambda v: int(f"{v:0{W}b}"[::-1], 2)}
        if fn in ONE and len(x) == 1 and not neg:
            return lambda r: ONE[fn](x[0](r))
        TWO = {"min": lambda p, q: min(sx(p, W), sx(q, W)), "max": lambda p, q: max(sx(p, W), sx(q, W)), "minu": lambda p, q: min(p & M, q & M), "maxu": lambda p, q: max(p & M, q & M),
               "combine": lambda p, q: (p & 0xFFFF) << 16 | q & 0xFFFF if not wide else (p & mask(32)) << 32 | q & mask(32),
               "setbit": lambda p, q: p | 1 << (q & 31), "clrbit": lambda p, q: p & ~(1 << (q & 31)), "togglebit": lambda p, q: p ^ 1 << (q & 31),
               "mpyu": lambda p, q: p * q if wide else p * q >> 32, "mpy": lambda p, q: sx(p, 32) * sx(q, 32) >> (0 if wide else 32),
               "packhl": lambda p, q: (p >> 16) << 48 | (q >> 16) << 32 | (p & 0xFFFF) << 16 | q & 0xFFFF}
        if fn in TWO and len(x) == 2 and not (half and fn.startswith("mpy")):
            return lambda r: TWO[fn](x[0](r), x[1](r))
        if fn == "mux" and len(x) == 3:
            return lambda r: x[1](r) if x[0](r) & 1 else x[2](r)
        if fn == "addasl" and len(x) == 3:
            return lambda r: x[0](r) + (x[1](r) << x[2](r))
        if fn in ("extractu", "extract") and len(x) == 3:
            def f(r):
                n, o = x[1](r), x[2](r)
                v = (x[0](r) & M) >> o & mask(n)
                return sx(v, n) if fn == "extract" and n else v
            return f
        if fn == "insert" and len(x) == 3:
            d = self.expr(dest)

            def f(r):
                n, o = x[1](r), x[2](r)
                return d(r) & ~(mask(n) << o) & M | (x[0](r) & mask(n)) << o
            return f
        return None
