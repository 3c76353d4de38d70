"""Tests the emulator itself: random integer programs, compiled for each configuration, must give the
values a Python evaluation gives; lists instructions the emulator lacks.
python3 -m vf.emu.selftest [-n FUNCTIONS] [-s SEED] [CONFIG...]"""
import collections, os, random, re, sys
from concurrent.futures import ThreadPoolExecutor
from . import run as R
from .core import *
from .table import isa_for
from ..common import CACHE, run
from ..cross import CrossError, compile_harness, tool
from ..xconf import BY_NAME

TYPES = [f"{s}{b}" for b in (8, 16, 32, 64) for s in "ui"]
# (type, index) -> offset in the input block
SLOT = {}
for b, o in ((64, 0), (32, 16), (16, 24), (8, 28)):
    for k in range(2):
        SLOT[b, k] = o + k * b // 8


def bits(t):
    return int(t[1:])


def norm(v, t):
    v &= mask(bits(t))
    return v - (1 << bits(t)) if t[0] == "i" and v >> (bits(t) - 1) else v


class Gen:
    def __init__(self, rng, wide):
        self.rng, self.wide = rng, wide
        self.types = [t for t in TYPES if bits(t) <= wide]

    def expr(self, t, d):
        """(Rust text, evaluator on the inputs)"""
        g = self.rng
        b = bits(t)
        if d == 0 or g.random() < 0.08:
            if g.random() < 0.15:
                k = norm(g.choice([0, 1, -1, 1 << g.randrange(b), (1 << g.randrange(1, b)) - 1, g.getrandbits(b), g.getrandbits(8)]), t)
                return f"({k}_i128 as {t})", lambda x: k
            k = g.randrange(2)
            return f"(x{b}_{k} as {t})", lambda x: norm(x[b, k], t)
        o = g.randrange(19)
        if o < 7:
            sym, f = g.choice([("&", lambda p, q: p & q), ("|", lambda p, q: p | q), ("^", lambda p, q: p ^ q), ("+", lambda p, q: p + q), ("-", lambda p, q: p - q)])
            l, fl = self.expr(t, d - 1)
            r, fr = self.expr(t, d - 1)
            s = f"({l} {sym} {r})" if sym in "&|^" else f"{l}.wrapping_{'add' if sym == '+' else 'sub'}({r})"
            return s, lambda x: norm(f(fl(x), fr(x)), t)
        if o < 9:
            l, fl = self.expr(t, d - 1)
            if g.random() < 0.6:
                k = g.randrange(b)
                a, fa = str(k), lambda x: k
            else:
                q = g.choice(["u8", "u32"]) if self.wide >= 32 else "u8"
                e, fe = self.expr(q, d - 1)
                a, fa = f"({e} as u32 & {b - 1})", lambda x: fe(x) & (b - 1)
            left = g.random() < 0.5
            return f"({l} {'<<' if left else '>>'} {a})", lambda x: norm(fl(x) << fa(x) if left else fl(x) >> fa(x), t)
        if o < 10:
            l, fl = self.expr(t, d - 1)
            k = g.randrange(b)
            return f"{l}.rotate_left({k})", lambda x: norm((fl(x) & mask(b)) << k | (fl(x) & mask(b)) >> (b - k) if k else fl(x), t)
        if o < 13:
            q = g.choice(self.types)
            l, fl = self.expr(q, d - 1)
            return f"({l} as {t})", lambda x: norm(fl(x), t)
        if o < 15:
            c, fc = self.cond(d - 1)
            l, fl = self.expr(t, d - 1)
            r, fr = self.expr(t, d - 1)
            return f"(if {c} {{ {l} }} else {{ {r} }})", lambda x: fl(x) if fc(x) else fr(x)
        if o < 16:
            c, fc = self.cond(d - 1)
            return f"({c} as {t})", lambda x: norm(int(fc(x)), t)
        if o < 17:
            l, fl = self.expr(t, d - 1)
            return (f"(!{l})", lambda x: norm(~fl(x), t)) if g.random() < 0.5 else (f"{l}.wrapping_neg()", lambda x: norm(-fl(x), t))
        if o < 18:
            l, fl = self.expr(t, d - 1)
            return f"{l}.swap_bytes()", lambda x: norm(int.from_bytes((fl(x) & mask(b)).to_bytes(b // 8, "big"), "little"), t)
        l, fl = self.expr(t, d - 1)
        r, fr = self.expr(t, d - 1)
        w = g.choice(("min", "max"))
        return f"{l}.{w}({r})", lambda x: (min if w == "min" else max)(fl(x), fr(x))

    def cond(self, d):
        g = self.rng
        t = g.choice(self.types)
        o = g.randrange(10)
        if o == 0 and d > 0:
            c, fc = self.cond(d - 1)
            return f"(!{c})", lambda x: not fc(x)
        if o == 1 and d > 0:
            c, fc = self.cond(d - 1)
            e, fe = self.cond(d - 1)
            a = g.random() < 0.5
            return f"({c} {'&' if a else '|'} {e})", lambda x: (fc(x) and fe(x)) if a else (fc(x) or fe(x))
        l, fl = self.expr(t, max(d, 0))
        r, fr = self.expr(t, max(d, 0)) if o > 4 else (f"(0 as {t})", lambda x: 0)
        s, f = g.choice([("==", lambda p, q: p == q), ("!=", lambda p, q: p != q), ("<", lambda p, q: p < q), (">=", lambda p, q: p >= q), (">", lambda p, q: p > q)])
        return f"({l} {s} {r})", lambda x: f(fl(x), fr(x))


def corpus(n, seed, wide):
    g = Gen(random.Random(seed), wide)
    out = ["#![no_std]", "#![crate_type = \"rlib\"]", "#![allow(warnings)]"]
    fs = []
    for k in range(n):
        t = g.rng.choice(g.types)
        e, fe = g.expr(t, g.rng.choice((1, 2, 2, 3, 3, 4)))
        c, fc = g.cond(1)
        body = "".join(f"let x{b}_{j} = *(i.add({o}) as *const u{b}); " for (b, j), o in SLOT.items() if f"x{b}_{j} " in e + c)
        out.append(f"#[no_mangle] pub unsafe extern \"C\" fn tt__{t}__{k}(p: *mut u8, i: *const u8, o: *mut u8) -> usize {{ {body} *(o as *mut {t}) = {e}; {c} as usize }}")
        fs.append((t, fe, fc))
    return "\n".join(out), fs


def one(name, n, seed, opts=("3", "s", "1")):
    isa = isa_for(name)
    src, fs = corpus(n, seed, 16 if isa.usize == 2 else 64)
    path = os.path.join(CACHE, "selftest", f"{seed}-{n}-{isa.usize}.rs")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path):
        open(path + f".{name}".replace(" ", "_").replace("/", "_"), "w").write(src)
        os.rename(path + f".{name}".replace(" ", "_").replace("/", "_"), path)
    lacking, wrong, good = collections.Counter(), [], 0
    for opt in opts:
        prog = R.Prog.__new__(R.Prog)
        prog.conf, prog.isa, prog.marks, prog.contracts, prog.cache = BY_NAME[name], isa, {}, {}, {}
        try:
            d = compile_harness(BY_NAME[name].target, path, "obj,asm", opt=opt, out_tag="st" + opt)
        except CrossError as e:
            return name, 0, {("does not build", ""): 1}, [str(e)[-300:]]
        if isa.from_asm:
            prog.fns = isa.parse_asm(open(os.path.join(d, f"st{opt}.s")).read(), R.Fn, prog.marks)
        else:
            prog.fns = R.parse(run([tool("llvm-objdump"), "-dr", "--no-show-raw-insn", "--show-all-symbols"] + isa.dump_args() + [os.path.join(d, f"st{opt}.o")]).out)
        for f in prog.fns:
            isa.packets(f)
        isa.load(prog, os.path.join(d, f"st{opt}.o"))
        rng = random.Random(seed)
        for f in prog.fns:
            t, fe, fc = fs[int(f.orders)]
            for _ in range(6):
                x = {k: norm(rng.choice([0, 1, -1, 1 << rng.randrange(64), rng.getrandbits(64), rng.getrandbits(8)]), f"u{k[0]}") for k in SLOT}
                inp = bytearray(48)
                for (b, j), o in SLOT.items():
                    inp[o:o + b // 8] = x[b, j].to_bytes(b // 8, "big" if isa.big else "little")
                B = isa.base
                stack0 = bytes(rng.getrandbits(8) for _ in range(isa.stack[0]))
                mem = Memory([(B, bytearray(64), "object"), (B + isa.layout[0], bytes(inp), "operands"), (B + isa.layout[1], bytes(32), "out"), (B + isa.layout[2], stack0, "stack")] + prog.extra)
                m = isa.machine(mem, B + 16, 8)
                m.whole = False
                sp = B + isa.layout[2] + isa.stack[1]
                isa.enter(m, rng, sp, (B + 16, B + isa.layout[0], B + isa.layout[1]), isa.stop)
                try:
                    m.run(prog.code(f), f.entry, isa.stop)
                    isa.leave(m)
                except Unsupported as e:
                    s = str(e)
                    k = re.match(r"instruction ([\w.]+)", s)
                    lacking[k[1] if k else s[:40], s[12:90]] += 1
                    break
                except Bad as e:
                    wrong.append(f"{f.name} at -O{opt}: {e}")
                    break
                got = norm(mem_val(m, B + isa.layout[1], bits(t) // 8), t)
                flag = isa.result(m) & mask(8 * isa.usize)
                if got != fe(x) or flag != int(fc(x)):
                    wrong.append(f"{f.name} at -O{opt}: value {got:#x}, should be {fe(x):#x}; flag {flag:#x}, should be {int(fc(x))}; inputs {x}")
                    break
                good += 1
    return name, good, lacking, wrong


def mem_val(m, a, n):
    return m.val(m.mem.get(a, n))


if __name__ == "__main__":
    a = sys.argv[1:]
    n, seed = 200, 1
    while a and a[0] in ("-n", "-s"):
        if a[0] == "-n":
            n = int(a[1])
        else:
            seed = int(a[1])
        a = a[2:]
    from .job import configs
    with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for name, good, lacking, wrong in ex.map(lambda x: one(x, n, seed), a or [c.name for c in configs(True)]):
            print(f"{name}: {good} executions agree, {len(wrong)} differ, {sum(lacking.values())} use unknown instructions")
            seen = collections.Counter()
            for (k, s), c in sorted(lacking.items(), key=lambda q: -q[1]):
                seen[k] += c
            ex1 = {k: s for (k, s), c in lacking.items()}
            for k, c in seen.most_common(int(os.environ.get("TOP", "12"))):
                print(f"    {c} {ex1[k]}")
            for w in wrong[:int(os.environ.get("WRONG", "3"))]:
                print("    !", w[:400])
            sys.stdout.flush()
