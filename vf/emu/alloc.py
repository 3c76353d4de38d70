"""Register allocations of the compiler's choosing replaced by hostile ones: each inline assembly call in
the compiled operations' LLVM IR gets explicit registers that its constraints allow (late outputs share
registers with inputs wherever they may), and labels around it, so that the emulator sees what the block
changes and compares it with what the block declares."""
import re
from .core import *
from ..asmblocks import Block, split_args, split_constraints, TYPE


class Contract:
    """What one block may change: names of machine state."""

    def __init__(self, outs, clob, text, access=2, pure=False):
        self.outs, self.clob, self.text, self.access, self.pure = outs, clob, text, access, pure


LINE = re.compile(r'^(\s*(?:%[\w.]+ = )?(?:tail |notail )?call (.*?) asm )(.*?)"((?:[^"])*)", "([^"]*)"(\(.*)$')


def bits_of(t, w):
    return w if t == "ptr" else int(t[1:]) if re.fullmatch(r"i\d+", t) else 999


def assign(cons, rtypes, itypes, isa, rng):
    """New constraint list, or None when something is not understood."""
    w = isa.alloc_bits or 8 * isa.word
    odd = lambda t: bits_of(t, w) > w or bits_of(t, w) < isa.alloc_min
    outs, ins, clob = [], [], []
    for c in cons:
        if c.startswith("="):
            early = c.startswith("=&")
            outs.append([c.lstrip("=&"), early, rtypes[len(outs)]])
        elif c.startswith("~"):
            clob.append(c[2:-1])
        else:
            ins.append([c, itypes[len(ins)]])
    name = lambda c: isa.regname(c[1:-1])
    fixed_out = {name(c) for c, *_ in outs if c[0] == "{"}
    fixed_in = {name(c) for c, *_ in ins if c[0] == "{"}
    clobs = set()
    for c in clob:
        clobs |= set(isa.clobber(c))
    known = True
    for c, t in [(c, t) for c, _, t in outs] + ins:
        if c[0] == "{" or c.isdigit():
            continue
        if c not in isa.pools:
            return None
        if odd(t):
            known = False
    tied = {int(c): i for i, (c, t) in enumerate(ins) if c.isdigit()}
    used_out, late = set(), set()
    res_out = [None] * len(outs)
    for i, (c, early, t) in enumerate(outs):
        if c[0] == "{":
            res_out[i] = c
            used_out.add(name(c))
            if not early and i not in tied:
                late.add(name(c))
    for i in sorted(range(len(outs)), key=lambda i: rng.random()):
        c, early, t = outs[i]
        if c[0] == "{" or odd(t):
            res_out[i] = res_out[i] or c
            continue
        pool = [r for r in isa.pools[c] if isa.regname(r) not in used_out | clobs | fixed_in | fixed_out or
                (not early and i not in tied and isa.regname(r) in fixed_in and isa.regname(r) not in used_out | clobs)]
        if not pool:
            return None
        r = rng.choice(pool)
        used_out.add(isa.regname(r))
        if not early and i not in tied:
            late.add(isa.regname(r))
        res_out[i] = "{" + r + "}"
    res_in, used_in, shared = [None] * len(ins), set(), 0
    for i in sorted(range(len(ins)), key=lambda i: (not ins[i][0].isdigit(), rng.random())):
        c, t = ins[i]
        if c[0] == "{" or c.isdigit() or odd(t):
            res_in[i] = c
            continue
        ok = [r for r in isa.pools[c] if isa.regname(r) not in used_in | fixed_in | clobs]
        both = [r for r in ok if isa.regname(r) in late]
        only = [r for r in ok if isa.regname(r) not in used_out]
        pool = both if both and rng.random() < 0.75 else only
        if not pool:
            return None
        r = rng.choice(pool)
        shared += isa.regname(r) in late
        used_in.add(isa.regname(r))
        res_in[i] = "{" + r + "}"
    new = ["=" + ("&" if e else "") + r for (c, e, t), r in zip(outs, res_out)] + res_in + ["~{" + c + "}" for c in clob]
    names = {name(r) for r in res_out if r[0] == "{"}
    return new, names if known else None, clobs, shared


def access(rest, attrs):
    k = re.search(r"(#\d+)", rest)
    mem = re.search(r"memory\(([^)]*)\)", attrs.get(k[1], "") if k else "")
    return Block("", False, [], [], [], mem[1] if mem else "all", True, "").access


def transform(ir, isa, rng):
    """(new IR, contracts by label number, statistics)"""
    out, contracts, shared = [], {}, 0
    attrs = dict(re.findall(r"^attributes (#\d+) = \{(.*)\}", ir, re.M))
    for l in ir.splitlines():
        m = LINE.match(l)
        if not m or not m[4].strip():
            out.append(l)
            continue
        head, rty, flags, tmpl, cons, rest = m.groups()
        depth = 0
        for i, ch in enumerate(rest):
            depth += ch == "("
            depth -= ch == ")"
            if depth == 0:
                break
        args = split_args(rest[1:i])
        itypes = [TYPE.match(a)[1] for a in args]
        rtypes = split_args(rty[1:-1]) if rty.startswith("{") else [] if rty == "void" else [rty]
        a = None
        for _ in range(40):
            a = assign(split_constraints(cons), rtypes, itypes, isa, rng)
            if a:
                break
        if a is None:
            out.append(l)
            continue
        new, names, clobs, sh = a
        k = len(contracts)
        shared += sh
        contracts[k] = Contract(names, clobs, ",".join(new), access(rest[i:], attrs), "sideeffect" not in flags)
        uid = isa.uid
        if isa.spell_out:
            ops = [c.lstrip("=&") for c in new if c[0] != "~"]
            ops = [ops[int(c)] if c.isdigit() else c for c in ops]
            tmpl = re.sub(r"\$\{(\d+)\}", lambda k: ops[int(k[1])][1:-1], tmpl)
        out.append(f'{head}{flags}"vf_s{k}_{uid}:\\0A\\09{tmpl}\\0A\\09vf_e{k}_{uid}:", "{",".join(new)}"{rest}')
    return "\n".join(out) + "\n", contracts, shared


def watch(code, marks, contracts, isa):
    """Wrap instructions at the labels with the monitor."""
    starts, ends = {}, {}
    for a, kind, k in marks:
        (starts if kind == "s" else ends).setdefault(a, []).append(k)

    def check(m, ks):
        b = getattr(m, "block", None)
        if b is None or b[0] not in ks:
            return
        k, before, seen = b
        m.block = None
        c = contracts[k]
        m.blocks = getattr(m, "blocks", 0) + 1
        after = isa.state(m)
        did = {e.k for e in m.events[seen:]}
        if "W" in did and c.access < 2:
            raise Bad("contract", "an assembly block writes the location but declares that it does not write memory")
        if "R" in did and c.access < 1:
            raise Bad("contract", "an assembly block reads the location but declares that it does not access memory")
        if c.outs is not None:
            for n, v in before.items():
                if after.get(n) != v and n not in c.outs and n not in c.clob and not (n.startswith("cc") and "cc" in c.clob):
                    raise Bad("contract", f"an assembly block changes {n} ({v:#x} -> {after.get(n):#x}) without declaring it; operands {c.text}")

    def begin(m, k):
        if getattr(m, "block", None) is None or m.block[0] != k:
            m.block = (k, isa.state(m), len(m.events))
    for a in set(starts) | set(ends):
        f = code.get(a)
        if f is None:
            continue

        def g(m, f=f, s=starts.get(a, ()), e=ends.get(a, ())):
            check(m, e)
            for k in s:
                begin(m, k)
            return f(m)
        code[a] = g
