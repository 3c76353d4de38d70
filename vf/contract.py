"""C10: each inline assembly block run under many register allocations that its constraints allow,
with all undeclared machine state filled with known values (contract/main.rs)."""
import os, random, json
from .common import *
from .asmblocks import declared, extract, expand
from .cross import compile_harness, CrossError
from .native import run_binary

N64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + [f"r{i}" for i in range(8, 16)]
BASE = ["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"]


def gname(i, mod, bits64):
    if i < 8:
        b = BASE[i]
        low = b[0] + "l" if i < 4 else b + "l"
        return {"q": "r" + b, "k": "e" + b, "w": b, "b": low, "h": b[0] + "h"}[mod]
    return f"r{i}" + {"q": "", "k": "d", "w": "w", "b": "b"}[mod]


FIXED = {}
for i, b in enumerate(BASE):
    for n in (b, "e" + b, "r" + b) + ((b[0] + "l",) if i < 4 else (b + "l",)):
        FIXED[n] = i
for i in range(8, 16):
    for n in (f"r{i}", f"r{i}d", f"r{i}w", f"r{i}b"):
        FIXED[n] = i


class Unsupported(Exception):
    pass


def bits_of(t, w):
    if t == "ptr":
        return w
    if t[0] == "i":
        return int(t[1:])
    if t == "float":
        return 32
    if t == "double":
        return 64
    if t == "half":
        return 16
    return 128


def allocate(b, x64, rng, canonical):
    """One allocation: registers for outs and ins as ('g'|'x', index), and which ins share a value."""
    pool = {"r": [i for i in range(16 if x64 else 8) if i != 4], "q": [i for i in range(16 if x64 else 4) if i != 4], "Q": [0, 1, 2, 3], "x": list(range(16 if x64 else 8))}
    pool["a"], pool["R"] = [0], pool["r"]
    clob_g, clob_x = set(), set()
    for c in b.clobbers:
        if c in FIXED:
            clob_g.add(FIXED[c])
        elif c.startswith("xmm"):
            clob_x.add(int(c[3:]))

    def cls(c):
        if c[0] == "{":
            n = c[1:-1]
            if n.startswith("xmm"):
                return "x", [int(n[3:])]
            if n not in FIXED:
                raise Unsupported(c)
            return "g", [FIXED[n]]
        if c not in pool:
            raise Unsupported(c)
        return ("x" if c == "x" else "g"), pool[c]
    for _ in range(2000):
        used_out, used_in = {}, {}
        outs, ins = [None] * len(b.outs), [None] * len(b.ins)
        same = (0, 0)
        ok = True
        # fixed registers first, then the rest in random order
        fixed = set()
        for c, *_ in list(b.outs) + list(b.ins):
            if c[0] == "{":
                k, p = cls(c)
                fixed.add((k, p[0]))
        order = sorted(range(len(b.outs)), key=lambda i: (b.outs[i][0][0] != "{", rng.random()))
        tied = {int(c): j for j, (c, _, _) in enumerate(b.ins) if c.isdigit()}
        for i in order:
            c, early, t = b.outs[i]
            k, p = cls(c)
            if c[0] != "{":
                p = [r for r in p if (k, r) not in used_out and r not in (clob_g if k == "g" else clob_x)]
                # a register class operand may coincide with a late fixed input only when it is late itself
                p = [r for r in p if (k, r) not in fixed or (not early and i not in tied and not canonical and (k, r) not in {(cls(o[0])[0], cls(o[0])[1][0]) for o in b.outs if o[0][0] == "{"})]
                if not p:
                    ok = False
                    break
                r = rng.choice(p)
            else:
                r = p[0]
                if (k, r) in used_out:
                    ok = False
                    break
            used_out[(k, r)] = i
            outs[i] = (k, r)
        if not ok:
            continue
        order = sorted(range(len(b.ins)), key=lambda i: (not b.ins[i][0].isdigit(), b.ins[i][0][0] != "{", rng.random()))
        late = {r for r, i in used_out.items() if not b.outs[i][1] and i not in tied}
        for i in order:
            c, t, const = b.ins[i]
            if c.isdigit():
                ins[i] = outs[int(c)]
                used_in[ins[i]] = i
                continue
            k, p = cls(c)
            if c[0] != "{":
                share = late if not canonical and rng.random() < 0.6 else set()
                q = [r for r in p if (k, r) not in used_in and ((k, r) not in used_out or (k, r) in share) and (k, r) not in fixed | set() and r not in (clob_g if k == "g" else clob_x)]
                q += [r for r in p if (k, r) in share and (k, r) not in used_in and (k, r) in fixed and not any(cls(x[0]) == (k, [r]) for x in b.ins if x[0][0] == "{")]
                if share and [r for r in q if (k, r) in share] and rng.random() < 0.7:
                    q = [r for r in q if (k, r) in share]
                if not q:
                    ok = False
                    break
                r = rng.choice(q)
            else:
                r = p[0]
                if (k, r) in used_in or ((k, r) in used_out and (k, r) not in late and canonical is None):
                    ok = False
                    break
            used_in[(k, r)] = i
            ins[i] = (k, r)
        if not ok:
            continue
        if not canonical and rng.random() < 0.25:
            # two inputs holding the same value may be given the same register
            c = [i for i in range(len(b.ins)) if b.ins[i][0] in ("r", "q") and b.ins[i][1] != "ptr" and b.ins[i][2] is None]
            if len(c) >= 2:
                i, j = rng.sample(c, 2)
                if b.ins[i][0] == b.ins[j][0] and b.ins[i][1] == b.ins[j][1]:
                    ins[j] = ins[i]
                    same = (i, j)
        return outs, ins, clob_g, clob_x, same
    raise Unsupported("no allocation found")


def operand_printer(b, outs, ins, x64, w):

    def f(i, mod):
        k, r = outs[i] if i < len(outs) else ins[i - len(outs)]
        c, t = (b.outs[i][0], b.outs[i][2]) if i < len(outs) else (b.ins[i - len(outs)][0], b.ins[i - len(outs)][1])
        if k == "x":
            return f"xmm{r}"
        if not mod:
            mod = {8: "b", 16: "w", 32: "k", 64: "q"}[bits_of(t, w)]
        return gname(r, mod, x64)
    return f


def rreg(r):
    return f"R::{r[0].upper()}({r[1]})"


def trampoline(x64):
    s = []
    e = s.append
    A = (lambda n, o: f"[rip + {n} + {o}]") if x64 else (lambda n, o: f"[{n} + {o}]")
    w = 8 if x64 else 4
    ng, nx = (16, 16) if x64 else (8, 8)
    regs = [gname(i, "q" if x64 else "k", x64) for i in range(ng)]
    P = "qword ptr" if x64 else "dword ptr"
    ox = w * ng
    of = ox + 16 * nx
    osp, omx = of + w, of + 2 * w
    o87 = omx + 16
    e(".globl vf_run\nvf_run:")
    for r in (["rbx", "rbp", "r12", "r13", "r14", "r15"] if x64 else ["ebx", "ebp", "esi", "edi"]):
        e("push " + r)
    sp = "rsp" if x64 else "esp"
    e(f"mov {A('VF_ZONE', 0)}, {sp}")
    e(f"sub {sp}, 4096\nand {sp}, -64")
    e(f"mov {A('VF_SP', 0)}, {sp}")
    # the area below the block's stack pointer
    e(f"lea {regs[7]}, [{sp} - {w} - 256]\nmov ecx, 256\nmov al, 0xa5\ncld\nrep stosb")
    for i in range(nx):
        e(f"movdqu xmm{i}, {A('VF_IN', ox + 16 * i)}")
    e(f"ldmxcsr {A('VF_IN', omx)}")
    e(f"frstor {A('VF_IN', o87)}")
    # flags through the zone's own slot above (the return address is written over it)
    e(f"push {P} {A('VF_IN', of)}\npopf{'q' if x64 else 'd'}")
    for i in range(ng):
        if i != 4:
            e(f"mov {regs[i]}, {A('VF_IN', w * i)}")
    e(f"call {P} {A('VF_FN', 0)}")
    for i in range(ng):
        e(f"mov {A('VF_OUT', w * i)}, {regs[i]}")
    e(f"mov {A('VF_OUT', osp)}, {sp}")
    e(f"mov {sp}, {A('VF_SP', 0)}")
    e(f"pushf{'q' if x64 else 'd'}\npop {P} {A('VF_OUT', of)}\ncld")
    for i in range(nx):
        e(f"movdqu {A('VF_OUT', ox + 16 * i)}, xmm{i}")
    e(f"stmxcsr {A('VF_OUT', omx)}")
    e(f"fnsave {A('VF_OUT', o87)}")
    e(f"mov {sp}, {A('VF_ZONE', 0)}")
    e("push 0x1f80" if x64 else "push 0x1f80")
    e(f"ldmxcsr [{sp}]\nadd {sp}, {w}")
    for r in reversed(["rbx", "rbp", "r12", "r13", "r14", "r15"] if x64 else ["ebx", "ebp", "esi", "edi"]):
        e("pop " + r)
    e("ret")
    return "\n".join(s)


def generate(blocks, x64, seed, count, w):
    """w: pointer width (32 on x32)"""
    text, table, externs, skipped = [trampoline(x64)], [], [], []
    for n, b in enumerate(blocks):
        if not b.intel or not b.template.strip():
            if b.template.strip():
                skipped.append(f"{b.where}: not Intel syntax")
            continue
        rng = random.Random(f"{seed}/{b.where}/{b.template}")
        vs, seen = [], set()
        try:
            for k in range(count):
                outs, ins, cg, cx, same = allocate(b, x64, rng, k == 0)
                key = str((outs, ins, same))
                if key in seen and k:
                    continue
                seen.add(key)
                name = f"vf_b{n}_{k}"
                text.append(f".globl {name}\n.p2align 4\n{name}:\n" + expand(b.template, operand_printer(b, outs, ins, x64, w), f"{n}_{k}") + "\nret")
                externs.append(name)
                os_ = ", ".join(f"Out({rreg(outs[i])}, {bits_of(b.outs[i][2], w)}, {i}, {str(i in b.used).lower()}, {str(outs[i][0] == 'g' and bits_of(b.outs[i][2], w) == 8).lower()})" for i in range(len(outs)))
                is_ = ", ".join(f"In({rreg(ins[i])}, {i})" for i in range(len(ins)))
                d = "outs " + " ".join(gname(r, "q" if x64 else "k", x64) if q == "g" else f"xmm{r}" for q, r in outs) + " ins " + " ".join(gname(r, "q" if x64 else "k", x64) if q == "g" else f"xmm{r}" for q, r in ins)
                vs.append(f"Variant {{ f: {name} as usize, ins: &[{is_}], outs: &[{os_}], clob_g: {sum(1 << i for i in cg)}, clob_x: {sum(1 << i for i in cx)}, same: {same}, text: {json.dumps(d)} }}")
        except Unsupported as e:
            skipped.append(f"{b.where}: constraint {e}")
            continue
        args = ", ".join(f"Arg({0 if t == 'ptr' else bits_of(t, w)}, {'None' if c is None else f'Some({c})'})" for _, t, c in b.ins)
        table.append(f"Blk {{ name: {json.dumps(b.where)}, args: &[{args}], flags: {str('flags' in b.clobbers).lower()}, st: {str('st' in b.clobbers).lower()}, nostack: {str(b.nostack).lower()}, mem: {b.access}, pure: {str(not b.sideeffect).lower()}, variants: &[{', '.join(vs)}] }}")
    s = open(os.path.join(VERIF, "contract", "main.rs")).read()
    s += 'core::arch::global_asm!(include_str!("blocks.s"), options(raw));\n'
    s += 'extern "C" {\n' + "".join(f"    fn {e}();\n" for e in externs) + "}\n"
    s += f"const PTR: u16 = {w};\n"
    s += f"static BLOCKS: [Blk; {len(table)}] = [\n" + ",\n".join(table) + "];\n"
    # function addresses are not usable as integers in statics
    s = s.replace("f: usize,", "f: unsafe extern \"C\" fn(),").replace(" as usize, ins:", ", ins:").replace("VF_FN = w.f;", "VF_FN = w.f as usize;")
    return s, "\n".join(text) + "\n", skipped


def job(x, conf, seed, count, scale):
    rep = x.rep
    name = f"{conf.name}:contract" + ("" if seed == x.seed else f"#{seed}")
    x64 = conf.triple.startswith("x86_64")
    try:
        d = compile_harness(conf.target, "ops.rs", "llvm-ir", out_tag="ops_ir")
    except CrossError as e:
        rep.unsure(name, str(e)[-500:])
        return
    blocks = extract(open(os.path.join(d, "ops_ir.ll")).read())
    src, text, skipped = generate(blocks, x64, seed, count, 32 if conf.triple.endswith("x32") or not x64 else 64)
    for s in skipped:
        rep.unsure(name, "block not analysed: " + s)
    g = os.path.join(CACHE, "contract", tree_hash(extra=src + text))
    out = os.path.join(g, "contract")
    with Lock("contract-" + os.path.basename(g)):
        if not os.path.exists(out):
            os.makedirs(g, exist_ok=True)
            open(os.path.join(g, "main.rs"), "w").write(src)
            open(os.path.join(g, "blocks.s"), "w").write(text)
            p = run(["rustc", "+" + NATIVE_TOOLCHAIN, "--edition", "2021", "-O", "--target", conf.triple if not conf.triple.endswith("x32") else "x86_64-unknown-linux-gnu", "-Crelocation-model=static", "-o", out + ".tmp", os.path.join(g, "main.rs"), "--cap-lints", "allow"], timeout=300)
            if p.rc != 0:
                rep.unsure(name, "build failed: " + p.err[-800:])
                return
            os.rename(out + ".tmp", out)
    run_binary(rep, name, [out, "run", str(seed), str(scale)], x.accept, timeout=300, crash_is="crash")


def effects(x, conf):
    """What the compiler is told about the assembly blocks, where the operations are not emulated."""
    name = f"{conf.name}:effects"
    try:
        d = compile_harness(conf.target, "ops.rs", "llvm-ir", out_tag="ops_ir")
    except CrossError as e:
        x.rep.unsure(name, str(e)[-500:])
        return
    said = set()
    for n, kind, text in declared(open(os.path.join(d, "ops_ir.ll")).read(), lambda n: any(c != "R" for c in n.rpartition("__")[2])):
        if kind is None:
            x.rep.stat("block_effects_checked", 1, name)
        elif kind in x.accept and len(said) < 5 and (kind, text) not in said:
            said.add((kind, text))
            x.rep.violation(name, kind, f"{n}: {text}", f"python3 check.py {x.rep.prop}")
