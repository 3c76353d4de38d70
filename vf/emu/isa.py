"""Common parts of the architecture modules."""
import re
from .core import *


def operands(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "[({":
            depth += 1
        elif ch in "])}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def num(s):
    s = s.strip().lstrip("#").replace("$", "")
    neg = s.startswith("-")
    s = s.lstrip("+-")
    v = int(s, 16) if s.lower().startswith("0x") else int(s)
    return -v if neg else v


def asm_functions(text, Fn, marks, comment, tag=""):
    """Functions of a compiler's assembly output; addresses are line numbers, labels become @line.
    tag: appended to the instructions of assembly blocks."""
    inside = False
    fns, cur, name = [], None, None
    at, todo = {}, []
    lit = {}
    for i, l in enumerate(text.splitlines()):
        a = 16 + 4 * i
        if l.strip() in (comment + "APP", comment + "NO_APP"):
            inside = "NO" not in l
        l = l.split(comment, 1)[0].strip()
        k = re.match(r"\.literal\s+(\S+),\s*(-?\w+)$", l)
        if k:
            lit[k[1]] = int(k[2], 0)
        k = re.match(r"([\w.$]+):$", l)
        if k:
            if re.fullmatch(r"[a-z]{2}__[iu]\w+__\w+", k[1]):
                name, cur = k[1], []
                at = {}
                todo.append((name, cur, at))
            elif k[1].startswith(".Lfunc_end"):
                cur = None
            elif cur is not None:
                at[k[1]] = a
                v = re.fullmatch(r"vf_([se])(\d+)_\d+", k[1])
                if v:
                    marks.setdefault(name, []).append((a, v[1], int(v[2])))
            continue
        if cur is None or not l or l.startswith("."):
            continue
        cur.append((a, l + tag if inside else l))
    for name, lines, at in todo:
        if not lines:
            continue
        have = [a for a, _ in lines]

        def label(k):
            # the instruction at or after the label
            n = k[0]
            if n in at:
                return "@" + str(min([a for a in have if a >= at[n]], default=0))
            if n in lit:
                return "#" + str(lit[n])
            return n
        fns.append(Fn(name, [(a, re.sub(r"(?<![\w%])\.L\w+", label, t), []) for a, t in lines]))
        if name in marks:
            marks[name] = [(min([x for x in have if x >= a], default=0), s, k) for a, s, k in marks[name]]
    return fns


class Isa:
    """Defaults; each architecture overrides what differs."""
    big = False
    word = 8          # register bytes = size of usize
    granule = 8       # neighbours watched: the aligned block around the object
    res_granule = 16
    min_atomic = 1    # smallest atomic access; smaller objects may access the containing word
    strict_align = False
    non_mca = False
    tso = False
    loads_ordered = False  # a load is ordered before everything later
    in_order = False      # the processor keeps the program order
    single_core = False   # atomicity comes from disabled interrupts
    amo_atomic = False    # an AMO is one memory event for its acquire bit
    base = 0x7F12_3456_0000
    amask = mask(64)
    args, ret, saved, sp = (), None, (), None
    reserved = ()       # in saved, although code around operations may change them on some platforms
    single_copy = 8

    def max_align(self, n):
        return n

    def part(self, n, a):
        """Size of the single-copy atomic pieces of an n-byte plain access."""
        return n if n <= self.single_copy and a % n == 0 else 1 if a % min(n, self.single_copy) else self.single_copy

    def decode(self, addr, text, nxt, relocs):
        text = re.sub(r"<[^>]*>", "", text).strip()
        text = re.split(r"\s+(?:;|//|@)\s?|\s#\s", text)[0].strip() if self.comments else text
        mn, _, rest = text.partition("\t") if "\t" in text else text.partition(" ")
        mn = mn.strip().lower()
        try:
            f = self.ins(mn, operands(rest), addr, nxt, relocs, rest.strip())
        except (ValueError, KeyError, IndexError, AttributeError, TypeError) as e:
            f = None
            why = f"{text} ({type(e).__name__}: {e})"
        else:
            why = text
        if f is None:
            def f(m):
                raise Unsupported(f"instruction {why}")
        return f

    comments = True
    from_asm = False
    layout = (0x1000, 0x2000, 0x3000)
    stack = (1024, 640)   # size of the stack, offset of the stack pointer
    frame = 0             # bytes above the stack pointer that belong to the callee
    stop = 0xFFFF_FFF0
    llsc = True
    usize = 8

    def dump_args(self):
        return []

    def llc_args(self, conf):
        return []

    def packets(self, f):
        pass

    def literals(self, f):
        pass

    def helpers(self):
        return {}

    def load(self, prog, obj):
        prog.extra = []

    def machine(self, mem, obj, n):
        return Machine(self, mem, obj, n)

    def flags_random(self, m, rng):
        pass

    def enter(self, m, rng, sp, args, stop):
        """Calling convention: registers in args, everything else random."""
        for r in self.allregs:
            m.r[r] = rng.choice((0, 1, mask(8 * self.word))) if rng.random() < 0.3 else rng.getrandbits(8 * self.word)
        for r, v in zip(self.args, args):
            m.r[r] = v
        m.r[self.sp] = sp
        self.set_link(m, stop)
        self.flags_random(m, rng)
        m.before = {r: m.r[r] for r in self.saved}

    def set_link(self, m, stop):
        m.r[self.link] = stop

    def leave(self, m):
        """Machine state that must be as before."""
        for r, v in m.before.items():
            if m.r[r] != v and (m.whole or r not in self.reserved):
                raise Bad("machine-state", f"{r} is {m.r[r]:#x} after the operation, was {v:#x}")
        if not m.irq:
            raise Bad("machine-state", "interrupts are left disabled")

    def state(self, m):
        """All machine state an assembly block may change, by name."""
        d = dict(m.r)
        d.update(("cc " + k, v) for k, v in m.fl.items())
        return d

    # names and pools for register allocation (alloc.py); None: not done for this architecture
    pools = None
    alloc_bits = None
    touches = None     # instructions that access memory or control interrupts, where operations consist of several blocks
    spell_out = False  # the code generator cannot print operands in explicit registers
    uid = "${:uid}"  # makes labels unique should the compiler duplicate a block
    alloc_min = 0   # narrower operands keep the compiler's choice

    def regname(self, s):
        return s

    def clobber(self, c):
        return () if c == "memory" else (self.regname(c),)

    def result(self, m):
        return m.r[self.ret]
