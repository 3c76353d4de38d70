"""The inline assembly blocks of the compiled operations, as the compiler sees them: template text,
operand constraints, declared clobbers and effects."""
import re


class Block:
    def __init__(self, template, intel, outs, ins, clobbers, effects, nostack, where):
        self.template, self.intel, self.outs, self.ins, self.clobbers = template, intel, outs, ins, clobbers
        self.effects, self.nostack, self.where = effects, nostack, where
        self.used = set()
        self.sideeffect = True
        self.functions = set()

    @property
    def access(self):
        """What the compiler is told: 0 the block does not access memory, 1 it may read it, 2 it may write it."""
        if self.effects == "all":
            return 2
        d = [x.strip() for x in self.effects.split(",") if ":" not in x]
        d += [x.split(":")[1].strip() for x in self.effects.split(",") if x.strip().startswith("argmem:")]
        return 2 if any("write" in x for x in d) else 1 if "read" in d else 0

    def __repr__(self):
        return f"{self.where}: {self.template!r} outs={self.outs} ins={self.ins} clobbers={self.clobbers} effects={self.effects} used={self.used}"


def split_args(s):
    """Split at top-level commas."""
    out, depth, cur, q = [], 0, "", False
    for ch in s:
        if q:
            cur += ch
            q = ch != '"'
            continue
        if ch == '"':
            q = True
        if ch in "([{<":
            depth += 1
        elif ch in ")]}>":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def split_constraints(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        depth += ch == "{"
        depth -= ch == "}"
        if ch == "," and depth == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    return out + [cur] if cur else out


def unescape(s):
    return re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m[1], 16)), s)


TYPE = re.compile(r"(<\d+ x [a-z0-9]+>|\[\d+ x [a-z0-9]+\]|[a-z][a-z0-9]*)\s*(.*)$")


def extract(ir):
    """All blocks in LLVM IR text, merged when text, constraints and types are the same."""
    attrs = dict(re.findall(r"^attributes (#\d+) = \{(.*)\}", ir, re.M))
    blocks = {}
    for fm in re.finditer(r"^define .*?@([\w.]+)\(.*?\{\n(.*?)^\}", ir, re.M | re.S):
        fname, body = fm[1], fm[2]
        for l in body.splitlines():
            m = re.match(r'\s*(?:(%[\w.]+) = )?(?:tail |notail )?call (.*?) asm (.*?)"((?:[^"])*)", "([^"]*)"\((.*)\)(.*)$', l)
            if not m:
                continue
            name, rty, flags, tmpl, cons, args, rest = m.groups()
            am = re.search(r"(#\d+)", rest)
            at = attrs.get(am[1], "") if am else ""
            mem = re.search(r"memory\(([^)]*)\)", at)
            effects = mem[1] if mem else "all"
            if rty.startswith("{"):
                rtypes = split_args(rty[1:-1])
            else:
                rtypes = [] if rty == "void" else [rty]
            outs, ins, clob = [], [], []
            al = split_args(args)
            for c in split_constraints(cons):
                if c.startswith("="):
                    early = c.startswith("=&")
                    outs.append((c[2:] if early else c[1:], early, rtypes[len(outs)]))
                elif c.startswith("~"):
                    clob.append(c[2:-1])
                else:
                    t = TYPE.match(al[len(ins)])
                    val = t[2].split()[-1] if t[2] else ""
                    const = None
                    if re.fullmatch(r"-?\d+", val):
                        const = int(val)
                    elif val == "zeroinitializer" or val == "null":
                        const = 0
                    elif val in ("true", "false"):
                        const = int(val == "true")
                    ins.append((c, t[1], const))
            key = (tmpl, cons, rty, str(ins), effects, "alignstack" in flags, "sideeffect" in flags)
            b = blocks.get(key)
            if b is None:
                b = blocks[key] = Block(unescape(tmpl), "inteldialect" in flags, outs, ins, clob, effects, "alignstack" not in flags, fname)
            b.functions.add(fname)
            b.sideeffect = "sideeffect" in flags
            if name:
                if not rty.startswith("{"):
                    if len(re.findall(re.escape(name) + r"(?![\w.])", body)) > 1:
                        b.used.add(0)
                else:
                    whole = re.findall(re.escape(name) + r"(?![\w.])", body)
                    ex = re.findall(r"extractvalue \{[^\n]*?\} " + re.escape(name) + r", (\d+)", body)
                    b.used |= {int(i) for i in ex}
                    if len(whole) - 1 > len(ex):
                        b.used |= set(range(len(outs)))
    return list(blocks.values())


def expand(template, operand, uid="0"):
    """Template text for one allocation. `operand(index, modifier)` prints an operand."""
    out, i = "", 0
    t = template
    while i < len(t):
        ch = t[i]
        if ch != "$":
            out += ch
            i += 1
            continue
        n = t[i + 1] if i + 1 < len(t) else ""
        if n == "$":
            out += "$"
            i += 2
        elif n == "{":
            j = t.index("}", i)
            k, _, mod = t[i + 2:j].partition(":")
            out += uid if not k else operand(int(k), mod)
            i = j + 1
        elif n.isdigit():
            j = i + 1
            while j < len(t) and t[j].isdigit():
                j += 1
            out += operand(int(t[i + 1:j]), "")
            i = j
        elif n in "()|":
            i += 2
        else:
            out += ch
            i += 1
    return out


MEMISH = r"[\[(@]|\bl\d|\bl[dl]"  # templates that seem to access memory


def declared(ir, strong, touches=None):
    """What the compiler is told about the assembly of each operation, against what the operation needs.
    strong(function) -> is any of its orderings stronger than Relaxed; yields (function, class, text), or
    (function, None, None) for each block looked at."""
    blocks = extract(ir)
    by = {}
    for b in blocks:
        for n in b.functions:
            by.setdefault(n, []).append(b)
    loads = {b.template for n, l in by.items() if n.startswith("ld__") for b in l}
    # barriers other than assembly
    other = {}
    for fm in re.finditer(r"^define .*?@([\w.]+)\(.*?\{\n(.*?)^\}", ir, re.M | re.S):
        other[fm[1]] = bool(re.search(r"^\s*fence |\batomic\b|\batomicrmw\b|\bcmpxchg\b|call (?!.*\basm\b)(?!.*@llvm\.)[^\n]*@", re.sub(r'asm [^\n]*', "asm", fm[2]), re.M))
    for n, l in by.items():
        op = n.partition("__")[0]
        if op not in ("ld", "st", "sw", "ce", "cw"):
            continue
        l = [b for b in l if b.template.strip()]
        for b in l:
            memish = re.search(touches or MEMISH, b.template)
            if not memish:
                continue
            yield n, None, None
            says = f"the compiler is told that an assembly block of the operation has only the memory effects ({b.effects})"
            if op != "ld" and b.access < 2 and not (b.access == 1 and b.template in loads):
                yield n, "release-not-ordered", says + ", so it may move other accesses across it or drop it"
            elif op == "ld" and b.access == 0:
                yield n, "store-not-seen", says + ", so the load may be moved across other accesses of its thread"
            elif not b.sideeffect:
                yield n, "store-not-seen", "the compiler is told that the load has no side effect, so repeated loads may be merged"
        if l and strong(n) and not other.get(n) and all(b.access < 2 for b in l):
            yield n, "acquire-not-ordered" if op == "ld" else "release-not-ordered", "the compiler is told that no assembly block of the operation has effects on memory, so it may move other accesses across it"
