"""Instruction-level execution of compiled operations for other architectures, with monitors on every
memory access. The architecture modules supply the meaning of instructions; here are memory, the
reservation of load-linked/store-conditional, injection of other agents, and the event trace."""
import re


class Unsupported(Exception):
    pass


class Bad(Exception):
    """A violation: (class, text)."""


def mask(n):
    return (1 << n) - 1


def sx(v, n):
    v &= mask(n)
    return v - (1 << n) if v >> (n - 1) else v


class Ev:
    """A memory event or fence of the trace."""
    __slots__ = ("k", "addr", "n", "acq", "rel", "sc", "pred", "succ", "full", "sys", "ok")

    def __init__(self, k, addr=0, n=0, acq=False, rel=False, sc=False, pred="", succ="", full=False, ok=True):
        self.k, self.addr, self.n, self.acq, self.rel, self.sc = k, addr, n, acq, rel, sc
        self.pred, self.succ, self.full, self.ok = pred, succ, full, ok
        self.sys = None

    def __repr__(self):
        if self.k == "F":
            return f"isync({len(self.sys)})" if self.sys is not None else f"fence({self.pred}->{self.succ}{' full' if self.full else ''})"
        return f"{self.k}[{self.n}]" + "".join(f".{x}" for x in ("acq", "rel", "sc") if getattr(self, x))


class Memory:
    """Byte memory in a few regions; anything else faults."""

    def __init__(self, regions):
        self.reg = [(base, bytearray(data), name) for base, data, name in regions]

    def find(self, a, n):
        for base, data, name in self.reg:
            if base <= a and a + n <= base + len(data):
                return base, data, name
        raise Bad("fault", f"access of {n} bytes at {a:#x}, outside of all memory the operation was given")

    def get(self, a, n):
        base, data, _ = self.find(a, n)
        return bytes(data[a - base:a - base + n])

    def put(self, a, b):
        base, data, _ = self.find(a, len(b))
        data[a - base:a - base + len(b)] = b


class Machine:
    """State shared by all architectures."""
    LIMIT = 3000

    def __init__(self, isa, mem, obj, n):
        self.isa, self.mem = isa, mem
        self.big = isa.big
        self.obj, self.n = obj, n  # the object
        g = isa.granule
        self.lo, self.hi = obj // g * g, max(obj // g * g + g, obj + n)
        self.r = {}
        self.fl = {}
        self.events = []
        self.res = None
        self.llseen = None
        self.between = None
        self.steps = 0
        self.points = 0
        self.plan = {}  # point -> action
        self.pending = []
        self.irq = True
        self.spurious = 0
        self.sc_fail = 0
        self.sc_tries = 0
        self.injected = 0
        self.writes = 0
        self.reads = 0
        self.path = None  # instructions and accessed addresses, if wanted

    # --- other agents
    def point(self):
        """Called before each (part of an) access to the object's word, and at the end."""
        p = self.points
        self.points += 1
        if p in self.plan:
            self.pending.append(self.plan[p])
        if self.irq:
            self.flush()

    def flush(self):
        while self.pending:
            self.pending.pop(0)(self)
            self.injected += 1

    def foreign(self, a, b):
        """Another agent writes bytes."""
        self.mem.put(a, b)
        if self.res and self.res[0] // self.isa.res_granule == a // self.isa.res_granule:
            self.res = None

    # --- access
    def mine(self, a, n):
        return a < self.hi and a + n > self.lo

    def chk(self, a, n, w, atomic):
        if self.path is not None:
            self.path.append((a, n, w))
        if self.llseen is not None and not atomic:
            self.between = f"{'write' if w else 'read'} of {n} bytes at {a:#x}"
        if self.mine(a, n):
            allowed_lo, allowed_hi = self.obj, self.obj + self.n
            if self.n < self.isa.min_atomic:
                allowed_lo, allowed_hi = self.lo, self.lo + self.isa.min_atomic if self.hi - self.lo > self.isa.min_atomic else self.hi
                allowed_lo = self.obj // self.isa.min_atomic * self.isa.min_atomic
                allowed_hi = allowed_lo + self.isa.min_atomic
            if a < allowed_lo or a + n > allowed_hi:
                raise Bad("touches-outside-object", f"{'write' if w else 'read'} of {n} bytes at offset {a - self.obj} of an object of {self.n} bytes")
        elif w:
            name = self.mem.find(a, n)[2]
            if name not in ("out", "stack"):
                raise Bad("touches-outside-object", f"write of {n} bytes to {name}")
        if a % min(n, self.isa.max_align(n)) and (self.isa.strict_align or atomic):
            raise Bad("fault", f"misaligned access of {n} bytes at {a:#x}")

    def ld(self, a, n, atomic=None, acq=False, sc=False, parts=None):
        """A plain or acquire load; `parts`: how it is split for single-copy atomicity."""
        a &= self.isa.amask
        self.chk(a, n, False, False)
        if not self.mine(a, n):
            return self.val(self.mem.get(a, n))
        step = parts or self.isa.part(n, a)
        out = b""
        for o in range(0, n, step):
            self.point()
            out += self.mem.get(a + o, step)
        self.reads += 1
        self.events.append(Ev("R", a, n, acq=acq, sc=sc))
        return self.val(out)

    def st(self, a, n, v, rel=False, sc=False, parts=None):
        a &= self.isa.amask
        self.chk(a, n, True, False)
        b = self.byt(v, n)
        if not self.mine(a, n):
            self.mem.put(a, b)
            return
        step = parts or self.isa.part(n, a)
        for o in range(0, n, step):
            self.point()
            self.mem.put(a + o, b[o:o + step])
        self.writes += 1
        self.events.append(Ev("W", a, n, rel=rel, sc=sc))
        if self.res and self.res[0] // self.isa.res_granule == a // self.isa.res_granule:
            self.res = None

    def ll(self, a, n, acq=False, rel=False, sc=False):
        a &= self.isa.amask
        self.chk(a, n, False, True)
        self.point()
        self.reads += 1
        self.events.append(Ev("R", a, n, acq=acq, rel=rel, sc=sc))
        v = self.val(self.mem.get(a, n))
        self.res = (a, n)
        self.llseen, self.between = (a, n), None
        return v

    def llp(self, a, n, acq, half):
        """Load-linked of a pair: each half is read on its own; only a successful store-conditional
        makes the pair one atomic read."""
        a &= self.isa.amask
        self.chk(a, n, False, True)
        self.reads += 1
        h = half // 8
        self.point()
        self.res = (a, n)
        b = self.mem.get(a, h)
        self.point()
        b += self.mem.get(a + h, h)
        self.events.append(Ev("R", a, n, acq=acq, sc=acq))
        self.llseen, self.between = (a, n), None
        return self.val(b)

    def sc(self, a, n, v, acq=False, rel=False, sc=False):
        a &= self.isa.amask
        self.chk(a, n, True, True)
        self.point()
        self.sc_tries += 1
        if self.llseen is None:
            raise Bad("sc-without-ll", "store-conditional without a matching load-linked")
        if self.between:
            raise Bad("access-between-ll-sc", f"{self.between} between load-linked and store-conditional (may prevent progress for ever)")
        if self.llseen != (a, n):
            raise Bad("sc-without-ll", f"store-conditional of {n} bytes after a load-linked of {self.llseen[1]} bytes (addresses {a:#x}, {self.llseen[0]:#x})")
        self.llseen = None
        ok = self.res == (a, n)
        self.res = None
        if ok and self.spurious > 0:
            self.spurious -= 1
            ok = False
        if not ok:
            self.sc_fail += 1
            # a failed store-conditional orders nothing
            self.events.append(Ev("X"))
            return False
        self.mem.put(a, self.byt(v, n))
        self.writes += 1
        self.events.append(Ev("W", a, n, acq=acq, rel=rel, sc=sc))
        return True

    def clrex(self):
        self.res = None
        self.llseen = None

    def rmw(self, a, n, f, acq=False, rel=False, sc=False):
        """Atomic read-modify-write; f(old) gives the new value or None."""
        a &= self.isa.amask
        self.chk(a, n, True, True)
        if not self.mine(a, n):
            raise Unsupported("atomic access elsewhere")
        self.point()
        old = self.val(self.mem.get(a, n))
        new = f(old)
        self.reads += 1
        self.events.append(Ev("R", a, n, acq=acq, rel=rel, sc=sc))
        if new is not None:
            self.mem.put(a, self.byt(new, n))
            self.writes += 1
            self.events.append(Ev("W", a, n, acq=acq, rel=rel, sc=sc))
        return old

    def fence(self, pred="rw", succ="rw", full=None):
        if full is None:
            full = "r" in pred and "w" in pred and "r" in succ and "w" in succ
        self.events.append(Ev("F", pred=pred, succ=succ, full=full))

    def val(self, b):
        return int.from_bytes(b, "big" if self.big else "little")

    def byt(self, v, n):
        return (v & mask(8 * n)).to_bytes(n, "big" if self.big else "little")

    # --- execution
    def run(self, code, entry, stop):
        pc, slot = entry, None
        self.branch = None
        while pc != stop:
            f = code.get(pc)
            if f is None:
                raise Bad("crash", f"jumps to {pc:#x}, which is no instruction of the function")
            self.steps += 1
            if self.path is not None:
                self.path.append(pc)
            if self.steps > self.LIMIT:
                raise Bad("unbounded", f"still running after {self.LIMIT} instructions ({self.sc_tries} store-conditionals, {self.sc_fail} failed)")
            pc = f(self)
            # architectures with delay slots set `branch`; it takes effect after the next instruction
            if slot is not None:
                pc, slot = slot, None
                if self.branch is not None:
                    raise Unsupported("branch in a delay slot")
            elif self.branch is not None:
                slot, self.branch = self.branch, None
        self.point()


def ordered(evs, i, j, isa, strong=False):
    """Is event i ordered before event j by the local rules? strong: as required between SeqCst accesses."""
    a, b = evs[i], evs[j]
    need_full = strong and isa.non_mca
    kinds = (a.k.lower(), b.k.lower())
    for f in evs[i + 1:j]:
        if f.k == "F" and (f.full or (not need_full and kinds[0] in f.pred and kinds[1] in f.succ)):
            return True
        if f.k == "F" and f.sys and a in f.sys and not need_full:
            return True
    if need_full and not (a.sc and b.sc):
        return False
    if isa.tso and kinds != ("w", "r") or isa.loads_ordered and kinds[0] == "r":
        return True
    if a.sc and b.sc:
        return True
    if not need_full:
        if a.acq and a.k == "R":
            return True
        if b.rel:
            return True
        if a.acq and isa.amo_atomic:
            return True
    # through another access of the trace in between
    return False


def ordered_t(evs, i, j, isa, strong=False, memo=None):
    """With transitivity."""
    if ordered(evs, i, j, isa, strong):
        return True
    for k in range(i + 1, j):
        if evs[k].k in "RW" and ordered(evs, i, k, isa, strong) and ordered_t(evs, k, j, isa, strong):
            return True
    return False
