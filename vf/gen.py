"""C10: random programs around the operations, the same text on the crate's atomics and on an ideal
atomic. The programs differ in register pressure, stack data (red zone), live flags, floating point,
wide arithmetic, loops and branches around the operation."""
import os, random
from .common import *
from .build import CONFIGS, build, BuildError
from .native import run_binary

O = {"ld": ["Relaxed", "Acquire", "SeqCst"], "st": ["Relaxed", "Release", "SeqCst"], "sw": ["Relaxed", "Acquire", "Release", "AcqRel", "SeqCst"]}
CAS_DECL = """fn cx(&self, a: T, b: T, s: Ordering, f: Ordering) -> Result<T, T>;
    fn cw(&self, a: T, b: T, s: Ordering, f: Ordering) -> Result<T, T>;
    fn fu<F: FnMut(T) -> Option<T>>(&self, s: Ordering, f: Ordering, g: F) -> Result<T, T>;"""
_R = """#[inline(always)]
    fn NAME(&self, a: T, b: T, s: Ordering, f: Ordering) -> Result<T, T> {
        unsafe {
            match self.0.METH(M::new(a), M::new(b), s, f) {
                Ok(v) => Ok(v.assume_init()),
                Err(v) => Err(v.assume_init()),
            }
        }
    }
    """
CAS_REAL = _R.replace("NAME", "cx").replace("METH", "compare_exchange") + _R.replace("NAME", "cw").replace("METH", "compare_exchange_weak") + """#[inline(always)]
    fn fu<F: FnMut(T) -> Option<T>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<T, T> {
        unsafe {
            match self.0.fetch_update(s, f, |x| g(x.assume_init()).map(M::new)) {
                Ok(v) => Ok(v.assume_init()),
                Err(v) => Err(v.assume_init()),
            }
        }
    }"""
_I = """#[inline(always)]
    fn NAME(&self, a: T, b: T, _: Ordering, _: Ordering) -> Result<T, T> {
        unsafe {
            OPS += 1;
            let r = self.0.get().read_volatile();
            if r == a {
                self.0.get().write_volatile(b);
                Ok(r)
            } else {
                Err(r)
            }
        }
    }
    """
CAS_IDEAL = _I.replace("NAME", "cx") + _I.replace("NAME", "cw") + """#[inline(always)]
    fn fu<F: FnMut(T) -> Option<T>>(&self, _: Ordering, _: Ordering, mut g: F) -> Result<T, T> {
        unsafe {
            OPS += 1;
            let r = self.0.get().read_volatile();
            match g(r) {
                Some(v) => {
                    self.0.get().write_volatile(v);
                    Ok(r)
                }
                None => Err(r),
            }
        }
    }"""


class Prog:
    """One function. u: u64 variables, w: u128 variables, d: f64 holding small integers, b: bools."""

    def __init__(self, rng, types, cas, x64, floats=True, views=0.15):
        self.r, self.types, self.cas, self.x64 = rng, types, cas, x64
        self.ops = 0
        self.nu = rng.choice([2, 4, 6, 8, 11, 13])
        self.nw = rng.choice([0, 0, 1, 2])
        self.nd = rng.choice([0, 0, 1, 3, 6, 9]) if floats else 0
        self.na = rng.choice([0, 1, 2, 5, 8, 11, 13, 15, 24])
        self.nv = rng.choice([0, 0, 1])
        self.nb = 0
        # one or two locations (type, byte offset in the buffer)
        self.locs = []
        for i in range(rng.choice([1, 1, 1, 2])):
            t = rng.choice(types)
            self.locs.append((t, 64 * (1 + i) + rng.randrange(64 // self.size(t)) * self.size(t)))
        # how much the locations are also accessed in other ways; where they are and how they are reached
        self.views = rng.choice([0, views, views, 3 * views])
        self.kind = [rng.choice(["ref", "ptr", "mut", "local", "local"] if self.views else ["ref", "ref", "ptr"]) for _ in self.locs]
        self.out, self.depth = [], 1

    def size(self, t):
        return {"isize": 8 if self.x64 else 4, "usize": 8 if self.x64 else 4}.get(t) or int(t[1:]) // 8

    def e(self, s):
        self.out.append("    " * self.depth + s)

    def u(self):
        return f"u{self.r.randrange(self.nu)}"

    def val(self, t):
        """A value of type t, out of a wider register most of the time."""
        r = self.r
        if self.size(t) == 16:
            if self.nw and r.random() < 0.6:
                return f"(w{r.randrange(self.nw)} as {t})"
            return f"((({self.u()} as u128) << 64 | {self.u()} as u128) as {t})"
        k = r.random()
        if k < 0.1:
            return f"({r.choice([0, 1, 255, -1])}i128 as {t})"
        if k < 0.2 and self.nd:
            return f"(d{r.randrange(self.nd)} as i64 as {t})"
        if k < 0.3:
            return f"(({self.u()} >> {r.randrange(1, 40)}) as {t})"
        return f"({self.u()} as {t})"

    def use(self, t, x):
        """Fold a value of type t into some variable."""
        v = self.u()
        if self.size(t) == 16:
            if self.nw:
                self.e(f"w{self.r.randrange(self.nw)} ^= {x} as u128;")
            else:
                self.e(f"{v} = {v}.rotate_left(7) ^ ({x} as u128 as u64) ^ (({x} as u128 >> 64) as u64);")
        else:
            self.e(f"{v} = {v}.rotate_left({self.r.randrange(1, 60)}) ^ ({x} as u64);")

    def op(self):
        r = self.r
        i = r.randrange(len(self.locs))
        t = self.locs[i][0]
        if r.random() < self.views:
            self.view(i, t)
        k = r.choice(["ld", "ld", "st", "st", "sw"] + (["cx", "cx", "cx", "cw", "fu"] if self.cas else []))
        self.ops += 1
        n = len(self.out)
        if k == "ld":
            self.e(f"let r{n} = a{i}.ld({r.choice(O[k])});")
            self.use(t, f"r{n}")
        elif k == "st":
            self.e(f"a{i}.st({self.val(t)}, {r.choice(O[k])});")
        elif k == "sw":
            self.e(f"let r{n} = a{i}.sw({self.val(t)}, {r.choice(O[k])});")
            if r.random() < 0.8:
                self.use(t, f"r{n}")
        elif k in ("cx", "cw"):
            old = self.val(t)
            if r.random() < 0.6:
                self.e(f"let o{n} = a{i}.ld(Relaxed);")
                old = f"o{n}"
                self.ops += 1
            call = f"a{i}.{k}({old}, {self.val(t)}, {r.choice(O['sw'])}, {r.choice(O['ld'])})"
            f = r.randrange(4)
            if f == 0:
                self.e(f"if {call}.is_ok() {{ {self.u()} ^= {r.randrange(1 << 40)}; }}")
            elif f == 1:
                self.e(f"let (k{n}, r{n}) = match {call} {{ Ok(v) => (true, v), Err(v) => (false, v) }};")
                self.use(t, f"r{n}")
                self.e(f"if k{n} {{ {self.u()} = {self.u()}.wrapping_add(1); }}")
            elif f == 2:
                self.e(f"let r{n} = match {call} {{ Ok(v) => v, Err(v) => v }};")
                self.use(t, f"r{n}")
            else:
                self.e(f"b{self.nb} = {call}.is_err();")
                self.nb += 1
        else:
            v, w = self.u(), self.u()
            c = r.choice([f"{w} & {1 << r.randrange(6)} == 0", "true", f"{w} < {v}"])
            add = f"x.wrapping_add({self.val(t)})" if r.random() < 0.7 else f"x ^ {self.val(t)}"
            self.e(f"let r{n} = a{i}.fu({r.choice(O['sw'])}, {r.choice(O['ld'])}, |x| {{ {v} = {v}.wrapping_add(3); if {c} {{ Some({add}) }} else {{ None }} }});")
            self.e(f"b{self.nb} = r{n}.is_ok();")
            self.nb += 1
            self.e(f"let r{n} = match r{n} {{ Ok(v) => v, Err(v) => v }};")
            self.use(t, f"r{n}")
        if r.random() < self.views:
            self.view(i, t)

    def view(self, i, t):
        """An access to location i that is no atomic operation."""
        k = self.r.choice(["pw", "pw", "pr", "gm"] if self.kind[i] in ("mut", "local") else ["pw", "pw", "pr"])
        n = len(self.out)
        if k == "pw":
            self.e(f"a{i}.pw({self.val(t)});")
        else:
            self.e(f"let v{n} = a{i}.{k}({self.val(t) if k == 'gm' else ''});")
            self.use(t, f"v{n}")

    def other(self):
        r = self.r
        k = r.randrange(9)
        a, b, c = self.u(), self.u(), self.u()
        n = len(self.out)
        if k == 0:
            self.e(f"{a} = {b}.wrapping_mul({r.randrange(1 << 63) | 1}) ^ {c}.rotate_left({r.randrange(1, 63)});")
        elif k == 1 and self.na:
            self.e(f"unsafe {{ vw(l, ({a} as usize) % {self.na}, {b}) }}")
        elif k == 2 and self.na:
            self.e(f"{a} ^= unsafe {{ vr(l, ({b} as usize) % {self.na}) }};")
        elif k == 3:
            # carry or comparison around an operation
            e = r.choice([f"{a}.overflowing_add({b}).1", f"{a} < {b}", f"({a} as i64) > ({b} as i64)", f"{a} & {b} == 0", f"({a} as i32).checked_sub({b} as i32).is_none()", f"{a} == {b}", f"({a} as u8) < ({b} as u8)"])
            self.e(f"let c{n} = {e};")
            self.op()
            f = r.randrange(3)
            if f == 0:
                self.e(f"if c{n} {{ {c} = {c}.wrapping_sub(5); }} else {{ {c} = !{c}; }}")
            elif f == 1:
                self.e(f"{c} = if c{n} {{ {a} }} else {{ {b}.swap_bytes() }};")
            else:
                self.e(f"{c} = {c}.wrapping_add(c{n} as u64);")
        elif k == 4 and self.nw:
            i, j = r.randrange(self.nw), r.randrange(self.nw)
            self.e(f"w{i} = w{j}.wrapping_add({a} as u128).wrapping_mul(0x1_0000_0000_0000_01b3);")
            if r.random() < 0.7:
                self.op()
            self.e(f"w{i} = w{i}.wrapping_sub(w{j} >> 3);")
        elif k == 5 and self.nd:
            i, j = r.randrange(self.nd), r.randrange(self.nd)
            self.e(f"d{i} = ((d{i} * 3.0 + d{j} + 1.0) as i64 & 0xffff) as f64;")
            if r.random() < 0.5:
                self.e(f"let c{n} = d{i} < d{j};")
                self.op()
                self.e(f"if c{n} {{ d{j} = d{j} * 0.5 + d{i}; d{j} = (d{j} as i64 & 0xfff) as f64; }}")
        elif k == 6 and self.depth < 3:
            self.e(f"if {r.choice([f'{a} & {1 << r.randrange(8)} != 0', f'{a} < {b}', f'{a} as u16 > 77'])} {{")
            self.block(r.randrange(1, 4))
            if r.random() < 0.5:
                self.e("} else {")
                self.block(r.randrange(1, 3))
            self.e("}")
        elif k == 7 and self.depth < 3:
            self.e(f"for i{n} in 0..({a} & {r.choice([1, 3, 3, 7])}) {{")
            self.e(f"    {b} = {b}.wrapping_add(i{n});")
            self.block(r.randrange(1, 4))
            self.e("}")
        elif k == 8 and self.nv:
            self.e(f"for j in 0..8 {{ vv[j] = vv[j].wrapping_mul(3).wrapping_add({a} as u32) ^ (j as u32); }}")
            self.op()
            self.e(f"{b} ^= vv.iter().fold(0u32, |s, x| s.rotate_left(3) ^ x) as u64;")

    def block(self, n):
        self.depth += 1
        nb = self.nb
        for _ in range(n):
            if self.r.random() < 0.4:
                self.op()
            else:
                self.other()
        self.depth -= 1

    def text(self, name):
        r = self.r
        body = []
        self.out = body
        for _ in range(r.choice([3, 5, 8, 12])):
            if r.random() < 0.35:
                self.op()
            else:
                self.other()
        if not self.ops:
            self.op()
        h = [f"#[inline(never)]", f"pub unsafe extern \"C\" fn {name}<X: Fam>(m: *mut u64, inp: *const [u64; 16]) -> u64 {{"]
        for i, (t, off) in enumerate(self.locs):
            p = f"(m as *mut u8).add({off})"
            if self.kind[i] == "local":
                h.append(f"    let mut q{i} = X::At::<{t}>::new(*({p} as *const {t}));")
            h.append(f"    let a{i} = " + {"ref": f"&*({p} as *const X::At<{t}>);", "ptr": f"X::At::<{t}>::at({p});", "mut": f"&mut *({p} as *mut X::At<{t}>);", "local": f"&mut q{i};"}[self.kind[i]])
        for i in range(self.nu):
            h.append(f"    let mut u{i} = (*inp)[{i}];")
        for i in range(self.nw):
            h.append(f"    let mut w{i} = ((*inp)[{13 + i}] as u128) << 57 ^ (*inp)[{12 + i}] as u128;")
        for i in range(self.nd):
            h.append(f"    let mut d{i} = ((*inp)[{i}] >> {7 + i} & 0xffff) as f64;")
        if self.na:
            h.append(f"    let mut lbuf = [0u64; {self.na}];")
            h.append("    let l = lbuf.as_mut_ptr();")
            h.append(f"    for i in 0..{self.na} {{ vw(l, i, (*inp)[i & 15].rotate_left(i as u32)) }}")
        if self.nv:
            h.append("    let mut vv: [u32; 8] = [0; 8];")
            h.append("    for j in 0..8 { vv[j] = (*inp)[j] as u32; }")
        for i in range(self.nb):
            h.append(f"    let mut b{i} = false;")
        t = ["    let mut s = 0u64;"]
        for i in range(self.nu):
            t.append(f"    s = s.rotate_left(5) ^ u{i};")
        for i in range(self.nw):
            t.append(f"    s = s.rotate_left(5) ^ w{i} as u64 ^ (w{i} >> 64) as u64;")
        for i in range(self.nd):
            t.append(f"    s = s.rotate_left(5) ^ (d{i} as i64 as u64);")
        if self.na:
            t.append(f"    for i in 0..{self.na} {{ s = s.rotate_left(3) ^ vr(l, i); }}")
        if self.nv:
            t.append("    for j in 0..8 { s = s.rotate_left(3) ^ vv[j] as u64; }")
        for i in range(self.nb):
            t.append(f"    s ^= (b{i} as u64) << {i % 64};")
        for i, (y, off) in enumerate(self.locs):
            if self.kind[i] == "local":
                t.append(f"    *((m as *mut u8).add({off}) as *mut {y}) = q{i}.fin();")
        t += ["    s", "}"]
        return "\n".join(h + body + t), self.ops, 8 * self.na


def generate(seed, types, cas, x64, floats, count, views):
    rng = random.Random(f"{seed}/{types}/{cas}/{x64}")
    s = open(os.path.join(VERIF, "gen", "support.rs")).read()
    for k, v in (("AND_CAS", "+ AtomicCompareExchange" if cas else ""), ("CAS_DECL", CAS_DECL if cas else ""), ("CAS_REAL", CAS_REAL if cas else ""), ("CAS_IDEAL", CAS_IDEAL if cas else "")):
        s = s.replace(k, v)
    s += "".join(f"impl Prim for {t} {{}}\n" for t in types)
    cases = []
    for i in range(count):
        p = Prog(rng, types, cas, x64, floats, views)
        text, ops, nbytes = p.text(f"p{i}")
        s += text + "\n"
        cases.append(f'    v.push(("p{i}", p{i}::<Real> as usize, p{i}::<Ideal> as usize, {ops}, {nbytes}));')
    s += "fn cases() -> Vec<Case> {\n    let mut v: Vec<Case> = vec![];\n" + "\n".join(cases) + "\n    v\n}\n"
    return s


def crate(seed, cfg, count, views):
    c = CONFIGS[cfg]
    x64 = c.target is None
    types = ["i8", "u8", "i16", "u16", "i32", "u32", "isize", "usize"]
    if "vf_no64" not in c.cfgs:
        types += ["i64", "u64"] * (1 if x64 else 3)
    if "vf_128" in c.cfgs:
        types += ["i128", "u128"] * 4
    cas = "vf_nocas" not in c.cfgs
    u = list(dict.fromkeys(types))
    floats = "-x87" not in c.flags and "soft-float" not in c.flags  # LLVM cannot compile some of them there
    s = generate(seed, types, cas, x64, floats, count, views)
    s = s.replace("".join(f"impl Prim for {t} {{}}\n" for t in types), "".join(f"impl Prim for {t} {{}}\n" for t in u))
    d = os.path.join(CACHE, "gen", tree_hash(extra=s + REPO))
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    for f, t in (("src/main.rs", s), ("Cargo.toml", open(os.path.join(VERIF, "native", "Cargo.toml")).read().replace("amu-native", "amu-gen").replace('"/repo"', f'"{REPO}"'))):
        p = os.path.join(d, f)
        if not os.path.exists(p):
            tmp = f"{p}.{os.getpid()}.{threading.get_ident()}"
            open(tmp, "w").write(t)
            os.rename(tmp, p)
    return d


def job(x, cfg, seed, count, scale, views=0.15):
    name = f"{cfg}:programs" + ("" if seed == x.seed else f"#{seed}")
    d = crate(seed, cfg, count, views)
    try:
        b = build(d, cfg, "amu-gen")
    except BuildError as e:
        x.rep.unsure(name, "build failed: " + e.log[-600:])
        return
    run_binary(x.rep, name, [b, "run", str(seed), str(scale)], x.accept, timeout=300, crash_is="crash")
