//! Single-threaded monitors: functional behaviour, confinement, machine state, read-only memory,
//! access traces.
use crate::ops::*;
use crate::step::{self, *};
use crate::sys::*;
use crate::util::*;

pub struct Env {
    pub arena: Arena,
    pub tab: Table,
    pub rng: Rng,
    pub debug: bool,
    /// number of iterations scale
    pub scale: u64,
}
pub fn rd(p: *const u8, size: usize) -> u128 {
    unsafe {
        match size {
            1 => p.read_volatile() as u128,
            2 => (p as *const u16).read_volatile() as u128,
            4 => (p as *const u32).read_volatile() as u128,
            8 => (p as *const u64).read_volatile() as u128,
            _ => {
                let q = p as *const u64;
                q.read_volatile() as u128 | (q.add(1).read_volatile() as u128) << 64
            }
        }
    }
}
pub fn wr(p: *mut u8, size: usize, v: u128) {
    unsafe {
        match size {
            1 => p.write_volatile(v as u8),
            2 => (p as *mut u16).write_volatile(v as u16),
            4 => (p as *mut u32).write_volatile(v as u32),
            8 => (p as *mut u64).write_volatile(v as u64),
            _ => {
                (p as *mut u64).write_volatile(v as u64);
                (p as *mut u64).add(1).write_volatile((v >> 64) as u64)
            }
        }
    }
}
pub fn limit(e: &Env) -> u32 {
    if e.debug {
        20000
    } else {
        2000
    }
}
pub fn rand_state(r: &mut Rng, debug: bool) -> MState {
    let _ = debug;
    let mut m = MState::default();
    for x in m.regs.iter_mut() {
        *x = r.next() as usize;
    }
    // CF PF AF ZF SF OF
    m.flags = (r.next() as usize) & 0x8D5;
    // rounding/precision control, exceptions masked
    m.cw = 0x3F | [0x000u32, 0x200, 0x300][r.below(3)] | (r.below(4) as u32) << 10;
    m.mxcsr = 0x1F80 | (r.below(4) as u32) << 13 | if r.below(2) == 0 { 0x8040 } else { 0 };
    m
}

pub struct Case {
    pub init: u128,
    pub a: u128,
    pub b: u128,
}
pub fn gen_case(r: &mut Rng, op: &Op) -> Case {
    let init = r.val(op.size, 0x0123456789abcdef_fedcba9876543210);
    let a = if matches!(op.kind, Kind::Cas | Kind::CasWeak) && r.below(2) == 0 { init } else { r.val(op.size, init) };
    let b = r.val(op.size, init);
    Case { init, a, b }
}
pub fn mkctx(r: &mut Rng, op: &Op, ptr: *mut u8, c: &Case) -> Ctx {
    let mut x = Ctx::new(ptr, c.a, c.b);
    // garbage beyond the operand in memory and in registers
    for i in op.size..16 {
        x.a[i] = r.next() as u8;
        x.b[i] = r.next() as u8;
    }
    if op.size < 8 {
        let hi = !(mask(op.size) as u64);
        x.ra = (c.a as u64) | (r.next() & hi);
        x.rb = (c.b as u64) | (r.next() & hi);
    }
    x
}
/// Judge one completed call against the sequential specification, given the value the location
/// held at the linearization point.
pub fn judge(op: &Op, c: &Case, before: u128, x: &Ctx, after: u128) -> Result<(), String> {
    let want = model(op.kind, op.size, before, c.a, c.b);
    let (out, ok) = got(op, x);
    if op.kind != Kind::Load && op.kind != Kind::Store && op.kind != Kind::Swap && x.ok > 1 {
        return Err(format!("invalid success flag {:#x}", x.ok));
    }
    let spurious = op.kind == Kind::CasWeak && ok == Some(false) && out == Some(before) && after == before;
    if spurious {
        return Ok(());
    }
    if out != want.out {
        return Err(format!("returned {:x?}, expected {:x?}", out, want.out));
    }
    if ok != want.ok {
        return Err(format!("success flag {:?}, expected {:?}", ok, want.ok));
    }
    if after != want.mem {
        return Err(format!("memory is {:#x}, expected {:#x}", after, want.mem));
    }
    Ok(())
}
fn desc(op: &Op, c: &Case, off: usize) -> String {
    format!("op={} init={:#x} a={:#x} b={:#x} page_offset={}", op.name(), c.init, c.a, c.b, off)
}

/// C02 (functional), C06 (neighbours/edges), C10 (machine state): random values, direct execution.
pub fn seq(e: &mut Env, iters: u64, what: &str) {
    let mut n = 0u64;
    let mut distinct = std::collections::HashSet::new();
    let mut casok = 0u64;
    let mut spur = 0u64;
    for op in e.tab.ops.clone().iter() {
        for it in 0..iters {
            let r = &mut e.rng;
            let slots = PAGE / op.size;
            let slot = match it % 8 {
                0 => 0,
                1 => slots - 1,
                _ => r.below(slots),
            };
            let off = slot * op.size;
            let c = gen_case(r, op);
            let fill = r.next() as u8;
            unsafe { std::ptr::write_bytes(e.arena.mon, fill, PAGE) };
            wr(unsafe { e.arena.mon.add(off) }, op.size, c.init);
            let mut x = mkctx(r, op, unsafe { e.arena.op.add(off) }, &c);
            let x0 = x;
            let ms = rand_state(r, e.debug);
            let o = step::call(op.f, &mut x, &e.arena, Mode::Free, 0, &ms, &mut |_, _| {});
            n += 1;
            distinct.insert((op.f as usize, c.init, c.a, c.b));
            let d = || desc(op, &c, off);
            if let Some(f) = o.fault {
                violation(if e.arena.contains_guard(f.addr) { "touches-outside-object" } else { "fault" }, &format!("{} fault {:x?}", d(), f));
                continue;
            }
            if let Some(s) = &o.state_err {
                violation("machine-state", &format!("{} {}", d(), s));
            }
            let after = rd(unsafe { e.arena.mon.add(off) }, op.size);
            if let Err(m) = judge(op, &c, c.init, &x, after) {
                violation("wrong-result", &format!("{} {}", d(), m));
            }
            if got(op, &x).1 == Some(true) {
                casok += 1
            } else if op.kind == Kind::CasWeak && c.init == c.a {
                spur += 1
            }
            if op.kind == Kind::Fu && (x.fu_calls != 1 || u128::from_le_bytes(x.fu_args[0]) & op.mask() != c.init) {
                violation("fetch_update-closure", &format!("{} calls={} first arg={:x?}", d(), x.fu_calls, x.fu_args[0]));
            }
            // neighbours and the rest of the page
            for i in 0..PAGE {
                if i < off || i >= off + op.size {
                    let v = unsafe { *e.arena.mon.add(i) };
                    if v != fill {
                        violation("neighbour-modified", &format!("{} byte at {:+} changed {:#x} -> {:#x}", d(), i as isize - off as isize, fill, v));
                        break;
                    }
                }
            }
            // the operation's operands must not be modified
            if x.a != x0.a || x.b != x0.b || x.ptr != x0.ptr {
                violation("operand-modified", &d());
            }
            if n == 1 || n == 5000 {
                sample(&format!("{} -> {:x?}", d(), got(op, &x)));
            }
        }
    }
    let _ = what;
    stat("calls", n);
    stat("distinct_cases", distinct.len() as u64);
    stat("functions", e.tab.ops.len() as u64);
    stat("rmw_succeeded", casok);
    stat("weak_spurious_failures", spur);
}

/// CAS compares every bit: flip each single bit (and each pair of bits in different halves).
pub fn casbits(e: &mut Env) {
    let mut n = 0u64;
    for op in e.tab.ops.clone().iter().filter(|o| matches!(o.kind, Kind::Cas | Kind::CasWeak)) {
        let bits = op.size * 8;
        for base in 0..3 {
            for bit in 0..bits + bits / 2 {
                let r = &mut e.rng;
                let init = match base {
                    0 => 0,
                    1 => op.mask(),
                    _ => r.u128() & op.mask(),
                };
                let x1 = if bit < bits { init ^ (1 << bit) } else { init ^ (1 << (bit - bits)) ^ (1 << (bit - bits / 2)) };
                let c = Case { init, a: x1, b: r.u128() & op.mask() };
                let off = 64 + (r.below(16)) * op.size;
                wr(unsafe { e.arena.mon.add(off) }, op.size, init);
                let mut x = mkctx(r, op, unsafe { e.arena.op.add(off) }, &c);
                let ms = rand_state(r, e.debug);
                let o = step::call(op.f, &mut x, &e.arena, Mode::Free, 0, &ms, &mut |_, _| {});
                n += 1;
                let after = rd(unsafe { e.arena.mon.add(off) }, op.size);
                if let Some(f) = o.fault {
                    violation("fault", &format!("{} {:x?}", desc(op, &c, off), f));
                } else if let Err(m) = judge(op, &c, init, &x, after) {
                    violation("wrong-result", &format!("{} {}", desc(op, &c, off), m));
                }
            }
        }
    }
    stat("single_bit_mismatches", n);
}

/// C07: loads on read-only memory, and no write access by any load up to the pointer width.
pub fn readonly(e: &mut Env, iters: u64) {
    let mut n = 0;
    let mut reads = 0u64;
    let mut pcs = std::collections::HashSet::new();
    for op in e.tab.ops.clone().iter().filter(|o| o.kind == Kind::Load) {
        for it in 0..iters {
            let r = &mut e.rng;
            let slots = PAGE / op.size;
            let off = op.size * if it == 0 { 0 } else if it == 1 { slots - 1 } else { r.below(slots) };
            let c = gen_case(r, op);
            wr(unsafe { e.arena.mon.add(off) }, op.size, c.init);
            let ms = rand_state(r, e.debug);
            let ptrw = op.size <= std::mem::size_of::<usize>();
            if ptrw {
                // (a) real read-only mapping
                let mut x = mkctx(r, op, unsafe { e.arena.op.add(off) }, &c);
                e.arena.prot(PROT_READ);
                let o = step::call(op.f, &mut x, &e.arena, Mode::Free, 0, &ms, &mut |_, _| {});
                e.arena.prot(PROT_RW);
                if let Some(f) = o.fault {
                    violation("load-faults-on-read-only-memory", &format!("{} {:x?}", desc(op, &c, off), f));
                } else if let Err(m) = judge(op, &c, c.init, &x, rd(unsafe { e.arena.mon.add(off) }, op.size)) {
                    violation("wrong-result", &format!("{} {}", desc(op, &c, off), m));
                }
                n += 1;
            }
            // (b) every access observed
            let mut x = mkctx(r, op, unsafe { e.arena.op.add(off) }, &c);
            let mut changed = false;
            let mon = unsafe { e.arena.mon.add(off) };
            let o = step::call(op.f, &mut x, &e.arena, Mode::Watch, limit(e), &ms, &mut |_, _| {
                if rd(mon, op.size) != c.init {
                    changed = true
                }
            });
            n += 1;
            if changed {
                violation("load-changes-memory", &desc(op, &c, off));
            }
            if o.fault.is_some() || o.overrun {
                violation("fault", &format!("{} {:x?} overrun={}", desc(op, &c, off), o.fault, o.overrun));
            }
            for a in &o.acc {
                pcs.insert(a.ip);
                if a.write && ptrw {
                    violation("load-writes", &format!("{} access {:x?}", desc(op, &c, off), a));
                } else {
                    reads += 1
                }
            }
            if o.acc.is_empty() {
                violation("load-does-not-access-location", &desc(op, &c, off));
            }
        }
    }
    stat("loads", n);
    stat("read_accesses_observed", reads);
    stat("access_instructions", pcs.len() as u64);
}

/// C06: access trace of every operation stays inside the object.
pub fn footprint(e: &mut Env, iters: u64) {
    let mut n = 0u64;
    let mut accs = 0u64;
    let mut pcs = std::collections::HashSet::new();
    for op in e.tab.ops.clone().iter() {
        for it in 0..iters {
            let r = &mut e.rng;
            let slots = PAGE / op.size;
            let off = op.size * if it == 0 { 0 } else if it == 1 { slots - 1 } else { r.below(slots) };
            let c = gen_case(r, op);
            wr(unsafe { e.arena.mon.add(off) }, op.size, c.init);
            let ms = rand_state(r, e.debug);
            let mut x = mkctx(r, op, unsafe { e.arena.op.add(off) }, &c);
            let o = step::call(op.f, &mut x, &e.arena, Mode::Watch, limit(e), &ms, &mut |_, _| {});
            n += 1;
            if o.fault.is_some() || o.overrun {
                violation("fault", &format!("{} {:x?} overrun={}", desc(op, &c, off), o.fault, o.overrun));
                continue;
            }
            if let Some(s) = &o.state_err {
                violation("machine-state", &format!("{} {}", desc(op, &c, off), s));
            }
            let base = e.arena.op as usize + off;
            for a in &o.acc {
                accs += 1;
                pcs.insert(a.ip);
                if a.addr < base || a.addr >= base + op.size {
                    violation("touches-outside-object", &format!("{} access {:x?} object at {:#x}+{}", desc(op, &c, off), a, base, op.size));
                }
            }
            if let Err(m) = judge(op, &c, c.init, &x, rd(unsafe { e.arena.mon.add(off) }, op.size)) {
                violation("wrong-result", &format!("{} {}", desc(op, &c, off), m));
            }
        }
    }
    stat("traced_calls", n);
    stat("accesses_observed", accs);
    stat("access_instructions", pcs.len() as u64);
}

/// C08: ordering validation.
pub fn panics(e: &mut Env) {
    std::panic::set_hook(Box::new(|_| {}));
    let (mut inv, mut val) = (0u64, 0u64);
    for op in e.tab.dyns.clone().iter() {
        let two = matches!(op.kind, Kind::Cas | Kind::CasWeak | Kind::Fu);
        for o1 in 0..5u8 {
            for o2 in 0..if two { 5u8 } else { 1 } {
                let bad = match op.kind {
                    Kind::Load => o1 == 2 || o1 == 3,
                    Kind::Store => o1 == 1 || o1 == 3,
                    Kind::Swap => false,
                    _ => o2 == 2 || o2 == 3,
                };
                for rep in 0..4u64 {
                    let r = &mut e.rng;
                    let m = mask(op.size);
                    let init = r.val(op.size, 0);
                    let a = if rep % 2 == 0 { init } else { r.val(op.size, init) };
                    let b = r.val(op.size, init);
                    let off = op.size * r.below(PAGE / op.size);
                    wr(unsafe { e.arena.mon.add(off) }, op.size, init);
                    let mut x = Ctx::new(unsafe { e.arena.op.add(off) }, a, b);
                    x.o1 = o1;
                    x.o2 = o2;
                    let d = format!("{}::{:?}({},{}) init={:#x} a={:#x}", op.ty, op.kind, ORDN[o1 as usize], if two { ORDN[o2 as usize] } else { "-" }, init, a);
                    let x = std::hint::black_box(&mut x);
                    let mut fault = None;
                    // A call that is going to panic must not touch the location: make it inaccessible.
                    if bad {
                        e.arena.prot(PROT_NONE);
                    }
                    let res = catch_faults(op.f, x, &e.arena, &mut fault);
                    if bad {
                        e.arena.prot(PROT_RW);
                    }
                    let after = rd(unsafe { e.arena.mon.add(off) }, op.size);
                    if bad {
                        inv += 1;
                        if let Some(f) = fault {
                            violation("invalid-ordering-touches-memory", &format!("{d} {f:x?}"));
                        } else if res {
                            violation("invalid-ordering-accepted", &d);
                        }
                        if x.fu_calls != 0 {
                            violation("closure-called-before-validation", &d);
                        }
                        if after != init {
                            violation("invalid-ordering-had-effect", &d);
                        }
                    } else {
                        val += 1;
                        if !res {
                            violation("valid-ordering-panics", &format!("{d} fault={fault:x?}"));
                            continue;
                        }
                        let want = model(op.kind, op.size, init, a & m, b & m);
                        if after != want.mem && op.kind != Kind::CasWeak {
                            violation("wrong-result", &format!("{d} memory {after:#x} expected {:#x}", want.mem));
                        }
                    }
                }
            }
        }
    }
    stat("invalid_ordering_calls", inv);
    stat("valid_ordering_calls", val);
}
/// Returns true if the call returned normally. Faults on the arena leave through the unwinder as
/// well: the SIGSEGV monitor makes the page accessible again, notes the fault and continues.
fn catch_faults(f: DynFn, x: *mut Ctx, arena: &Arena, fault: &mut Option<Fault>) -> bool {
    let mut s = step::FaultLog::default();
    let ok = step::with_fault_log(&mut s, arena, || {
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unsafe { f(x) })).is_ok()
    });
    *fault = s.first;
    ok
}
