//! Instruction-boundary interleaving monitor (C01, C11): another agent acts at any instruction of
//! an operation; the outcome must be explained by one atomic step.
use crate::ops::*;
use crate::seq::*;
use crate::step::{self, *};
use crate::util::*;

/// Does the instruction at `ip` lock the bus (LOCK prefix or XCHG with memory)?
pub unsafe fn is_locked(ip: usize) -> bool {
    let p = ip as *const u8;
    let mut i = 0;
    let mut lock = false;
    loop {
        match *p.add(i) {
            0xF0 => lock = true,
            0x66 | 0x67 | 0xF2 | 0xF3 | 0x2E | 0x36 | 0x3E | 0x26 | 0x64 | 0x65 => {}
            0x40..=0x4F if cfg!(target_arch = "x86_64") => {}
            _ => break,
        }
        i += 1;
        if i > 14 {
            return lock;
        }
    }
    if lock {
        return true;
    }
    let o = *p.add(i);
    (o == 0x86 || o == 0x87) && (*p.add(i + 1) >> 6) != 3
}
/// Is the instruction at `ip` a full memory fence?
pub unsafe fn is_fence(ip: usize) -> bool {
    if is_locked(ip) {
        return true;
    }
    let p = ip as *const u8;
    // mfence = 0F AE F0 (mod=11 reg=6); cpuid = 0F A2; iret not considered
    (*p == 0x0F && *p.add(1) == 0xAE && (*p.add(2) & 0xF8) == 0xF0) || (*p == 0x0F && *p.add(1) == 0xA2)
}

#[derive(Clone, Copy)]
pub enum Act {
    Write(u128),
    /// index of an operation in the table, operands
    Op(usize, u128, u128),
    /// operation on another location (given page offset)
    Other(usize, usize, u128, u128),
    Neighbour(u8),
}
struct St {
    cur: u128,
    timeline: Vec<u128>,
    changed: Option<(u128, u128)>,
    change_ip: usize,
    last_ip: usize,
    err: Option<(&'static str, String)>,
    acts: u32,
}

/// Run `op` once with `plan` = actions at given boundaries. Returns number of boundaries.
pub fn run(e: &Env, op: &Op, c: &Case, x: &mut Ctx, off: usize, plan: &dyn Fn(u32) -> Option<Act>, stats: &mut Stats) -> u32 {
    let size = op.size;
    let mon = unsafe { e.arena.mon.add(off) };
    let fill = 0xC3u8;
    let mut shadow = [fill; 96];
    let w0 = off - 32;
    unsafe { std::ptr::write_bytes(e.arena.mon.add(w0), fill, 96) };
    wr(mon, size, c.init);
    let mut st = St { cur: c.init, timeline: vec![c.init], changed: None, change_ip: 0, last_ip: 0, err: None, acts: 0 };
    let lim = limit(e);
    let tab = &e.tab;
    let arena = &e.arena;
    let o = {
        let mut hook = |step: u32, ip: usize| {
            let v = rd(mon, size);
            if v != st.cur {
                if st.changed.is_some() && st.err.is_none() {
                    st.err = Some(("intermediate-value", format!("location changed a second time to {v:#x} at boundary {step} (first change {:x?})", st.changed)));
                }
                st.changed = Some((st.cur, v));
                st.change_ip = st.last_ip;
                st.cur = v;
                st.timeline.push(v);
            }
            st.last_ip = ip;
            if ip == 0 {
                return;
            }
            match plan(step) {
                None => {}
                Some(Act::Write(v)) => {
                    st.acts += 1;
                    wr(mon, size, v);
                    st.cur = v;
                    st.timeline.push(v);
                }
                Some(Act::Neighbour(b)) => {
                    st.acts += 1;
                    for i in 0..96 {
                        if w0 + i < off || w0 + i >= off + size {
                            shadow[i] = b.wrapping_add(i as u8);
                            unsafe { *arena.mon.add(w0 + i) = shadow[i] };
                        }
                    }
                }
                Some(Act::Op(j, a, b)) | Some(Act::Other(j, _, a, b)) => {
                    st.acts += 1;
                    let other = match plan(step) {
                        Some(Act::Other(_, o2, _, _)) => Some(o2),
                        _ => None,
                    };
                    let h = &tab.ops[j];
                    let hc = Case { init: st.cur, a, b };
                    let ho = other.unwrap_or(off);
                    let hmon = unsafe { arena.mon.add(ho) };
                    if other.is_some() {
                        wr(hmon, h.size, b);
                    }
                    let before = rd(hmon, h.size);
                    let mut hx = Ctx::new(unsafe { arena.op.add(ho) }, a, b);
                    let r = step::call(h.f, &mut hx, arena, Mode::Step, lim, &MState::default(), &mut |_, _| {});
                    let after = rd(hmon, h.size);
                    if r.overrun || r.fault.is_some() {
                        if st.err.is_none() {
                            st.err = Some((
                                if r.overrun { "blocked" } else { "fault" },
                                format!("{} run as handler at boundary {step} did not complete within {lim} instructions (fault {:x?})", h.name(), r.fault),
                            ));
                        }
                    } else if let Err(m) = judge(h, &hc, before, &hx, after) {
                        if st.err.is_none() {
                            st.err = Some(("handler-op-wrong", format!("{} (a={a:#x} b={b:#x}) run as handler at boundary {step}: location {before:#x}, {m}", h.name())));
                        }
                    }
                    if other.is_none() {
                        st.cur = after;
                        st.timeline.push(after);
                    }
                }
            }
        };
        step::call(op.f, x, arena, Mode::Step, lim, &MState::default(), &mut hook)
    };
    stats.runs += 1;
    stats.boundaries += o.steps as u64;
    stats.acts += st.acts as u64;
    let d = || format!("op={} init={:#x} a={:#x} b={:#x} timeline={:x?} acted={}", op.name(), c.init, c.a, c.b, st.timeline, st.acts);
    if let Some(f) = o.fault {
        violation("fault", &format!("{} {:x?}", d(), f));
        return o.steps;
    }
    if o.overrun {
        violation("unbounded", &format!("{} still running after {} instructions", d(), lim));
        return o.steps;
    }
    if let Some((w, m)) = &st.err {
        violation(w, &format!("{} {}", d(), m));
        return o.steps;
    }
    if let Some(s) = &o.state_err {
        violation("machine-state", &format!("{} {}", d(), s));
    }
    // outcome must be one atomic step
    match st.changed {
        Some((bef, aft)) => {
            stats.changed += 1;
            if let Err(m) = judge(op, c, bef, x, aft) {
                violation("not-atomic", &format!("{} changed {:#x}->{:#x} but {}", d(), bef, aft, m));
            }
            if op.is_rmw() && st.change_ip != 0 && !unsafe { is_locked(st.change_ip) } {
                let b: Vec<u8> = (0..8).map(|i| unsafe { *((st.change_ip + i) as *const u8) }).collect();
                violation("rmw-not-locked", &format!("{} memory changed by a non-locked instruction {:02x?}", d(), b));
            }
        }
        None => {
            stats.unchanged += 1;
            let mut ok = false;
            let mut why = String::new();
            for &v in &st.timeline {
                match judge(op, c, v, x, v) {
                    Ok(()) => ok = true,
                    Err(m) => why = m,
                }
            }
            if !ok {
                violation("not-atomic", &format!("{} no change, but no point explains the result: {}", d(), why));
            }
        }
    }
    if rd(mon, size) != st.cur {
        violation("not-atomic", &format!("{} final value {:#x} expected {:#x}", d(), rd(mon, size), st.cur));
    }
    for i in 0..96 {
        if (w0 + i < off || w0 + i >= off + size) && unsafe { *e.arena.mon.add(w0 + i) } != shadow[i] {
            violation("neighbour-modified", &format!("{} byte at {:+}", d(), i as isize - 32));
            break;
        }
    }
    o.steps
}
#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub boundaries: u64,
    pub acts: u64,
    pub changed: u64,
    pub unchanged: u64,
    pub maxsteps: u64,
    pub retries: u64,
}

fn points(r: &mut Rng, n: u32, max: usize) -> Vec<u32> {
    if n as usize <= max {
        (0..n).collect()
    } else {
        // keep the tail (where the access normally is) and a random sample of the rest
        let mut v: Vec<u32> = (0..max).map(|_| r.below(n as usize) as u32).collect();
        v.sort();
        v.dedup();
        v
    }
}

/// Boundaries of `op` that are adjacent to its accesses to the location.
fn access_points(e: &Env, op: &Op, c: &Case, off: usize) -> Vec<u32> {
    let mut x = Ctx::new(unsafe { e.arena.op.add(off) }, c.a, c.b);
    wr(unsafe { e.arena.mon.add(off) }, op.size, c.init);
    let o = step::call(op.f, &mut x, &e.arena, Mode::Watch, limit(e), &MState::default(), &mut |_, _| {});
    let mut v = vec![];
    for a in &o.acc {
        for d in 0..3 {
            v.push(a.step.wrapping_add(d).wrapping_sub(1) & 0xffff);
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn interleave(e: &mut Env, cases: u64, handlers: bool) {
    let mut s = Stats::default();
    let ops = e.tab.ops.clone();
    let mut byty: std::collections::HashMap<(&str, usize), Vec<usize>> = Default::default();
    for (i, o) in ops.iter().enumerate() {
        byty.entry((o.ty, o.size)).or_default().push(i);
    }
    let mut seen = std::collections::HashSet::new();
    for op in ops.iter() {
        // identical machine code (merged functions) is stepped once per type
        if !seen.insert((op.f as usize, op.kind)) {
            continue;
        }
        for case in 0..cases {
            let off = 1024 + op.size * e.rng.below(64 / op.size);
            let c = gen_case(&mut e.rng, op);
            let mut x = mkctx(&mut e.rng, op, unsafe { e.arena.op.add(off) }, &c);
            let n = run(e, op, &c, &mut x.clone(), off, &|_| None, &mut s);
            s.maxsteps = s.maxsteps.max(n as u64);
            let mut pts = points(&mut e.rng, n, if e.debug { 6 } else { 40 });
            if e.debug {
                pts.extend(access_points(e, op, &c, off));
                pts.sort();
                pts.dedup();
            }
            if !handlers {
                let m = op.mask();
                for &k in &pts {
                    // single foreign write, several value classes
                    let vals = [
                        !c.init & m,
                        if matches!(op.kind, Kind::Cas | Kind::CasWeak) { c.a } else { e.rng.u128() & m },
                        match case % 3 {
                            0 => c.init ^ (m >> (op.size * 4)),
                            1 => c.init ^ (m & !(m >> (op.size * 4))),
                            _ => c.b,
                        },
                    ];
                    for v in vals {
                        let mut y = x.clone();
                        let n2 = run(e, op, &c, &mut y, off, &|t| if t == k { Some(Act::Write(v)) } else { None }, &mut s);
                        if n2 > n {
                            s.retries += 1
                        }
                    }
                    let nb = e.rng.next() as u8;
                    run(e, op, &c, &mut x.clone(), off, &|t| if t == k { Some(Act::Neighbour(nb)) } else { None }, &mut s);
                    // ABA / two writes
                    let k2 = k + 1 + e.rng.below(6) as u32;
                    let v1 = e.rng.u128() & m;
                    let v2 = if e.rng.below(2) == 0 { c.init } else { e.rng.u128() & m };
                    run(
                        e,
                        op,
                        &c,
                        &mut x.clone(),
                        off,
                        &|t| if t == k { Some(Act::Write(v1)) } else if t == k2 { Some(Act::Write(v2)) } else { None },
                        &mut s,
                    );
                }
                // storm: a foreign write at every boundary for a while
                let base = e.rng.u128();
                let storm = 3 * n.min(40) + 5;
                run(
                    e,
                    op,
                    &c,
                    &mut x,
                    off,
                    &|t| if t < storm { Some(Act::Write(base.wrapping_mul(t as u128 * 2 + 3) & m)) } else { None },
                    &mut s,
                );
            } else {
                for &k in &pts {
                    // a handler running a real operation on the same location
                    let cand = &byty[&(op.ty, op.size)];
                    for rep in 0..2 {
                        let j = cand[e.rng.below(cand.len())];
                        let a = match e.rng.below(3) {
                            0 => c.init,
                            1 => c.b,
                            _ => e.rng.val(op.size, c.init),
                        };
                        let b = e.rng.val(op.size, c.init);
                        let act = if rep == 0 || case % 2 == 0 {
                            Act::Op(j, a, b)
                        } else {
                            // another location, any type
                            let j = e.rng.below(ops.len());
                            let o2 = 2048 + 64 * e.rng.below(16) + ops[j].size * e.rng.below(16 / ops[j].size);
                            let m2 = ops[j].mask();
                            Act::Other(j, o2, e.rng.u128() & m2, e.rng.u128() & m2)
                        };
                        run(e, op, &c, &mut x.clone(), off, &|t| if t == k { Some(act) } else { None }, &mut s);
                    }
                }
            }
        }
        if s.runs < 200 {
            sample(&format!("{}: {} runs, {} instruction boundaries, {} foreign actions injected", op.name(), s.runs, s.boundaries, s.acts));
        }
    }
    stat("interleaved_runs", s.runs);
    stat("instruction_boundaries_observed", s.boundaries);
    stat("foreign_actions_injected", s.acts);
    stat("outcomes_with_change", s.changed);
    stat("outcomes_without_change", s.unchanged);
    stat("runs_longer_than_uncontended", s.retries);
    stat("max_uncontended_instructions", s.maxsteps);
}
