//! Multi-threaded stress with offline checkers over recorded histories.
//!
//! * `chain`: threads run random read-modify-writes that install globally unique values and record
//!   (returned, installed); all successful ones must form one path from the initial to the final
//!   value, and every thread's observations must move forward along it (C01, C13, C11).
//! * `lin`: short histories that also contain plain stores; a search for a linearization that
//!   respects each thread's program order (C01).
//! * `lanes`: threads own neighbouring locations of one word/cache line exclusively (C01, C06).
//! * `litmus`: SB/R/MP/IRIW shapes over the real operations (C03, C04).
use crate::ops::*;
use crate::seq::*;
use crate::util::*;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::*};

#[repr(C, align(128))]
struct Line([u8; 128]);

/// Sense-reversing spin barrier that yields when the machine is busy.
pub struct Barrier {
    n: usize,
    count: AtomicUsize,
    gen: AtomicUsize,
}
impl Barrier {
    pub fn new(n: usize) -> Barrier {
        Barrier { n, count: AtomicUsize::new(0), gen: AtomicUsize::new(0) }
    }
    pub fn wait(&self) {
        let g = self.gen.load(Acquire);
        if self.count.fetch_add(1, AcqRel) + 1 == self.n {
            self.count.store(0, Relaxed);
            self.gen.store(g + 1, Release);
        } else {
            let mut k = 0u32;
            while self.gen.load(Acquire) == g {
                k += 1;
                if k > 2000 {
                    std::thread::yield_now();
                } else {
                    std::hint::spin_loop();
                }
            }
        }
    }
}
#[derive(Clone, Copy)]
struct SendPtr(*mut u8);
unsafe impl Send for SendPtr {}
unsafe impl Sync for SendPtr {}

fn types(e: &Env) -> Vec<(&'static str, usize)> {
    let mut v: Vec<(&'static str, usize)> = vec![];
    for o in &e.tab.ops {
        if !v.contains(&(o.ty, o.size)) {
            v.push((o.ty, o.size));
        }
    }
    v
}
/// A value whose bytes all carry the id (so that a torn value is a value nobody wrote).
fn spread(id: u64, size: usize) -> u128 {
    let u = match size {
        1 => id as u8 as u128,
        2 => id as u16 as u128,
        // mix so that halves of different values never combine into another value
        _ => {
            let x = (id as u32).wrapping_mul(0x9E37_79B1) as u128;
            x | x.wrapping_mul(0x1_0000_0001) << 32 | (x ^ 0x5555_5555) << 64 | (x.rotate_left(13)) << 96
        }
    };
    u & mask(size)
}

/// One RMW event: (returned, installed) or an observation (returned only).
#[derive(Clone, Copy)]
struct Ev {
    op: u16,
    prev: u128,
    new: Option<u128>,
}

pub fn chain(e: &mut Env, only_fu: bool) {
    let nthreads = 6;
    let (mut rounds_t, mut edges_t, mut obs_t, mut handoffs) = (0u64, 0u64, 0u64, 0u64);
    for (ty, size) in types(e) {
        let ops: Vec<(usize, Op)> = e.tab.ops.iter().copied().enumerate().filter(|(_, o)| o.ty == ty && o.kind != Kind::Store && o.api != "reg" && (!only_fu || o.kind == Kind::Fu || o.kind == Kind::Load)).collect();
        let per = match size {
            1 => 40,
            2 => 4000,
            _ => 8000,
        };
        let rounds = match size {
            1 => 60,
            _ => 3,
        } * e.scale;
        for round in 0..rounds {
            let mut line = Line([0xA7; 128]);
            let off = 32 + size * e.rng.below(32 / size);
            let p = SendPtr(unsafe { line.0.as_mut_ptr().add(off) });
            let init = spread(0, size);
            wr(p.0, size, init);
            let bar = Barrier::new(nthreads);
            let seed = e.rng.next();
            let logs: Vec<Vec<Ev>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..nthreads)
                    .map(|t| {
                        let (ops, bar) = (&ops, &bar);
                        s.spawn(move || {
                            let p = p;
                            let mut r = Rng::new(seed ^ (t as u64) << 32);
                            let mut log = Vec::with_capacity(per);
                            let mut id = 1 + t as u64;
                            let mut last = init;
                            bar.wait();
                            for _ in 0..per {
                                let (j, op) = ops[r.below(ops.len())];
                                let new = spread(id, size);
                                let mut x = match op.kind {
                                    Kind::Swap => Ctx::new(p.0, new, 0),
                                    Kind::Cas | Kind::CasWeak => Ctx::new(p.0, last, new),
                                    // the closure of the table's fetch_update adds b: use the
                                    // wrapping difference from the value it is called with
                                    Kind::Fu => {
                                        let mut x = Ctx::new(p.0, 0, 0);
                                        x.b = new.to_le_bytes();
                                        x.fu_set = 1;
                                        x
                                    }
                                    _ => Ctx::new(p.0, 0, 0),
                                };
                                unsafe { (op.f)(&mut x) };
                                let prev = u128::from_le_bytes(x.out) & mask(size);
                                last = prev;
                                let done = match op.kind {
                                    Kind::Load => false,
                                    Kind::Swap => true,
                                    _ => x.ok == 1,
                                };
                                log.push(Ev { op: j as u16, prev, new: if done { Some(new) } else { None } });
                                if done {
                                    last = new;
                                    id += nthreads as u64;
                                    if (size == 1 && id > 250) || (size == 2 && id > 65000) {
                                        break;
                                    }
                                }
                            }
                            log
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            rounds_t += 1;
            let fin = rd(p.0, size);
            // successor map
            let mut next: std::collections::HashMap<u128, (u128, usize, u16)> = Default::default();
            let mut nedges = 0u64;
            let mut bad = false;
            for (t, l) in logs.iter().enumerate() {
                for ev in l {
                    if let Some(n) = ev.new {
                        nedges += 1;
                        if let Some((n2, t2, o2)) = next.insert(ev.prev, (n, t, ev.op)) {
                            if !bad {
                                violation(
                                    "lost-update",
                                    &format!(
                                        "{ty} round {round}: two successful read-modify-writes replaced the same value {:#x}: thread {t2} {} installed {n2:#x}, thread {t} {} installed {n:#x}",
                                        ev.prev,
                                        e.tab.ops[o2 as usize].name(),
                                        e.tab.ops[ev.op as usize].name()
                                    ),
                                );
                            }
                            bad = true;
                        }
                    }
                }
            }
            if bad {
                continue;
            }
            let mut pos: std::collections::HashMap<u128, u64> = Default::default();
            let mut cur = init;
            let mut k = 0u64;
            pos.insert(cur, 0);
            let mut lastt = usize::MAX;
            while let Some(&(n, t, _)) = next.get(&cur) {
                k += 1;
                if pos.insert(n, k).is_some() {
                    break;
                }
                if t != lastt {
                    handoffs += 1;
                    lastt = t;
                }
                cur = n;
            }
            if k != nedges || cur != fin {
                violation("lost-update", &format!("{ty} round {round}: chain of replacements from {init:#x} covers {k} of {nedges} updates and ends at {cur:#x}, location holds {fin:#x}"));
                continue;
            }
            // observations
            'l: for (t, l) in logs.iter().enumerate() {
                let mut lastp = 0u64;
                for (i, ev) in l.iter().enumerate() {
                    obs_t += 1;
                    let Some(&q) = pos.get(&ev.prev) else {
                        violation("torn-or-invented-value", &format!("{ty} round {round}: thread {t} event {i} {} returned {:#x}, which was never written", e.tab.ops[ev.op as usize].name(), ev.prev));
                        break 'l;
                    };
                    if q < lastp {
                        violation("went-backwards", &format!("{ty} round {round}: thread {t} event {i} {} returned {:#x} (position {q}) after having seen position {lastp}", e.tab.ops[ev.op as usize].name(), ev.prev));
                        break 'l;
                    }
                    lastp = q + ev.new.is_some() as u64;
                }
            }
            edges_t += nedges;
            // the rest of the line
            for i in 0..128 {
                if (i < off || i >= off + size) && line.0[i] != 0xA7 {
                    violation("neighbour-modified", &format!("{ty}: byte at {:+} of the location", i as isize - off as isize));
                    break;
                }
            }
        }
        if rounds_t < 200 {
            sample(&format!("{ty}: {rounds_t} rounds, {edges_t} successful updates in one chain, {handoffs} ownership changes between threads"));
        }
    }
    stat("rounds", rounds_t);
    stat("updates_in_chain", edges_t);
    stat("events_checked", obs_t);
    stat("thread_handoffs_observed", handoffs);
}

#[derive(Clone, Copy, Debug)]
struct HEv {
    kind: Kind,
    api: u16,
    a: u128,
    b: u128,
    out: u128,
    ok: bool,
}
fn linearizable(h: &[Vec<HEv>], size: usize, init: u128, fin: u128) -> bool {
    fn go(h: &[Vec<HEv>], idx: &mut [usize], size: usize, cur: u128, fin: u128, seen: &mut std::collections::HashSet<(u64, u128)>) -> bool {
        let key = idx.iter().fold(0u64, |k, &i| k << 8 | i as u64);
        if !seen.insert((key, cur)) {
            return false;
        }
        let mut all = true;
        for t in 0..h.len() {
            if idx[t] < h[t].len() {
                all = false;
                let ev = h[t][idx[t]];
                let w = model(ev.kind, size, cur, ev.a, ev.b);
                let spurious = ev.kind == Kind::CasWeak && !ev.ok && ev.out == cur;
                let mem = if spurious {
                    cur
                } else {
                    if w.out.map_or(false, |o| o != ev.out) || w.ok.map_or(false, |o| o != ev.ok) {
                        continue;
                    }
                    w.mem
                };
                idx[t] += 1;
                if go(h, idx, size, mem, fin, seen) {
                    return true;
                }
                idx[t] -= 1;
            }
        }
        all && cur == fin
    }
    go(h, &mut vec![0; h.len()], size, init, fin, &mut Default::default())
}

pub fn lin(e: &mut Env) {
    const T: usize = 4;
    const K: usize = 4;
    let (mut hist, mut evs) = (0u64, 0u64);
    let mut outcomes = std::collections::HashSet::new();
    let mut overlapped = 0u64;
    for (ty, size) in types(e) {
        let ops: Vec<(usize, Op)> = e.tab.ops.iter().copied().enumerate().filter(|(_, o)| o.ty == ty && o.kind != Kind::Fu).collect();
        let n = (if e.debug { 1500 } else { 4000 } * e.scale) as usize;
        let mut lines: Vec<Line> = (0..n).map(|_| Line([0; 128])).collect();
        let off = 64 - size; // last slot of the first cache line
        let m = mask(size);
        for l in lines.iter_mut() {
            wr(unsafe { l.0.as_mut_ptr().add(off) }, size, spread(200, size));
        }
        let base = SendPtr(lines.as_mut_ptr() as *mut u8);
        let turn: Vec<AtomicU32> = (0..T).map(|_| AtomicU32::new(0)).collect();
        let seed = e.rng.next();
        let logs: Vec<Vec<[HEv; K]>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..T)
                .map(|t| {
                    let (ops, turn) = (&ops, &turn);
                    s.spawn(move || {
                        let base = base;
                        let mut r = Rng::new(seed ^ (t as u64) << 32);
                        let mut log = Vec::with_capacity(n);
                        for i in 0..n {
                            let p = unsafe { base.0.add(i * 128 + off) };
                            let mut evs = [HEv { kind: Kind::Load, api: 0, a: 0, b: 0, out: 0, ok: false }; K];
                            let mut cs: Vec<(Op, Ctx, usize, bool)> = Vec::with_capacity(K);
                            for k in 0..K {
                                let (j, op) = ops[r.below(ops.len())];
                                let v = spread((1 + t * K + k) as u64, size);
                                // expected value of an exchange: usually what this thread saw last
                                let ex = spread([200, 1 + r.below(T * K) as u64][r.below(2)], size);
                                let x = match op.kind {
                                    Kind::Cas | Kind::CasWeak => Ctx::new(p, ex, v),
                                    _ => Ctx::new(p, v, 0),
                                };
                                cs.push((op, x, j, r.below(3) != 0));
                            }
                            // start together
                            turn[t].store(i as u32 + 1, Release);
                            let mut spin = 0u32;
                            for u in 0..T {
                                while turn[u].load(Acquire) < i as u32 + 1 {
                                    spin += 1;
                                    if spin > 5000 {
                                        std::thread::yield_now();
                                    }
                                }
                            }
                            let mut last = None;
                            for (op, x, _, uselast) in cs.iter_mut() {
                                if let (true, Some(l)) = (*uselast, last) {
                                    if matches!(op.kind, Kind::Cas | Kind::CasWeak) {
                                        let l: u128 = l;
                                        x.a = l.to_le_bytes();
                                        x.ra = l as u64;
                                    }
                                }
                                unsafe { (op.f)(x) };
                                if op.kind != Kind::Store {
                                    last = Some(u128::from_le_bytes(x.out) & m);
                                }
                            }
                            for (k, (op, x, j, _)) in cs.iter().enumerate() {
                                evs[k] = HEv {
                                    kind: op.kind,
                                    api: *j as u16,
                                    a: u128::from_le_bytes(x.a) & m,
                                    b: u128::from_le_bytes(x.b) & m,
                                    out: u128::from_le_bytes(x.out) & m,
                                    ok: x.ok == 1,
                                };
                            }
                            log.push(evs);
                        }
                        log
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for i in 0..n {
            let h: Vec<Vec<HEv>> = (0..T).map(|t| logs[t][i].to_vec()).collect();
            let fin = rd(unsafe { lines[i].0.as_ptr().add(off) }, size);
            hist += 1;
            evs += (T * K) as u64;
            // did threads actually see each other?
            let own = |t: usize, v: u128| (0..K).any(|k| spread((1 + t * K + k) as u64, size) == v) || v == spread(200, size);
            if h.iter().enumerate().any(|(t, l)| l.iter().any(|x| x.kind != Kind::Store && !own(t, x.out))) {
                overlapped += 1;
            }
            let sig: Vec<(u8, bool)> = h.iter().flatten().map(|x| (x.out as u8, x.ok)).collect();
            outcomes.insert(sig);
            if !linearizable(&h, size, spread(200, size), fin) {
                let f = |x: &HEv| format!("{} a={:x} b={:x} -> {:x} {}", e.tab.ops[x.api as usize].name(), x.a, x.b, x.out, x.ok);
                violation(
                    "not-linearizable",
                    &format!("{ty}: init={:x} final={fin:x} history: {:?}", spread(200, size), h.iter().map(|l| l.iter().map(f).collect::<Vec<_>>()).collect::<Vec<_>>()),
                );
            }
        }
    }
    stat("histories_checked", hist);
    stat("events_checked", evs);
    stat("distinct_histories", outcomes.len() as u64);
    stat("histories_with_cross_thread_observation", overlapped);
}

/// Threads own adjacent locations of mixed widths in one 64-byte line; each must behave as if it
/// were alone.
pub fn lanes(e: &mut Env) {
    let (mut rounds, mut calls) = (0u64, 0u64);
    let bysize: Vec<(usize, Vec<Op>)> = [1usize, 2, 4, 8, 16]
        .iter()
        .map(|&s| (s, e.tab.ops.iter().copied().filter(|o| o.size == s).collect::<Vec<_>>()))
        .filter(|(_, v)| !v.is_empty())
        .collect();
    let nth = 6;
    for round in 0..24 * e.scale {
        let mut line = Line([0; 128]);
        // lay out lanes: mixed sizes inside 32 bytes
        let mut lanes: Vec<(usize, usize)> = vec![]; // (off, class)
        let mut off = 32;
        while lanes.len() < nth {
            let c = e.rng.below(bysize.len().min(if round % 2 == 0 { 2 } else { 5 }));
            let s = bysize[c].0;
            off = (off + s - 1) / s * s;
            if off + s > 128 {
                break;
            }
            lanes.push((off, c));
            off += s;
        }
        let base = SendPtr(line.0.as_mut_ptr());
        let bar = Barrier::new(lanes.len());
        let seed = e.rng.next();
        let iters = if e.debug { 1500 } else { 6000 };
        let errs: Vec<Option<String>> = std::thread::scope(|s| {
            let hs: Vec<_> = lanes
                .iter()
                .enumerate()
                .map(|(t, &(off, c))| {
                    let (bar, bysize) = (&bar, &bysize);
                    s.spawn(move || {
                        let base = base;
                        let (size, ops) = &bysize[c];
                        let p = unsafe { base.0.add(off) };
                        let mut r = Rng::new(seed ^ (t as u64) << 40);
                        let mut cur = 0u128;
                        let mut err = None;
                        bar.wait();
                        for i in 0..iters {
                            let op = ops[r.below(ops.len())];
                            let cs = Case { init: cur, a: if r.below(2) == 0 { cur } else { r.u128() & mask(*size) }, b: r.u128() & mask(*size) };
                            let mut x = Ctx::new(p, cs.a, cs.b);
                            unsafe { (op.f)(&mut x) };
                            // the location's value, seen through a further load operation
                            let lop = ops[0];
                            let mut y = Ctx::new(p, 0, 0);
                            unsafe { (lop.f)(&mut y) };
                            let after = u128::from_le_bytes(y.out) & mask(*size);
                            if let Err(m) = judge(&op, &cs, cur, &x, after) {
                                err = Some(format!("lane {t} (offset {off}, {size} bytes) iteration {i}: {} location {cur:#x} a={:#x} b={:#x}: {m}", op.name(), cs.a, cs.b));
                                break;
                            }
                            cur = after;
                        }
                        err
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        rounds += 1;
        calls += lanes.len() as u64 * iters * 2;
        for x in errs.into_iter().flatten() {
            violation("lane-disturbed", &format!("lanes {lanes:?}: {x}"));
        }
        // gaps
        for i in 0..128 {
            if line.0[i] != 0 && !lanes.iter().any(|&(o, c)| i >= o && i < o + bysize[c].0) {
                violation("neighbour-modified", &format!("lanes {lanes:?}: byte {i} outside every lane is {:#x}", line.0[i]));
                break;
            }
        }
    }
    stat("lane_rounds", rounds);
    stat("lane_calls", calls);
}

/// SB / R / MP / IRIW over the real operations on hardware. `sc`: all operations SeqCst.
pub fn litmus(e: &mut Env) {
    let tys = types(e);
    let mut runs = 0u64;
    let mut hist = [0u64; 4];
    let mut control = [0u64; 4];
    let n: usize = if e.debug { 3000 } else { 10000 };
    let combos = 40 * e.scale;
    for combo in 0..combos + 4 {
        let is_control = combo < 4;
        let (tyx, sx) = tys[e.rng.below(tys.len())];
        let (tyy, sy) = tys[e.rng.below(tys.len())];
        let r = &mut e.rng;
        let pick = |r: &mut Rng, ty: &str, f: &dyn Fn(&Op) -> bool| -> Option<Op> {
            let v: Vec<&Op> = e.tab.ops.iter().filter(|o| o.ty == ty && f(o)).collect();
            if v.is_empty() {
                None
            } else {
                Some(*v[r.below(v.len())])
            }
        };
        // writers and readers; SeqCst only (control: Relaxed store / Relaxed load)
        let lvl = if is_control { 0 } else { 4 };
        let wk = if is_control { Kind::Store } else { [Kind::Store, Kind::Store, Kind::Swap, Kind::Cas, Kind::CasWeak][r.below(5)] };
        let rk = if is_control { Kind::Load } else { [Kind::Load, Kind::Load, Kind::Cas][r.below(3)] };
        let w = |o: &Op| o.kind == wk && o.o1 == lvl && (o.kind == Kind::Store || o.kind == Kind::Swap || o.o2 == 4);
        // a failing compare_exchange is a SeqCst load if its failure ordering is
        let rr = |o: &Op| o.kind == rk && (if rk == Kind::Load { o.o1 == lvl } else { o.o2 == 4 && o.api == "safe" });
        let (Some(wx), Some(wy), Some(rx), Some(ry)) = (pick(r, tyx, &w), pick(r, tyy, &w), pick(r, tyx, &rr), pick(r, tyy, &rr)) else { continue };
        let n = if is_control { n } else { n };
        let mut xs: Vec<Line> = (0..n).map(|_| Line([0; 128])).collect();
        let base = SendPtr(xs.as_mut_ptr() as *mut u8);
        let turn = [AtomicU32::new(0), AtomicU32::new(0)];
        let stop = AtomicBool::new(false);
        let seed = r.next();
        let run1 = |t: usize, ws: Op, rs: Op, wo: usize, ro: usize, swsz: usize| {
            let base = base;
            let mut r = Rng::new(seed + t as u64);
            let mut out = vec![0u8; n];
            for i in 0..n {
                let p = unsafe { base.0.add(i * 128) };
                let mut cw = match ws.kind {
                    Kind::Cas | Kind::CasWeak => Ctx::new(unsafe { p.add(wo) }, 0, mask(swsz)),
                    _ => Ctx::new(unsafe { p.add(wo) }, mask(swsz), 0),
                };
                // reader exchange: expected 0x55.. never matches
                let mut cr = Ctx::new(unsafe { p.add(ro) }, 0x5555_5555_5555_5555_5555_5555_5555_5555, 0);
                let jitter = r.below(8);
                turn[t].store(i as u32 + 1, SeqCst);
                let mut k = 0;
                while turn[1 - t].load(SeqCst) < i as u32 + 1 {
                    k += 1;
                    if k > 3000 {
                        std::thread::yield_now();
                    }
                }
                for _ in 0..jitter {
                    std::hint::spin_loop();
                }
                unsafe {
                    (ws.f)(&mut cw);
                    (rs.f)(&mut cr);
                }
                out[i] = (cr.out[0] != 0) as u8;
            }
            stop.store(true, Relaxed);
            out
        };
        let (a, b) = std::thread::scope(|s| {
            let run1 = &run1;
            let h = s.spawn(move || run1(1, wy, rx, 64, 0, sy));
            let a = run1(0, wx, ry, 0, 64, sx);
            (a, h.join().unwrap())
        });
        for i in 0..n {
            let k = (a[i] | b[i] << 1) as usize;
            if is_control {
                control[k] += 1
            } else {
                hist[k] += 1;
                runs += 1;
                if k == 0 {
                    violation("store-buffering", &format!("T0: {}; {}   T1: {}; {}   both reads returned the old value (iteration {i})", wx.name(), ry.name(), wy.name(), rx.name()));
                    break;
                }
            }
        }
        if combo < 8 {
            sample(&format!("SB: T0 {}; {} | T1 {}; {}", wx.name(), ry.name(), wy.name(), rx.name()));
        }
    }
    stat("sb_runs", runs);
    stat("sb_outcome_0_1", hist[1]);
    stat("sb_outcome_1_0", hist[2]);
    stat("sb_outcome_1_1", hist[3]);
    stat("sb_forbidden_outcome", hist[0]);
    stat("control_relaxed_reorderings_seen", control[0]);
    stat("control_runs", control.iter().sum());

    // message passing with real data race freedom: all release/acquire op pairs, data of all widths
    let mut mp = 0u64;
    let mut fresh = 0u64;
    for combo in 0..combos {
        let (ty, size) = tys[e.rng.below(tys.len())];
        let r = &mut e.rng;
        let ws: Vec<Op> = e.tab.ops.iter().copied().filter(|o| o.ty == ty && (o.kind == Kind::Store || o.kind == Kind::Swap) && o.o1 >= 2).collect();
        let rs: Vec<Op> = e.tab.ops.iter().copied().filter(|o| o.ty == ty && ((o.kind == Kind::Load && o.o1 != 0) || (o.kind == Kind::Cas && o.o2 != 0 && o.api == "safe"))).collect();
        let (w, rd_) = (ws[r.below(ws.len())], rs[r.below(rs.len())]);
        let mut line = [const { Line([0; 128]) }; 3];
        let base = SendPtr(line.as_mut_ptr() as *mut u8);
        let n = if e.debug { 4000u32 } else { 20000u32 };
        let done = AtomicBool::new(false);
        let bad = std::thread::scope(|s| {
            let d = &done;
            s.spawn(move || {
                let base = base;
                for i in 1..n {
                    unsafe {
                        // plain data, then the release operation
                        (base.0.add(128) as *mut u32).write_volatile(i);
                        (base.0.add(256) as *mut u32).write_volatile(i);
                    }
                    let mut c = Ctx::new(base.0, i as u128 & mask(size), 0);
                    unsafe { (w.f)(&mut c) };
                }
                d.store(true, Release);
            });
            let mut bad = None;
            let mut last = 0u32;
            loop {
                let end = done.load(Acquire);
                let mut c = Ctx::new(base.0, !0, !0);
                unsafe { (rd_.f)(&mut c) };
                let v = (u128::from_le_bytes(c.out) & mask(size)) as u32;
                let d0 = unsafe { (base.0.add(256) as *const u32).read_volatile() };
                let d1 = unsafe { (base.0.add(128) as *const u32).read_volatile() };
                mp += 1;
                if v != last {
                    fresh += 1;
                    last = v;
                }
                // only full-width flags identify the message exactly; narrow ones are compared
                // with the value the flag must have had at or after the data
                if size >= 4 && (d0 < v || d1 < v) {
                    bad = Some((v, d0, d1));
                    break;
                }
                if end {
                    break;
                }
            }
            bad
        });
        if let Some((v, d0, d1)) = bad {
            violation("message-passing", &format!("{} / {}: flag {v} seen, data {d0} {d1}", w.name(), rd_.name()));
        }
        if combo < 2 {
            sample(&format!("MP: {} -> {}", w.name(), rd_.name()));
        }
    }
    stat("mp_polls", mp);
    stat("mp_messages_received", fresh);
}
