//! fetch_update contract (C13): the closure's call sequence against the history of the location.
use crate::ops::*;
use crate::seq::*;
use crate::step::{self, *};
use crate::util::*;
use atomic_maybe_uninit::raw::{AtomicCompareExchange, AtomicSwap};
use atomic_maybe_uninit::AtomicMaybeUninit as A;
use std::mem::MaybeUninit as M;

struct Run {
    steps: u32,
    calls: u32,
    writes: u32,
}
fn stepped(e: &Env, op: &Op, c: &Case, none_at: u32, off: usize, plan: &dyn Fn(u32) -> Option<u128>, first_call_step: &mut u32) -> Run {
    let size = op.size;
    let m = op.mask();
    let mon = unsafe { e.arena.mon.add(off) };
    wr(mon, size, c.init);
    let mut x = Ctx::new(unsafe { e.arena.op.add(off) }, c.a, c.b);
    x.fu_none_at = none_at;
    let xp: *mut Ctx = &mut x;
    let mut held = vec![c.init];
    let mut all = vec![c.init];
    let mut cur = c.init;
    let mut calls = 0u32;
    let mut last_arg = None;
    let mut writes = 0u32;
    let mut err: Option<String> = None;
    let mut changed: Option<(u128, u128)> = None;
    let mut log: Vec<String> = vec![];
    let lim = limit(e);
    let o = {
        let mut hook = |step: u32, ip: usize| unsafe {
            let n = (&raw const (*xp).fu_calls).read_volatile();
            if n != calls {
                if n != calls + 1 && err.is_none() {
                    err = Some(format!("closure call count jumped from {calls} to {n}"));
                }
                let arg = u128::from_le_bytes((&raw const (*xp).fu_args[calls as usize & 3]).read_volatile()) & m;
                log.push(format!("call#{calls}({arg:#x})"));
                if !held.contains(&arg) && err.is_none() {
                    err = Some(format!("closure call #{calls} got {arg:#x}, but since the previous call the location only held {held:x?}"));
                }
                if changed.is_some() && err.is_none() {
                    err = Some(format!("closure called again after the location had been updated {changed:x?}"));
                }
                calls = n;
                *first_call_step = (*first_call_step).min(step);
                last_arg = Some(arg);
                held = vec![cur];
                if n > 1 + writes && err.is_none() {
                    err = Some(format!("closure called {n} times although the location was changed only {writes} times"));
                }
            }
            let v = rd(mon, size);
            if v != cur {
                if changed.is_some() && err.is_none() {
                    err = Some(format!("location updated twice ({changed:x?}, then {v:#x})"));
                }
                changed = Some((cur, v));
                cur = v;
                held.push(v);
                all.push(v);
            }
            if ip != 0 {
                if let Some(w) = plan(step) {
                    if w & m != cur {
                        writes += 1;
                    }
                    wr(mon, size, w & m);
                    cur = w & m;
                    held.push(cur);
                    all.push(cur);
                    log.push(format!("foreign({cur:#x})@{step}"));
                }
            }
        };
        step::call(op.f, xp, &e.arena, Mode::Step, lim, &MState::default(), &mut hook)
    };
    let (out, ok) = got(op, &x);
    let out = out.unwrap();
    let d = |m: &str| format!("op={} init={:#x} add={:#x} none_at={} log={:?} -> ok={:?} out={:#x}: {}", op.name(), c.init, c.b, none_at, log, ok, out, m);
    if let Some(f) = o.fault {
        violation("fault", &d(&format!("{f:x?}")));
    } else if o.overrun {
        violation("unbounded", &d(&format!("still running after {lim} instructions")));
    } else if let Some(m) = err {
        violation("fetch_update-closure", &d(&m));
    } else if x.ok > 1 {
        violation("fetch_update-result", &d("invalid success flag"));
    } else if calls == 0 {
        violation("fetch_update-closure", &d("closure never called"));
    } else if last_arg != Some(out) {
        violation("fetch_update-result", &d("returned value is not the last closure argument"));
    } else if (calls == none_at.wrapping_add(1)) != (ok == Some(false)) {
        violation("fetch_update-result", &d("Err returned exactly when the closure returned None is violated"));
    } else {
        match (ok, changed) {
            (Some(false), Some(ch)) => violation("fetch_update-result", &d(&format!("Err, but the location was written {ch:x?}"))),
            (Some(true), Some((b, a))) if b != out || a != b.wrapping_add(c.b) & m => violation("fetch_update-result", &d(&format!("Ok, but the location went {b:#x} -> {a:#x}"))),
            (Some(true), None) if c.b & m != 0 => violation("fetch_update-result", &d("Ok, but the location was never updated")),
            _ => {}
        }
    }
    Run { steps: o.steps, calls, writes }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Nothing,
    Store,
    Swap,
    CasOk,
    CasFail,
    FuAdd,
    FuNone,
    Load,
    StoreSame,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum End {
    Some,
    None,
    Panic,
}
struct Script {
    acts: Vec<(Do, End)>,
    vals: Vec<u128>,
    news: Vec<u128>,
}
/// Runs real fetch_update with a closure that follows a script of nested operations on the same
/// location; the sequential model knows exactly what must happen.
fn scripted<T: AtomicCompareExchange + AtomicSwap + Val>(r: &mut Rng, s: usize, f: usize, st: &mut [u64; 4]) {
    let size = std::mem::size_of::<T>();
    let m = mask(size);
    let mk = |v: u128| -> M<T> { unsafe { (&raw const v as *const M<T>).read() } };
    let un = |v: M<T>| -> u128 {
        let mut o = 0u128;
        unsafe { (&raw mut o as *mut M<T>).write(v) };
        o
    };
    let n = 1 + r.below(4);
    let mut sc = Script { acts: vec![], vals: vec![], news: vec![] };
    for i in 0..n {
        let d = [Do::Nothing, Do::Store, Do::Swap, Do::CasOk, Do::CasFail, Do::FuAdd, Do::FuNone, Do::Load, Do::StoreSame][r.below(9)];
        let e = if i == n - 1 { [End::Some, End::Some, End::None, End::Panic][r.below(4)] } else { End::Some };
        sc.acts.push((d, e));
        sc.vals.push(r.u128() & m);
        sc.news.push(r.val(size, 0));
    }
    let init = r.val(size, 0);
    let loc = A::<T>::new(mk(init));
    let (so, fo) = (ORD[s], ORD[f]);
    let ord = ORD[4];
    let mut args = vec![];
    let mut k = 0usize;
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        loc.fetch_update(so, fo, |x| {
            args.push(un(x));
            if args.len() > 64 {
                panic!("endless");
            }
            // beyond the script: do nothing and succeed
            let i = k;
            k += 1;
            let (d, e) = *sc.acts.get(i).unwrap_or(&(Do::Nothing, End::Some));
            let v = mk(*sc.vals.get(i).unwrap_or(&0));
            match d {
                Do::Nothing => {}
                Do::Store => loc.store(v, ord),
                Do::StoreSame => loc.store(x, ord),
                Do::Swap => {
                    loc.swap(v, ord);
                }
                Do::CasOk => {
                    let c = loc.load(ord);
                    let _ = loc.compare_exchange(c, v, ord, ord);
                }
                Do::CasFail => {
                    let _ = loc.compare_exchange(mk(!un(loc.load(ord)) & m), v, ord, ord);
                }
                Do::FuAdd => {
                    let _ = loc.fetch_update(ord, ord, |y| Some(T::addm(y, mk(1))));
                }
                Do::FuNone => {
                    let _ = loc.fetch_update(ord, ord, |_| None);
                }
                Do::Load => {
                    loc.load(ord);
                }
            }
            match e {
                End::Some => Some(mk(*sc.news.get(i).unwrap_or(&7))),
                End::None => None,
                End::Panic => panic!("scripted"),
            }
        })
    }));
    // model
    let mut cur = init & m;
    let mut i = 0;
    let mut wargs = vec![];
    let want: Option<Result<u128, u128>>;
    loop {
        let seen = cur;
        wargs.push(seen);
        let (d, e) = *sc.acts.get(i).unwrap_or(&(Do::Nothing, End::Some));
        let v = *sc.vals.get(i).unwrap_or(&0);
        match d {
            Do::Store | Do::Swap | Do::CasOk => cur = v,
            Do::StoreSame => cur = seen,
            Do::FuAdd => cur = cur.wrapping_add(1) & m,
            _ => {}
        }
        match e {
            End::None => {
                want = Some(Err(seen));
                break;
            }
            End::Panic => {
                want = None;
                break;
            }
            End::Some => {}
        }
        let new = *sc.news.get(i).unwrap_or(&7);
        i += 1;
        if cur == seen {
            cur = new & m;
            want = Some(Ok(seen));
            break;
        }
    }
    let gotr = match res {
        Err(_) => None,
        Ok(Ok(v)) => Some(Ok(un(v))),
        Ok(Err(v)) => Some(Err(un(v))),
    };
    st[0] += 1;
    st[1] += args.len() as u64;
    if want.is_none() {
        st[2] += 1
    }
    if args.len() > 1 {
        st[3] += 1
    }
    let fin = un(loc.load(ord));
    // A spurious failure of the weak exchange may add calls with an unchanged value; x86 has none,
    // so any deviation from the model is a violation here.
    if gotr != want || args != wargs || fin != cur {
        violation(
            "fetch_update-reentrant",
            &format!(
                "{}::fetch_update({},{}) init={:#x} script={:?} vals={:x?} news={:x?}: result {:x?} expected {:x?}; closure args {:x?} expected {:x?}; final {:#x} expected {:#x}",
                T::TY, ORDN[s], ORDN[f], init, sc.acts, sc.vals, sc.news, gotr, want, args, wargs, fin, cur
            ),
        );
    }
}
/// Sustained contention: the location changes during each of `n` closure calls in a row, then stays.
fn sustained<T: AtomicCompareExchange + AtomicSwap + Val>(r: &mut Rng, n: u64) {
    let size = std::mem::size_of::<T>();
    let mk = |v: u128| -> M<T> { unsafe { (&raw const v as *const M<T>).read() } };
    let un = |v: M<T>| -> u128 {
        let mut o = 0u128;
        unsafe { (&raw mut o as *mut M<T>).write(v) };
        o
    };
    let (s, f, none) = (r.below(5), [0, 1, 4][r.below(3)], r.below(4) == 0);
    let init = r.val(size, 0);
    let loc = A::<T>::new(mk(init));
    let mut calls = 0u64;
    let res = loc.fetch_update(ORD[s], ORD[f], |x| {
        calls += 1;
        if calls <= n {
            loc.store(T::addm(x, mk(1)), ORD[0]);
        } else if none {
            return None;
        } else if calls > n + 1 {
            return None; // must not happen
        }
        Some(T::addm(x, mk(3)))
    });
    let seen = un(T::addm(mk(init), mk(n as u128)));
    let (ok, v) = match res {
        Ok(v) => (true, un(v)),
        Err(v) => (false, un(v)),
    };
    let want = if none { seen } else { un(T::addm(mk(seen), mk(3))) };
    let end = un(loc.load(ORD[4]));
    if calls != n + 1 || ok == none || v != seen || end != want {
        violation(
            "fetch_update-result",
            &format!("{}::fetch_update({},{}) with {} consecutive foreign changes, then closure returns {}: {} closure calls, ok={} previous={:#x} (location held {:#x}), final {:#x} expected {:#x}", T::TY, ORDN[s], ORDN[f], n, if none { "None" } else { "Some" }, calls, ok, v, seen, end, want),
        );
    }
    unsafe { SUSTAINED += n };
}
static mut SUSTAINED: u64 = 0;
fn scripts<T: AtomicCompareExchange + AtomicSwap + Val>(r: &mut Rng, n: u64, st: &mut [u64; 4]) {
    for len in [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 513, 1000, 1025, 4097, 10007, 65535, 65537, 140_001] {
        sustained::<T>(r, len);
    }
    for _ in 0..n {
        let s = r.below(5);
        let f = [0, 1, 4][r.below(3)];
        scripted::<T>(r, s, f, st);
    }
}

pub fn fu(e: &mut Env) {
    let mut runs = 0u64;
    let mut calls = 0u64;
    let mut writes = 0u64;
    let mut multi = 0u64;
    let mut seen = std::collections::HashSet::new();
    for op in e.tab.ops.clone().iter().filter(|o| o.kind == Kind::Fu) {
        if e.debug && e.rng.below(4) != 0 {
            continue;
        }
        for case in 0..6 * e.scale {
            let m = op.mask();
            let off = 1024 + op.size * e.rng.below(64 / op.size);
            let mut c = gen_case(&mut e.rng, op);
            if c.b & m == 0 && case % 4 != 0 {
                c.b = 1;
            }
            let mut fc = u32::MAX;
            let base = stepped(e, op, &c, if case % 3 == 0 { 0 } else { 255 }, off, &|_| None, &mut fc);
            let n = base.steps;
            let maxp = if e.debug { 12 } else { 60 };
            let pts: Vec<u32> = if n <= maxp { (0..n).collect() } else { (0..maxp).map(|_| fc.saturating_sub(60).wrapping_add(e.rng.below((n - fc.saturating_sub(60)) as usize) as u32)).collect() };
            let mut dofn = |e: &mut Env, none: u32, plan: &dyn Fn(u32) -> Option<u128>| {
                let r = stepped(e, op, &c, none, off, plan, &mut u32::MAX.clone());
                runs += 1;
                calls += r.calls as u64;
                writes += r.writes as u64;
                if r.calls > 1 {
                    multi += 1
                }
                seen.insert((op.f as usize, r.steps, r.calls, r.writes));
            };
            for &k in &pts {
                let v = e.rng.val(op.size, c.init);
                let none = [255, 255, 0, 1, 2][e.rng.below(5)];
                dofn(e, none, &|t| if t == k { Some(v) } else { None });
                // ABA, and a second write later
                let k2 = k + 1 + e.rng.below(n as usize) as u32;
                let k3 = k2 + 1 + e.rng.below(n as usize) as u32;
                let v2 = if e.rng.below(2) == 0 { c.init } else { e.rng.val(op.size, v) };
                let v3 = e.rng.u128() & m;
                dofn(e, none, &|t| if t == k { Some(v) } else if t == k2 { Some(v2) } else if t == k3 { Some(v3) } else { None });
            }
            let b = e.rng.u128();
            dofn(e, 255, &|t| if t < 100 { Some(b.wrapping_mul(t as u128 + 3)) } else { None });
        }
        if runs < 2000 {
            sample(&format!("{}: {} stepped runs, {} closure calls, {} foreign changes so far", op.name(), runs, calls, writes));
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    let mut st = [0u64; 4];
    let n = if e.debug { 300 } else { 1500 } * e.scale;
    let r = &mut e.rng;
    #[cfg(not(vf_nocas))]
    {
        scripts::<u8>(r, n, &mut st);
        scripts::<i8>(r, n, &mut st);
        scripts::<u16>(r, n, &mut st);
        scripts::<i16>(r, n, &mut st);
        scripts::<u32>(r, n, &mut st);
        scripts::<i32>(r, n, &mut st);
        scripts::<usize>(r, n, &mut st);
        scripts::<isize>(r, n, &mut st);
    }
    #[cfg(not(vf_no64))]
    {
        scripts::<u64>(r, n, &mut st);
        scripts::<i64>(r, n, &mut st);
    }
    #[cfg(vf_128)]
    {
        scripts::<u128>(r, n, &mut st);
        scripts::<i128>(r, n, &mut st);
    }
    let _ = (n, r);
    stat("stepped_fetch_updates", runs);
    stat("closure_calls_observed", calls);
    stat("foreign_changes", writes);
    stat("runs_with_repeated_closure_calls", multi);
    stat("distinct_behaviours", seen.len() as u64);
    stat("scripted_fetch_updates", st[0]);
    stat("scripted_closure_calls", st[1]);
    stat("scripted_panics", st[2]);
    stat("scripted_with_retries", st[3]);
    stat("sustained_foreign_changes", unsafe { SUSTAINED });
}
