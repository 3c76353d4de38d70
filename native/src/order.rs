//! Ordering monitors on optimised code: at every instruction boundary another agent looks at, or
//! changes, memory around an operation inlined into a larger function.
use crate::inter::{is_fence, Stats};
use crate::ops::*;
use crate::seq::*;
use crate::step::{self, *};
use crate::util::*;
use atomic_maybe_uninit::raw::{AtomicCompareExchange, AtomicLoad, AtomicStore, AtomicSwap};
use atomic_maybe_uninit::AtomicMaybeUninit as A;
use std::mem::MaybeUninit as M;
use std::sync::atomic::{fence, Ordering};

/// Arguments of a snippet: `loc` the atomic, `x` ordinary data, operands, results.
#[repr(C, align(16))]
pub struct Sn {
    a: [u8; 16],
    b: [u8; 16],
    out: [u8; 16],
    loc: *mut u8,
    loc2: *mut u8,
    x: *mut u64,
    r0: u64,
    r1: u64,
    n: u64,
    ok: u8,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum What {
    /// `*x = 1; op; ` -- when the location changes, *x must be 1
    Rel,
    /// `r0 = *x; v = op; r1 = *x` -- if v is the flag written together with x, r1 must be new
    Acq,
    /// poll loop
    AcqLoop,
    /// spin until the value changes (no other memory access)
    Spin,
    /// store to loc then load from loc2: fence in between
    Sc,
}
#[derive(Clone, Copy)]
pub struct Snip {
    pub ty: &'static str,
    pub size: usize,
    pub kind: Kind,
    pub o1: u8,
    pub o2: u8,
    pub what: What,
    pub var: &'static str,
    /// for CAS: whether the exchange is meant to succeed
    pub hit: bool,
    pub f: usize,
}
impl Snip {
    fn name(&self) -> String {
        format!("{}::{:?}({},{}) {:?}/{} hit={}", self.ty, self.kind, ORDN[self.o1 as usize], ORDN[self.o2 as usize], self.what, self.var, self.hit)
    }
}
#[inline(always)]
unsafe fn at<'a, T: atomic_maybe_uninit::raw::Primitive>(p: *mut u8) -> &'a A<T> {
    &*(p as *const A<T>)
}
#[inline(always)]
unsafe fn arg<T: Copy>(p: *const [u8; 16]) -> M<T> {
    (p as *const M<T>).read()
}
#[inline(always)]
unsafe fn put<T: Copy>(c: *mut Sn, v: M<T>) {
    ((&raw mut (*c).out) as *mut M<T>).write(v)
}

/// One memory operation `OP` on the atomic, result stored through c.
/// The result is stored only at the end (`fin`), so that inside the snippet nothing but the
/// operation itself keeps the compiler from merging or moving the surrounding accesses.
pub trait Opn {
    type V: Copy;
    unsafe fn go(c: *mut Sn, loc: *mut u8) -> Self::V;
    unsafe fn fin(c: *mut Sn, v: Self::V);
}
pub struct Ld<T, const O: usize>(T);
pub struct St<T, const O: usize>(T);
pub struct Sw<T, const O: usize>(T);
pub struct Ca<T, const S: usize, const F: usize>(T);
pub struct Cw<T, const S: usize, const F: usize>(T);
pub struct Fu<T, const S: usize, const F: usize>(T);
impl<T: AtomicLoad, const O: usize> Opn for Ld<T, O> {
    #[inline(always)]
    unsafe fn go(_: *mut Sn, loc: *mut u8) -> M<T> {
        at::<T>(loc).load(ORD[O])
    }
    #[inline(always)]
    unsafe fn fin(c: *mut Sn, v: M<T>) {
        put(c, v)
    }
    type V = M<T>;
}
impl<T: AtomicStore, const O: usize> Opn for St<T, O> {
    #[inline(always)]
    unsafe fn go(c: *mut Sn, loc: *mut u8) {
        at::<T>(loc).store(arg(&raw const (*c).a), ORD[O])
    }
    #[inline(always)]
    unsafe fn fin(_: *mut Sn, _: ()) {}
    type V = ();
}
impl<T: AtomicSwap, const O: usize> Opn for Sw<T, O> {
    #[inline(always)]
    unsafe fn go(c: *mut Sn, loc: *mut u8) -> M<T> {
        at::<T>(loc).swap(arg(&raw const (*c).a), ORD[O])
    }
    #[inline(always)]
    unsafe fn fin(c: *mut Sn, v: M<T>) {
        put(c, v)
    }
    type V = M<T>;
}
macro_rules! opcas {
    ($n:ident, $m:ident) => {
        impl<T: AtomicCompareExchange, const S: usize, const F: usize> Opn for $n<T, S, F> {
            #[inline(always)]
            unsafe fn go(c: *mut Sn, loc: *mut u8) -> Result<M<T>, M<T>> {
                at::<T>(loc).$m(arg(&raw const (*c).a), arg(&raw const (*c).b), ORD[S], ORD[F])
            }
            #[inline(always)]
            unsafe fn fin(c: *mut Sn, v: Result<M<T>, M<T>>) {
                (*c).ok = v.is_ok() as u8;
                match v {
                    Ok(v) | Err(v) => put(c, v),
                }
            }
            type V = Result<M<T>, M<T>>;
        }
    };
}
opcas!(Ca, compare_exchange);
opcas!(Cw, compare_exchange_weak);
impl<T: AtomicCompareExchange + Val, const S: usize, const F: usize> Opn for Fu<T, S, F> {
    #[inline(always)]
    unsafe fn go(c: *mut Sn, loc: *mut u8) -> Result<M<T>, M<T>> {
        let b = arg(&raw const (*c).b);
        at::<T>(loc).fetch_update(ORD[S], ORD[F], |x| Some(T::addm(x, b)))
    }
    #[inline(always)]
    unsafe fn fin(c: *mut Sn, v: Result<M<T>, M<T>>) {
        (*c).ok = v.is_ok() as u8;
        match v {
            Ok(v) | Err(v) => put(c, v),
        }
    }
    type V = Result<M<T>, M<T>>;
}

#[inline(never)]
unsafe extern "C" fn rel<P: Opn>(c: *mut Sn) {
    let x = (*c).x;
    let loc = (*c).loc;
    *x = 1;
    let v = P::go(c, loc);
    *x = 2;
    P::fin(c, v);
}
#[inline(never)]
unsafe extern "C" fn rel_fence<P: Opn>(c: *mut Sn) {
    let x = (*c).x;
    let loc = (*c).loc;
    *x = 1;
    fence(Ordering::Release);
    let v = P::go(c, loc);
    P::fin(c, v);
}
/// the data is written in a loop that publishes each value
#[inline(never)]
unsafe extern "C" fn rel_loop<P: Opn>(c: *mut Sn) {
    let x = (*c).x;
    let loc = (*c).loc;
    let mut i = 0;
    while i < (*c).n {
        *x = 1;
        *x.add(1) = i;
        let v = P::go(c, loc);
        i += 1;
        if i == (*c).n {
            *x = 2;
            P::fin(c, v);
        }
    }
}
#[inline(never)]
unsafe extern "C" fn acq<P: Opn>(c: *mut Sn) {
    let x = (*c).x;
    let loc = (*c).loc;
    let r0 = *x;
    let v = P::go(c, loc);
    let r1 = *x;
    P::fin(c, v);
    (*c).r0 = r0;
    (*c).r1 = r1;
}
#[inline(never)]
unsafe extern "C" fn acq_fence<P: Opn>(c: *mut Sn) {
    let x = (*c).x;
    let loc = (*c).loc;
    let r0 = *x;
    let v = P::go(c, loc);
    fence(Ordering::Acquire);
    let r1 = *x;
    P::fin(c, v);
    (*c).r0 = r0;
    (*c).r1 = r1;
}
/// invariant load inside a polling loop
#[inline(never)]
unsafe extern "C" fn acq_loop<P: Opn>(c: *mut Sn) {
    let x: &std::cell::Cell<u64> = &*((*c).x as *const std::cell::Cell<u64>);
    let loc = (*c).loc;
    let mut n = (*c).n;
    let mut sum = 0u64;
    let mut last = 0;
    while n != 0 {
        let v = P::go(c, loc);
        last = x.get();
        sum = sum.wrapping_add(last);
        n -= 1;
        if n == 0 {
            P::fin(c, v);
        }
    }
    (*c).r1 = last;
    (*c).r0 = sum;
}
macro_rules! spin_body {
    ($c:ident, $t:ident, $e:expr) => {{
        let mut n = 0u64;
        loop {
            let v: M<T> = $e;
            let mut buf = [0u8; 16];
            ((&raw mut buf) as *mut M<T>).write(v);
            if buf[0] == 0x77 {
                break;
            }
            n += 1;
        }
        (*$c).n = n;
    }};
}
#[inline(never)]
unsafe extern "C" fn spin_load<T: AtomicLoad, const O: usize>(c: *mut Sn) {
    let a = at::<T>((*c).loc);
    spin_body!(c, T, a.load(ORD[O]))
}
#[inline(never)]
unsafe extern "C" fn spin_cas<T: AtomicCompareExchange, const S: usize, const F: usize>(c: *mut Sn) {
    let a = at::<T>((*c).loc);
    let x: M<T> = arg(&raw const (*c).a);
    spin_body!(c, T, match a.compare_exchange(x, x, ORD[S], ORD[F]) {
        Ok(v) | Err(v) => v,
    })
}
/// SeqCst pair on two locations.
#[inline(never)]
unsafe extern "C" fn sc2<P: Opn, Q: Opn>(c: *mut Sn) {
    let l1 = (*c).loc;
    let l2 = (*c).loc2;
    let p = P::go(c, l1);
    let q = Q::go(c, l2);
    P::fin(c, p);
    Q::fin(c, q);
}
#[inline(never)]
unsafe extern "C" fn sc2_fence<P: Opn, Q: Opn>(c: *mut Sn) {
    let l1 = (*c).loc;
    let l2 = (*c).loc2;
    let p = P::go(c, l1);
    fence(Ordering::SeqCst);
    let q = Q::go(c, l2);
    P::fin(c, p);
    Q::fin(c, q);
}

macro_rules! sn {
    ($v:ident, $t:ident, $kind:expr, $o1:literal, $o2:literal, $what:expr, $var:literal, $hit:expr, $f:expr) => {
        $v.push(Snip {
            ty: stringify!($t),
            size: std::mem::size_of::<$t>(),
            kind: $kind,
            o1: $o1,
            o2: $o2,
            what: $what,
            var: $var,
            hit: $hit,
            f: $f as unsafe extern "C" fn(*mut Sn) as usize,
        });
    };
}
macro_rules! ty_nocas {
    ($v:ident, $t:ident) => {
        sn!($v, $t, Kind::Store, 2, 0, What::Rel, "plain", true, rel::<St<$t, 2>>);
        sn!($v, $t, Kind::Store, 4, 0, What::Rel, "plain", true, rel::<St<$t, 4>>);
        sn!($v, $t, Kind::Store, 0, 0, What::Rel, "fence", true, rel_fence::<St<$t, 0>>);
        sn!($v, $t, Kind::Store, 2, 0, What::Rel, "loop", true, rel_loop::<St<$t, 2>>);
        sn!($v, $t, Kind::Store, 4, 0, What::Rel, "loop", true, rel_loop::<St<$t, 4>>);
        sn!($v, $t, Kind::Swap, 2, 0, What::Rel, "plain", true, rel::<Sw<$t, 2>>);
        sn!($v, $t, Kind::Swap, 3, 0, What::Rel, "plain", true, rel::<Sw<$t, 3>>);
        sn!($v, $t, Kind::Swap, 4, 0, What::Rel, "plain", true, rel::<Sw<$t, 4>>);
        sn!($v, $t, Kind::Swap, 3, 0, What::Rel, "loop", true, rel_loop::<Sw<$t, 3>>);
        sn!($v, $t, Kind::Swap, 0, 0, What::Rel, "fence", true, rel_fence::<Sw<$t, 0>>);
        sn!($v, $t, Kind::Load, 1, 0, What::Acq, "plain", true, acq::<Ld<$t, 1>>);
        sn!($v, $t, Kind::Load, 4, 0, What::Acq, "plain", true, acq::<Ld<$t, 4>>);
        sn!($v, $t, Kind::Load, 0, 0, What::Acq, "fence", true, acq_fence::<Ld<$t, 0>>);
        sn!($v, $t, Kind::Load, 1, 0, What::AcqLoop, "loop", true, acq_loop::<Ld<$t, 1>>);
        sn!($v, $t, Kind::Load, 4, 0, What::AcqLoop, "loop", true, acq_loop::<Ld<$t, 4>>);
        sn!($v, $t, Kind::Swap, 1, 0, What::Acq, "plain", true, acq::<Sw<$t, 1>>);
        sn!($v, $t, Kind::Swap, 3, 0, What::Acq, "plain", true, acq::<Sw<$t, 3>>);
        sn!($v, $t, Kind::Swap, 4, 0, What::Acq, "plain", true, acq::<Sw<$t, 4>>);
        sn!($v, $t, Kind::Swap, 0, 0, What::Acq, "fence", true, acq_fence::<Sw<$t, 0>>);
        sn!($v, $t, Kind::Load, 0, 0, What::Spin, "load", true, spin_load::<$t, 0>);
        sn!($v, $t, Kind::Load, 1, 0, What::Spin, "load", true, spin_load::<$t, 1>);
        sn!($v, $t, Kind::Load, 4, 0, What::Spin, "load", true, spin_load::<$t, 4>);
        sn!($v, $t, Kind::Store, 4, 4, What::Sc, "st-ld", true, sc2::<St<$t, 4>, Ld<$t, 4>>);
        sn!($v, $t, Kind::Swap, 4, 4, What::Sc, "swap-ld", true, sc2::<Sw<$t, 4>, Ld<$t, 4>>);
        sn!($v, $t, Kind::Store, 4, 4, What::Sc, "st-swap", true, sc2::<St<$t, 4>, Sw<$t, 4>>);
        sn!($v, $t, Kind::Store, 4, 4, What::Sc, "st-ld8", true, sc2::<St<$t, 4>, Ld<u8, 4>>);
        sn!($v, $t, Kind::Store, 4, 4, What::Sc, "st-ldptr", true, sc2::<St<$t, 4>, Ld<usize, 4>>);
        sn!($v, $t, Kind::Store, 0, 0, What::Sc, "st-fence-ld", true, sc2_fence::<St<$t, 0>, Ld<$t, 0>>);
    };
}
macro_rules! ty_cas {
    ($v:ident, $t:ident) => {
        ty_nocas!($v, $t);
        sn!($v, $t, Kind::Cas, 2, 0, What::Rel, "plain", true, rel::<Ca<$t, 2, 0>>);
        sn!($v, $t, Kind::Cas, 3, 1, What::Rel, "plain", true, rel::<Ca<$t, 3, 1>>);
        sn!($v, $t, Kind::Cas, 2, 4, What::Rel, "plain", true, rel::<Ca<$t, 2, 4>>);
        sn!($v, $t, Kind::Cas, 4, 4, What::Rel, "plain", true, rel::<Ca<$t, 4, 4>>);
        sn!($v, $t, Kind::CasWeak, 2, 1, What::Rel, "plain", true, rel::<Cw<$t, 2, 1>>);
        sn!($v, $t, Kind::CasWeak, 4, 0, What::Rel, "plain", true, rel::<Cw<$t, 4, 0>>);
        sn!($v, $t, Kind::Fu, 2, 0, What::Rel, "plain", true, rel::<Fu<$t, 2, 0>>);
        sn!($v, $t, Kind::Fu, 3, 1, What::Rel, "plain", true, rel::<Fu<$t, 3, 1>>);
        sn!($v, $t, Kind::Fu, 4, 4, What::Rel, "plain", true, rel::<Fu<$t, 4, 4>>);
        sn!($v, $t, Kind::Cas, 0, 0, What::Rel, "fence", true, rel_fence::<Ca<$t, 0, 0>>);
        sn!($v, $t, Kind::Cas, 1, 0, What::Acq, "plain", true, acq::<Ca<$t, 1, 0>>);
        sn!($v, $t, Kind::Cas, 3, 0, What::Acq, "plain", true, acq::<Ca<$t, 3, 0>>);
        sn!($v, $t, Kind::Cas, 4, 0, What::Acq, "plain", true, acq::<Ca<$t, 4, 0>>);
        sn!($v, $t, Kind::Cas, 0, 1, What::Acq, "plain", false, acq::<Ca<$t, 0, 1>>);
        sn!($v, $t, Kind::Cas, 2, 1, What::Acq, "plain", false, acq::<Ca<$t, 2, 1>>);
        sn!($v, $t, Kind::Cas, 0, 4, What::Acq, "plain", false, acq::<Ca<$t, 0, 4>>);
        sn!($v, $t, Kind::CasWeak, 1, 1, What::Acq, "plain", true, acq::<Cw<$t, 1, 1>>);
        sn!($v, $t, Kind::CasWeak, 0, 1, What::Acq, "plain", false, acq::<Cw<$t, 0, 1>>);
        sn!($v, $t, Kind::Fu, 1, 0, What::Acq, "plain", true, acq::<Fu<$t, 1, 0>>);
        sn!($v, $t, Kind::Fu, 4, 1, What::Acq, "plain", true, acq::<Fu<$t, 4, 1>>);
        sn!($v, $t, Kind::Cas, 0, 0, What::Acq, "fence", true, acq_fence::<Ca<$t, 0, 0>>);
        sn!($v, $t, Kind::Cas, 0, 0, What::Spin, "cas", true, spin_cas::<$t, 0, 0>);
        sn!($v, $t, Kind::Cas, 3, 1, What::Spin, "cas", true, spin_cas::<$t, 3, 1>);
        sn!($v, $t, Kind::Cas, 4, 4, What::Sc, "cas-ld", true, sc2::<Ca<$t, 4, 4>, Ld<$t, 4>>);
        sn!($v, $t, Kind::Cas, 4, 0, What::Sc, "casw-ld", true, sc2::<Cw<$t, 4, 0>, Ld<$t, 4>>);
        sn!($v, $t, Kind::Fu, 4, 4, What::Sc, "fu-ld", true, sc2::<Fu<$t, 4, 4>, Ld<$t, 4>>);
        sn!($v, $t, Kind::Store, 4, 4, What::Sc, "st-casfail", false, sc2::<St<$t, 4>, Ca<$t, 4, 4>>);
        sn!($v, $t, Kind::Store, 4, 4, What::Sc, "st-cas04", false, sc2::<St<$t, 4>, Ca<$t, 0, 4>>);
    };
}
pub fn snips() -> Vec<Snip> {
    let mut v = Vec::new();
    #[cfg(not(vf_nocas))]
    {
        ty_cas!(v, u8);
        ty_cas!(v, i16);
        ty_cas!(v, u32);
        ty_cas!(v, usize);
    }
    #[cfg(vf_nocas)]
    {
        ty_nocas!(v, u8);
        ty_nocas!(v, i16);
        ty_nocas!(v, u32);
        ty_nocas!(v, usize);
    }
    #[cfg(not(vf_no64))]
    {
        ty_cas!(v, u64);
    }
    #[cfg(vf_128)]
    {
        ty_cas!(v, u128);
    }
    v
}

fn mk(e: &Env, s: &Snip, off: usize, off2: usize, x: *mut u64, a: u128, b: u128) -> Sn {
    let _ = s;
    Sn {
        a: a.to_le_bytes(),
        b: b.to_le_bytes(),
        out: [0; 16],
        loc: unsafe { e.arena.op.add(off) },
        loc2: unsafe { e.arena.op.add(off2) },
        x,
        r0: 0,
        r1: 0,
        n: 0,
        ok: 9,
    }
}
const FLAG: u128 = 0x7777_7777_7777_7777_7777_7777_7777_7777;

/// C03: compiler-level ordering, judged at every instruction boundary.
pub fn order(e: &mut Env) {
    let mut st = Stats::default();
    let mut published = 0u64;
    let mut acquired = 0u64;
    let lim = limit(e) * 4;
    for s in snips().iter() {
        let m = mask(s.size);
        let off = 1024 + s.size * e.rng.below(8);
        let mon = unsafe { e.arena.mon.add(off) };
        let mut data = [0u64; 8];
        let xp = data.as_mut_ptr();
        match s.what {
            What::Rel => {
                for _ in 0..3 {
                    let init = e.rng.u128() & m;
                    let a = if matches!(s.kind, Kind::Cas | Kind::CasWeak) { init } else { (e.rng.u128() | 1) & m };
                    let b = (init ^ (e.rng.u128() | 1)) & m;
                    wr(mon, s.size, init);
                    unsafe { xp.write_volatile(0) };
                    let mut sn = mk(e, s, off, off, xp, a, b);
                    sn.n = 3;
                    let mut cur = init;
                    let mut bad = None;
                    let mut ch = 0;
                    let is_loop = s.var == "loop";
                    let o = step::call_raw(s.f, &mut sn as *mut Sn as usize, &e.arena, Mode::Step, lim, &MState::default(), &mut |k, _| {
                        let v = rd(mon, s.size);
                        if v != cur {
                            cur = v;
                            ch += 1;
                            let xv = unsafe { xp.read_volatile() };
                            let iv = unsafe { xp.add(1).read_volatile() };
                            if xv != 1 || (is_loop && iv != ch - 1) {
                                bad = Some(format!("at boundary {k} the published value became {v:#x} while the data written before it is {xv} / {iv}"));
                            }
                            if is_loop {
                                // make the next iteration's publication visible as a change again
                                let w = v ^ 1;
                                wr(mon, s.size, w);
                                cur = w;
                            }
                        }
                    });
                    st.runs += 1;
                    st.boundaries += o.steps as u64;
                    published += ch;
                    if let Some(bm) = bad {
                        violation("release-not-ordered", &format!("{} {}", s.name(), bm));
                    }
                    fail(s, &o, "order");
                    if ch == 0 && init != a && o.fault.is_none() {
                        violation("no-publication", &s.name());
                    }
                }
            }
            What::Acq => {
                // baseline to learn the number of boundaries
                let init = 0x1111_2222_3333_4444_5555_6666_9999_8888u128 & m;
                let (a, b) = if matches!(s.kind, Kind::Cas | Kind::CasWeak) { (if s.hit { FLAG & m } else { 0x55 }, 0x66) } else { (0x55, 1) };
                wr(mon, s.size, init);
                let mut sn = mk(e, s, off, off, xp, a, b);
                let o = step::call_raw(s.f, &mut sn as *mut Sn as usize, &e.arena, Mode::Step, lim, &MState::default(), &mut |_, _| {});
                fail(s, &o, "order");
                let n = o.steps;
                let pts: Vec<u32> = if n < 120 { (0..n).collect() } else { (0..120).map(|_| e.rng.below(n as usize) as u32).collect() };
                for k in pts {
                    wr(mon, s.size, init);
                    unsafe { xp.write_volatile(10) };
                    let mut sn = mk(e, s, off, off, xp, a, b);
                    let o = step::call_raw(s.f, &mut sn as *mut Sn as usize, &e.arena, Mode::Step, lim, &MState::default(), &mut |t, ip| {
                        if t == k && ip != 0 {
                            unsafe { xp.write_volatile(20) };
                            wr(mon, s.size, FLAG & m);
                        }
                    });
                    st.runs += 1;
                    st.boundaries += o.steps as u64;
                    fail(s, &o, "order");
                    let out = u128::from_le_bytes(sn.out) & m;
                    if out == FLAG & m {
                        acquired += 1;
                        if sn.r1 != 20 {
                            violation("acquire-not-ordered", &format!("{} writer acted at boundary {k}: operation returned the flag but the data read after it is {}", s.name(), sn.r1));
                        }
                    }
                }
            }
            What::AcqLoop => {
                let init = 0x11u128;
                wr(mon, s.size, init);
                let mut sn = mk(e, s, off, off, xp, 0, 0);
                sn.n = 4;
                let n = step::call_raw(s.f, &mut sn as *mut Sn as usize, &e.arena, Mode::Step, lim, &MState::default(), &mut |_, _| {}).steps;
                let pts: Vec<u32> = if n < 120 { (0..n).collect() } else { (0..120).map(|_| e.rng.below(n as usize) as u32).collect() };
                for k in pts {
                    wr(mon, s.size, init);
                    unsafe { xp.write_volatile(10) };
                    let mut sn = mk(e, s, off, off, xp, 0, 0);
                    sn.n = 4;
                    let o = step::call_raw(s.f, &mut sn as *mut Sn as usize, &e.arena, Mode::Step, lim, &MState::default(), &mut |t, ip| {
                        if t == k && ip != 0 {
                            unsafe { xp.write_volatile(20) };
                            wr(mon, s.size, FLAG & m);
                        }
                    });
                    st.runs += 1;
                    st.boundaries += o.steps as u64;
                    fail(s, &o, "order");
                    if u128::from_le_bytes(sn.out) & m == FLAG & m {
                        acquired += 1;
                        if sn.r1 != 20 {
                            violation("acquire-not-ordered", &format!("{} writer acted at boundary {k}: last poll returned the flag but the data read after it is {}", s.name(), sn.r1));
                        }
                    }
                }
            }
            _ => {}
        }
    }
    stat("ordering_runs", st.runs);
    stat("instruction_boundaries_observed", st.boundaries);
    stat("publications_checked", published);
    stat("acquisitions_checked", acquired);
    stat("snippets", snips().len() as u64);
}
fn fail(s: &Snip, o: &Outcome, w: &str) {
    if let Some(f) = o.fault {
        violation("fault", &format!("{w} {} {:x?}", s.name(), f));
    }
    if o.overrun {
        violation("unbounded", &format!("{w} {}", s.name()));
    }
}
/// C11: a polling loop sees a store made at any instruction boundary.
pub fn spin(e: &mut Env) {
    let mut runs = 0u64;
    let mut b = 0u64;
    for s in snips().iter().filter(|s| s.what == What::Spin) {
        let m = mask(s.size);
        let off = 1024 + s.size * e.rng.below(8);
        let mon = unsafe { e.arena.mon.add(off) };
        let mut x = 0u64;
        for k in 0..if e.debug { 200 } else { 60 } {
            wr(mon, s.size, 0x1212_1212_1212_1212_1212_1212_1212_1212 & m);
            let mut sn = mk(e, s, off, off, &mut x, 5, 5);
            let lim = k + limit(e);
            let o = step::call_raw(s.f, &mut sn as *mut Sn as usize, &e.arena, Mode::Step, lim, &MState::default(), &mut |t, ip| {
                if t == k && ip != 0 {
                    wr(mon, s.size, FLAG & m);
                }
            });
            runs += 1;
            b += o.steps as u64;
            if o.overrun {
                violation("store-not-seen", &format!("{}: polling loop still running {} instructions after the store at boundary {k}", s.name(), limit(e)));
                break;
            }
            fail(s, &o, "spin");
        }
    }
    stat("poll_runs", runs);
    stat("instruction_boundaries_observed", b);
}

/// C04: between the write of a SeqCst store/RMW and the read of a following SeqCst operation on
/// another location there is a full fence, and they are executed in program order.
pub fn sctrace(e: &mut Env) {
    let mut pairs = 0u64;
    let mut fences = 0u64;
    for s in snips().iter().filter(|s| s.what == What::Sc) {
        for rep in 0..3usize {
            let m = mask(s.size);
            let (off, off2) = [(1024, 2048), (2048, 1024), (1024, 1024 + 16)][rep];
            let init = 0x55u128;
            wr(unsafe { e.arena.mon.add(off) }, s.size, init);
            wr(unsafe { e.arena.mon.add(off2) }, 16, 0x33);
            // CAS as first operation: hit; as second (st-cas*): miss
            let a = if matches!(s.kind, Kind::Cas | Kind::CasWeak) { init } else { 0x99 & m };
            let mut x = 0u64;
            let mut sn = mk(e, s, off, off2, &mut x, a, 0x42);
            let l1 = e.arena.op as usize + off;
            let l2 = e.arena.op as usize + off2;
            let o = step::call_raw(s.f, &mut sn as *mut Sn as usize, &e.arena, Mode::Watch, limit(e), &MState::default(), &mut |_, _| {});
            fail(s, &o, "sctrace");
            if o.fault.is_some() || o.overrun || o.steps as usize > 511 {
                continue;
            }
            // the last write access to loc, the first read of loc2
            let w = o.acc.iter().rev().find(|t| t.addr >= l1 && t.addr < l1 + 16 && (off2 != off + 16 || t.addr < l1 + s.size) && t.write);
            let r = o.acc.iter().find(|t| t.addr >= l2 && t.addr < l2 + 16);
            let (Some(w), Some(r)) = (w, r) else {
                violation("no-access", &format!("{} accesses {:x?}", s.name(), o.acc));
                continue;
            };
            pairs += 1;
            if r.step <= w.step {
                violation("seqcst-reordered", &format!("{}: the second location is accessed (step {}) before the first (step {})", s.name(), r.step, w.step));
                continue;
            }
            let mut ok = false;
            for t in w.step..=r.step {
                if (t as usize) < o.ips.len() && unsafe { is_fence(o.ips[t as usize]) } {
                    ok = true;
                    fences += 1;
                }
            }
            if !ok {
                violation("seqcst-no-fence", &format!("{}: no full fence between the write (step {}) and the read of the other location (step {})", s.name(), w.step, r.step));
            }
            if pairs == 1 {
                sample(&format!("{}: write at step {}, read of other location at step {}, fenced", s.name(), w.step, r.step));
            }
        }
    }
    stat("seqcst_pairs_traced", pairs);
    stat("fence_instructions_observed", fences);
}
