//! The operation table: every public operation of the crate, for every integer type and every
//! permitted ordering argument, behind one uniform calling convention, together with the
//! sequential specification (`model`) each call is judged against.
use atomic_maybe_uninit::raw::{AtomicCompareExchange, AtomicLoad, AtomicStore, AtomicSwap};
use atomic_maybe_uninit::AtomicMaybeUninit as A;
use std::mem::MaybeUninit as M;
use std::sync::atomic::Ordering;

pub const ORD: [Ordering; 5] =
    [Ordering::Relaxed, Ordering::Acquire, Ordering::Release, Ordering::AcqRel, Ordering::SeqCst];
pub const ORDN: [&str; 5] = ["Relaxed", "Acquire", "Release", "AcqRel", "SeqCst"];

/// Arguments and results of one call.
#[repr(C, align(16))]
#[derive(Clone, Copy)]
pub struct Ctx {
    pub a: [u8; 16],
    pub b: [u8; 16],
    pub out: [u8; 16],
    pub fu_args: [[u8; 16]; 4],
    pub ptr: *mut u8,
    /// registers-with-garbage variants
    pub ra: u64,
    pub rb: u64,
    pub ok: u8,
    /// fetch_update: number of closure calls so far; call index at which it returns None (255: never)
    pub fu_calls: u32,
    pub fu_none_at: u32,
    /// nonzero: the closure replaces instead of adding
    pub fu_set: u32,
    /// runtime ordering for the `dyn` variants
    pub o1: u8,
    pub o2: u8,
}
impl Ctx {
    pub fn new(ptr: *mut u8, a: u128, b: u128) -> Ctx {
        Ctx {
            a: a.to_le_bytes(),
            b: b.to_le_bytes(),
            out: [0xEE; 16],
            fu_args: [[0; 16]; 4],
            ptr,
            ra: a as u64,
            rb: b as u64,
            ok: 0xEE,
            fu_calls: 0,
            fu_none_at: 255,
            fu_set: 0,
            o1: 0,
            o2: 0,
        }
    }
}
pub type OpFn = unsafe extern "C" fn(*mut Ctx);

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    Load,
    Store,
    Swap,
    Cas,
    CasWeak,
    Fu,
}
#[derive(Clone, Copy)]
pub struct Op {
    pub ty: &'static str,
    pub size: usize,
    pub kind: Kind,
    pub o1: u8,
    pub o2: u8,
    /// "safe", "raw" (raw traits), "reg" (operands arrive in registers with dirty upper bits), "dyn" (run-time ordering)
    pub api: &'static str,
    pub f: OpFn,
}
impl Op {
    pub fn name(&self) -> String {
        let k = match self.kind {
            Kind::Load => "load",
            Kind::Store => "store",
            Kind::Swap => "swap",
            Kind::Cas => "compare_exchange",
            Kind::CasWeak => "compare_exchange_weak",
            Kind::Fu => "fetch_update",
        };
        if matches!(self.kind, Kind::Cas | Kind::CasWeak | Kind::Fu) {
            format!("{}::{}({},{})[{}]", self.ty, k, ORDN[self.o1 as usize], ORDN[self.o2 as usize], self.api)
        } else {
            format!("{}::{}({})[{}]", self.ty, k, ORDN[self.o1 as usize], self.api)
        }
    }
    pub fn mask(&self) -> u128 {
        mask(self.size)
    }
    pub fn is_rmw(&self) -> bool {
        !matches!(self.kind, Kind::Load | Kind::Store)
    }
}
pub fn mask(size: usize) -> u128 {
    if size == 16 {
        u128::MAX
    } else {
        (1u128 << (size * 8)) - 1
    }
}

pub trait Val: Copy + 'static {
    const TY: &'static str;
    fn addm(x: M<Self>, b: M<Self>) -> M<Self>;
    fn trunc(x: u64) -> Self;
}
macro_rules! val {
    ($($t:ident)*) => {$(impl Val for $t {
        const TY: &'static str = stringify!($t);
        #[inline(always)]
        fn addm(x: M<Self>, b: M<Self>) -> M<Self> {
            unsafe { M::new(x.assume_init().wrapping_add(b.assume_init())) }
        }
        #[inline(always)]
        fn trunc(x: u64) -> Self { x as $t }
    })*};
}
val!(i8 u8 i16 u16 i32 u32 i64 u64 isize usize i128 u128);

#[inline(always)]
unsafe fn at<'a, T: atomic_maybe_uninit::raw::Primitive>(c: *mut Ctx) -> &'a A<T> {
    &*((*c).ptr as *const A<T>)
}
#[inline(always)]
unsafe fn ga<T: Copy>(c: *mut Ctx) -> M<T> {
    ((&raw const (*c).a) as *const M<T>).read()
}
#[inline(always)]
unsafe fn gb<T: Copy>(c: *mut Ctx) -> M<T> {
    ((&raw const (*c).b) as *const M<T>).read()
}
#[inline(always)]
unsafe fn put<T: Copy>(c: *mut Ctx, v: M<T>) {
    ((&raw mut (*c).out) as *mut M<T>).write(v)
}
#[inline(always)]
unsafe fn putr<T: Copy>(c: *mut Ctx, v: Result<M<T>, M<T>>) {
    match v {
        Ok(v) => {
            put(c, v);
            (*c).ok = 1
        }
        Err(v) => {
            put(c, v);
            (*c).ok = 0
        }
    }
}

pub mod safe {
    use super::*;
    #[inline(never)]
    pub unsafe extern "C" fn load<T: AtomicLoad, const O: usize>(c: *mut Ctx) {
        put(c, at::<T>(c).load(ORD[O]))
    }
    #[inline(never)]
    pub unsafe extern "C" fn store<T: AtomicStore, const O: usize>(c: *mut Ctx) {
        at::<T>(c).store(ga(c), ORD[O])
    }
    #[inline(never)]
    pub unsafe extern "C" fn swap<T: AtomicSwap, const O: usize>(c: *mut Ctx) {
        put(c, at::<T>(c).swap(ga(c), ORD[O]))
    }
    #[inline(never)]
    pub unsafe extern "C" fn cas<T: AtomicCompareExchange, const S: usize, const F: usize>(c: *mut Ctx) {
        putr(c, at::<T>(c).compare_exchange(ga(c), gb(c), ORD[S], ORD[F]))
    }
    #[inline(never)]
    pub unsafe extern "C" fn casw<T: AtomicCompareExchange, const S: usize, const F: usize>(c: *mut Ctx) {
        putr(c, at::<T>(c).compare_exchange_weak(ga(c), gb(c), ORD[S], ORD[F]))
    }
    #[inline(always)]
    pub unsafe fn fu_closure<T: Val>(c: *mut Ctx, x: M<T>) -> Option<M<T>> {
        let n = (*c).fu_calls;
        // volatile: the stepping monitor reads the argument as soon as it sees the count change
        ((&raw mut (*c).fu_args[n as usize & 3]) as *mut M<T>).write_volatile(x);
        (&raw mut (*c).fu_calls).write_volatile(n + 1);
        if n == (*c).fu_none_at {
            None
        } else if (*c).fu_set != 0 {
            Some(gb(c))
        } else {
            Some(T::addm(x, gb(c)))
        }
    }
    #[inline(never)]
    pub unsafe extern "C" fn fu<T: AtomicCompareExchange + Val, const S: usize, const F: usize>(c: *mut Ctx) {
        putr(c, at::<T>(c).fetch_update(ORD[S], ORD[F], |x| fu_closure(c, x)))
    }
}
pub mod raw {
    use super::*;
    #[inline(never)]
    pub unsafe extern "C" fn load<T: AtomicLoad, const O: usize>(c: *mut Ctx) {
        put(c, T::atomic_load((*c).ptr as *const M<T>, ORD[O]))
    }
    #[inline(never)]
    pub unsafe extern "C" fn store<T: AtomicStore, const O: usize>(c: *mut Ctx) {
        T::atomic_store((*c).ptr as *mut M<T>, ga(c), ORD[O])
    }
    #[inline(never)]
    pub unsafe extern "C" fn swap<T: AtomicSwap, const O: usize>(c: *mut Ctx) {
        put(c, T::atomic_swap((*c).ptr as *mut M<T>, ga(c), ORD[O]))
    }
    #[inline(never)]
    pub unsafe extern "C" fn cas<T: AtomicCompareExchange, const S: usize, const F: usize>(c: *mut Ctx) {
        let (v, ok) = T::atomic_compare_exchange((*c).ptr as *mut M<T>, ga(c), gb(c), ORD[S], ORD[F]);
        put(c, v);
        (*c).ok = ok as u8
    }
    #[inline(never)]
    pub unsafe extern "C" fn casw<T: AtomicCompareExchange, const S: usize, const F: usize>(c: *mut Ctx) {
        let (v, ok) = T::atomic_compare_exchange_weak((*c).ptr as *mut M<T>, ga(c), gb(c), ORD[S], ORD[F]);
        put(c, v);
        (*c).ok = ok as u8
    }
}
/// Operands come out of 64-bit registers whose upper bits hold garbage, and values are passed
/// on in registers.
pub mod reg {
    use super::*;
    #[inline(never)]
    unsafe extern "C" fn swap1<T: AtomicSwap + Val, const O: usize>(p: *mut u8, a: u64) -> u64 {
        let v = (*(p as *const A<T>)).swap(M::new(T::trunc(a)), ORD[O]);
        let mut r = 0u64;
        ((&raw mut r) as *mut M<T>).write(v);
        r
    }
    #[inline(never)]
    unsafe extern "C" fn store1<T: AtomicStore + Val, const O: usize>(p: *mut u8, a: u64) {
        (*(p as *const A<T>)).store(M::new(T::trunc(a)), ORD[O]);
    }
    #[inline(never)]
    unsafe extern "C" fn cas1<T: AtomicCompareExchange + Val, const S: usize, const F: usize>(
        a: u64,
        b: u64,
        p: *mut u8,
        okp: *mut u8,
    ) -> u64 {
        let v = (*(p as *const A<T>)).compare_exchange(M::new(T::trunc(a)), M::new(T::trunc(b)), ORD[S], ORD[F]);
        *okp = v.is_ok() as u8;
        let (Ok(v) | Err(v)) = v;
        let mut r = 0u64;
        ((&raw mut r) as *mut M<T>).write(v);
        r
    }
    #[inline(never)]
    pub unsafe extern "C" fn store<T: AtomicStore + Val, const O: usize>(c: *mut Ctx) {
        store1::<T, O>((*c).ptr, (*c).ra)
    }
    #[inline(never)]
    pub unsafe extern "C" fn swap<T: AtomicSwap + Val, const O: usize>(c: *mut Ctx) {
        let r = swap1::<T, O>((*c).ptr, (*c).ra);
        put::<u64>(c, M::new(r))
    }
    #[inline(never)]
    pub unsafe extern "C" fn cas<T: AtomicCompareExchange + Val, const S: usize, const F: usize>(c: *mut Ctx) {
        let mut ok = 0;
        let r = cas1::<T, S, F>((*c).ra, (*c).rb, (*c).ptr, &mut ok);
        put::<u64>(c, M::new(r));
        (*c).ok = ok
    }
}

/// Ops as Rust (unwinding) functions, for the panic checks.
pub type DynFn = unsafe fn(*mut Ctx);
#[derive(Clone, Copy)]
pub struct DynOp {
    pub ty: &'static str,
    pub size: usize,
    pub kind: Kind,
    pub f: DynFn,
}
pub mod unw {
    use super::*;
    #[inline(never)]
    pub unsafe fn load<T: AtomicLoad>(c: *mut Ctx) {
        put(c, at::<T>(c).load(ORD[(*c).o1 as usize]))
    }
    #[inline(never)]
    pub unsafe fn store<T: AtomicStore>(c: *mut Ctx) {
        at::<T>(c).store(ga(c), ORD[(*c).o1 as usize])
    }
    #[inline(never)]
    pub unsafe fn swap<T: AtomicSwap>(c: *mut Ctx) {
        put(c, at::<T>(c).swap(ga(c), ORD[(*c).o1 as usize]))
    }
    #[inline(never)]
    pub unsafe fn cas<T: AtomicCompareExchange>(c: *mut Ctx) {
        putr(c, at::<T>(c).compare_exchange(ga(c), gb(c), ORD[(*c).o1 as usize], ORD[(*c).o2 as usize]))
    }
    #[inline(never)]
    pub unsafe fn casw<T: AtomicCompareExchange>(c: *mut Ctx) {
        putr(c, at::<T>(c).compare_exchange_weak(ga(c), gb(c), ORD[(*c).o1 as usize], ORD[(*c).o2 as usize]))
    }
    #[inline(never)]
    pub unsafe fn fu<T: AtomicCompareExchange + Val>(c: *mut Ctx) {
        putr(
            c,
            at::<T>(c)
                .fetch_update(ORD[(*c).o1 as usize], ORD[(*c).o2 as usize], |x| safe::fu_closure(c, x)),
        )
    }
}

macro_rules! two {
    ($v:ident, $api:literal, $kind:expr, $f:path, $t:ident; $($s:literal $fo:literal),*) => {
        $($v.push(Op { ty: stringify!($t), size: std::mem::size_of::<$t>(), kind: $kind, o1: $s, o2: $fo, api: $api, f: { use $f as ff; ff::<$t, $s, $fo> } });)*
    };
}
macro_rules! all15 {
    ($v:ident, $api:literal, $kind:expr, $f:path, $t:ident) => {
        two!($v, $api, $kind, $f, $t; 0 0, 0 1, 0 4, 1 0, 1 1, 1 4, 2 0, 2 1, 2 4, 3 0, 3 1, 3 4, 4 0, 4 1, 4 4)
    };
}
macro_rules! few {
    ($v:ident, $api:literal, $kind:expr, $f:path, $t:ident) => {
        two!($v, $api, $kind, $f, $t; 0 0, 1 1, 2 0, 3 1, 4 4)
    };
}
macro_rules! one {
    ($v:ident, $api:literal, $kind:expr, $f:path, $t:ident; $($o:literal),*) => {
        $($v.push(Op { ty: stringify!($t), size: std::mem::size_of::<$t>(), kind: $kind, o1: $o, o2: 0, api: $api, f: { use $f as ff; ff::<$t, $o> } });)*
    };
}
macro_rules! dynx {
    ($v:ident, $kind:expr, $f:ident, $t:ident) => {
        $v.push(DynOp { ty: stringify!($t), size: std::mem::size_of::<$t>(), kind: $kind, f: unw::$f::<$t> });
    };
}
macro_rules! table {
    ($v:ident, $d:ident, $t:ident, cas) => {
        table!($v, $d, $t, nocas);
        all15!($v, "safe", Kind::Cas, safe::cas, $t);
        all15!($v, "safe", Kind::CasWeak, safe::casw, $t);
        few!($v, "safe", Kind::Fu, safe::fu, $t);
        few!($v, "raw", Kind::Cas, raw::cas, $t);
        few!($v, "raw", Kind::CasWeak, raw::casw, $t);
        if std::mem::size_of::<$t>() <= 8 {
            few!($v, "reg", Kind::Cas, reg::cas, $t);
        }
        dynx!($d, Kind::Cas, cas, $t);
        dynx!($d, Kind::CasWeak, casw, $t);
        dynx!($d, Kind::Fu, fu, $t);
    };
    ($v:ident, $d:ident, $t:ident, nocas) => {
        one!($v, "safe", Kind::Load, safe::load, $t; 0, 1, 4);
        one!($v, "safe", Kind::Store, safe::store, $t; 0, 2, 4);
        one!($v, "safe", Kind::Swap, safe::swap, $t; 0, 1, 2, 3, 4);
        one!($v, "raw", Kind::Load, raw::load, $t; 0, 1, 4);
        one!($v, "raw", Kind::Store, raw::store, $t; 0, 2, 4);
        one!($v, "raw", Kind::Swap, raw::swap, $t; 0, 3, 4);
        if std::mem::size_of::<$t>() <= 8 {
            one!($v, "reg", Kind::Store, reg::store, $t; 0, 2, 4);
            one!($v, "reg", Kind::Swap, reg::swap, $t; 0, 3, 4);
        }
        dynx!($d, Kind::Load, load, $t);
        dynx!($d, Kind::Store, store, $t);
        dynx!($d, Kind::Swap, swap, $t);
    };
}

pub struct Table {
    pub ops: Vec<Op>,
    pub dyns: Vec<DynOp>,
}
pub fn table() -> Table {
    let mut v: Vec<Op> = Vec::new();
    let mut d: Vec<DynOp> = Vec::new();
    #[cfg(not(vf_nocas))]
    {
        table!(v, d, i8, cas);
        table!(v, d, u8, cas);
        table!(v, d, i16, cas);
        table!(v, d, u16, cas);
        table!(v, d, i32, cas);
        table!(v, d, u32, cas);
        table!(v, d, isize, cas);
        table!(v, d, usize, cas);
    }
    #[cfg(vf_nocas)]
    {
        table!(v, d, i8, nocas);
        table!(v, d, u8, nocas);
        table!(v, d, i16, nocas);
        table!(v, d, u16, nocas);
        table!(v, d, i32, nocas);
        table!(v, d, u32, nocas);
        table!(v, d, isize, nocas);
        table!(v, d, usize, nocas);
    }
    #[cfg(not(vf_no64))]
    {
        table!(v, d, i64, cas);
        table!(v, d, u64, cas);
    }
    #[cfg(vf_128)]
    {
        table!(v, d, i128, cas);
        table!(v, d, u128, cas);
    }
    Table { ops: v, dyns: d }
}

/// Sequential specification. Returns (out, ok, new memory); `ok` is 0xEE / out is None where the
/// operation has no such result.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Res {
    pub out: Option<u128>,
    pub ok: Option<bool>,
    pub mem: u128,
}
pub fn model(kind: Kind, size: usize, mem: u128, a: u128, b: u128) -> Res {
    let m = mask(size);
    let (mem, a, b) = (mem & m, a & m, b & m);
    match kind {
        Kind::Load => Res { out: Some(mem), ok: None, mem },
        Kind::Store => Res { out: None, ok: None, mem: a },
        Kind::Swap => Res { out: Some(mem), ok: None, mem: a },
        Kind::Cas | Kind::CasWeak => {
            if mem == a {
                Res { out: Some(mem), ok: Some(true), mem: b }
            } else {
                Res { out: Some(mem), ok: Some(false), mem }
            }
        }
        Kind::Fu => Res { out: Some(mem), ok: Some(true), mem: mem.wrapping_add(b) & m },
    }
}
/// What a call actually returned.
pub fn got(op: &Op, c: &Ctx) -> (Option<u128>, Option<bool>) {
    let out = u128::from_le_bytes(c.out) & op.mask();
    match op.kind {
        Kind::Store => (None, None),
        Kind::Load | Kind::Swap => (Some(out), None),
        _ => (Some(out), Some(c.ok == 1)),
    }
}
