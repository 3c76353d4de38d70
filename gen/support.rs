// Support for generated programs: the same program text runs on the crate's atomics (Real) and on
// an ideal atomic (Ideal: plain memory, one thread), and must compute the same thing.
#![allow(dead_code, unused_mut, unused_variables, unused_assignments, unused_parens, clippy::all)]
use atomic_maybe_uninit::raw::*;
use atomic_maybe_uninit::AtomicMaybeUninit as A;
use std::cell::UnsafeCell;
use std::mem::MaybeUninit as M;
use std::sync::atomic::Ordering::{self, *};

pub static mut OPS: u64 = 0;
pub static mut VIEWS: u64 = 0;
pub trait Prim: Copy + Eq + AtomicLoad + AtomicStore + AtomicSwap AND_CAS {}
pub trait Atom<T: Prim> {
    // the other views of the same bytes: ordinary accesses the compiler may move as far as it is allowed to
    fn new(v: T) -> Self;
    fn fin(self) -> T;
    unsafe fn at<'a>(p: *mut u8) -> &'a Self;
    fn pw(&self, v: T);
    fn pr(&self) -> T;
    fn gm(&mut self, v: T) -> T;
    fn ld(&self, o: Ordering) -> T;
    fn st(&self, v: T, o: Ordering);
    fn sw(&self, v: T, o: Ordering) -> T;
    CAS_DECL
}
pub trait Fam {
    type At<T: Prim>: Atom<T>;
}
#[repr(transparent)]
pub struct RealAt<T: Prim>(A<T>);
#[repr(transparent)]
pub struct IdealAt<T: Prim>(UnsafeCell<T>);
pub struct Real;
pub struct Ideal;
impl Fam for Real {
    type At<T: Prim> = RealAt<T>;
}
impl Fam for Ideal {
    type At<T: Prim> = IdealAt<T>;
}
impl<T: Prim> Atom<T> for RealAt<T> {
    #[inline(always)]
    fn new(v: T) -> Self {
        RealAt(A::new(M::new(v)))
    }
    #[inline(always)]
    fn fin(self) -> T {
        unsafe { self.0.into_inner().assume_init() }
    }
    #[inline(always)]
    unsafe fn at<'a>(p: *mut u8) -> &'a Self {
        unsafe { &*(A::<T>::from_ptr(p.cast::<M<T>>()) as *const A<T> as *const Self) }
    }
    #[inline(always)]
    fn pw(&self, v: T) {
        unsafe { *self.0.as_ptr() = M::new(v) }
    }
    #[inline(always)]
    fn pr(&self) -> T {
        unsafe { (*self.0.as_ptr()).assume_init() }
    }
    #[inline(always)]
    fn gm(&mut self, v: T) -> T {
        let r = self.0.get_mut();
        let old = unsafe { r.assume_init() };
        *r = M::new(v);
        old
    }
    #[inline(always)]
    fn ld(&self, o: Ordering) -> T {
        unsafe { self.0.load(o).assume_init() }
    }
    #[inline(always)]
    fn st(&self, v: T, o: Ordering) {
        self.0.store(M::new(v), o)
    }
    #[inline(always)]
    fn sw(&self, v: T, o: Ordering) -> T {
        unsafe { self.0.swap(M::new(v), o).assume_init() }
    }
    CAS_REAL
}
impl<T: Prim> Atom<T> for IdealAt<T> {
    #[inline(always)]
    fn new(v: T) -> Self {
        IdealAt(UnsafeCell::new(v))
    }
    #[inline(always)]
    fn fin(self) -> T {
        unsafe {
            VIEWS += 1;
            self.0.get().read_volatile()
        }
    }
    #[inline(always)]
    unsafe fn at<'a>(p: *mut u8) -> &'a Self {
        unsafe { &*(p as *const Self) }
    }
    #[inline(always)]
    fn pw(&self, v: T) {
        unsafe {
            VIEWS += 1;
            self.0.get().write_volatile(v)
        }
    }
    #[inline(always)]
    fn pr(&self) -> T {
        unsafe {
            VIEWS += 1;
            self.0.get().read_volatile()
        }
    }
    #[inline(always)]
    fn gm(&mut self, v: T) -> T {
        unsafe {
            VIEWS += 1;
            let r = self.0.get().read_volatile();
            self.0.get().write_volatile(v);
            r
        }
    }
    #[inline(always)]
    fn ld(&self, _: Ordering) -> T {
        unsafe {
            OPS += 1;
            self.0.get().read_volatile()
        }
    }
    #[inline(always)]
    fn st(&self, v: T, _: Ordering) {
        unsafe {
            OPS += 1;
            self.0.get().write_volatile(v)
        }
    }
    #[inline(always)]
    fn sw(&self, v: T, _: Ordering) -> T {
        unsafe {
            OPS += 1;
            let r = self.0.get().read_volatile();
            self.0.get().write_volatile(v);
            r
        }
    }
    CAS_IDEAL
}
#[inline(always)]
unsafe fn vw(p: *mut u64, i: usize, v: u64) {
    p.add(i).write_volatile(v)
}
#[inline(always)]
unsafe fn vr(p: *mut u64, i: usize) -> u64 {
    p.add(i).read_volatile()
}
fn rnd(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
fn input(s: &mut u64) -> u64 {
    let x = rnd(s);
    match x % 7 {
        0 => x >> 40 & 7,
        1 => u64::MAX - (x >> 40 & 7),
        2 => 1 << (x >> 40 & 63),
        3 => 0,
        4 => (x >> 8 & 0xff) * 0x0101_0101_0101_0101,
        _ => x,
    }
}
#[repr(C, align(64))]
struct Buf([u64; 32]);
type Case = (&'static str, usize, usize, u32, u32);

fn main() {
    let mut seed: u64 = std::env::args().nth(2).and_then(|a| a.parse().ok()).unwrap_or(1);
    let reps: usize = std::env::args().nth(3).and_then(|a| a.parse::<usize>().ok()).unwrap_or(1) * 40;
    let mut bad = 0;
    let mut runs = 0u64;
    let mut digests = std::collections::HashSet::new();
    let mut stat_ops = 0u32;
    let cases = cases();
    for (n, (name, real, ideal, ops, bytes)) in cases.iter().enumerate() {
        for k in 0..reps {
            let mut inp = [0u64; 16];
            for x in inp.iter_mut() {
                *x = input(&mut seed)
            }
            let mut r = Buf([0; 32]);
            for x in r.0.iter_mut() {
                *x = input(&mut seed)
            }
            if k % 5 == 0 {
                r.0 = [0; 32];
            }
            let mut i = Buf(r.0);
            let start = r.0;
            let f: unsafe extern "C" fn(*mut u64, *const [u64; 16]) -> u64 = unsafe { std::mem::transmute(*real) };
            let g: unsafe extern "C" fn(*mut u64, *const [u64; 16]) -> u64 = unsafe { std::mem::transmute(*ideal) };
            let (a, b) = unsafe { (f(r.0.as_mut_ptr(), &inp), g(i.0.as_mut_ptr(), &inp)) };
            runs += 1;
            digests.insert(a);
            if (a != b || r.0 != i.0) && bad < 20 {
                bad += 1;
                println!("V {{\"what\":\"differs\",\"detail\":\"program {} run {}: result {:#x}, with an ideal atomic {:#x}; memory {} (inputs {:x?}, memory before {:x?})\"}}", name, k, a, b, if r.0 == i.0 { "same".to_string() } else { format!("differs in words {:?}", (0..32).filter(|&j| r.0[j] != i.0[j]).map(|j| (j, format!("{:x} for {:x}", r.0[j], i.0[j]))).collect::<Vec<_>>()) }, inp, start);
            }
        }
        stat_ops += ops;
        if n % 37 == 0 {
            println!("X \"program {}: {} operations in the text, {} bytes of stack data\"", name, ops, bytes);
        }
    }
    println!("S generated_programs {}", cases.len());
    println!("S generated_program_runs {}", runs);
    println!("S operations_in_program_text {}", stat_ops);
    println!("S generated_operations {}", unsafe { OPS });
    println!("S ordinary_accesses_to_atomics {}", unsafe { VIEWS });
    println!("S distinct_program_results {}", digests.len());
    println!("DONE");
}
