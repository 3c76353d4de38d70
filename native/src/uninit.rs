//! Uninitialized bytes (C05). Two monitors:
//!  * typed programs: padded structures carried through every operation, in run-time and const
//!    contexts; fields must survive, and an exchange whose expected value is the returned raw
//!    value must succeed;
//!  * `vbits` (under valgrind memcheck, through client requests): definedness of every bit is
//!    tracked through the real machine code.
use crate::ops::*;
use crate::util::*;
use atomic_maybe_uninit::raw::{AtomicCompareExchange, AtomicSwap};
use atomic_maybe_uninit::AtomicMaybeUninit as A;
use std::mem::MaybeUninit as M;

/// A structure with padding that is carried in an atomic of the same size.
trait Padded: Copy + PartialEq + core::fmt::Debug + 'static {
    type Int: AtomicCompareExchange + AtomicSwap + Val;
    const NAME: &'static str;
    fn gen(r: &mut Rng) -> Self;
}
#[inline(always)]
fn pack<P: Padded>(p: P) -> M<P::Int> {
    const { assert!(size_of::<P>() == size_of::<P::Int>()) };
    unsafe { std::mem::transmute_copy::<M<P>, M<P::Int>>(&M::new(p)) }
}
#[inline(always)]
fn unpack<P: Padded>(v: M<P::Int>) -> P {
    unsafe { std::mem::transmute_copy::<M<P::Int>, P>(&v) }
}
macro_rules! padded {
    ($name:ident, $int:ident, $align:literal, $($f:ident: $t:ident),*) => {
        #[repr(C, align($align))]
        #[derive(Clone, Copy, PartialEq, Debug)]
        struct $name { $($f: $t),* }
        impl Padded for $name {
            type Int = $int;
            const NAME: &'static str = stringify!($name);
            fn gen(r: &mut Rng) -> Self { $name { $($f: r.next() as $t),* } }
        }
    };
}
// u16-sized: one byte used
#[repr(C, align(2))]
#[derive(Clone, Copy, PartialEq, Debug)]
struct B1(u8);
#[cfg(not(vf_nocas))]
mod small {
    use super::*;
    impl Padded for B1 {
        type Int = u16;
        const NAME: &'static str = "u8+pad1 in u16";
        fn gen(r: &mut Rng) -> Self {
            B1(r.next() as u8)
        }
    }
    padded!(P32a, u32, 4, a: u8, b: u16);
    padded!(P32b, u32, 4, a: u16);
    padded!(P32c, i32, 4, a: u16, b: u8);
    padded!(P32d, u32, 4, a: u8);
    padded!(Full32, i32, 4, a: u16, b: u16);
    pub fn all(r: &mut Rng, n: u64, c: &mut [u64; 3]) {
        run::<B1>(r, n, c);
        run::<P32a>(r, n, c);
        run::<P32b>(r, n, c);
        run::<P32c>(r, n, c);
        run::<P32d>(r, n, c);
        run::<Full32>(r, n, c);
    }
}
#[cfg(not(vf_no64))]
mod m64 {
    use super::*;
    padded!(P64a, u64, 8, a: u8, b: u32);
    padded!(P64b, i64, 8, a: u32);
    padded!(P64c, u64, 8, a: u32, b: u8);
    padded!(P64d, u64, 8, a: u8, b: u16, c: u8);
    padded!(P64e, i64, 8, a: u8);
    pub fn all(r: &mut Rng, n: u64, c: &mut [u64; 3]) {
        run::<P64a>(r, n, c);
        run::<P64b>(r, n, c);
        run::<P64c>(r, n, c);
        run::<P64d>(r, n, c);
        run::<P64e>(r, n, c);
    }
}
#[cfg(vf_128)]
mod m128 {
    use super::*;
    padded!(P128a, u128, 16, a: u64, b: u8);
    padded!(P128b, i128, 16, a: u8, b: u64);
    padded!(P128c, u128, 16, a: u64);
    padded!(P128d, u128, 16, a: u8, b: u32, c: u16);
    pub fn all(r: &mut Rng, n: u64, c: &mut [u64; 3]) {
        run::<P128a>(r, n, c);
        run::<P128b>(r, n, c);
        run::<P128c>(r, n, c);
        run::<P128d>(r, n, c);
    }
}
/// Fill the stack with noise so that padding is different every time.
#[inline(never)]
fn noise(x: u64) -> u64 {
    let mut a = [0u64; 64];
    for (i, v) in a.iter_mut().enumerate() {
        *v = x.wrapping_mul(i as u64 * 2 + 1) ^ 0xDEAD_BEEF_F00D_FACE;
    }
    std::hint::black_box(&a);
    a[(x % 64) as usize]
}
#[inline(never)]
fn step<P: Padded>(loc: &A<P::Int>, cur: P, new: P, how: usize, so: usize, fo: usize, sw: usize) -> Result<P, String> {
    let (s, f) = (ORD[so], ORD[fo]);
    let lo = f;
    let got: P = unpack(loc.load(lo));
    if got != cur {
        return Err(format!("load returned {got:?}, location holds {cur:?}"));
    }
    match how {
        0 => {
            loc.store(pack(new), ORD[[0, 2, 4][sw % 3]]);
            Ok(new)
        }
        1 => {
            let old: P = unpack(loc.swap(pack(new), ORD[sw]));
            if old != cur {
                return Err(format!("swap returned {old:?}, location held {cur:?}"));
            }
            Ok(new)
        }
        2 | 3 => {
            // expected value as returned by a load
            let raw = loc.load(lo);
            let r = if how == 2 {
                loc.compare_exchange(raw, pack(new), s, f)
            } else {
                let mut r = Err(raw);
                for _ in 0..64 {
                    r = loc.compare_exchange_weak(raw, pack(new), s, f);
                    if r.is_ok() {
                        break;
                    }
                }
                r
            };
            match r {
                Ok(p) if unpack::<P>(p) == cur => Ok(new),
                Ok(p) => Err(format!("compare_exchange returned Ok({:?}), location held {cur:?}", unpack::<P>(p))),
                Err(p) => Err(format!("compare_exchange of the value just loaded failed with {:?} (location {cur:?})", unpack::<P>(p))),
            }
        }
        4 => {
            // expected value as returned by a failed exchange
            let bad = new;
            let raw = match loc.compare_exchange(pack(bad), pack(new), s, f) {
                Ok(p) => {
                    if unpack::<P>(p) != bad || bad != cur {
                        return Err(format!("compare_exchange({bad:?}) succeeded on {cur:?}"));
                    }
                    return Ok(new);
                }
                Err(p) => p,
            };
            if unpack::<P>(raw) != cur {
                return Err(format!("failed compare_exchange returned {:?}, location holds {cur:?}", unpack::<P>(raw)));
            }
            match loc.compare_exchange(raw, pack(new), s, f) {
                Ok(_) => Ok(new),
                Err(p) => Err(format!("retry with the returned raw value failed with {:?} (location {cur:?})", unpack::<P>(p))),
            }
        }
        5 => {
            let mut n = 0;
            let r = loc.fetch_update(s, f, |x| {
                n += 1;
                if n > 64 || unpack::<P>(x) != cur {
                    return None;
                }
                Some(pack(new))
            });
            match r {
                Ok(p) if unpack::<P>(p) == cur => Ok(new),
                r => Err(format!("fetch_update gave {:?} after {n} closure calls (location {cur:?})", r.map(unpack::<P>).map_err(unpack::<P>))),
            }
        }
        _ => {
            // wholly uninitialized, then initialized again; nothing may be inferred from it
            loc.store(M::uninit(), ORD[[0, 2, 4][sw % 3]]);
            let raw = loc.load(lo);
            let r = loc.compare_exchange(raw, pack(new), s, f);
            if r.is_err() {
                return Err("compare_exchange with the loaded (uninitialized) value failed".into());
            }
            Ok(new)
        }
    }
}
fn run<P: Padded>(r: &mut Rng, n: u64, c: &mut [u64; 3]) {
    let mut cur = P::gen(r);
    let mut loc = A::<P::Int>::new(pack(cur));
    for i in 0..n {
        let new = P::gen(r);
        c[1] ^= noise(r.next());
        let how = r.below(7);
        let (so, fo, sw) = (r.below(5), [0, 1, 4][r.below(3)], r.below(5));
        c[0] += 1;
        match step::<P>(&loc, cur, new, how, so, fo, sw) {
            Ok(v) => cur = v,
            Err(m) => {
                violation("uninit-not-carried", &format!("{} ({}) operation {how} ({},{}): {m}", P::NAME, P::Int::TY, ORDN[so], ORDN[fo]));
                return;
            }
        }
        // the plain views agree
        match i % 5 {
            0 => {
                let v: P = unpack(*loc.get_mut());
                if v != cur {
                    violation("uninit-not-carried", &format!("{}: get_mut sees {v:?}, expected {cur:?}", P::NAME));
                }
            }
            1 => {
                let v: P = unpack(loc.into_inner());
                if v != cur {
                    violation("uninit-not-carried", &format!("{}: into_inner gives {v:?}, expected {cur:?}", P::NAME));
                }
                cur = P::gen(r);
                loc = A::new(pack(cur));
            }
            2 => {
                cur = P::gen(r);
                *loc.get_mut() = pack(cur);
            }
            _ => {}
        }
        c[2] += (how >= 2) as u64;
    }
}

pub fn uninit(e: &mut crate::seq::Env) {
    let mut c = [0u64; 3];
    let n = if e.debug { 4000 } else { 20000 } * e.scale;
    #[cfg(not(vf_nocas))]
    small::all(&mut e.rng, n, &mut c);
    #[cfg(not(vf_no64))]
    m64::all(&mut e.rng, n, &mut c);
    #[cfg(vf_128)]
    m128::all(&mut e.rng, n, &mut c);
    let _ = n;
    stat("padded_operations", c[0]);
    stat("padded_exchanges", c[2]);
}

// ---- valgrind ------------------------------------------------------------------------------
#[cfg(target_arch = "x86_64")]
unsafe fn vg(req: usize, a: usize, b: usize, c: usize) -> usize {
    let args = [req, a, b, c, 0, 0];
    let mut r: usize = 0;
    std::arch::asm!(
        "rol rdi, 3", "rol rdi, 13", "rol rdi, 61", "rol rdi, 51", "xchg rbx, rbx",
        inout("rdx") r, in("rax") args.as_ptr(), out("rdi") _,
    );
    let _ = &mut r;
    r
}
#[cfg(not(target_arch = "x86_64"))]
unsafe fn vg(_: usize, _: usize, _: usize, _: usize) -> usize {
    0
}
const RUNNING: usize = 0x1001;
const COUNT_ERRORS: usize = 0x1201;
const MC: usize = 0x4D43_0000;
const UNDEF: usize = MC + 1;
const DEFINED: usize = MC + 2;
const GET_VBITS: usize = MC + 8;
const SET_VBITS: usize = MC + 9;

unsafe fn set_v(p: *mut u8, v: &[u8]) {
    // set everything defined, then the bits
    vg(DEFINED, p as usize, v.len(), 0);
    vg(SET_VBITS, p as usize, v.as_ptr() as usize, v.len());
}
unsafe fn get_v(p: *const u8, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    vg(GET_VBITS, p as usize, v.as_mut_ptr() as usize, n);
    v
}
/// Run every operation with every byte-granular pattern of uninitialized bytes in the location and
/// the operands; the definedness of results must be exactly that of their source.
pub fn vbits(e: &mut crate::seq::Env) {
    if unsafe { vg(RUNNING, 0, 0, 0) } == 0 {
        stat("valgrind_running", 0);
        return;
    }
    stat("valgrind_running", 1);
    let mut n = 0u64;
    let mut masks = std::collections::HashSet::new();
    let mut undef_bytes = 0u64;
    let buf = Box::leak(Box::new([0u128; 16])).as_mut_ptr() as *mut u8;
    let _ = UNDEF;
    for op in e.tab.ops.clone().iter() {
        if op.kind == Kind::Fu || (op.api == "reg") {
            continue;
        }
        for _ in 0..6 * e.scale {
            let r = &mut e.rng;
            let s = op.size;
            let p = unsafe { buf.add(64 + s * r.below(4)) };
            let init = r.u128() & op.mask();
            let same = r.below(2) == 0;
            let r2 = r.below(2);
            let a = if same { init } else { r.u128() & op.mask() };
            let b = r.u128() & op.mask();
            let mut pat = |full: bool| -> Vec<u8> { (0..s).map(|_| if full || r.below(2) == 0 { 0xFF } else { 0 }).collect() };
            let vl = pat(false);
            let mut va = pat(false);
            let mut vl = vl;
            if matches!(op.kind, Kind::Cas | Kind::CasWeak) && r2 == 0 {
                vl.fill(0);
                va.fill(0);
            }
            let vb = pat(false);
            unsafe {
                std::ptr::write_bytes(buf, 0x5A, 256);
            }
            crate::seq::wr(p, s, init);
            let mut x = Ctx::new(p, a, b);
            let e0 = unsafe { vg(COUNT_ERRORS, 0, 0, 0) };
            unsafe {
                set_v(p, &vl);
                set_v((&raw mut x.a) as *mut u8, &va);
                set_v((&raw mut x.b) as *mut u8, &vb);
                (op.f)(&mut x);
            }
            let e1 = unsafe { vg(COUNT_ERRORS, 0, 0, 0) };
            let (vout, vmem, vok);
            unsafe {
                vout = get_v((&raw const x.out) as *const u8, s);
                vmem = get_v(p, s);
                vok = get_v(&raw const x.ok, 1);
                vg(DEFINED, buf as usize, 256, 0);
                vg(DEFINED, (&raw mut x) as usize, size_of::<Ctx>(), 0);
            }
            let _ = vok;
            let after = crate::seq::rd(p, s);
            let c = crate::seq::Case { init, a, b };
            let d = || format!("op={} init={init:#x}/undef{vl:02x?} a={a:#x}/undef{va:02x?} b={b:#x}/undef{vb:02x?}", op.name());
            n += 1;
            masks.insert((op.kind, s, vl.clone(), va.clone(), vb.clone()));
            undef_bytes += vl.iter().chain(&va).chain(&vb).filter(|&&v| v != 0).count() as u64;
            if let Err(m) = crate::seq::judge(op, &c, init, &x, after) {
                violation("wrong-result", &format!("{} {m}", d()));
            }
            let cas = matches!(op.kind, Kind::Cas | Kind::CasWeak);
            let swapped = x.ok == 1;
            let want_out: Option<&Vec<u8>> = match op.kind {
                Kind::Store => None,
                _ => Some(&vl),
            };
            // The returned value is as defined as the location was. (When undefined bytes take part
            // in the comparison of an exchange, memcheck taints the result with the outcome, which
            // the property allows; those runs only serve the other checks.)
            let cmp_undef = cas && vl.iter().chain(&va).any(|&v| v != 0);
            if let (Some(w), false) = (want_out, cmp_undef) {
                if (0..s).any(|i| w[i] == 0 && vout[i] != 0) {
                    violation("definedness", &format!("{}: returned value has undefined bits {vout:02x?}, the location had {vl:02x?}", d()));
                }
            }
            // the location afterwards
            let wm: &Vec<u8> = match op.kind {
                Kind::Load => &vl,
                Kind::Store | Kind::Swap => &va,
                _ if swapped => &vb,
                _ => &vl,
            };
            if !cmp_undef && (0..s).any(|i| wm[i] == 0 && vmem[i] != 0) {
                violation("definedness", &format!("{}: location has undefined bits {vmem:02x?}, expected {wm:02x?}", d()));
            }
            if !cmp_undef && e1 != e0 {
                violation("acts-on-uninitialized", &format!("{}: memcheck saw {} use(s) of uninitialized bits in control flow or addresses", d(), e1 - e0));
            }
        }
        if n < 12 {
            sample(&format!("{}: definedness of every bit tracked", op.name()));
        }
    }
    stat("vbit_runs", n);
    stat("distinct_definedness_patterns", masks.len() as u64);
    stat("undefined_bytes_tracked", undef_bytes);
}
