//! C09: every view of an atomic denotes the same bytes. The parts that need no machine-level
//! atomic run under Miri (both aliasing models) and in const evaluation, all of it runs natively.
#![allow(dead_code, clippy::all)]
use atomic_maybe_uninit::AtomicMaybeUninit as A;
use std::mem::{align_of, size_of, size_of_val, MaybeUninit as M};
#[cfg(not(miri))]
use std::sync::atomic::Ordering::*;

static mut NV: u32 = 0;
fn viol(what: &str, detail: String) {
    unsafe {
        NV += 1;
        if NV < 25 {
            println!("V {{\"what\":\"{}\",\"detail\":\"{}\"}}", what, detail.replace('\\', "\\\\").replace('"', "'").replace('\n', " "));
        }
    }
}
struct R(u64);
impl R {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn v128(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
}

// Auto traits, observed instead of required (inherent associated consts shadow the trait's).
trait No {
    const Y: bool = false;
}
macro_rules! probe {
    ($($name:ident: $($b:path),*;)*) => {$(
        struct $name<T>(T);
        impl<T $(: $b)*> $name<T> { const Y: bool = true; }
        impl<T> No for $name<T> {}
    )*};
}
probe! {
    PSend: Send;
    PSync: Sync;
    PUnpin: Unpin;
    PUnwind: std::panic::UnwindSafe;
    PRefUnwind: std::panic::RefUnwindSafe;
}

// Const evaluation: values are computed by the const interpreter, which stops the build at
// undefined behaviour, and compared at run time.
macro_rules! consts {
    ($($m:ident $t:ident $v:expr;)*) => {$(
        mod $m {
            use super::*;
            pub type T = $t;
            pub const V: T = $v;
            pub const fn bits(a: A<T>) -> T { unsafe { a.into_inner().assume_init() } }
            pub static S_NEW: A<T> = A::<T>::new(M::new(V));
            pub static S_CONST_NEW: A<T> = A::<T>::const_new(M::new(V));
            pub static S_UNINIT: A<T> = A::<T>::new(M::uninit());
            pub static S_ARR: [A<T>; 3] = [A::<T>::new(M::new(V)), A::<T>::const_new(M::new(!V)), A::<T>::new(M::new(V ^ 1))];
            pub const INTO: T = bits(A::<T>::new(M::new(V)));
            pub const INTO2: T = bits(A::<T>::const_new(M::new(V)));
            pub const GET_MUT: (T, T) = {
                let mut a = A::<T>::new(M::new(V));
                let old = unsafe { a.get_mut().assume_init() };
                *a.get_mut() = M::new(!V);
                (old, bits(a))
            };
            pub const AS_PTR: T = {
                let a = A::<T>::new(M::new(V));
                unsafe { a.as_ptr().read().assume_init() }
            };
            pub const FROM_PTR: (T, T) = {
                #[repr(align(16))]
                struct Al(M<T>, #[allow(dead_code)] u8);
                let mut m = Al(M::new(V), 0);
                let p = &raw mut m.0;
                unsafe {
                    let a = A::<T>::from_ptr(p);
                    let r = a.as_ptr().read().assume_init();
                    a.as_ptr().write(M::new(V ^ 3));
                    (r, m.0.assume_init())
                }
            };
            // partly uninitialized: one byte defined
            pub const PART: [Option<u8>; 2] = {
                let mut x = M::<T>::uninit();
                unsafe { (&raw mut x as *mut u8).add(size_of::<T>() - 1).write(0xC5) };
                let mut a = A::<T>::new(x);
                let b1 = unsafe { (a.get_mut() as *mut M<T> as *const u8).add(size_of::<T>() - 1).read() };
                let y = a.into_inner();
                let b2 = unsafe { (&raw const y as *const u8).add(size_of::<T>() - 1).read() };
                [Some(b1), Some(b2)]
            };
        }
    )*};
}
consts! {
    ci8 i8 -0x35; cu8 u8 0xA7; ci16 i16 -0x1234; cu16 u16 0xBEEF; ci32 i32 -0x1234567; cu32 u32 0xDEADBEEF;
    ci64 i64 -0x0123456789ABCDEF; cu64 u64 0xFEDCBA9876543210; cisize isize -0x1234567; cusize usize 0x9ABCDEF0;
    ci128 i128 -0x0123456789ABCDEF_0011223344556677; cu128 u128 0x8899AABBCCDDEEFF_0123456789ABCDEF;
}

macro_rules! same {
    ($t:ty, $what:expr, $a:expr, $b:expr, $n:ident) => {{
        $n += 1;
        let (a, b) = ($a, $b);
        if a != b {
            viol("views-disagree", format!("{}: {}: {:x?} expected {:x?}", stringify!($t), $what, a, b));
        }
    }};
}
fn bytes<T>(p: *const T) -> Vec<u8> {
    (0..size_of::<T>()).map(|i| unsafe { (p as *const u8).add(i).read() }).collect()
}
macro_rules! pure {
    ($m:ident, $t:ident, $r:ident, $n:ident) => {{
        use $m::*;
        type X = A<$t>;
        let sz = size_of::<$t>();
        // layout
        same!($t, "size", size_of::<X>(), sz, $n);
        same!($t, "alignment", align_of::<X>(), sz, $n);
        same!($t, "array stride", size_of::<[X; 3]>(), 3 * sz, $n);
        same!($t, "Send", PSend::<X>::Y, true, $n);
        same!($t, "Sync", PSync::<X>::Y, true, $n);
        same!($t, "&atomic Send", PSend::<&X>::Y, true, $n);
        same!($t, "Unpin", PUnpin::<X>::Y, true, $n);
        same!($t, "UnwindSafe", PUnwind::<X>::Y, true, $n);
        same!($t, "RefUnwindSafe", PRefUnwind::<X>::Y, true, $n);
        same!($t, "interior mutability: static is writable memory", size_of_val(&S_NEW), sz, $n);
        // const evaluation
        same!($t, "const into_inner(new)", INTO, V, $n);
        same!($t, "const into_inner(const_new)", INTO2, V, $n);
        same!($t, "const get_mut", GET_MUT, (V, !V), $n);
        same!($t, "const as_ptr", AS_PTR, V, $n);
        same!($t, "const from_ptr", FROM_PTR, (V, V ^ 3), $n);
        same!($t, "const partly uninitialized", PART, [Some(0xC5), Some(0xC5)], $n);
        same!($t, "static new", unsafe { S_NEW.as_ptr().read().assume_init() }, V, $n);
        same!($t, "static const_new", unsafe { S_CONST_NEW.as_ptr().read().assume_init() }, V, $n);
        same!($t, "static array", unsafe { [S_ARR[0].as_ptr().read().assume_init(), S_ARR[1].as_ptr().read().assume_init(), S_ARR[2].as_ptr().read().assume_init()] }, [V, !V, V ^ 1], $n);
        same!($t, "static address alignment", (&raw const S_UNINIT) as usize % sz, 0, $n);
        for _ in 0..6 {
            let v = $r.v128() as $t;
            let w = $r.v128() as $t;
            // constructors
            for (name, a) in [("new", X::new(M::new(v))), ("const_new", X::const_new(M::new(v))), ("From<MaybeUninit>", X::from(M::new(v))), ("From<T>", X::from(v))] {
                same!($t, format!("bytes of {name}"), bytes(a.as_ptr()), v.to_ne_bytes().to_vec(), $n);
                same!($t, "as_ptr is the address of the atomic", a.as_ptr() as usize, &raw const a as usize, $n);
                let mut a = a;
                let addr = &raw const a as usize;
                same!($t, "get_mut is the address of the atomic", a.get_mut() as *mut M<$t> as usize, addr, $n);
                same!($t, format!("get_mut after {name}"), unsafe { a.get_mut().assume_init() }, v, $n);
                a.get_mut().write(w);
                same!($t, "as_ptr read after get_mut write", unsafe { a.as_ptr().read().assume_init() }, w, $n);
                unsafe { a.as_ptr().write(M::new(v)) };
                same!($t, "get_mut after as_ptr write", unsafe { a.get_mut().assume_init() }, v, $n);
                // interleaved use of the views, as an aliasing-model workload
                let p = a.as_ptr();
                let sh: &X = unsafe { X::from_ptr(p) };
                same!($t, "from_ptr address", sh as *const X as usize, p as usize, $n);
                unsafe { sh.as_ptr().write(M::new(w)) };
                same!($t, "read through original pointer", unsafe { p.read().assume_init() }, w, $n);
                let sh2 = unsafe { X::from_ptr(sh.as_ptr()) };
                unsafe { sh2.as_ptr().write(M::new(v)) };
                same!($t, "two shared views", unsafe { sh.as_ptr().read().assume_init() }, v, $n);
                same!($t, "into_inner", unsafe { a.into_inner().assume_init() }, v, $n);
            }
            // from_ptr on plain memory, element of a buffer
            let mut buf: Vec<M<$t>> = vec![M::new(v); 5];
            let mut boxed: Box<[X; 4]> = Box::new([X::new(M::new(v)), X::from(w), X::new(M::uninit()), X::from(!v)]);
            if buf.as_ptr() as usize % sz == 0 {
                let q = unsafe { buf.as_mut_ptr().add(2) };
                let a = unsafe { X::from_ptr(q) };
                unsafe { a.as_ptr().write(M::new(w)) };
                same!($t, "from_ptr element", unsafe { [buf[1].assume_init(), buf[2].assume_init(), buf[3].assume_init()] }, [v, w, v], $n);
            }
            boxed[2].get_mut().write(w);
            same!($t, "boxed array", unsafe { [boxed[0].as_ptr().read().assume_init(), boxed[2].as_ptr().read().assume_init(), boxed[3].as_ptr().read().assume_init()] }, [v, w, !v], $n);
            // wholly and partly uninitialized values
            let mut u = X::new(M::uninit());
            let _ = format!("{:?} {:#?}", u, u);
            let k = ($r.next() as usize) % sz;
            unsafe { (u.get_mut() as *mut M<$t> as *mut u8).add(k).write(0x3C) };
            same!($t, "initialized byte", unsafe { (u.as_ptr() as *const u8).add(k).read() }, 0x3C, $n);
            let moved = u;
            let inner = moved.into_inner();
            same!($t, "initialized byte through into_inner", unsafe { (&raw const inner as *const u8).add(k).read() }, 0x3C, $n);
            let again = X::from(inner);
            same!($t, "initialized byte through From", unsafe { (again.as_ptr() as *const u8).add(k).read() }, 0x3C, $n);
            let mut c = X::const_new(again.into_inner());
            same!($t, "initialized byte through const_new", unsafe { (c.get_mut() as *mut M<$t> as *const u8).add(k).read() }, 0x3C, $n);
            // shared references used from several threads (plain reads of an unchanging value)
            let s = X::from(v);
            std::thread::scope(|sc| {
                let s = &s;
                let hs: Vec<_> = (0..2).map(|_| sc.spawn(move || unsafe { s.as_ptr().read().assume_init() })).collect();
                for h in hs {
                    same!($t, "shared read", h.join().unwrap(), v, $n);
                }
            });
        }
        let d = format!("{:?}", X::new(M::uninit()));
        if d.is_empty() {
            viol("views-disagree", format!("{}: empty Debug output", stringify!($t)));
        }
    }};
}
#[cfg(not(miri))]
macro_rules! ops {
    ($m:ident, $t:ident, $r:ident, $n:ident, $cas:tt) => {{
        use $m::*;
        type X = A<$t>;
        same!($t, "load of static new", unsafe { S_NEW.load(SeqCst).assume_init() }, V, $n);
        same!($t, "load of static const_new", unsafe { S_CONST_NEW.load(Acquire).assume_init() }, V, $n);
        for (i, w) in [V, !V, V ^ 1].iter().enumerate() {
            same!($t, "load of static array", unsafe { S_ARR[i].load(Relaxed).assume_init() }, *w, $n);
        }
        for _ in 0..2000 {
            let v = $r.v128() as $t;
            let w = $r.v128() as $t;
            let z = $r.v128() as $t;
            S_UNINIT.store(M::new(v), Release);
            same!($t, "static: store then as_ptr", unsafe { S_UNINIT.as_ptr().read_volatile().assume_init() }, v, $n);
            same!($t, "static: swap", unsafe { S_UNINIT.swap(M::new(w), AcqRel).assume_init() }, v, $n);
            unsafe { S_UNINIT.as_ptr().write_volatile(M::new(z)) };
            same!($t, "static: as_ptr write then load", unsafe { S_UNINIT.load(Relaxed).assume_init() }, z, $n);
            // local: plain views and atomic operations interleaved; optimizer must respect them
            let mut a = match $r.next() % 4 { 0 => X::new(M::new(v)), 1 => X::const_new(M::new(v)), 2 => X::from(M::new(v)), _ => X::from(v) };
            same!($t, "load after constructor", unsafe { a.load(Relaxed).assume_init() }, v, $n);
            a.store(M::new(w), Relaxed);
            same!($t, "get_mut after store", unsafe { a.get_mut().assume_init() }, w, $n);
            *a.get_mut() = M::new(z);
            same!($t, "load after get_mut write", unsafe { a.load(Relaxed).assume_init() }, z, $n);
            same!($t, "swap after get_mut write", unsafe { a.swap(M::new(v), Relaxed).assume_init() }, z, $n);
            same!($t, "as_ptr after swap", unsafe { a.as_ptr().read().assume_init() }, v, $n);
            unsafe { a.as_ptr().write(M::new(w)) };
            ops!(@$cas a, $t, v, w, z, $n);
            unsafe { a.as_ptr().write(M::new(w)) };
            same!($t, "load after as_ptr write", unsafe { a.load(SeqCst).assume_init() }, w, $n);
            a.store(M::new(z), SeqCst);
            same!($t, "into_inner after store", unsafe { a.into_inner().assume_init() }, z, $n);
            // from_ptr over plain memory
            #[repr(C, align(16))]
            struct Mem { before: $t, x: M<$t>, after: $t }
            let mut m = std::mem::MaybeUninit::<[Mem; 1]>::new([Mem { before: v, x: M::new(w), after: z }]);
            let pm = m.as_mut_ptr() as *mut Mem;
            let q = unsafe { &raw mut (*pm).x };
            let b = unsafe { X::from_ptr(q) };
            same!($t, "load through from_ptr", unsafe { b.load(Relaxed).assume_init() }, w, $n);
            b.store(M::new(v), Relaxed);
            same!($t, "plain read after store through from_ptr", unsafe { q.read().assume_init() }, v, $n);
            unsafe { q.write(M::new(z)) };
            same!($t, "swap through from_ptr after plain write", unsafe { b.swap(M::new(w), SeqCst).assume_init() }, z, $n);
            same!($t, "surroundings", unsafe { ((*pm).before, (*pm).after) }, (v, z), $n);
            // values that escape only through the atomic
            let mut local = v;
            let pa = A::<usize>::from(&raw mut local as usize);
            let p2 = unsafe { pa.load(Acquire).assume_init() } as *mut $t;
            unsafe { p2.write_volatile(w) };
            same!($t, "escaped local", unsafe { (&raw const local).read_volatile() }, w, $n);
        }
    }};
    (@cas $a:ident, $t:ident, $v:ident, $w:ident, $z:ident, $n:ident) => {
        match $a.compare_exchange(M::new($w), M::new($z), AcqRel, Acquire) {
            Ok(p) => same!($t, "compare_exchange after as_ptr write", unsafe { p.assume_init() }, $w, $n),
            Err(_) => viol("views-disagree", format!("{}: compare_exchange did not see the value written through as_ptr", stringify!($t))),
        }
        same!($t, "get_mut after compare_exchange", unsafe { $a.get_mut().assume_init() }, $z, $n);
        match $a.compare_exchange(M::new(!$z), M::new($v), AcqRel, Acquire) {
            Err(p) => same!($t, "failed compare_exchange returns the get_mut view", unsafe { p.assume_init() }, $z, $n),
            Ok(_) => viol("views-disagree", format!("{}: compare_exchange succeeded on a different value", stringify!($t))),
        }
    };
    (@nocas $a:ident, $t:ident, $v:ident, $w:ident, $z:ident, $n:ident) => {};
}

/// Debug formatting must not read the location: format atomics that live on an inaccessible page.
#[cfg(all(not(miri), target_os = "linux"))]
fn debug_reads_nothing(n: &mut u64) {
    use std::ffi::c_void;
    extern "C" {
        fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut c_void;
        fn fork() -> i32;
        fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
        fn _exit(c: i32) -> !;
        fn signal(s: i32, h: usize) -> usize;
    }
    unsafe {
        let p = mmap(std::ptr::null_mut(), 4096, 0, 0x22, -1, 0) as *mut u8;
        macro_rules! one {
            ($($t:ident)*) => {$({
                let a = &*(p.add(64) as *const A<$t>);
                let pid = fork();
                if pid == 0 {
                    signal(11, 0);
                    let s = format!("{:?}{:#?}", a, a);
                    _exit(if s.is_empty() { 3 } else { 0 })
                }
                let mut st = 0;
                waitpid(pid, &mut st, 0);
                *n += 1;
                if st & 0x7f == 11 || st & 0x7f == 7 {
                    viol("debug-reads-memory", format!("formatting AtomicMaybeUninit<{}> read the location (signal {})", stringify!($t), st & 0x7f));
                }
            })*};
        }
        one!(i8 u8 i16 u16 i32 u32 i64 u64 isize usize i128 u128);
    }
}

fn main() {
    let seed: u64 = std::env::args().nth(1).map(|s| s.parse().unwrap()).unwrap_or(1);
    let mut r = R(seed ^ 0x1234_5678);
    let r = &mut r;
    let mut n = 0u64;
    pure!(ci8, i8, r, n);
    pure!(cu8, u8, r, n);
    pure!(ci16, i16, r, n);
    pure!(cu16, u16, r, n);
    pure!(ci32, i32, r, n);
    pure!(cu32, u32, r, n);
    pure!(ci64, i64, r, n);
    pure!(cu64, u64, r, n);
    pure!(cisize, isize, r, n);
    pure!(cusize, usize, r, n);
    pure!(ci128, i128, r, n);
    pure!(cu128, u128, r, n);
    println!("S pure_view_comparisons {n}");
    #[cfg(not(miri))]
    {
        let mut k = 0u64;
        #[cfg(not(vf_nocas))]
        {
            ops!(ci8, i8, r, k, cas);
            ops!(cu8, u8, r, k, cas);
            ops!(ci16, i16, r, k, cas);
            ops!(cu16, u16, r, k, cas);
            ops!(ci32, i32, r, k, cas);
            ops!(cu32, u32, r, k, cas);
            ops!(cisize, isize, r, k, cas);
            ops!(cusize, usize, r, k, cas);
        }
        #[cfg(vf_nocas)]
        {
            ops!(ci8, i8, r, k, nocas);
            ops!(cu8, u8, r, k, nocas);
            ops!(ci16, i16, r, k, nocas);
            ops!(cu16, u16, r, k, nocas);
            ops!(ci32, i32, r, k, nocas);
            ops!(cu32, u32, r, k, nocas);
            ops!(cisize, isize, r, k, nocas);
            ops!(cusize, usize, r, k, nocas);
        }
        #[cfg(not(vf_no64))]
        {
            ops!(ci64, i64, r, k, cas);
            ops!(cu64, u64, r, k, cas);
        }
        #[cfg(vf_128)]
        {
            ops!(ci128, i128, r, k, cas);
            ops!(cu128, u128, r, k, cas);
        }
        println!("S operation_view_comparisons {k}");
        let mut d = 0;
        #[cfg(target_os = "linux")]
        debug_reads_nothing(&mut d);
        println!("S debug_formats_on_inaccessible_memory {d}");
    }
    println!("X \"{} comparisons over 12 types, 4 constructors, 6 views, const and run time\"", n);
    println!("S violations {}", unsafe { NV });
    println!("DONE");
}
