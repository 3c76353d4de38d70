//! One function per operation x type x ordering for the emulated targets. All values pass through
//! memory so that every target has the same simple interface: dst, operands, result -> flag.
//! Operands narrower than a register arrive in a full word whose upper bits are garbage.
#![no_std]
#![allow(non_snake_case, unused_unsafe)]
use atomic_maybe_uninit::{cfg_has_atomic_128, cfg_has_atomic_16, cfg_has_atomic_32, cfg_has_atomic_64, cfg_has_atomic_8, cfg_has_atomic_cas, AtomicMaybeUninit as A};
use core::mem::MaybeUninit as M;
use core::sync::atomic::Ordering::*;

macro_rules! narrow {
    ($t:ident, $inp:ident, $i:expr) => {
        M::new(*($inp as *const usize).add($i) as $t)
    };
}
macro_rules! wide {
    ($t:ident, $inp:ident, $i:expr) => {
        *($inp as *const M<$t>).add($i)
    };
}
macro_rules! f {
    ($name:ident, $t:ident, |$a:ident, $inp:ident, $out:ident| $body:expr) => {
        #[no_mangle]
        #[inline(never)]
        pub unsafe extern "C" fn $name(dst: *mut $t, $inp: *const u8, $out: *mut M<$t>) -> usize {
            let $a = A::<$t>::from_ptr(dst as *mut M<$t>);
            #[allow(unused_variables)]
            let $inp = $inp;
            #[allow(unused_variables)]
            let $out = $out;
            $body
        }
    };
}
macro_rules! ld {
    ($t:ident, $($n:ident $o:ident)*) => { $( f!($n, $t, |a, i, o| { *o = a.load($o); 1 }); )* };
}
macro_rules! st {
    ($t:ident, $g:ident, $($n:ident $o:ident)*) => { $( f!($n, $t, |a, i, o| { a.store($g!($t, i, 0), $o); 1 }); )* };
}
macro_rules! sw {
    ($t:ident, $g:ident, $($n:ident $o:ident)*) => { $( f!($n, $t, |a, i, o| { *o = a.swap($g!($t, i, 0), $o); 1 }); )* };
}
macro_rules! cx {
    ($t:ident, $g:ident, $m:ident, $($n:ident $s:ident $f:ident)*) => { $( f!($n, $t, |a, i, o| {
        match a.$m($g!($t, i, 0), $g!($t, i, 1), $s, $f) {
            Ok(v) => { *o = v; 1 }
            Err(v) => { *o = v; 0 }
        }
    }); )* };
}
#[cfg(any(target_pointer_width = "64", target_arch = "x"))]
macro_rules! sel32 {
    ($t:ident, $inp:ident, $i:expr) => {
        narrow!($t, $inp, $i)
    };
}
#[cfg(not(target_pointer_width = "64"))]
macro_rules! sel32 {
    ($t:ident, $inp:ident, $i:expr) => {
        wide!($t, $inp, $i)
    };
}
include!("ops_gen.rs");
include!("ops_extra.rs");
include!("ops_fu.rs");
include!("ops_std.rs");

#[cfg(not(any(target_arch = "wasm32")))]
#[panic_handler]
fn panic(_: &core::panic::PanicInfo<'_>) -> ! {
    loop {}
}
