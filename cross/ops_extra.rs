// operations that exist although the crate's cfg macros do not tell: see xconf.py
#[cfg(vf_swap_8)]
sw!(i8, narrow, sw__i8__R Relaxed sw__i8__A Acquire sw__i8__L Release sw__i8__X AcqRel sw__i8__S SeqCst);
#[cfg(vf_swap_8)]
sw!(u8, narrow, sw__u8__R Relaxed sw__u8__A Acquire sw__u8__L Release sw__u8__X AcqRel sw__u8__S SeqCst);
#[cfg(vf_swap_16)]
sw!(i16, narrow, sw__i16__R Relaxed sw__i16__A Acquire sw__i16__L Release sw__i16__X AcqRel sw__i16__S SeqCst);
#[cfg(vf_swap_16)]
sw!(u16, narrow, sw__u16__R Relaxed sw__u16__A Acquire sw__u16__L Release sw__u16__X AcqRel sw__u16__S SeqCst);
#[cfg(vf_swap_32)]
sw!(i32, sel32, sw__i32__R Relaxed sw__i32__A Acquire sw__i32__L Release sw__i32__X AcqRel sw__i32__S SeqCst);
#[cfg(vf_swap_32)]
sw!(u32, sel32, sw__u32__R Relaxed sw__u32__A Acquire sw__u32__L Release sw__u32__X AcqRel sw__u32__S SeqCst);
#[cfg(vf_swap_32)]
sw!(isize, wide, sw__isize__R Relaxed sw__isize__A Acquire sw__isize__L Release sw__isize__X AcqRel sw__isize__S SeqCst);
#[cfg(vf_swap_32)]
sw!(usize, wide, sw__usize__R Relaxed sw__usize__A Acquire sw__usize__L Release sw__usize__X AcqRel sw__usize__S SeqCst);
#[cfg(vf_force_64)]
ld!(i64, ld__i64__R Relaxed ld__i64__A Acquire ld__i64__S SeqCst);
#[cfg(vf_force_64)]
st!(i64, wide, st__i64__R Relaxed st__i64__L Release st__i64__S SeqCst);
#[cfg(vf_force_64)]
ld!(u64, ld__u64__R Relaxed ld__u64__A Acquire ld__u64__S SeqCst);
#[cfg(vf_force_64)]
st!(u64, wide, st__u64__R Relaxed st__u64__L Release st__u64__S SeqCst);
#[cfg(vf_force_64)]
sw!(i64, wide, sw__i64__R Relaxed sw__i64__A Acquire sw__i64__L Release sw__i64__X AcqRel sw__i64__S SeqCst);
#[cfg(vf_force_64)]
cx!(i64, wide, compare_exchange, cx__i64__RR Relaxed Relaxed cx__i64__RA Relaxed Acquire cx__i64__RS Relaxed SeqCst cx__i64__AR Acquire Relaxed cx__i64__AA Acquire Acquire cx__i64__AS Acquire SeqCst cx__i64__LR Release Relaxed cx__i64__LA Release Acquire cx__i64__LS Release SeqCst cx__i64__XR AcqRel Relaxed cx__i64__XA AcqRel Acquire cx__i64__XS AcqRel SeqCst cx__i64__SR SeqCst Relaxed cx__i64__SA SeqCst Acquire cx__i64__SS SeqCst SeqCst);
#[cfg(vf_force_64)]
cx!(i64, wide, compare_exchange_weak, cw__i64__RR Relaxed Relaxed cw__i64__RA Relaxed Acquire cw__i64__RS Relaxed SeqCst cw__i64__AR Acquire Relaxed cw__i64__AA Acquire Acquire cw__i64__AS Acquire SeqCst cw__i64__LR Release Relaxed cw__i64__LA Release Acquire cw__i64__LS Release SeqCst cw__i64__XR AcqRel Relaxed cw__i64__XA AcqRel Acquire cw__i64__XS AcqRel SeqCst cw__i64__SR SeqCst Relaxed cw__i64__SA SeqCst Acquire cw__i64__SS SeqCst SeqCst);
#[cfg(vf_force_64)]
sw!(u64, wide, sw__u64__R Relaxed sw__u64__A Acquire sw__u64__L Release sw__u64__X AcqRel sw__u64__S SeqCst);
#[cfg(vf_force_64)]
cx!(u64, wide, compare_exchange, cx__u64__RR Relaxed Relaxed cx__u64__RA Relaxed Acquire cx__u64__RS Relaxed SeqCst cx__u64__AR Acquire Relaxed cx__u64__AA Acquire Acquire cx__u64__AS Acquire SeqCst cx__u64__LR Release Relaxed cx__u64__LA Release Acquire cx__u64__LS Release SeqCst cx__u64__XR AcqRel Relaxed cx__u64__XA AcqRel Acquire cx__u64__XS AcqRel SeqCst cx__u64__SR SeqCst Relaxed cx__u64__SA SeqCst Acquire cx__u64__SS SeqCst SeqCst);
#[cfg(vf_force_64)]
cx!(u64, wide, compare_exchange_weak, cw__u64__RR Relaxed Relaxed cw__u64__RA Relaxed Acquire cw__u64__RS Relaxed SeqCst cw__u64__AR Acquire Relaxed cw__u64__AA Acquire Acquire cw__u64__AS Acquire SeqCst cw__u64__LR Release Relaxed cw__u64__LA Release Acquire cw__u64__LS Release SeqCst cw__u64__XR AcqRel Relaxed cw__u64__XA AcqRel Acquire cw__u64__XS AcqRel SeqCst cw__u64__SR SeqCst Relaxed cw__u64__SA SeqCst Acquire cw__u64__SS SeqCst SeqCst);
