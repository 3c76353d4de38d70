// generated table: see ops.rs
cfg_has_atomic_8! {
    ld!(i8, ld__i8__R Relaxed ld__i8__A Acquire ld__i8__S SeqCst);
    st!(i8, narrow, st__i8__R Relaxed st__i8__L Release st__i8__S SeqCst);
    ld!(u8, ld__u8__R Relaxed ld__u8__A Acquire ld__u8__S SeqCst);
    st!(u8, narrow, st__u8__R Relaxed st__u8__L Release st__u8__S SeqCst);
    cfg_has_atomic_cas! {
        sw!(i8, narrow, sw__i8__R Relaxed sw__i8__A Acquire sw__i8__L Release sw__i8__X AcqRel sw__i8__S SeqCst);
        cx!(i8, narrow, compare_exchange, cx__i8__RR Relaxed Relaxed cx__i8__RA Relaxed Acquire cx__i8__RS Relaxed SeqCst cx__i8__AR Acquire Relaxed cx__i8__AA Acquire Acquire cx__i8__AS Acquire SeqCst cx__i8__LR Release Relaxed cx__i8__LA Release Acquire cx__i8__LS Release SeqCst cx__i8__XR AcqRel Relaxed cx__i8__XA AcqRel Acquire cx__i8__XS AcqRel SeqCst cx__i8__SR SeqCst Relaxed cx__i8__SA SeqCst Acquire cx__i8__SS SeqCst SeqCst);
        cx!(i8, narrow, compare_exchange_weak, cw__i8__RR Relaxed Relaxed cw__i8__RA Relaxed Acquire cw__i8__RS Relaxed SeqCst cw__i8__AR Acquire Relaxed cw__i8__AA Acquire Acquire cw__i8__AS Acquire SeqCst cw__i8__LR Release Relaxed cw__i8__LA Release Acquire cw__i8__LS Release SeqCst cw__i8__XR AcqRel Relaxed cw__i8__XA AcqRel Acquire cw__i8__XS AcqRel SeqCst cw__i8__SR SeqCst Relaxed cw__i8__SA SeqCst Acquire cw__i8__SS SeqCst SeqCst);
        sw!(u8, narrow, sw__u8__R Relaxed sw__u8__A Acquire sw__u8__L Release sw__u8__X AcqRel sw__u8__S SeqCst);
        cx!(u8, narrow, compare_exchange, cx__u8__RR Relaxed Relaxed cx__u8__RA Relaxed Acquire cx__u8__RS Relaxed SeqCst cx__u8__AR Acquire Relaxed cx__u8__AA Acquire Acquire cx__u8__AS Acquire SeqCst cx__u8__LR Release Relaxed cx__u8__LA Release Acquire cx__u8__LS Release SeqCst cx__u8__XR AcqRel Relaxed cx__u8__XA AcqRel Acquire cx__u8__XS AcqRel SeqCst cx__u8__SR SeqCst Relaxed cx__u8__SA SeqCst Acquire cx__u8__SS SeqCst SeqCst);
        cx!(u8, narrow, compare_exchange_weak, cw__u8__RR Relaxed Relaxed cw__u8__RA Relaxed Acquire cw__u8__RS Relaxed SeqCst cw__u8__AR Acquire Relaxed cw__u8__AA Acquire Acquire cw__u8__AS Acquire SeqCst cw__u8__LR Release Relaxed cw__u8__LA Release Acquire cw__u8__LS Release SeqCst cw__u8__XR AcqRel Relaxed cw__u8__XA AcqRel Acquire cw__u8__XS AcqRel SeqCst cw__u8__SR SeqCst Relaxed cw__u8__SA SeqCst Acquire cw__u8__SS SeqCst SeqCst);
    }
}
cfg_has_atomic_16! {
    ld!(i16, ld__i16__R Relaxed ld__i16__A Acquire ld__i16__S SeqCst);
    st!(i16, narrow, st__i16__R Relaxed st__i16__L Release st__i16__S SeqCst);
    ld!(u16, ld__u16__R Relaxed ld__u16__A Acquire ld__u16__S SeqCst);
    st!(u16, narrow, st__u16__R Relaxed st__u16__L Release st__u16__S SeqCst);
    cfg_has_atomic_cas! {
        sw!(i16, narrow, sw__i16__R Relaxed sw__i16__A Acquire sw__i16__L Release sw__i16__X AcqRel sw__i16__S SeqCst);
        cx!(i16, narrow, compare_exchange, cx__i16__RR Relaxed Relaxed cx__i16__RA Relaxed Acquire cx__i16__RS Relaxed SeqCst cx__i16__AR Acquire Relaxed cx__i16__AA Acquire Acquire cx__i16__AS Acquire SeqCst cx__i16__LR Release Relaxed cx__i16__LA Release Acquire cx__i16__LS Release SeqCst cx__i16__XR AcqRel Relaxed cx__i16__XA AcqRel Acquire cx__i16__XS AcqRel SeqCst cx__i16__SR SeqCst Relaxed cx__i16__SA SeqCst Acquire cx__i16__SS SeqCst SeqCst);
        cx!(i16, narrow, compare_exchange_weak, cw__i16__RR Relaxed Relaxed cw__i16__RA Relaxed Acquire cw__i16__RS Relaxed SeqCst cw__i16__AR Acquire Relaxed cw__i16__AA Acquire Acquire cw__i16__AS Acquire SeqCst cw__i16__LR Release Relaxed cw__i16__LA Release Acquire cw__i16__LS Release SeqCst cw__i16__XR AcqRel Relaxed cw__i16__XA AcqRel Acquire cw__i16__XS AcqRel SeqCst cw__i16__SR SeqCst Relaxed cw__i16__SA SeqCst Acquire cw__i16__SS SeqCst SeqCst);
        sw!(u16, narrow, sw__u16__R Relaxed sw__u16__A Acquire sw__u16__L Release sw__u16__X AcqRel sw__u16__S SeqCst);
        cx!(u16, narrow, compare_exchange, cx__u16__RR Relaxed Relaxed cx__u16__RA Relaxed Acquire cx__u16__RS Relaxed SeqCst cx__u16__AR Acquire Relaxed cx__u16__AA Acquire Acquire cx__u16__AS Acquire SeqCst cx__u16__LR Release Relaxed cx__u16__LA Release Acquire cx__u16__LS Release SeqCst cx__u16__XR AcqRel Relaxed cx__u16__XA AcqRel Acquire cx__u16__XS AcqRel SeqCst cx__u16__SR SeqCst Relaxed cx__u16__SA SeqCst Acquire cx__u16__SS SeqCst SeqCst);
        cx!(u16, narrow, compare_exchange_weak, cw__u16__RR Relaxed Relaxed cw__u16__RA Relaxed Acquire cw__u16__RS Relaxed SeqCst cw__u16__AR Acquire Relaxed cw__u16__AA Acquire Acquire cw__u16__AS Acquire SeqCst cw__u16__LR Release Relaxed cw__u16__LA Release Acquire cw__u16__LS Release SeqCst cw__u16__XR AcqRel Relaxed cw__u16__XA AcqRel Acquire cw__u16__XS AcqRel SeqCst cw__u16__SR SeqCst Relaxed cw__u16__SA SeqCst Acquire cw__u16__SS SeqCst SeqCst);
    }
}
cfg_has_atomic_32! {
    ld!(i32, ld__i32__R Relaxed ld__i32__A Acquire ld__i32__S SeqCst);
    st!(i32, sel32, st__i32__R Relaxed st__i32__L Release st__i32__S SeqCst);
    ld!(u32, ld__u32__R Relaxed ld__u32__A Acquire ld__u32__S SeqCst);
    st!(u32, sel32, st__u32__R Relaxed st__u32__L Release st__u32__S SeqCst);
    cfg_has_atomic_cas! {
        sw!(i32, sel32, sw__i32__R Relaxed sw__i32__A Acquire sw__i32__L Release sw__i32__X AcqRel sw__i32__S SeqCst);
        cx!(i32, sel32, compare_exchange, cx__i32__RR Relaxed Relaxed cx__i32__RA Relaxed Acquire cx__i32__RS Relaxed SeqCst cx__i32__AR Acquire Relaxed cx__i32__AA Acquire Acquire cx__i32__AS Acquire SeqCst cx__i32__LR Release Relaxed cx__i32__LA Release Acquire cx__i32__LS Release SeqCst cx__i32__XR AcqRel Relaxed cx__i32__XA AcqRel Acquire cx__i32__XS AcqRel SeqCst cx__i32__SR SeqCst Relaxed cx__i32__SA SeqCst Acquire cx__i32__SS SeqCst SeqCst);
        cx!(i32, sel32, compare_exchange_weak, cw__i32__RR Relaxed Relaxed cw__i32__RA Relaxed Acquire cw__i32__RS Relaxed SeqCst cw__i32__AR Acquire Relaxed cw__i32__AA Acquire Acquire cw__i32__AS Acquire SeqCst cw__i32__LR Release Relaxed cw__i32__LA Release Acquire cw__i32__LS Release SeqCst cw__i32__XR AcqRel Relaxed cw__i32__XA AcqRel Acquire cw__i32__XS AcqRel SeqCst cw__i32__SR SeqCst Relaxed cw__i32__SA SeqCst Acquire cw__i32__SS SeqCst SeqCst);
        sw!(u32, sel32, sw__u32__R Relaxed sw__u32__A Acquire sw__u32__L Release sw__u32__X AcqRel sw__u32__S SeqCst);
        cx!(u32, sel32, compare_exchange, cx__u32__RR Relaxed Relaxed cx__u32__RA Relaxed Acquire cx__u32__RS Relaxed SeqCst cx__u32__AR Acquire Relaxed cx__u32__AA Acquire Acquire cx__u32__AS Acquire SeqCst cx__u32__LR Release Relaxed cx__u32__LA Release Acquire cx__u32__LS Release SeqCst cx__u32__XR AcqRel Relaxed cx__u32__XA AcqRel Acquire cx__u32__XS AcqRel SeqCst cx__u32__SR SeqCst Relaxed cx__u32__SA SeqCst Acquire cx__u32__SS SeqCst SeqCst);
        cx!(u32, sel32, compare_exchange_weak, cw__u32__RR Relaxed Relaxed cw__u32__RA Relaxed Acquire cw__u32__RS Relaxed SeqCst cw__u32__AR Acquire Relaxed cw__u32__AA Acquire Acquire cw__u32__AS Acquire SeqCst cw__u32__LR Release Relaxed cw__u32__LA Release Acquire cw__u32__LS Release SeqCst cw__u32__XR AcqRel Relaxed cw__u32__XA AcqRel Acquire cw__u32__XS AcqRel SeqCst cw__u32__SR SeqCst Relaxed cw__u32__SA SeqCst Acquire cw__u32__SS SeqCst SeqCst);
    }
}
cfg_has_atomic_64! {
    ld!(i64, ld__i64__R Relaxed ld__i64__A Acquire ld__i64__S SeqCst);
    st!(i64, wide, st__i64__R Relaxed st__i64__L Release st__i64__S SeqCst);
    ld!(u64, ld__u64__R Relaxed ld__u64__A Acquire ld__u64__S SeqCst);
    st!(u64, wide, st__u64__R Relaxed st__u64__L Release st__u64__S SeqCst);
    cfg_has_atomic_cas! {
        sw!(i64, wide, sw__i64__R Relaxed sw__i64__A Acquire sw__i64__L Release sw__i64__X AcqRel sw__i64__S SeqCst);
        cx!(i64, wide, compare_exchange, cx__i64__RR Relaxed Relaxed cx__i64__RA Relaxed Acquire cx__i64__RS Relaxed SeqCst cx__i64__AR Acquire Relaxed cx__i64__AA Acquire Acquire cx__i64__AS Acquire SeqCst cx__i64__LR Release Relaxed cx__i64__LA Release Acquire cx__i64__LS Release SeqCst cx__i64__XR AcqRel Relaxed cx__i64__XA AcqRel Acquire cx__i64__XS AcqRel SeqCst cx__i64__SR SeqCst Relaxed cx__i64__SA SeqCst Acquire cx__i64__SS SeqCst SeqCst);
        cx!(i64, wide, compare_exchange_weak, cw__i64__RR Relaxed Relaxed cw__i64__RA Relaxed Acquire cw__i64__RS Relaxed SeqCst cw__i64__AR Acquire Relaxed cw__i64__AA Acquire Acquire cw__i64__AS Acquire SeqCst cw__i64__LR Release Relaxed cw__i64__LA Release Acquire cw__i64__LS Release SeqCst cw__i64__XR AcqRel Relaxed cw__i64__XA AcqRel Acquire cw__i64__XS AcqRel SeqCst cw__i64__SR SeqCst Relaxed cw__i64__SA SeqCst Acquire cw__i64__SS SeqCst SeqCst);
        sw!(u64, wide, sw__u64__R Relaxed sw__u64__A Acquire sw__u64__L Release sw__u64__X AcqRel sw__u64__S SeqCst);
        cx!(u64, wide, compare_exchange, cx__u64__RR Relaxed Relaxed cx__u64__RA Relaxed Acquire cx__u64__RS Relaxed SeqCst cx__u64__AR Acquire Relaxed cx__u64__AA Acquire Acquire cx__u64__AS Acquire SeqCst cx__u64__LR Release Relaxed cx__u64__LA Release Acquire cx__u64__LS Release SeqCst cx__u64__XR AcqRel Relaxed cx__u64__XA AcqRel Acquire cx__u64__XS AcqRel SeqCst cx__u64__SR SeqCst Relaxed cx__u64__SA SeqCst Acquire cx__u64__SS SeqCst SeqCst);
        cx!(u64, wide, compare_exchange_weak, cw__u64__RR Relaxed Relaxed cw__u64__RA Relaxed Acquire cw__u64__RS Relaxed SeqCst cw__u64__AR Acquire Relaxed cw__u64__AA Acquire Acquire cw__u64__AS Acquire SeqCst cw__u64__LR Release Relaxed cw__u64__LA Release Acquire cw__u64__LS Release SeqCst cw__u64__XR AcqRel Relaxed cw__u64__XA AcqRel Acquire cw__u64__XS AcqRel SeqCst cw__u64__SR SeqCst Relaxed cw__u64__SA SeqCst Acquire cw__u64__SS SeqCst SeqCst);
    }
}
cfg_has_atomic_128! {
    ld!(i128, ld__i128__R Relaxed ld__i128__A Acquire ld__i128__S SeqCst);
    st!(i128, wide, st__i128__R Relaxed st__i128__L Release st__i128__S SeqCst);
    ld!(u128, ld__u128__R Relaxed ld__u128__A Acquire ld__u128__S SeqCst);
    st!(u128, wide, st__u128__R Relaxed st__u128__L Release st__u128__S SeqCst);
    cfg_has_atomic_cas! {
        sw!(i128, wide, sw__i128__R Relaxed sw__i128__A Acquire sw__i128__L Release sw__i128__X AcqRel sw__i128__S SeqCst);
        cx!(i128, wide, compare_exchange, cx__i128__RR Relaxed Relaxed cx__i128__RA Relaxed Acquire cx__i128__RS Relaxed SeqCst cx__i128__AR Acquire Relaxed cx__i128__AA Acquire Acquire cx__i128__AS Acquire SeqCst cx__i128__LR Release Relaxed cx__i128__LA Release Acquire cx__i128__LS Release SeqCst cx__i128__XR AcqRel Relaxed cx__i128__XA AcqRel Acquire cx__i128__XS AcqRel SeqCst cx__i128__SR SeqCst Relaxed cx__i128__SA SeqCst Acquire cx__i128__SS SeqCst SeqCst);
        cx!(i128, wide, compare_exchange_weak, cw__i128__RR Relaxed Relaxed cw__i128__RA Relaxed Acquire cw__i128__RS Relaxed SeqCst cw__i128__AR Acquire Relaxed cw__i128__AA Acquire Acquire cw__i128__AS Acquire SeqCst cw__i128__LR Release Relaxed cw__i128__LA Release Acquire cw__i128__LS Release SeqCst cw__i128__XR AcqRel Relaxed cw__i128__XA AcqRel Acquire cw__i128__XS AcqRel SeqCst cw__i128__SR SeqCst Relaxed cw__i128__SA SeqCst Acquire cw__i128__SS SeqCst SeqCst);
        sw!(u128, wide, sw__u128__R Relaxed sw__u128__A Acquire sw__u128__L Release sw__u128__X AcqRel sw__u128__S SeqCst);
        cx!(u128, wide, compare_exchange, cx__u128__RR Relaxed Relaxed cx__u128__RA Relaxed Acquire cx__u128__RS Relaxed SeqCst cx__u128__AR Acquire Relaxed cx__u128__AA Acquire Acquire cx__u128__AS Acquire SeqCst cx__u128__LR Release Relaxed cx__u128__LA Release Acquire cx__u128__LS Release SeqCst cx__u128__XR AcqRel Relaxed cx__u128__XA AcqRel Acquire cx__u128__XS AcqRel SeqCst cx__u128__SR SeqCst Relaxed cx__u128__SA SeqCst Acquire cx__u128__SS SeqCst SeqCst);
        cx!(u128, wide, compare_exchange_weak, cw__u128__RR Relaxed Relaxed cw__u128__RA Relaxed Acquire cw__u128__RS Relaxed SeqCst cw__u128__AR Acquire Relaxed cw__u128__AA Acquire Acquire cw__u128__AS Acquire SeqCst cw__u128__LR Release Relaxed cw__u128__LA Release Acquire cw__u128__LS Release SeqCst cw__u128__XR AcqRel Relaxed cw__u128__XA AcqRel Acquire cw__u128__XS AcqRel SeqCst cw__u128__SR SeqCst Relaxed cw__u128__SA SeqCst Acquire cw__u128__SS SeqCst SeqCst);
    }
}
atomic_maybe_uninit::cfg_has_atomic_ptr! {
    ld!(isize, ld__isize__R Relaxed ld__isize__A Acquire ld__isize__S SeqCst);
    st!(isize, wide, st__isize__R Relaxed st__isize__L Release st__isize__S SeqCst);
    ld!(usize, ld__usize__R Relaxed ld__usize__A Acquire ld__usize__S SeqCst);
    st!(usize, wide, st__usize__R Relaxed st__usize__L Release st__usize__S SeqCst);
    cfg_has_atomic_cas! {
        sw!(isize, wide, sw__isize__R Relaxed sw__isize__A Acquire sw__isize__L Release sw__isize__X AcqRel sw__isize__S SeqCst);
        cx!(isize, wide, compare_exchange, cx__isize__RR Relaxed Relaxed cx__isize__RA Relaxed Acquire cx__isize__RS Relaxed SeqCst cx__isize__AR Acquire Relaxed cx__isize__AA Acquire Acquire cx__isize__AS Acquire SeqCst cx__isize__LR Release Relaxed cx__isize__LA Release Acquire cx__isize__LS Release SeqCst cx__isize__XR AcqRel Relaxed cx__isize__XA AcqRel Acquire cx__isize__XS AcqRel SeqCst cx__isize__SR SeqCst Relaxed cx__isize__SA SeqCst Acquire cx__isize__SS SeqCst SeqCst);
        cx!(isize, wide, compare_exchange_weak, cw__isize__RR Relaxed Relaxed cw__isize__RA Relaxed Acquire cw__isize__RS Relaxed SeqCst cw__isize__AR Acquire Relaxed cw__isize__AA Acquire Acquire cw__isize__AS Acquire SeqCst cw__isize__LR Release Relaxed cw__isize__LA Release Acquire cw__isize__LS Release SeqCst cw__isize__XR AcqRel Relaxed cw__isize__XA AcqRel Acquire cw__isize__XS AcqRel SeqCst cw__isize__SR SeqCst Relaxed cw__isize__SA SeqCst Acquire cw__isize__SS SeqCst SeqCst);
        sw!(usize, wide, sw__usize__R Relaxed sw__usize__A Acquire sw__usize__L Release sw__usize__X AcqRel sw__usize__S SeqCst);
        cx!(usize, wide, compare_exchange, cx__usize__RR Relaxed Relaxed cx__usize__RA Relaxed Acquire cx__usize__RS Relaxed SeqCst cx__usize__AR Acquire Relaxed cx__usize__AA Acquire Acquire cx__usize__AS Acquire SeqCst cx__usize__LR Release Relaxed cx__usize__LA Release Acquire cx__usize__LS Release SeqCst cx__usize__XR AcqRel Relaxed cx__usize__XA AcqRel Acquire cx__usize__XS AcqRel SeqCst cx__usize__SR SeqCst Relaxed cx__usize__SA SeqCst Acquire cx__usize__SS SeqCst SeqCst);
        cx!(usize, wide, compare_exchange_weak, cw__usize__RR Relaxed Relaxed cw__usize__RA Relaxed Acquire cw__usize__RS Relaxed SeqCst cw__usize__AR Acquire Relaxed cw__usize__AA Acquire Acquire cw__usize__AS Acquire SeqCst cw__usize__LR Release Relaxed cw__usize__LA Release Acquire cw__usize__LS Release SeqCst cw__usize__XR AcqRel Relaxed cw__usize__XA AcqRel Acquire cw__usize__XS AcqRel SeqCst cw__usize__SR SeqCst Relaxed cw__usize__SA SeqCst Acquire cw__usize__SS SeqCst SeqCst);
    }
}
