// fetch_update, the closure being: none for one value, otherwise exclusive-or with a constant; counts its calls in the byte after
// the result
macro_rules! fu {
    ($t:ident, $g:ident, $($n:ident $s:ident $f:ident)*) => { $( f!($n, $t, |a, i, o| {
        let stop = $g!($t, i, 0).assume_init();
        let add = $g!($t, i, 1).assume_init();
        let calls = (o as *mut u8).add(core::mem::size_of::<$t>());
        match a.fetch_update($s, $f, |x| {
            let x = x.assume_init();
            calls.write_volatile(calls.read_volatile().wrapping_add(1));
            if x == stop { None } else { Some(M::new(x ^ add)) }
        }) {
            Ok(v) => { *o = v; 1 }
            Err(v) => { *o = v; 0 }
        }
    }); )* };
}
cfg_has_atomic_8! {
    cfg_has_atomic_cas! {
        fu!(i8, narrow, fu__i8__RR Relaxed Relaxed fu__i8__XA AcqRel Acquire fu__i8__LS Release SeqCst fu__i8__SR SeqCst Relaxed);
        fu!(u8, narrow, fu__u8__RR Relaxed Relaxed fu__u8__XA AcqRel Acquire fu__u8__LS Release SeqCst fu__u8__SR SeqCst Relaxed);
    }
}
cfg_has_atomic_16! {
    cfg_has_atomic_cas! {
        fu!(i16, narrow, fu__i16__RR Relaxed Relaxed fu__i16__XA AcqRel Acquire fu__i16__LS Release SeqCst fu__i16__SR SeqCst Relaxed);
        fu!(u16, narrow, fu__u16__RR Relaxed Relaxed fu__u16__XA AcqRel Acquire fu__u16__LS Release SeqCst fu__u16__SR SeqCst Relaxed);
    }
}
cfg_has_atomic_32! {
    cfg_has_atomic_cas! {
        fu!(i32, sel32, fu__i32__RR Relaxed Relaxed fu__i32__XA AcqRel Acquire fu__i32__LS Release SeqCst fu__i32__SR SeqCst Relaxed);
        fu!(u32, sel32, fu__u32__RR Relaxed Relaxed fu__u32__XA AcqRel Acquire fu__u32__LS Release SeqCst fu__u32__SR SeqCst Relaxed);
    }
}
cfg_has_atomic_64! {
    cfg_has_atomic_cas! {
        fu!(i64, wide, fu__i64__RR Relaxed Relaxed fu__i64__XA AcqRel Acquire fu__i64__LS Release SeqCst fu__i64__SR SeqCst Relaxed);
        fu!(u64, wide, fu__u64__RR Relaxed Relaxed fu__u64__XA AcqRel Acquire fu__u64__LS Release SeqCst fu__u64__SR SeqCst Relaxed);
    }
}
cfg_has_atomic_128! {
    cfg_has_atomic_cas! {
        fu!(i128, wide, fu__i128__RR Relaxed Relaxed fu__i128__XA AcqRel Acquire fu__i128__LS Release SeqCst fu__i128__SR SeqCst Relaxed);
        fu!(u128, wide, fu__u128__RR Relaxed Relaxed fu__u128__XA AcqRel Acquire fu__u128__LS Release SeqCst fu__u128__SR SeqCst Relaxed);
    }
}
atomic_maybe_uninit::cfg_has_atomic_ptr! {
    cfg_has_atomic_cas! {
        fu!(isize, wide, fu__isize__RR Relaxed Relaxed fu__isize__XA AcqRel Acquire fu__isize__LS Release SeqCst fu__isize__SR SeqCst Relaxed);
        fu!(usize, wide, fu__usize__RR Relaxed Relaxed fu__usize__XA AcqRel Acquire fu__usize__LS Release SeqCst fu__usize__SR SeqCst Relaxed);
    }
}
#[cfg(vf_force_64)]
fu!(i64, wide, fu__i64__RR Relaxed Relaxed fu__i64__XA AcqRel Acquire fu__i64__LS Release SeqCst fu__i64__SR SeqCst Relaxed);
#[cfg(vf_force_64)]
fu!(u64, wide, fu__u64__RR Relaxed Relaxed fu__u64__XA AcqRel Acquire fu__u64__LS Release SeqCst fu__u64__SR SeqCst Relaxed);
