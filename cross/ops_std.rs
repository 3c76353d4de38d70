// the standard library's SeqCst operations, which share one total order with the crate's
#[cfg(target_has_atomic = "ptr")]
mod std_ops {
    use super::*;
    use core::sync::atomic::AtomicUsize;
    macro_rules! z {
        ($name:ident, |$a:ident, $v:ident| $e:expr) => {
            #[no_mangle]
            #[inline(never)]
            pub unsafe extern "C" fn $name(dst: *mut usize, inp: *const usize, out: *mut M<usize>) -> usize {
                let $a = &*(dst as *const AtomicUsize);
                let $v = [*inp, *inp.add(1)];
                *out = M::new($e);
                1
            }
        };
    }
    z!(zl__usize__S, |a, _v| a.load(SeqCst));
    z!(zw__usize__S, |a, v| a.swap(v[0], SeqCst));
    z!(zc__usize__SS, |a, v| a.compare_exchange(v[0], v[1], SeqCst, SeqCst).unwrap_or_else(|x| x));
    z!(zs__usize__S, |a, v| {
        a.store(v[0], SeqCst);
        v[0]
    });
}
