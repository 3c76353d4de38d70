//! Availability probe (C12): for every integer type, which operation traits are implemented, and
//! which of the cfg macros expand. The answers are constants in the RESULT table.
//! Generated layout: 12 types x (load, store, swap, cas), then has/no pairs for 8 16 32 64 128 ptr cas,
//! then size and alignment of the atomic for the 12 types.
#![cfg_attr(not(vf_std), no_std)]
#![allow(unused_mut, unused_assignments, dead_code)]
use atomic_maybe_uninit as amu;
struct P<T>(T);
struct L<T>(T);
struct S<T>(T);
struct W<T>(T);
struct C<T>(T);
trait No {
    const Y: u8 = 0;
}
impl<T> No for L<T> {}
impl<T> No for S<T> {}
impl<T> No for W<T> {}
impl<T> No for C<T> {}
impl<T: amu::raw::AtomicLoad> L<T> {
    const Y: u8 = 1;
}
impl<T: amu::raw::AtomicStore> S<T> {
    const Y: u8 = 1;
}
impl<T: amu::raw::AtomicSwap> W<T> {
    const Y: u8 = 1;
}
impl<T: amu::raw::AtomicCompareExchange> C<T> {
    const Y: u8 = 1;
}
const fn has_8() -> u8 {
    let mut x = 0;
    amu::cfg_has_atomic_8! { x = 1; }
    x
}
const fn no_8() -> u8 {
    let mut x = 0;
    amu::cfg_no_atomic_8! { x = 1; }
    x
}
const fn has_16() -> u8 {
    let mut x = 0;
    amu::cfg_has_atomic_16! { x = 1; }
    x
}
const fn no_16() -> u8 {
    let mut x = 0;
    amu::cfg_no_atomic_16! { x = 1; }
    x
}
const fn has_32() -> u8 {
    let mut x = 0;
    amu::cfg_has_atomic_32! { x = 1; }
    x
}
const fn no_32() -> u8 {
    let mut x = 0;
    amu::cfg_no_atomic_32! { x = 1; }
    x
}
const fn has_64() -> u8 {
    let mut x = 0;
    amu::cfg_has_atomic_64! { x = 1; }
    x
}
const fn no_64() -> u8 {
    let mut x = 0;
    amu::cfg_no_atomic_64! { x = 1; }
    x
}
const fn has_128() -> u8 {
    let mut x = 0;
    amu::cfg_has_atomic_128! { x = 1; }
    x
}
const fn no_128() -> u8 {
    let mut x = 0;
    amu::cfg_no_atomic_128! { x = 1; }
    x
}
const fn has_ptr() -> u8 {
    let mut x = 0;
    amu::cfg_has_atomic_ptr! { x = 1; }
    x
}
const fn no_ptr() -> u8 {
    let mut x = 0;
    amu::cfg_no_atomic_ptr! { x = 1; }
    x
}
const fn has_cas() -> u8 {
    let mut x = 0;
    amu::cfg_has_atomic_cas! { x = 1; }
    x
}
const fn no_cas() -> u8 {
    let mut x = 0;
    amu::cfg_no_atomic_cas! { x = 1; }
    x
}
#[no_mangle]
pub static RESULT: [u8; 86] = [
    L::<i8>::Y, S::<i8>::Y, W::<i8>::Y, C::<i8>::Y,
    L::<u8>::Y, S::<u8>::Y, W::<u8>::Y, C::<u8>::Y,
    L::<i16>::Y, S::<i16>::Y, W::<i16>::Y, C::<i16>::Y,
    L::<u16>::Y, S::<u16>::Y, W::<u16>::Y, C::<u16>::Y,
    L::<i32>::Y, S::<i32>::Y, W::<i32>::Y, C::<i32>::Y,
    L::<u32>::Y, S::<u32>::Y, W::<u32>::Y, C::<u32>::Y,
    L::<i64>::Y, S::<i64>::Y, W::<i64>::Y, C::<i64>::Y,
    L::<u64>::Y, S::<u64>::Y, W::<u64>::Y, C::<u64>::Y,
    L::<isize>::Y, S::<isize>::Y, W::<isize>::Y, C::<isize>::Y,
    L::<usize>::Y, S::<usize>::Y, W::<usize>::Y, C::<usize>::Y,
    L::<i128>::Y, S::<i128>::Y, W::<i128>::Y, C::<i128>::Y,
    L::<u128>::Y, S::<u128>::Y, W::<u128>::Y, C::<u128>::Y,
    has_8(), no_8(),
    has_16(), no_16(),
    has_32(), no_32(),
    has_64(), no_64(),
    has_128(), no_128(),
    has_ptr(), no_ptr(),
    has_cas(), no_cas(),
    size_of::<amu::AtomicMaybeUninit<i8>>() as u8, align_of::<amu::AtomicMaybeUninit<i8>>() as u8,
    size_of::<amu::AtomicMaybeUninit<u8>>() as u8, align_of::<amu::AtomicMaybeUninit<u8>>() as u8,
    size_of::<amu::AtomicMaybeUninit<i16>>() as u8, align_of::<amu::AtomicMaybeUninit<i16>>() as u8,
    size_of::<amu::AtomicMaybeUninit<u16>>() as u8, align_of::<amu::AtomicMaybeUninit<u16>>() as u8,
    size_of::<amu::AtomicMaybeUninit<i32>>() as u8, align_of::<amu::AtomicMaybeUninit<i32>>() as u8,
    size_of::<amu::AtomicMaybeUninit<u32>>() as u8, align_of::<amu::AtomicMaybeUninit<u32>>() as u8,
    size_of::<amu::AtomicMaybeUninit<i64>>() as u8, align_of::<amu::AtomicMaybeUninit<i64>>() as u8,
    size_of::<amu::AtomicMaybeUninit<u64>>() as u8, align_of::<amu::AtomicMaybeUninit<u64>>() as u8,
    size_of::<amu::AtomicMaybeUninit<isize>>() as u8, align_of::<amu::AtomicMaybeUninit<isize>>() as u8,
    size_of::<amu::AtomicMaybeUninit<usize>>() as u8, align_of::<amu::AtomicMaybeUninit<usize>>() as u8,
    size_of::<amu::AtomicMaybeUninit<i128>>() as u8, align_of::<amu::AtomicMaybeUninit<i128>>() as u8,
    size_of::<amu::AtomicMaybeUninit<u128>>() as u8, align_of::<amu::AtomicMaybeUninit<u128>>() as u8,
];
