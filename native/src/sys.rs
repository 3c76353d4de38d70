//! Minimal Linux bindings (x86 / x86_64) so that the harness has no dependencies.
#![allow(non_camel_case_types, dead_code)]
use std::ffi::c_void;

extern "C" {
    pub fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: isize) -> *mut c_void;
    pub fn munmap(addr: *mut c_void, len: usize) -> i32;
    pub fn mprotect(addr: *mut c_void, len: usize, prot: i32) -> i32;
    pub fn memfd_create(name: *const u8, flags: u32) -> i32;
    pub fn ftruncate(fd: i32, len: isize) -> i32;
    pub fn sigaction(sig: i32, act: *const Sigaction, old: *mut Sigaction) -> i32;
    pub fn sigaltstack(ss: *const StackT, old: *mut StackT) -> i32;
    pub fn sched_setaffinity(pid: i32, len: usize, mask: *const u8) -> i32;
    pub fn _exit(code: i32) -> !;
    pub fn write(fd: i32, buf: *const u8, n: usize) -> isize;
}
pub const PROT_NONE: i32 = 0;
pub const PROT_READ: i32 = 1;
pub const PROT_RW: i32 = 3;
pub const MAP_SHARED: i32 = 1;
pub const MAP_PRIVATE: i32 = 2;
pub const MAP_ANON: i32 = 0x20;
pub const MAP_FIXED: i32 = 0x10;
pub const SIGTRAP: i32 = 5;
pub const SIGBUS: i32 = 7;
pub const SIGSEGV: i32 = 11;
pub const SA_SIGINFO: i32 = 4;
pub const SA_ONSTACK: i32 = 0x0800_0000;
pub const SA_NODEFER: i32 = 0x4000_0000;

// glibc's struct sigaction.
#[repr(C)]
pub struct Sigaction {
    pub handler: usize,
    pub mask: [u8; 128],
    pub flags: i32,
    pub restorer: usize,
}
#[repr(C)]
pub struct StackT {
    pub sp: *mut c_void,
    pub flags: i32,
    pub size: usize,
}

/// Accessors on the raw ucontext_t.
pub struct Uc(pub *mut usize);
#[cfg(target_arch = "x86_64")]
mod idx {
    pub const BASE: usize = 5; // uc_flags, uc_link, ss_sp, ss_flags, ss_size
    pub const RSP: usize = 15;
    pub const RIP: usize = 16;
    pub const EFL: usize = 17;
    pub const ERR: usize = 19;
}
#[cfg(target_arch = "x86")]
mod idx {
    pub const BASE: usize = 5;
    pub const RSP: usize = 7;
    pub const RIP: usize = 14;
    pub const EFL: usize = 16;
    pub const ERR: usize = 13;
}
impl Uc {
    unsafe fn r(&self, i: usize) -> *mut usize {
        self.0.add(idx::BASE + i)
    }
    pub fn ip(&self) -> usize {
        unsafe { *self.r(idx::RIP) }
    }
    pub fn set_ip(&self, v: usize) {
        unsafe { *self.r(idx::RIP) = v }
    }
    pub fn sp(&self) -> usize {
        unsafe { *self.r(idx::RSP) }
    }
    pub fn set_sp(&self, v: usize) {
        unsafe { *self.r(idx::RSP) = v }
    }
    pub fn clear_tf(&self) {
        unsafe { *self.r(idx::EFL) &= !0x100 }
    }
    pub fn set_tf(&self) {
        unsafe { *self.r(idx::EFL) |= 0x100 }
    }
    pub fn err(&self) -> usize {
        unsafe { *self.r(idx::ERR) }
    }
}
/// siginfo si_addr
pub unsafe fn si_addr(info: *const u8) -> usize {
    #[cfg(target_arch = "x86_64")]
    return *(info.add(16) as *const usize);
    #[cfg(target_arch = "x86")]
    return *(info.add(12) as *const usize);
}

pub unsafe fn install(sig: i32, f: usize) {
    let sa = Sigaction { handler: f, mask: [0; 128], flags: SA_SIGINFO | SA_ONSTACK | SA_NODEFER, restorer: 0 };
    assert_eq!(sigaction(sig, &sa, std::ptr::null_mut()), 0);
}
pub unsafe fn altstack() {
    let sz = 1 << 20;
    let p = mmap(std::ptr::null_mut(), sz, PROT_RW, MAP_PRIVATE | MAP_ANON, -1, 0);
    let ss = StackT { sp: p, flags: 0, size: sz };
    assert_eq!(sigaltstack(&ss, std::ptr::null_mut()), 0);
}
pub fn pin(cpu: usize) {
    let mut m = [0u8; 128];
    m[cpu / 8] |= 1 << (cpu % 8);
    unsafe {
        sched_setaffinity(0, 128, m.as_ptr());
    }
}

/// One shared page mapped twice: `op` (the view given to the code under test, its
/// protection is changed by the monitors) between two inaccessible guard pages, and
/// `mon` (the monitor's own always-accessible view of the same memory).
pub struct Arena {
    pub op: *mut u8,
    pub mon: *mut u8,
}
pub const PAGE: usize = 4096;
impl Arena {
    pub fn new() -> Arena {
        unsafe {
            let fd = memfd_create(b"amu\0".as_ptr(), 0);
            assert!(fd >= 0);
            assert_eq!(ftruncate(fd, PAGE as isize), 0);
            let base = mmap(std::ptr::null_mut(), 3 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANON, -1, 0) as *mut u8;
            let op = base.add(PAGE);
            assert_eq!(mmap(op as _, PAGE, PROT_RW, MAP_SHARED | MAP_FIXED, fd, 0) as *mut u8, op);
            let mbase = mmap(std::ptr::null_mut(), 3 * PAGE, PROT_NONE, MAP_PRIVATE | MAP_ANON, -1, 0) as *mut u8;
            let mon = mbase.add(PAGE);
            assert_eq!(mmap(mon as _, PAGE, PROT_RW, MAP_SHARED | MAP_FIXED, fd, 0) as *mut u8, mon);
            Arena { op, mon }
        }
    }
    pub fn prot(&self, p: i32) {
        unsafe {
            assert_eq!(mprotect(self.op as _, PAGE, p), 0);
        }
    }
    pub fn contains(&self, a: usize) -> bool {
        a.wrapping_sub(self.op as usize) < PAGE
    }
    pub fn contains_guard(&self, a: usize) -> bool {
        a.wrapping_sub(self.op as usize - PAGE) < 3 * PAGE
    }
}
