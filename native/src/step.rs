//! In-process execution monitor.
//!
//! `call` runs the real machine code of one operation from a chosen machine state (callee-saved
//! registers, flags, x87/MXCSR control words) and records the state it leaves behind.
//! With single-stepping, a hook runs at every instruction boundary: it can look at memory, act as
//! another thread or as a signal handler, or run a whole nested operation (itself single-stepped).
//! With `watch`, the page holding the location is access-protected so that every access to it is
//! observed (instruction, address, read/write).
use crate::ops::{Ctx, OpFn};
use crate::sys::*;
use std::ptr;

#[derive(Clone, Copy, Debug)]
pub struct Access {
    pub step: u32,
    pub ip: usize,
    pub addr: usize,
    pub write: bool,
}
pub const MAXACC: usize = 96;
pub struct Session<'a> {
    pub steps: u32,
    pub limit: u32,
    pub overrun: bool,
    pub done: bool,
    pub stepping: bool,
    pub watch: bool,
    unprot: bool,
    pub nacc: usize,
    pub acc: [Access; MAXACC],
    /// address of the instruction about to execute at each boundary
    pub ips: [usize; 512],
    st: *mut CallState,
    pub bad_sp: bool,
    hook: &'a mut dyn FnMut(u32, usize),
    arena: *const Arena,
    prev: *mut Session<'static>,
    pub fault: Option<Fault>,
}
#[derive(Clone, Copy, Debug)]
pub struct Fault {
    pub sig: i32,
    pub ip: usize,
    pub addr: usize,
    pub write: bool,
    pub step: u32,
}

#[repr(C)]
pub struct CallState {
    f: usize,
    arg: usize,
    flags_or: usize,
    sp: usize,
    cin: [usize; 6],
    cout: [usize; 6],
    flags_out: usize,
    canary_out: [usize; 4],
    cw_in: u32,
    mxcsr_in: u32,
    cw_out: u32,
    mxcsr_out: u32,
    env: [u32; 8],
}
const CANARY: usize = 0x5AA5_C33C_0FF0_A55A_u64 as usize;

#[cfg(target_arch = "x86_64")]
std::arch::global_asm!(
    ".globl amu_call",
    "amu_call:",
    "push rbx", "push rbp", "push r12", "push r13", "push r14", "push r15",
    "push rdi",
    "mov rcx, 0x5AA5C33C0FF0A55A",
    "push rcx", "push rcx", "push rcx", "push rcx",
    "mov [rdi+24], rsp",
    "fninit", "fldcw [rdi+168]", "ldmxcsr [rdi+172]",
    "mov rbx, [rdi+32]", "mov rbp, [rdi+40]", "mov r12, [rdi+48]", "mov r13, [rdi+56]", "mov r14, [rdi+64]", "mov r15, [rdi+72]",
    "mov rsi, rcx", "not rcx", "mov rdx, rcx", "mov r10, rcx", "mov r11, rsi", "mov r9, rcx", "mov r8, rsi",
    "movq xmm0, rcx", "movq xmm1, rsi", "pcmpeqd xmm2, xmm2", "movdqa xmm3, xmm2", "movq xmm4, rcx",
    "pushfq", "mov rax, [rdi+16]", "or [rsp], rax", "mov rax, [rdi]", "mov rdi, [rdi+8]",
    "popfq",
    "call rax",
    ".globl amu_call_ret",
    "amu_call_ret:",
    "nop",
    "pushfq", "pop rsi", "cld",
    "pop r8", "pop r9", "pop r10", "pop r11",
    "pop rdi",
    "mov [rdi+80], rbx", "mov [rdi+88], rbp", "mov [rdi+96], r12", "mov [rdi+104], r13", "mov [rdi+112], r14", "mov [rdi+120], r15",
    "mov [rdi+128], rsi",
    "mov [rdi+136], r8", "mov [rdi+144], r9", "mov [rdi+152], r10", "mov [rdi+160], r11",
    "fnstcw [rdi+176]", "stmxcsr [rdi+180]", "fnstenv [rdi+184]", "fninit",
    "push 0x1F80", "ldmxcsr [rsp]", "pop rcx",
    "pop r15", "pop r14", "pop r13", "pop r12", "pop rbp", "pop rbx",
    "ret",
);
#[cfg(target_arch = "x86")]
std::arch::global_asm!(
    ".globl amu_call",
    "amu_call:",
    "push ebx", "push ebp", "push esi", "push edi", // E-16
    "mov edx, [esp+20]",
    "push edx",                                     // E-20
    "push 0x0FF0A55A", "push 0x0FF0A55A",           // E-28
    "push 0x0FF0A55A", "push 0x0FF0A55A",           // E-36
    "sub esp, 4",                                   // E-40
    "push [edx+4]",                                 // E-44 argument
    "mov [edx+12], esp",
    "fninit", "fldcw [edx+84]", "ldmxcsr [edx+88]",
    "mov ebx, [edx+16]", "mov ebp, [edx+20]", "mov esi, [edx+24]", "mov edi, [edx+28]",
    "pushfd", "mov eax, [edx+8]", "or [esp], eax", "mov eax, [edx]",
    "mov ecx, 0x5AA5C33C", "mov edx, 0xA55A3CC3",
    "popfd",
    "call eax",
    ".globl amu_call_ret",
    "amu_call_ret:",
    "nop",
    "pushfd", "cld",
    "mov edx, [esp+28]",
    "mov [edx+40], ebx", "mov [edx+44], ebp", "mov [edx+48], esi", "mov [edx+52], edi",
    "pop ecx", "mov [edx+64], ecx",
    "mov ecx, [esp+8]", "mov [edx+68], ecx", "mov ecx, [esp+12]", "mov [edx+72], ecx",
    "mov ecx, [esp+16]", "mov [edx+76], ecx", "mov ecx, [esp+20]", "mov [edx+80], ecx",
    "fnstcw [edx+92]", "stmxcsr [edx+96]", "fnstenv [edx+100]", "fninit",
    "push 0x1F80", "ldmxcsr [esp]", "pop ecx",
    "add esp, 28",
    "pop edi", "pop esi", "pop ebp", "pop ebx",
    "ret",
);
extern "C" {
    fn amu_call(st: *mut CallState);
    fn amu_call_ret();
}
#[cfg(target_arch = "x86_64")]
const NSAVED: usize = 6;
#[cfg(target_arch = "x86")]
const NSAVED: usize = 4;

static mut CUR: *mut Session<'static> = ptr::null_mut();

unsafe extern "C" fn on_trap(_sig: i32, _info: *const u8, uc: *mut usize) {
    let uc = Uc(uc);
    let s = CUR;
    if s.is_null() {
        die("SIGTRAP outside a session");
    }
    let s = &mut *s;
    if s.unprot {
        (*s.arena).prot(PROT_NONE);
        s.unprot = false;
    }
    let ip = uc.ip();
    if ip == amu_call_ret as usize {
        uc.clear_tf();
        s.done = true;
        if uc.sp() != (*s.st).sp {
            s.bad_sp = true;
            uc.set_sp((*s.st).sp);
        }
        // the hook also sees the state right after the last instruction
        (s.hook)(s.steps, 0);
        return;
    }
    if (s.steps as usize) < s.ips.len() {
        s.ips[s.steps as usize] = ip;
    }
    (s.hook)(s.steps, ip);
    s.steps += 1;
    if s.steps > s.limit {
        s.overrun = true;
        s.done = true;
        uc.set_ip(amu_call_ret as usize);
        uc.set_sp((*s.st).sp);
        uc.clear_tf();
    }
}
unsafe extern "C" fn on_segv(sig: i32, info: *const u8, uc: *mut usize) {
    let uc = Uc(uc);
    let addr = si_addr(info);
    let ip = uc.ip();
    let write = uc.err() & 2 != 0;
    let s = CUR;
    if s.is_null() {
        if log_fault(sig, ip, addr, write) {
            return;
        }
        let mut m = String::new();
        use std::fmt::Write;
        let _ = write!(m, "unexpected signal {sig} at ip {ip:#x} addr {addr:#x} write={write}");
        die(&m);
    }
    let s = &mut *s;
    if s.watch && sig == SIGSEGV && (*s.arena).contains(addr) && !s.unprot {
        if s.nacc < MAXACC {
            s.acc[s.nacc] = Access { step: s.steps.wrapping_sub(1), ip, addr, write };
            s.nacc += 1;
        }
        s.unprot = true;
        (*s.arena).prot(PROT_RW);
        return;
    }
    // A real fault of the operation (guard page, read-only page, wild address): note it and
    // leave the operation.
    s.fault = Some(Fault { sig, ip, addr, write, step: s.steps });
    s.done = true;
    uc.set_ip(amu_call_ret as usize);
    uc.set_sp((*s.st).sp);
    uc.clear_tf();
}
pub fn die(m: &str) -> ! {
    unsafe {
        let t = format!("CRASH {m}\n");
        write(1, t.as_ptr(), t.len());
        _exit(70)
    }
}
pub fn init() {
    unsafe {
        altstack();
        install(SIGTRAP, on_trap as usize);
        install(SIGSEGV, on_segv as usize);
        install(SIGBUS, on_segv as usize);
        install(4, on_segv as usize); // SIGILL
        install(8, on_segv as usize); // SIGFPE
    }
}

/// Machine state to start a call from.
#[derive(Clone, Copy, Debug)]
pub struct MState {
    pub regs: [usize; 6],
    pub flags: usize,
    pub cw: u32,
    pub mxcsr: u32,
}
impl Default for MState {
    fn default() -> Self {
        MState { regs: [0x1111_1111, 0x2222_2222, 0x3333_3333, 0x4444_4444, 0x5555_5555, 0x6666_6666], flags: 0, cw: 0x37F, mxcsr: 0x1F80 }
    }
}
pub struct Outcome {
    pub steps: u32,
    pub overrun: bool,
    pub fault: Option<Fault>,
    pub acc: Vec<Access>,
    pub ips: Vec<usize>,
    /// what of the machine state was not preserved
    pub state_err: Option<String>,
}

pub enum Mode {
    /// run at full speed (faults are still caught)
    Free,
    Step,
    Watch,
}

pub fn call(f: OpFn, ctx: *mut Ctx, arena: &Arena, mode: Mode, limit: u32, ms: &MState, hook: &mut dyn FnMut(u32, usize)) -> Outcome {
    call_raw(f as usize, ctx as usize, arena, mode, limit, ms, hook)
}
pub fn call_raw(f: usize, ctx: usize, arena: &Arena, mode: Mode, limit: u32, ms: &MState, hook: &mut dyn FnMut(u32, usize)) -> Outcome {
    unsafe {
        let stepping = !matches!(mode, Mode::Free);
        let watch = matches!(mode, Mode::Watch);
        let mut st = CallState {
            f,
            arg: ctx,
            flags_or: ms.flags | if stepping { 0x100 } else { 0 },
            sp: 0,
            cin: ms.regs,
            cout: [0; 6],
            flags_out: 0,
            canary_out: [0; 4],
            cw_in: ms.cw,
            mxcsr_in: ms.mxcsr,
            cw_out: 0,
            mxcsr_out: 0,
            env: [0; 8],
        };
        let mut s = Session {
            steps: 0,
            limit,
            overrun: false,
            done: false,
            stepping,
            watch,
            unprot: false,
            nacc: 0,
            acc: [Access { step: 0, ip: 0, addr: 0, write: false }; MAXACC],
            ips: [0; 512],
            st: ptr::null_mut(),
            bad_sp: false,
            hook,
            arena,
            prev: CUR,
            fault: None,
        };
        if watch {
            arena.prot(PROT_NONE);
        }
        let sp: *mut Session<'_> = &mut s;
        (*sp).st = &mut st;
        CUR = sp as *mut Session<'static>;
        amu_call(&mut st);
        CUR = s.prev;
        if watch {
            arena.prot(PROT_RW);
        }
        let mut err = None;
        if s.fault.is_none() && !s.overrun {
            for i in 0..NSAVED {
                if st.cout[i] != st.cin[i] {
                    err = Some(format!("callee-saved register #{i} changed from {:#x} to {:#x}", st.cin[i], st.cout[i]));
                }
            }
            if st.flags_out & 0x400 != 0 {
                err = Some("direction flag left set".into());
            }
            if st.canary_out.iter().any(|&c| c != CANARY) {
                err = Some(format!("caller's stack frame overwritten: {:#x?}", st.canary_out));
            }
            if st.cw_out & 0xf3f != st.cw_in & 0xf3f {
                err = Some(format!("x87 control word changed from {:#x} to {:#x}", st.cw_in, st.cw_out));
            }
            if st.mxcsr_out & 0xffc0 != st.mxcsr_in & 0xffc0 {
                err = Some(format!("MXCSR control bits changed from {:#x} to {:#x}", st.mxcsr_in, st.mxcsr_out));
            }
            if st.env[2] & 0xffff != 0xffff {
                err = Some(format!("x87 register stack not empty after the operation (tag word {:#x})", st.env[2] & 0xffff));
            }
            if s.bad_sp {
                err = Some("stack pointer not restored".into());
            }
        }
        Outcome {
            steps: s.steps,
            overrun: s.overrun,
            fault: s.fault,
            acc: s.acc[..s.nacc].to_vec(),
            ips: s.ips[..(s.steps as usize).min(512)].to_vec(),
            state_err: err,
        }
    }
}

/// Log faults on the arena (making the page accessible and continuing) while running `f`.
#[derive(Default)]
pub struct FaultLog {
    pub first: Option<Fault>,
    pub n: u32,
}
static mut LOG: *mut FaultLog = ptr::null_mut();
static mut LOG_ARENA: *const Arena = ptr::null();
pub fn with_fault_log<R>(l: &mut FaultLog, arena: &Arena, f: impl FnOnce() -> R) -> R {
    unsafe {
        LOG = l;
        LOG_ARENA = arena;
        let r = f();
        LOG = ptr::null_mut();
        r
    }
}
unsafe fn log_fault(sig: i32, ip: usize, addr: usize, write: bool) -> bool {
    if LOG.is_null() || !(*LOG_ARENA).contains(addr) || sig != SIGSEGV {
        return false;
    }
    (*LOG).n += 1;
    if (*LOG).n > 100 {
        return false;
    }
    if (*LOG).first.is_none() {
        (*LOG).first = Some(Fault { sig, ip, addr, write, step: 0 });
    }
    (*LOG_ARENA).prot(PROT_RW);
    true
}
