//! Runs inline assembly blocks under many register allocations with every other piece of machine
//! state filled with known values, and checks the declared contract. Tables are generated.
#![allow(static_mut_refs, dead_code)]
use std::io::Write;

#[cfg(target_pointer_width = "64")]
const NG: usize = 16;
#[cfg(target_pointer_width = "32")]
const NG: usize = 8;
#[cfg(target_pointer_width = "64")]
const NX: usize = 16;
#[cfg(target_pointer_width = "32")]
const NX: usize = 8;
type W = usize;

#[repr(C, align(64))]
pub struct St {
    g: [W; NG],
    x: [[u64; 2]; NX],
    f: W,
    sp: W,
    mxcsr: u32,
    pad: [u32; 3],
    x87: [u8; 128],
}
const ZERO: St = St { g: [0; NG], x: [[0; 2]; NX], f: 0, sp: 0, mxcsr: 0x1f80, pad: [0; 3], x87: [0; 128] };
#[no_mangle]
static mut VF_IN: St = ZERO;
#[no_mangle]
static mut VF_OUT: St = ZERO;
#[no_mangle]
static mut VF_FN: W = 0;
#[no_mangle]
static mut VF_SP: W = 0;
#[no_mangle]
static mut VF_ZONE: W = 0;
#[repr(C, align(64))]
struct Slots([[u8; 64]; 8]);
static mut SLOTS: Slots = Slots([[0; 64]; 8]);
static mut WHERE: (usize, usize) = (0, 0);

/// Where an input comes from / an output goes to.
#[derive(Clone, Copy)]
pub enum R {
    G(u8),
    X(u8),
}
/// (register, argument index)
pub struct In(R, u8);
/// (register, bits, index, used, low byte only)
pub struct Out(R, u16, u8, bool, bool);
pub struct Variant {
    f: usize,
    ins: &'static [In],
    outs: &'static [Out],
    /// further clobbered registers
    clob_g: u32,
    clob_x: u32,
    /// arguments i and j carry the same value
    same: (u8, u8),
    text: &'static str,
}
/// 0: pointer, otherwise integer or float bits; constant, if any
pub struct Arg(u16, Option<i64>);
pub struct Blk {
    name: &'static str,
    args: &'static [Arg],
    flags: bool,
    st: bool,
    nostack: bool,
    /// 0 no access, 1 reads, 2 writes
    mem: u8,
    /// the compiler may drop or merge executions
    pure: bool,
    variants: &'static [Variant],
}

extern "C" {
    fn vf_run();
    fn sigaction(s: i32, new: *const Sa, old: *mut Sa) -> i32;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn sigaltstack(new: *const Ss, old: usize) -> i32;
}
#[repr(C)]
struct Sa {
    handler: usize,
    mask: [u8; 128],
    flags: i32,
    restorer: usize,
}
#[repr(C)]
struct Ss {
    sp: usize,
    flags: i32,
    size: usize,
}
/// Calls made so far; call and instruction count since the alarm.
static mut CALLS: u64 = 0;
static mut STUCK: (u64, u64) = (0, 0);
extern "C" fn died(s: i32, _: usize, ctx: *mut u8) {
    unsafe {
        #[cfg(target_pointer_width = "64")]
        let flags = ctx.add(40 + 17 * 8) as *mut W;
        #[cfg(target_pointer_width = "32")]
        let flags = ctx.add(20 + 16 * 4) as *mut W;
        if s == 14 {
            // slow, or a block that never ends: count its instructions
            STUCK = (CALLS, 0);
            *flags |= 0x100;
            return;
        }
        if s == 5 && STUCK.0 != 0 {
            if STUCK.0 != CALLS {
                STUCK = (0, 0);
                *flags &= !0x100;
                alarm(10);
                return;
            }
            STUCK.1 += 1;
            if STUCK.1 < 1_000_000 {
                return;
            }
            let b = &BLOCKS[WHERE.0];
            let v = &b.variants[WHERE.1];
            println!("V {{\"what\":\"contract\",\"detail\":\"{}: still running after a million instructions, allocation {}\"}}", b.name, v.text);
            println!("DONE");
            std::io::stdout().flush().ok();
            _exit(0)
        }
        let b = &BLOCKS[WHERE.0];
        let v = &b.variants[WHERE.1];
        if s != 14 {
            println!("V {{\"what\":\"contract\",\"detail\":\"{}: signal {} inside the block, allocation {}\"}}", b.name, s, v.text);
            println!("DONE");
        }
        std::io::stdout().flush().ok();
        _exit(0)
    }
}
fn rnd(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
const ARITH: W = 0x8d5 | 0x400;
fn name_g(i: usize) -> &'static str {
    ["ax", "cx", "dx", "bx", "sp", "bp", "si", "di", "8", "9", "10", "11", "12", "13", "14", "15"][i]
}
/// The x86-64 ABI's red zone; there is none on i686.
const ZONE: usize = if NG == 16 { 128 } else { 0 };

/// Inputs in their registers, everything else filled with noise.
unsafe fn noise(b: &Blk, w: &Variant, vals: &[[u64; 2]; 16], seed: &mut u64) {
    unsafe {
        // everything not an input is filled with noise
        VF_IN.x87 = [0; 128];
        VF_IN.x87[0..2].copy_from_slice(&0x37fu16.to_le_bytes());
        // empty x87 stack when the block declares it, full otherwise
        let tags: u16 = if b.st { 0xffff } else { 0x0000 };
        VF_IN.x87[8..10].copy_from_slice(&tags.to_le_bytes());
        for i in 0..8 {
            let r = rnd(seed) | 1 << 63;
            VF_IN.x87[28 + 10 * i..36 + 10 * i].copy_from_slice(&r.to_le_bytes());
            VF_IN.x87[36 + 10 * i..38 + 10 * i].copy_from_slice(&(0x3fffu16 + i as u16).to_le_bytes());
        }
        for i in 0..NG {
            VF_IN.g[i] = rnd(seed) as W;
        }
        for i in 0..NX {
            VF_IN.x[i] = [rnd(seed), rnd(seed)];
        }
        VF_IN.f = 0x202 | (rnd(seed) as W & ARITH & !0x400);
        VF_IN.mxcsr = 0x1f80 | (rnd(seed) as u32 & 0x6000);
        for i in w.ins {
            let a = &b.args[i.1 as usize];
            let val = vals[i.1 as usize];
            match i.0 {
                R::G(g) => {
                    let bits = if a.0 == 0 { PTR } else { a.0 };
                    let mask = if bits as u32 >= W::BITS { !0 } else { (1 << bits) - 1 };
                    // bits of the register above the value are not specified
                    VF_IN.g[g as usize] = (val[0] as W & mask) | (VF_IN.g[g as usize] & !mask);
                }
                R::X(g) => {
                    let g = g as usize;
                    match a.0 {
                        32 => VF_IN.x[g][0] = VF_IN.x[g][0] & !0xffff_ffff | val[0] & 0xffff_ffff,
                        64 => VF_IN.x[g][0] = val[0],
                        _ => VF_IN.x[g] = val,
                    }
                }
            }
        }
    }
}

/// Output bits of one run in memory `mem`.
unsafe fn outputs(b: &Blk, w: &Variant, vals: &[[u64; 2]; 16], mem: &[[u8; 64]; 8], seed: &mut u64) -> [[u64; 2]; 16] {
    unsafe {
        SLOTS.0 = *mem;
        noise(b, w, vals, seed);
        VF_FN = w.f;
        VF_OUT = ZERO;
        CALLS += 1;
        vf_run();
        CALLS += 1;
        let mut r = [[0; 2]; 16];
        for o in w.outs {
            if o.3 {
                r[o.2 as usize] = match o.0 {
                    R::G(g) => [VF_OUT.g[g as usize] as u64 & if o.1 >= 64 { !0 } else { (1u64 << o.1) - 1 }, 0],
                    R::X(g) => match o.1 {
                        32 => [VF_OUT.x[g as usize][0] & 0xffff_ffff, 0],
                        64 => [VF_OUT.x[g as usize][0], 0],
                        _ => VF_OUT.x[g as usize],
                    },
                };
            }
        }
        r
    }
}

fn main() {
    let mut seed: u64 = std::env::args().nth(2).and_then(|a| a.parse().ok()).unwrap_or(1);
    let reps: usize = std::env::args().nth(3).and_then(|a| a.parse::<usize>().ok()).unwrap_or(1) * 24;
    let mut bad = 0;
    let (mut runs, mut succ, mut pure_blocks) = (0u64, 0u64, 0u64);
    let mut digests = std::collections::HashSet::new();
    unsafe {
        let alt = Box::leak(vec![0u8; 1 << 16].into_boxed_slice());
        sigaltstack(&Ss { sp: alt.as_mut_ptr() as usize, flags: 0, size: 1 << 16 }, 0);
        for s in [4, 5, 7, 8, 11, 14] {
            let a = Sa { handler: died as usize, mask: [0; 128], flags: 4 | 0x0800_0000, restorer: 0 };
            sigaction(s, &a, core::ptr::null_mut());
        }
        alarm(10);
        for (bi, b) in BLOCKS.iter().enumerate() {
            let mut dont_care = ([[0u64; 2]; 16], [[0u8; 64]; 8]);
            if b.mem == 0 || b.pure {
                // does the result depend on memory?
                WHERE = (bi, 0);
                let (mut noisy, mut changed) = ([[0u64; 2]; 16], [[0u64; 2]; 16]);
                for _ in 0..96 {
                    let (mut mem, mut mem2) = ([[0u8; 64]; 8], [[0u8; 64]; 8]);
                    for i in 0..512 {
                        (mem[i / 64][i % 64], mem2[i / 64][i % 64]) = (rnd(&mut seed) as u8, rnd(&mut seed) as u8);
                    }
                    let mut vals = [[0u64; 2]; 16];
                    for (i, a) in b.args.iter().enumerate() {
                        vals[i] = match a {
                            Arg(0, _) => [SLOTS.0[i % 8].as_ptr() as u64 + 16, 0],
                            Arg(_, Some(c)) => [*c as u64, 0],
                            _ => [rnd(&mut seed), rnd(&mut seed)],
                        };
                    }
                    let v = &b.variants[0];
                    let x = outputs(b, v, &vals, &mem, &mut seed);
                    let y = outputs(b, v, &vals, &mem, &mut seed);
                    let z = outputs(b, v, &vals, &mem2, &mut seed);
                    runs += 3;
                    for i in 0..16 {
                        for k in 0..2 {
                            noisy[i][k] |= x[i][k] ^ y[i][k];
                            changed[i][k] |= x[i][k] ^ z[i][k];
                        }
                    }
                }
                pure_blocks += 1;
                if (0..16).any(|i| (0..2).any(|k| changed[i][k] & !noisy[i][k] != 0)) {
                    if b.mem == 0 {
                        println!("V {{\"what\":\"contract\",\"detail\":\"{}: the result depends on memory, but the block declares that it does not access memory\"}}", b.name);
                    }
                    if b.pure {
                        println!("V {{\"what\":\"store-not-seen\",\"detail\":\"{}: the result depends on memory, but the compiler is told that the block may be merged with another execution of it\"}}", b.name);
                    }
                }
            }
            for (vi, v) in b.variants.iter().enumerate() {
                WHERE = (bi, vi);
                for rep in 0..reps {
                    // memory and argument values, the same for the canonical allocation and this one
                    let mut mem = [[0u8; 64]; 8];
                    let mode = rnd(&mut seed);
                    for (i, s) in mem.iter_mut().enumerate() {
                        for j in 0..8 {
                            let x = rnd(&mut seed);
                            s[8 * j..8 * j + 8].copy_from_slice(&x.to_le_bytes());
                        }
                        let _ = i;
                    }
                    if mode & 1 != 0 {
                        for i in 1..8 {
                            if mode >> (8 + i) & 3 != 0 {
                                mem[i] = mem[0];
                            }
                        }
                    }
                    let mut vals = [[0u64; 2]; 16];
                    let mut slot = 0;
                    let mut word = 0;
                    for (i, a) in b.args.iter().enumerate() {
                        vals[i] = [rnd(&mut seed), rnd(&mut seed)];
                        if a.0 == 0 {
                            vals[i][0] = SLOTS.0[slot].as_ptr() as u64 + 16;
                            slot += 1;
                        } else if let Some(c) = a.1 {
                            vals[i] = [c as u64, 0];
                        } else if mode & 2 != 0 {
                            // values found in memory, so that comparisons succeed
                            let n = (a.0 as usize / 8).clamp(1, 8);
                            let k = if mode & 4 != 0 { word } else { (rnd(&mut seed) % 2) as usize * n };
                            let mut t = [0u8; 8];
                            t.copy_from_slice(&mem[0][16 + k..24 + k]);
                            vals[i][0] = u64::from_le_bytes(t);
                            word = (word + n) % 32;
                        }
                    }
                    if v.same != (0, 0) {
                        vals[v.same.1 as usize] = vals[v.same.0 as usize];
                    }
                    let mut results = [([[0u64; 2]; 16], mem), ([[0u64; 2]; 16], mem), ([[0u64; 2]; 16], mem)];
                    // pass 0: canonical allocation, 1: this one, later: canonical again with other noise, to
                    // learn which result bits are not determined by the inputs
                    let mut pass = 0;
                    let mut differs = false;
                    loop {
                        let w = if pass == 1 { v } else { &b.variants[0] };
                        let slot_no = pass.min(2);
                        if vi == 0 && pass > 0 {
                            break;
                        }
                        SLOTS.0 = mem;
                        noise(b, w, &vals, &mut seed);
                        VF_FN = w.f;
                        VF_OUT = ZERO;
                        CALLS += 1;
                        vf_run();
                        CALLS += 1;
                        runs += 1;
                        let mut say = |s: String| {
                            if bad < 30 {
                                bad += 1;
                                println!("V {{\"what\":\"contract\",\"detail\":\"{}: {} (allocation {})\"}}", b.name, s, w.text);
                            }
                        };
                        let mut free_g = w.clob_g | 1 << 4;
                        let mut free_x = w.clob_x;
                        for o in w.outs {
                            match o.0 {
                                R::G(g) => {
                                    free_g |= 1 << g;
                                    results[slot_no].0[o.2 as usize] = if o.3 {
                                        let bits = o.1 as u32;
                                        let m = if bits >= 64 { !0 } else { (1u64 << bits) - 1 };
                                        [VF_OUT.g[g as usize] as u64 & m, 0]
                                    } else {
                                        [0; 2]
                                    };
                                    // a byte output leaves the second byte of the register alone (32-bit: a register of its own)
                                    if o.4 && NG == 8 && !w.outs.iter().any(|p| !p.4 && matches!(p.0, R::G(h) if h == g)) && w.clob_g & 1 << g == 0 && (VF_OUT.g[g as usize] ^ VF_IN.g[g as usize]) & 0xff00 != 0 {
                                        say(format!("the second byte of {} changes although only the low byte is declared as output", name_g(g as usize)));
                                    }
                                }
                                R::X(g) => {
                                    free_x |= 1 << g;
                                    results[slot_no].0[o.2 as usize] = match (o.3, o.1) {
                                        (false, _) => [0; 2],
                                        (_, 32) => [VF_OUT.x[g as usize][0] & 0xffff_ffff, 0],
                                        (_, 64) => [VF_OUT.x[g as usize][0], 0],
                                        _ => VF_OUT.x[g as usize],
                                    };
                                }
                            }
                        }
                        for g in 0..NG {
                            if free_g & 1 << g == 0 && VF_IN.g[g] != VF_OUT.g[g] {
                                let what = if w.ins.iter().any(|i| matches!(i.0, R::G(h) if h as usize == g)) { "input" } else { "not declared" };
                                say(format!("changes {} ({})", name_g(g), what));
                            }
                        }
                        for g in 0..NX {
                            if free_x & 1 << g == 0 && VF_IN.x[g] != VF_OUT.x[g] {
                                say(format!("changes xmm{} which is not declared", g));
                            }
                        }
                        if VF_OUT.sp != VF_SP {
                            say("does not restore the stack pointer".into());
                        }
                        if !b.flags && (VF_OUT.f ^ VF_IN.f) & (ARITH & !0x400) != 0 {
                            say(format!("changes the flags ({:#x} to {:#x}) but declares that it preserves them", VF_IN.f & 0xfff, VF_OUT.f & 0xfff));
                        }
                        if VF_OUT.f & 0x400 != 0 {
                            say("leaves the direction flag set".into());
                        }
                        if (VF_OUT.mxcsr ^ VF_IN.mxcsr) & 0xffc0 != 0 || VF_OUT.x87[0..2] != VF_IN.x87[0..2] {
                            say("changes the floating point control word".into());
                        }
                        if VF_OUT.x87[8..10] != VF_IN.x87[8..10] {
                            say("does not restore the x87 stack".into());
                        }
                        if !b.st && VF_OUT.x87[28..108] != VF_IN.x87[28..108] {
                            say("changes x87 registers".into());
                        }
                        // below the stack pointer of the block: data of the surrounding function (red zone)
                        if b.nostack {
                            let z = core::slice::from_raw_parts((VF_SP - W::BITS as usize / 8 - ZONE) as *const u8, ZONE);
                            if z.iter().any(|&x| x != 0xA5) {
                                say("writes below the stack pointer but declares that it does not use the stack".into());
                            }
                        }
                        results[slot_no].1 = SLOTS.0;
                        if SLOTS.0 != mem {
                            succ += 1;
                            if b.mem < 2 {
                                say("writes memory but declares that it does not".into());
                            }
                        }
                        digests.insert((bi, results[slot_no].0[0], results[slot_no].0[1], rep as u64 * u64::from(vi != 0)));
                        if pass >= 2 {
                            for i in 0..16 {
                                for k in 0..2 {
                                    dont_care.0[i][k] |= results[2].0[i][k] ^ results[0].0[i][k];
                                }
                            }
                            for i in 0..8 {
                                for k in 0..64 {
                                    dont_care.1[i][k] |= results[2].1[i][k] ^ results[0].1[i][k];
                                }
                            }
                        }
                        let eq = vi == 0 || pass == 0 || {
                            (0..16).all(|i| (0..2).all(|k| (results[0].0[i][k] ^ results[1].0[i][k]) & !dont_care.0[i][k] == 0))
                                && (0..8).all(|i| (0..64).all(|k| (results[0].1[i][k] ^ results[1].1[i][k]) & !dont_care.1[i][k] == 0))
                        };
                        pass += 1;
                        differs = !eq;
                        if pass >= 2 && eq || pass == 66 {
                            break;
                        }
                    }
                    if differs && bad < 30 {
                        bad += 1;
                        println!("V {{\"what\":\"contract\",\"detail\":\"{}: with allocation {} instead of {} the block gives {:x?} for {:x?} (memory {})\"}}", b.name, v.text, b.variants[0].text, &results[1].0[..4], &results[0].0[..4], if results[0].1 == results[1].1 { "same" } else { "different" });
                    }
                }
            }
        }
        let nv: usize = BLOCKS.iter().map(|b| b.variants.len()).sum();
        println!("X \"{} blocks, {} register allocations; first: {} {}\"", BLOCKS.len(), nv, BLOCKS[0].name, BLOCKS[0].variants[nv.min(1).min(BLOCKS[0].variants.len() - 1)].text);
        println!("S asm_blocks {}", BLOCKS.len());
        println!("S register_allocations {}", nv);
        println!("S block_runs {}", runs);
        println!("S blocks_checked_for_undeclared_reads {}", pure_blocks);
        println!("S block_runs_changing_memory {}", succ);
        println!("S distinct_block_results {}", digests.len());
    }
    println!("DONE");
}
