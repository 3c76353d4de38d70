use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        if r.0 == 0 {
            r.0 = 1;
        }
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn u128(&mut self) -> u128 {
        (self.next() as u128) << 64 | self.next() as u128
    }
    /// A value of `size` bytes from a mix of hostile classes.
    pub fn val(&mut self, size: usize, prev: u128) -> u128 {
        let m = crate::ops::mask(size);
        let bits = size * 8;
        (match self.below(12) {
            0 => 0,
            1 => m,
            2 => 1u128 << self.below(bits),
            3 => !(1u128 << self.below(bits)),
            4 | 5 => prev ^ (1u128 << self.below(bits)),
            6 => prev ^ (0xffu128 << (8 * self.below(size))),
            7 => prev ^ (m >> (bits / 2)),         // low half differs
            8 => prev ^ (m & !(m >> (bits / 2))),  // high half differs
            9 => u128::from_le_bytes([0x7f, 0x80, 0xff, 0x00, 0x01, 0x81, 0xfe, 0x55, 0xaa, 0x7f, 0x80, 0xff, 0, 1, 0xf0, 0x7f]).rotate_left(self.below(128) as u32),
            10 => 0x7ff0_0000_0000_0001_7fa0_0000_7f80_0001u128.rotate_left(8 * self.below(16) as u32), // NaN-like patterns
            _ => self.u128(),
        }) & m
    }
}

pub static VIOLATIONS: AtomicU64 = AtomicU64::new(0);
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
/// Report a violation: `V {json}`. `what` is a short stable class, `detail` the witness.
pub fn violation(what: &str, detail: &str) {
    let n = VIOLATIONS.fetch_add(1, Relaxed);
    if n < 25 {
        println!("V {{\"what\":{},\"detail\":{}}}", jstr(what), jstr(detail));
    }
}
pub fn stat(k: &str, v: u64) {
    println!("S {} {}", k, v);
}
pub fn sample(s: &str) {
    println!("X {}", jstr(s));
}
