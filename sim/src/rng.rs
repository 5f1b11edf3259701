//! The only source of randomness in the simulator (xoshiro256**, seeded through splitmix64), plus the override of
//! the libc `getrandom` symbol, which makes the keys of every `std` HashMap/HashSet in a simulation thread a function
//! of the simulation's seed.

use std::cell::Cell;

thread_local! {
    static HASH_SEED: Cell<u64> = const { Cell::new(0x5eed) };
}

pub fn set_hash_seed(s: u64) {
    HASH_SEED.with(|h| h.set(s));
}

/// # Safety
/// `buf` points at `len` writable bytes (libc contract).
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = HASH_SEED.with(|h| h.get());
    for i in 0..len {
        if i % 8 == 0 {
            s = splitmix(s);
        }
        *buf.add(i) = (s >> ((i % 8) * 8)) as u8;
    }
    len as isize
}

pub fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    splitmix(a ^ splitmix(b))
}

pub struct Rng {
    s: [u64; 4],
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        let mut s = [0; 4];
        for v in s.iter_mut() {
            x = x.wrapping_add(0x9E3779B97F4A7C15);
            *v = splitmix(x);
        }
        Rng { s }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            ((self.next() as u128 * n as u128) >> 64) as u64
        }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn range128(&mut self, a: u128, b: u128) -> u128 {
        if b <= a {
            return a;
        }
        let span = b - a + 1;
        let r = ((self.next() as u128) << 64) | self.next() as u128;
        if span == 0 {
            r
        } else {
            a + r % span
        }
    }
    /// true with probability p percent
    pub fn pct(&mut self, p: u64) -> bool {
        self.below(100) < p
    }
    pub fn permille(&mut self, p: u64) -> bool {
        self.below(1000) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    /// log-uniform in [a, b]
    pub fn log(&mut self, a: u128, b: u128) -> u128 {
        if b <= a {
            return a;
        }
        let (la, lb) = ((a.max(1) as f64).ln(), (b as f64).ln());
        let f = (self.next() >> 11) as f64 / (1u64 << 53) as f64;
        let v = (la + f * (lb - la)).exp() as u128;
        v.clamp(a, b)
    }
    /// weighted index
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut r = self.below(t.max(1));
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        0
    }
}
