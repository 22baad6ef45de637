//! Deterministic primitives of the simulator: the seeded generator and the model cryptography
//! (keyed mixing functions that behave as the real ones do towards honest and dishonest parties
//! inside the simulation: any change of any input byte changes the output).

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed ^ 0x5bd1e995_12345678;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn byte(&mut self) -> u8 {
        self.next() as u8
    }
    pub fn fill(&mut self, b: &mut [u8]) {
        for c in b.chunks_mut(8) {
            let v = self.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        self.fill(&mut v);
        v
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.usize(v.len())]
    }
    /// index chosen by integer weights
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.below(total.max(1));
        for (i, v) in w.iter().enumerate() {
            if x < *v {
                return i;
            }
            x -= *v;
        }
        w.len() - 1
    }
}

#[inline]
fn fold(a: u64, b: u64) -> u64 {
    let m = (a as u128).wrapping_mul(b as u128);
    (m as u64) ^ ((m >> 64) as u64)
}

/// 256-bit absorbing mixer.
#[derive(Clone)]
pub struct Mix {
    s: [u64; 4],
    n: u64,
}

impl Mix {
    pub fn new(domain: u64) -> Mix {
        Mix {
            s: [
                domain ^ 0xa0761d6478bd642f,
                domain.rotate_left(17) ^ 0xe7037ed1a0b428db,
                domain.rotate_left(31) ^ 0x8ebc6af09c88c6e3,
                domain.rotate_left(47) ^ 0x589965cc75374cc3,
            ],
            n: 0,
        }
    }
    #[inline]
    fn word(&mut self, w: u64) {
        let s = &mut self.s;
        s[0] = fold(s[0] ^ w, 0x9E3779B97F4A7C15 ^ s[1]).wrapping_add(s[3]);
        s[1] = (s[1] ^ w.rotate_left(23)).wrapping_mul(0xff51afd7ed558ccd) ^ s[0];
        s[2] = (s[2].wrapping_add(w ^ s[1])).rotate_left(29).wrapping_mul(0xc4ceb9fe1a85ec53);
        s[3] = s[3].rotate_left(41) ^ s[2] ^ w.wrapping_mul(0xd6e8feb86659fd93);
    }
    /// length-delimited absorb, so that part boundaries matter
    pub fn part(&mut self, b: &[u8]) {
        self.word(b.len() as u64 ^ 0x1234567);
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            self.word(u64::from_le_bytes([
                c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7],
            ]));
        }
        let r = it.remainder();
        if !r.is_empty() {
            let mut t = [0u8; 8];
            t[..r.len()].copy_from_slice(r);
            self.word(u64::from_le_bytes(t) ^ 0x8000000000000000);
        }
        self.n += 1;
    }
    pub fn num(&mut self, x: u64) {
        self.word(x);
    }
    pub fn squeeze(mut self, out: &mut [u8]) {
        for i in 0..6 {
            self.word(0xf00d + i);
        }
        for c in out.chunks_mut(16) {
            self.word(0xbeef);
            self.word(0xcafe);
            let mut v = [0u8; 16];
            v[..8].copy_from_slice(&(self.s[0] ^ self.s[2]).to_le_bytes());
            v[8..].copy_from_slice(&(self.s[1] ^ self.s[3]).to_le_bytes());
            c.copy_from_slice(&v[..c.len()]);
        }
    }
    pub fn u64(self) -> u64 {
        let mut b = [0u8; 8];
        self.squeeze(&mut b);
        u64::from_le_bytes(b)
    }
}

pub fn mix(domain: u64, parts: &[&[u8]], n: usize) -> Vec<u8> {
    let mut m = Mix::new(domain);
    for p in parts {
        m.part(p);
    }
    let mut v = vec![0u8; n];
    m.squeeze(&mut v);
    v
}

pub fn mix64(domain: u64, parts: &[&[u8]]) -> u64 {
    let mut m = Mix::new(domain);
    for p in parts {
        m.part(p);
    }
    m.u64()
}

// ---- model cryptography -------------------------------------------------------------------

pub const D_HASH: u64 = 1;
pub const D_HMAC: u64 = 2;
pub const D_EXTRACT: u64 = 3;
pub const D_EXPAND: u64 = 4;
pub const D_SIG: u64 = 5;
pub const D_STREAM: u64 = 6;
pub const D_TAG: u64 = 7;
pub const D_KEY: u64 = 8;
pub const D_CERTSIG: u64 = 9;
pub const D_DHEPAD: u64 = 10;

pub fn m_hash(algo: u32, size: usize, data: &[u8]) -> Vec<u8> {
    mix(D_HASH ^ ((algo as u64) << 8), &[data], size)
}
pub fn m_hmac(algo: u32, size: usize, key: &[u8], data: &[u8]) -> Vec<u8> {
    mix(D_HMAC ^ ((algo as u64) << 8), &[key, data], size)
}
pub fn m_extract(algo: u32, size: usize, salt: &[u8], ikm: &[u8]) -> Vec<u8> {
    mix(D_EXTRACT ^ ((algo as u64) << 8), &[salt, ikm], size)
}
/// like HKDF-Expand: a longer output extends a shorter one
pub fn m_expand(algo: u32, prk: &[u8], info: &[u8], size: usize) -> Vec<u8> {
    mix(D_EXPAND ^ ((algo as u64) << 8), &[prk, info], size)
}

/// The Diffie-Hellman group of the model: exponentiation modulo 2^61-1.
pub const DH_P: u64 = (1 << 61) - 1;
pub fn dh_pow(mut b: u64, mut e: u64) -> u64 {
    let mut r = 1u64;
    b %= DH_P;
    while e > 0 {
        if e & 1 == 1 {
            r = (r as u128 * b as u128 % DH_P as u128) as u64;
        }
        b = (b as u128 * b as u128 % DH_P as u128) as u64;
        e >>= 1;
    }
    r
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok())
        .collect()
}
