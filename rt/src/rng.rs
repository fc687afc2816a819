//! Deterministic PRNG (splitmix64 seeded xoshiro256**), no external crates.
/// Set when executing one step is expensive (interpreters): no long histories or big inputs.
pub static LIGHT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng { s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)] }
    }
    pub fn named(seed: u64, name: &str) -> Self {
        Rng::new(seed ^ hash_bytes(name.as_bytes()))
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    /// A number of items: mostly few, sometimes around a power of two.
    pub fn items(&mut self, few: &[usize]) -> usize {
        if self.chance(1, 24) && !LIGHT.load(std::sync::atomic::Ordering::Relaxed) { (1usize << (5 + self.below(6))) + self.below(3) - 1 } else { few[self.below(few.len())] }
    }
    /// Every byte is likely an edge of its own.
    pub fn edgy(&mut self) -> u64 { (0..8).fold(0, |a, _| a << 8 | [0, 0, 0xFF, 0xFF, 0x80, 0x7F, 1, self.next() & 0xFF][self.below(8)]) }
    /// `n` bytes made from a good buffer of another length: cut off, padded, repeated.
    pub fn unfit(&mut self, good: &[u8], n: usize) -> Vec<u8> {
        let g = good.len();
        match self.below(8) {
            0 => vec![0; n],
            1 => vec![0xFF; n],
            2 | 3 => { let mut v = good[..g.min(n)].to_vec(); let x = [0, 0, 0xFF, v.last().copied().unwrap_or(1), self.next() as u8][self.below(5)]; v.resize(n, x); v }
            4 => { let mut v = vec![0; n.saturating_sub(g)]; v.extend_from_slice(&good[g - g.min(n)..]); v }
            5 if g > 0 => good.iter().cycle().take(n).copied().collect(),
            6 => { let mut v = good[..g.min(n)].to_vec(); let r = self.bytes(n - v.len()); v.extend(r); v }
            _ => self.bytes(n),
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n);
        while v.len() < n {
            let x = self.next().to_le_bytes();
            for b in x { if v.len() < n { v.push(b) } }
        }
        v
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); }
    let mut h2 = h;
    splitmix(&mut h2)
}
pub fn hash_vals(name: &str, v: &[i128]) -> u64 {
    let mut h = hash_bytes(name.as_bytes());
    for x in v { h = (h.rotate_left(5) ^ (*x as u64) ^ ((*x >> 64) as u64).wrapping_mul(3)).wrapping_mul(0x9E3779B97F4A7C15); }
    h
}
