//! The reference model: a flat list of leaves with absolute bit positions.
use crate::rng::Rng;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { UInt, SInt, Bool, Enum, CatchAll, Rz, Ro,
    /// a hand-written byte that can fail to pack or unpack (see err.rs)
    Fus }

/// One scalar that occupies the MSB0 bits start..start+width of the packed bytes.
#[derive(Debug)]
pub struct Leaf {
    pub path: &'static str,
    pub kind: Kind,
    pub start: usize,
    pub width: usize,
    /// least significant byte first
    pub lsb: bool,
    /// the numbers are signed (sign extended from the top bit of the field)
    pub signed: bool,
    /// defined discriminants for enums
    pub valid: &'static [i128],
    /// bits of the native type that carries the value
    pub tbits: usize,
}

/// One row of the visualisation / documentation table.
#[derive(Debug)]
pub struct Row { pub name: &'static str, pub start: usize, pub end: usize, pub ty: &'static str }

#[derive(Debug)]
pub struct Desc {
    pub name: &'static str,
    pub decl: &'static str,
    pub bytes: usize,
    pub bits: usize,
    pub leaves: &'static [Leaf],
    pub rows: &'static [Row],
    /// indexes of leaves grouped by declared field, for independence checks
    pub tags: &'static [&'static str],
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome { Ok(Vec<i128>), Invalid }

pub fn mask(w: usize) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }

/// Numeric value with exactly the low w bits, sign extended if signed.
pub fn wrap(v: i128, w: usize, signed: bool) -> i128 {
    let raw = (v as u128) & mask(w);
    if signed && w > 0 && w < 128 && (raw >> (w - 1)) & 1 == 1 { (raw | !mask(w)) as i128 } else { raw as i128 }
}

pub fn get_bit(b: &[u8], i: usize) -> bool { (b[i / 8] >> (7 - i % 8)) & 1 == 1 }
pub fn set_bit(b: &mut [u8], i: usize, v: bool) {
    let m = 1u8 << (7 - i % 8);
    if v { b[i / 8] |= m } else { b[i / 8] &= !m }
}

/// The position, inside the field's bit string, of the value's bit number k (0 = least significant).
pub fn bit_index(w: usize, lsb: bool, k: usize) -> usize {
    if !lsb || w <= 8 { return w - 1 - k; }
    let full = w / 8;
    let rem = w % 8;
    let byte = k / 8;
    if byte < full { byte * 8 + (7 - k % 8) } else { full * 8 + (rem - 1 - k % 8) }
}

impl Leaf {
    pub fn normal(&self, v: i128) -> i128 {
        match self.kind {
            Kind::Rz | Kind::Ro => 0,
            Kind::Bool => v,
            _ => wrap(v, self.width, self.signed),
        }
    }
    pub fn encode(&self, v: i128, out: &mut [u8]) {
        match self.kind {
            Kind::Rz => for i in 0..self.width { set_bit(out, self.start + i, false) },
            Kind::Ro => for i in 0..self.width { set_bit(out, self.start + i, true) },
            _ => for k in 0..self.width {
                let bit = if k < 127 { (v >> k) & 1 == 1 } else { v < 0 };
                set_bit(out, self.start + bit_index(self.width, self.lsb, k), bit)
            },
        }
    }
    /// None: the bits are not a valid value
    pub fn decode(&self, src: &[u8]) -> Option<i128> {
        match self.kind {
            Kind::Rz | Kind::Ro => return Some(0),
            _ => (),
        }
        let mut raw = 0u128;
        for k in 0..self.width {
            if get_bit(src, self.start + bit_index(self.width, self.lsb, k)) { raw |= 1 << k }
        }
        let v = wrap(raw as i128, self.width, self.signed);
        match self.kind {
            Kind::Bool => if v == 0 || v == 1 { Some(v) } else { None },
            Kind::Enum => if self.valid.contains(&v) { Some(v) } else { None },
            _ => Some(v),
        }
    }
    pub fn min(&self) -> i128 { if self.signed { -(1i128 << (self.width - 1)) } else { 0 } }
    pub fn max(&self) -> i128 { if self.signed { (1i128 << (self.width - 1)) - 1 } else { (1i128 << self.width) - 1 } }

    /// A representable value.
    pub fn gen(&self, rng: &mut Rng) -> i128 {
        match self.kind {
            Kind::Rz | Kind::Ro => 0,
            Kind::Bool => rng.below(2) as i128,
            Kind::Enum => self.valid[rng.below(self.valid.len())],
            Kind::Fus => rng.below(0xE0) as i128,
            Kind::CatchAll if rng.chance(1, 2) => self.valid[rng.below(self.valid.len())],
            _ => {
                let w = self.width;
                let raw = match rng.below(14) {
                    0 => 0,
                    1 => !0u128,
                    2 => 1u128 << rng.below(w),
                    3 => !(1u128 << rng.below(w)),
                    4 => 1u128 << (w - 1),
                    5 => mask(w - 1),
                    6 => 0x5555_5555_5555_5555,
                    7 => 0xAAAA_AAAA_AAAA_AAAA,
                    8 => 0x0123_4567_89AB_CDEF,
                    9 => rng.edgy() as u128,
                    10 => rng.below(300) as u128,
                    _ => rng.next() as u128,
                };
                wrap(raw as i128, w, self.signed)
            }
        }
    }
    pub fn is_reserved(&self) -> bool { matches!(self.kind, Kind::Rz | Kind::Ro) }
}

impl Desc {
    pub fn pack(&self, vals: &[i128]) -> Vec<u8> {
        let mut out = vec![0u8; self.bytes];
        for (l, v) in self.leaves.iter().zip(vals) { l.encode(*v, &mut out) }
        out
    }
    pub fn unpack(&self, src: &[u8]) -> Outcome {
        let mut r = Vec::with_capacity(self.leaves.len());
        for l in self.leaves {
            match l.decode(src) { Some(v) => r.push(v), None => return Outcome::Invalid }
        }
        Outcome::Ok(r)
    }
    /// For every bit, the index of the leaf that owns it.
    pub fn owner(&self) -> Vec<Option<usize>> {
        let mut o = vec![None; self.bytes * 8];
        for (i, l) in self.leaves.iter().enumerate() {
            for b in l.start..l.start + l.width { o[b] = Some(i) }
        }
        o
    }
    pub fn gen(&self, rng: &mut Rng) -> Vec<i128> {
        match rng.below(16) {
            0 => self.leaves.iter().map(|l| match l.kind { Kind::UInt | Kind::SInt | Kind::CatchAll => wrap(-1, l.width, l.signed), Kind::Bool => 1, Kind::Enum => *l.valid.last().unwrap(), _ => 0 }).collect(),
            1 => self.leaves.iter().map(|l| match l.kind { Kind::Enum => l.valid[0], _ => 0 }).collect(),
            _ => self.leaves.iter().map(|l| l.gen(rng)).collect(),
        }
    }
    /// Bytes to unpack: random, or the packed form of a value with some hostile perturbation.
    pub fn gen_bytes(&self, rng: &mut Rng) -> Vec<u8> {
        let n = self.bytes;
        match rng.below(11) {
            10 => (0..n).map(|_| rng.edgy() as u8).collect(),
            0 => vec![0xFF; n],
            1 => vec![0; n],
            2 | 3 => rng.bytes(n),
            4 => {
                // valid value, dirty gaps and reserved bits
                let v = self.gen(rng);
                let mut b = self.pack(&v);
                self.dirty(&mut b, rng);
                b
            }
            5 => {
                let v = self.gen(rng);
                let mut b = self.pack(&v);
                if n > 0 { let i = rng.below(n * 8); let x = get_bit(&b, i); set_bit(&mut b, i, !x) }
                b
            }
            6 => { let mut b = vec![0; n]; if n > 0 { set_bit(&mut b, rng.below(n * 8), true) } b }
            7 => { let mut b = vec![0xFF; n]; if n > 0 { set_bit(&mut b, rng.below(n * 8), false) } b }
            8 => {
                // all leaves valid but one enum / bool random
                let v = self.gen(rng);
                let mut b = self.pack(&v);
                let c: Vec<_> = self.leaves.iter().filter(|l| matches!(l.kind, Kind::Enum | Kind::CatchAll | Kind::Bool)).collect();
                if !c.is_empty() {
                    let l = c[rng.below(c.len())];
                    for i in 0..l.width { let x = rng.chance(1, 2); set_bit(&mut b, l.start + i, x) }
                }
                b
            }
            _ => { let v = self.gen(rng); self.pack(&v) }
        }
    }
    /// Randomises the bits that carry no value.
    pub fn dirty(&self, b: &mut [u8], rng: &mut Rng) {
        for (i, o) in self.owner().iter().enumerate() {
            let free = match o { None => true, Some(l) => self.leaves[*l].is_reserved() };
            if free { let x = rng.chance(1, 2); set_bit(b, i, x) }
        }
    }
}
