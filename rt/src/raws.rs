//! Hand-written packed types, used as nested fields. They follow the documented contract:
//! the bits are aligned to the end of the byte array.
use packed_struct::prelude::*;
use crate::rng::Rng;
use crate::seq::Elem;
use packed_struct::types::bits::ByteArray;
use packed_struct::{PackedStructInfo, PackedStructSlice, PackingError, PackingResult};

macro_rules! raw {
    ($n:ident, $t:ty, $bytes:expr, $bits:expr) => {
        #[derive(Clone, Copy, PartialEq, Debug, Default)]
        pub struct $n(pub $t);
        impl PackedStruct for $n {
            type ByteArray = [u8; $bytes];
            fn pack(&self) -> PackingResult<[u8; $bytes]> {
                let mut o = [0u8; $bytes];
                for k in 0..$bits { if (self.0 >> k) & 1 == 1 { o[$bytes - 1 - k / 8] |= 1 << (k % 8) } }
                Ok(o)
            }
            fn unpack(src: &[u8; $bytes]) -> PackingResult<Self> {
                let mut v: $t = 0;
                for k in 0..$bits { if (src[$bytes - 1 - k / 8] >> (k % 8)) & 1 == 1 { v |= 1 << k } }
                Ok($n(v))
            }
        }
        impl PackedStructInfo for $n { fn packed_bits() -> usize { $bits } }
    };
}
raw!(Raw3, u8, 1, 3);
raw!(Raw7, u8, 1, 7);
raw!(Raw8, u8, 1, 8);
raw!(Raw12, u16, 2, 12);
raw!(Raw17, u32, 3, 17);
raw!(Raw24, u32, 3, 24);
raw!(Raw33, u64, 5, 33);
raw!(Raw40, u64, 5, 40);
raw!(Raw57, u64, 8, 57);
raw!(Raw64, u64, 8, 64);
raw!(Raw65, u128, 9, 65);
raw!(Raw100, u128, 13, 100);
raw!(Raw120, u128, 15, 120);

/// A wide opaque block: N bytes, every byte is a value.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Blk<const N: usize>(pub [u8; N]);
impl<const N: usize> PackedStruct for Blk<N> {
    type ByteArray = [u8; N];
    fn pack(&self) -> PackingResult<[u8; N]> { Ok(self.0) }
    fn unpack(src: &[u8; N]) -> PackingResult<Self> { Ok(Blk(*src)) }
}
impl<const N: usize> PackedStructInfo for Blk<N> { fn packed_bits() -> usize { N * 8 } }

// ---------------------------------------------------------------- other carriers than [u8; N]
/// Byte arrays that are no plain arrays: on the heap behind a marker, and aligned within a bigger
/// value. Only the ByteArray interface gives access to the bytes.
const MARK: u64 = 0x5AFE_B0A7_1234_5678;
#[derive(Clone, Debug)]
pub struct HeapBytes<const N: usize> { mark: u64, data: Vec<u8> }
#[derive(Clone, Debug)]
#[repr(align(32))]
pub struct AlignedBytes<const N: usize> { mark: u64, data: [u8; N] }
macro_rules! carrier {
    ($T:ident, |$v:ident| $new:expr) => {
        impl<const N: usize> ByteArray for $T<N> {
            fn len() -> usize { N }
            fn as_bytes_slice(&self) -> &[u8] { assert_eq!(self.mark, MARK); &self.data[..] }
            fn as_mut_bytes_slice(&mut self) -> &mut [u8] { assert_eq!(self.mark, MARK); &mut self.data[..] }
            fn rotate_right(&mut self, n: usize) { self.as_mut_bytes_slice().rotate_right(n) }
            fn new($v: u8) -> Self { $T { mark: MARK, data: $new } }
        }
    };
}
carrier!(HeapBytes, |v| vec![v; N]);
carrier!(AlignedBytes, |v| [v; N]);

macro_rules! carried {
    ($($S:ident $T:ident;)*) => { $(
        /// Packs to its bytes in reverse.
        #[derive(Clone, PartialEq, Debug)]
        pub struct $S<const N: usize>(pub [u8; N]);
        impl<const N: usize> PackedStruct for $S<N> {
            type ByteArray = $T<N>;
            fn pack(&self) -> PackingResult<$T<N>> {
                let mut o = $T::<N>::new(0xEE);
                for (i, b) in self.0.iter().rev().enumerate() { o.as_mut_bytes_slice()[i] = *b }
                Ok(o)
            }
            fn unpack(src: &$T<N>) -> PackingResult<Self> {
                let mut o = [0; N];
                for (i, b) in src.as_bytes_slice().iter().rev().enumerate() { o[i] = *b }
                if N > 0 && o[0] == 0xBD { return Err(PackingError::InvalidValue) }
                Ok($S(o))
            }
        }
        impl<const N: usize> PackedStructInfo for $S<N> { fn packed_bits() -> usize { N * 8 } }
        impl<const N: usize> Elem for $S<N> {
            fn g(r: &mut Rng) -> Self { let mut a = <[u8; N] as Elem>::g(r); if N > 0 && a[0] == 0xBD { a[0] = 1 } $S(a) }
            fn mp(&self) -> Vec<u8> { self.0.iter().rev().cloned().collect() }
            fn st() -> Option<usize> { Some(N) }
            fn mu(b: &[u8]) -> PackingResult<Self> {
                if b.len() != N { return Err(PackingError::BufferSizeMismatch { expected: N, actual: b.len() }) }
                let mut o = [0; N];
                for i in 0..N { o[i] = b[N - 1 - i] }
                if N > 0 && o[0] == 0xBD { Err(PackingError::InvalidValue) } else { Ok($S(o)) }
            }
            fn text(&self) -> String { format!("{:?}", &self.0[..]) }
            fn gb(r: &mut Rng) -> Vec<u8> { let mut b = r.bytes(N); if N > 0 && r.chance(1, 9) { b[N - 1] = 0xBD } b }
        }
    )* }
}
carried! { OnHeap HeapBytes; Aligned AlignedBytes; }

/// A hand-written packer of slices with a fixed size that is not a PackedStruct.
#[derive(Clone, PartialEq, Debug)]
pub struct Direct<const N: usize>(pub [u8; N]);
impl<const N: usize> PackedStructSlice for Direct<N> {
    fn pack_to_slice(&self, output: &mut [u8]) -> PackingResult<()> {
        if output.len() != N { return Err(PackingError::BufferSizeMismatch { expected: N, actual: output.len() }) }
        // writes only what isn't there yet
        for i in 0..N { if output[i] != !self.0[i] { output[i] = !self.0[i] } }
        Ok(())
    }
    fn unpack_from_slice(src: &[u8]) -> PackingResult<Self> {
        if src.len() != N { return Err(PackingError::BufferSizeMismatch { expected: N, actual: src.len() }) }
        let mut o = [0; N];
        for i in 0..N { o[i] = !src[i] }
        Ok(Direct(o))
    }
    fn packed_bytes_size(_: Option<&Self>) -> PackingResult<usize> { Ok(N) }
}
impl<const N: usize> Elem for Direct<N> {
    fn g(r: &mut Rng) -> Self { Direct(<[u8; N] as Elem>::g(r)) }
    fn mp(&self) -> Vec<u8> { self.0.iter().map(|b| !b).collect() }
    fn st() -> Option<usize> { Some(N) }
    fn mu(b: &[u8]) -> PackingResult<Self> {
        if b.len() != N { return Err(PackingError::BufferSizeMismatch { expected: N, actual: b.len() }) }
        let mut o = [0; N];
        for i in 0..N { o[i] = !b[i] }
        Ok(Direct(o))
    }
    fn text(&self) -> String { format!("{:?}", &self.0[..]) }
    fn gb(r: &mut Rng) -> Vec<u8> { r.bytes(N) }
}

/// A hand-written type of varying size that is no vector. Its packed bytes start with their number.
#[derive(Clone, PartialEq, Debug)]
pub struct Prefixed(pub Vec<u8>);
impl PackedStructSlice for Prefixed {
    fn pack_to_slice(&self, output: &mut [u8]) -> PackingResult<()> {
        let n = self.0.len() + 1;
        if output.len() != n { return Err(PackingError::BufferSizeMismatch { expected: n, actual: output.len() }) }
        output[0] = self.0.len() as u8;
        output[1..].copy_from_slice(&self.0);
        Ok(())
    }
    fn unpack_from_slice(src: &[u8]) -> PackingResult<Self> { Self::mu(src) }
    fn packed_bytes_size(s: Option<&Self>) -> PackingResult<usize> { s.map(|s| s.0.len() + 1).ok_or(PackingError::InstanceRequiredForSize) }
}
impl Elem for Prefixed {
    fn g(r: &mut Rng) -> Self { let n = r.below(6); Prefixed(r.bytes(n)) }
    fn mp(&self) -> Vec<u8> { let mut v = vec![self.0.len() as u8]; v.extend(&self.0); v }
    fn st() -> Option<usize> { None }
    fn mu(b: &[u8]) -> PackingResult<Self> { if b.is_empty() || b[0] as usize != b.len() - 1 { Err(PackingError::InvalidValue) } else { Ok(Prefixed(b[1..].to_vec())) } }
    fn text(&self) -> String { format!("{:?}", self.0) }
    fn gb(r: &mut Rng) -> Vec<u8> { if r.chance(1, 5) { let n = r.below(5); r.bytes(n) } else { Self::g(r).mp() } }
}
