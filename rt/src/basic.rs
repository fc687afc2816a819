//! Monitors for the width types, byte arrays, reserved types and other building blocks.
use crate::report::*;
use crate::rng::*;
use packed_struct::prelude::*;
use packed_struct::types::bits::*;
use packed_struct::{PackedStructInfo, PackingResult};

pub struct BitsOps {
    pub n: usize,
    /// number_of_bits, byte_array_len, number_of_bytes, length of the byte array
    pub sizes: fn() -> Vec<usize>,
    /// reserved zero and one: packed_bits, sizes, texts, packed bytes
    pub reserved: fn() -> Vec<(Vec<usize>, Vec<String>, PackingResult<Vec<u8>>, PackingResult<Vec<u8>>)>,
    /// unpack any bytes, compare with the default, pack again
    pub ignore: fn(&[u8]) -> Vec<PackingResult<(bool, Vec<u8>)>>,
    pub partial: bool,
}

#[macro_export]
macro_rules! bits_ops { ($($p:ident $N:expr),*) => {{
    use $crate::packed_struct::prelude::*;
    use $crate::packed_struct::types::bits::*;
    use $crate::packed_struct::{PackedStructInfo, PackedStructSlice, PackedStruct};
    vec![$({
        type B = Bits<$N>;
        fn rs<V>() -> (Vec<usize>, Vec<String>, $crate::packed_struct::PackingResult<Vec<u8>>, $crate::packed_struct::PackingResult<Vec<u8>>)
            where ReservedBits<V, B>: PackedStruct<ByteArray = [u8; ($N + 7) / 8]> + PackedStructInfo + Default + std::fmt::Debug + std::fmt::Display {
            let r = ReservedBits::<V, B>::default();
            let mut o = [0x5Au8; ($N + 7) / 8];
            let s = r.pack_to_slice(&mut o).map(|_| o.to_vec());
            (vec![<ReservedBits<V, B> as PackedStructInfo>::packed_bits(), <ReservedBits<V, B> as PackedStructSlice>::packed_bytes_size(None).unwrap(), <ReservedBits<V, B> as PackedStructSlice>::packed_bytes_size(Some(&r)).unwrap()],
                vec![format!("{}", r), format!("{:?}", r)], r.pack().map(|b| b.to_vec()), s)
        }
        fn ig<V>(b: &[u8]) -> $crate::packed_struct::PackingResult<(bool, Vec<u8>)>
            where ReservedBits<V, B>: PackedStruct<ByteArray = [u8; ($N + 7) / 8]> + Default + PartialEq {
            let mut a = [0u8; ($N + 7) / 8];
            a.copy_from_slice(b);
            let r = <ReservedBits<V, B> as PackedStruct>::unpack(&a)?;
            let s = <ReservedBits<V, B> as PackedStructSlice>::unpack_from_slice(b)?;
            Ok((r == ReservedBits::<V, B>::default() && s == r, r.pack()?.to_vec()))
        }
        fn $p<T: $p>() -> bool { true }
        $crate::basic::BitsOps {
            n: $N,
            sizes: || vec![<B as NumberOfBits>::number_of_bits(), <B as NumberOfBits>::byte_array_len(), <<B as NumberOfBits>::Bytes as NumberOfBytes>::number_of_bytes(),
                <<<B as NumberOfBits>::Bytes as NumberOfBytes>::AsBytes as ByteArray>::len(), <<B as NumberOfBits>::Bytes as NumberOfBytes>::AsBytes::new(3).as_bytes_slice().len()],
            reserved: || vec![rs::<BitZero>(), rs::<BitOne>()],
            ignore: |b| vec![ig::<BitZero>(b), ig::<BitOne>(b)],
            partial: $p::<B>() && stringify!($p) == "BitsPartialBytes",
        }
    }),*]
}} }

pub fn bits(ctx: &mut Ctx, all: &[BitsOps]) {
    for o in all {
        let mut rng = Rng::named(ctx.seed, &format!("bits{}", o.n));
        let n = o.n;
        let bytes = (n + 7) / 8;
        let name = format!("Bits<{}>", n);
        ctx.count("bit_widths");
        if n == 1 { ctx.sample(|| format!("{} .. and the following widths", name)) }
        if ctx.prop == "C19" || ctx.prop == "C16" {
            let r = guard(|| (o.sizes)());
            let e = vec![n, bytes, bytes, bytes, bytes];
            ctx.event("bits.sizes", n as u64);
            if r.as_ref().ok() != Some(&e) { ctx.violate("bits.sizes", &name, "", "".into(), format!("{:?}", e), format!("{:?}", r)) }
            if o.partial != (n % 8 != 0) { ctx.violate("bits.partial", &name, "", "".into(), format!("{}", n % 8 != 0), format!("{}", o.partial)) }
            let r = guard(|| (o.reserved)());
            ctx.event("reserved.sizes", n as u64);
            let e = vec![n, bytes, bytes];
            if !matches!(&r, Ok(l) if l.iter().all(|x| x.0 == e && matches!(&x.2, Ok(b) if b.len() == bytes))) { ctx.violate("reserved.sizes", &name, "", "".into(), format!("{:?}", e), format!("{:?}", r)) }
        }
        if ctx.prop == "C06" || ctx.prop == "C16" {
            let r = guard(|| (o.reserved)());
            ctx.event("reserved.alone", n as u64);
            // the bits of a partial width sit at the end of the byte array
            let low = |b: &Vec<u8>, one: bool| b.len() == bytes && (bytes * 8 - n..bytes * 8).all(|i| crate::model::get_bit(b, i) == one);
            let ok = match &r { Ok(l) => l.iter().enumerate().all(|(k, x)| matches!((&x.2, &x.3), (Ok(a), Ok(b)) if a == b && low(a, k == 1))
                && x.1.iter().all(|t| { let d = if k == 1 { '1' } else { '0' }; t.contains(d) && !t.contains(if k == 1 { '0' } else { '1' }) })), Err(_) => false };
            if !ok { ctx.violate("reserved.alone", &name, "", "".into(), "all zeroes / all ones, named so".into(), format!("{:?}", r)) }
            for i in 0..4 {
                let b = match i { 0 => vec![0; bytes], 1 => vec![0xFF; bytes], _ => rng.bytes(bytes) };
                let r = guard(|| (o.ignore)(&b));
                ctx.event("reserved.ignores", (n as u64) << 32 ^ hash_bytes(&b));
                let ok = match &r { Ok(l) => l.iter().enumerate().all(|(k, x)| matches!(x, Ok((true, b)) if low(b, k == 1))), Err(_) => false };
                if !ok { ctx.violate("reserved.ignores", &name, "", hex(&b), "the reserved value".into(), format!("{:?}", r)) }
            }
        }
    }
}

fn byte_array<const N: usize>(ctx: &mut Ctx) {
    let mut rng = Rng::named(ctx.seed, "byte_array");
    let fill = rng.next() as u8;
    let src = rng.bytes(N);
    let name = format!("[u8; {}]", N);
    let r = guard(|| {
        let mut a = <[u8; N] as ByteArray>::new(fill);
        let mut ok = a.as_bytes_slice().len() == N && a.as_bytes_slice().iter().all(|b| *b == fill) && a.as_mut_bytes_slice().len() == N;
        a.as_mut_bytes_slice().copy_from_slice(&src);
        ok &= a.as_bytes_slice() == &src[..] && a[..] == src[..] && a.clone().as_bytes_slice() == &src[..];
        let sizes = vec![<[u8; N] as ByteArray>::len(), <Bytes<N> as NumberOfBytes>::number_of_bytes(), <<Bytes<N> as NumberOfBytes>::AsBytes as ByteArray>::len(),
            <[u8; N] as PackedStructSlice>::packed_bytes_size(None).unwrap(), <[u8; N] as PackedStructSlice>::packed_bytes_size(Some(&a)).unwrap(), a.pack().unwrap().len(), <[u8; N] as PackedStructInfo>::packed_bits() / 8];
        ok &= <[u8; N] as PackedStructInfo>::packed_bits() % 8 == 0 && a.pack().unwrap()[..] == src[..] && <[u8; N] as PackedStruct>::unpack(&a).unwrap() == a;
        (ok, sizes)
    });
    ctx.event("byte_array", N as u64);
    if !matches!(&r, Ok((true, s)) if s.iter().all(|x| *x == N)) { ctx.violate("byte_array", &name, "", hex(&src), format!("all sizes {}", N), format!("{:?}", r)) }
    // moving bytes towards the end, inside the array's own length
    for k in 0..N.min(6) {
        let mut a = [0u8; N];
        a.copy_from_slice(&src);
        let r = guard(|| { let mut a = a; ByteArray::rotate_right(&mut a, k); a });
        ctx.event("byte_array.shift", (N * 8 + k) as u64);
        let e: Vec<u8> = (0..N).map(|i| if i < k { 0 } else { src[i - k] }).collect();
        if !matches!(&r, Ok(x) if x[..] == e[..]) { ctx.violate("byte_array.shift", &name, "", format!("{} by {}", hex(&src), k), hex(&e), format!("{:?}", r.map(|x| x.to_vec()))) }
    }
}
macro_rules! each_n { ($c:expr; $($n:expr)*) => { $( byte_array::<$n>($c); )* } }
pub fn byte_arrays(ctx: &mut Ctx) {
    each_n!(ctx; 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 23 24 25 31 32 33 34 47 48 63 64 65 100 127 128 129 200 255 256 257 511 512 513 1000 4096 8191 8192 8193 65535 65536 65537);
    macro_rules! basic { ($($t:ty, $bits:expr, $v:expr;)*) => { $( {
        let v: $t = $v;
        let r = guard(|| vec![<$t as PackedStructInfo>::packed_bits(), <$t as PackedStructSlice>::packed_bytes_size(None).unwrap(), <$t as PackedStructSlice>::packed_bytes_size(Some(&v)).unwrap(),
            v.pack().unwrap().len(), <<$t as PackedStruct>::ByteArray as ByteArray>::len()]);
        let b = ($bits + 7) / 8;
        ctx.event("basic.sizes", hash_bytes(stringify!($t).as_bytes()));
        let e = vec![$bits, b, b, b, b];
        if r.as_ref().ok() != Some(&e) { ctx.violate("basic.sizes", stringify!($t), "", "".into(), format!("{:?}", e), format!("{:?}", r)) }
    } )* } }
    basic! { u8, 8, 7; i8, 8, -1; bool, 1, true; (), 0, (); [u8; 3], 24, [1, 2, 3]; }
}
