//! Monitors for sized integers and the native byte conversions.
use crate::model::{bit_index, get_bit, mask, wrap};
use crate::mon::fmt_res;
use crate::report::*;
use crate::rng::*;
use packed_struct::PackingResult;

pub struct IntOps {
    pub name: &'static str,
    pub tb: usize,
    pub w: usize,
    pub signed: bool,
    pub from: fn(i128) -> i128,
    /// every way to read the number back: (label, text or number)
    pub views: fn(i128) -> Vec<(&'static str, String)>,
    pub mask: fn() -> i128,
    pub to_msb: fn(i128) -> PackingResult<Vec<u8>>,
    pub to_lsb: fn(i128) -> PackingResult<Vec<u8>>,
    pub from_msb: fn(&[u8]) -> PackingResult<i128>,
    pub from_lsb: fn(&[u8]) -> PackingResult<i128>,
    pub pack_msb: fn(i128) -> PackingResult<Vec<u8>>,
    pub pack_lsb: fn(i128) -> PackingResult<Vec<u8>>,
    pub unpack_msb: fn(&[u8]) -> PackingResult<i128>,
    pub unpack_lsb: fn(&[u8]) -> PackingResult<i128>,
    pub slice_msb: fn(i128) -> PackingResult<Vec<u8>>,
    pub slice_lsb: fn(i128) -> PackingResult<Vec<u8>>,
    /// (bits, bytes) the wrapper types report: msb bits, lsb bits, msb size, lsb size
    pub sizes: fn() -> Vec<usize>,
    pub sign_ext: Option<fn(i128) -> i128>,
    pub eq: fn(i128, i128) -> (bool, bool, bool),
}

#[macro_export]
macro_rules! int_ops {
    ($T:ident, $N:expr, $W:expr, $signed:expr, $se:expr) => {{
        use $crate::packed_struct::prelude::*;
        use $crate::packed_struct::types::bits::*;
        use $crate::packed_struct::{PackedStructInfo, PackedStructSlice, PackedStruct};
        type I = Integer<$T, Bits<$W>>;
        type MI = MsbInteger<$T, Bits<$W>, I>;
        type LI = LsbInteger<$T, Bits<$W>, I>;
        fn mk(v: i128) -> I { (v as $T).into() }
        fn arr(b: &[u8]) -> [u8; ($W + 7) / 8] { let mut a = [0; ($W + 7) / 8]; a.copy_from_slice(b); a }
        fn h(i: &I) -> u64 { use std::hash::*; let mut s = std::collections::hash_map::DefaultHasher::new(); i.hash(&mut s); s.finish() }
        fn hn(i: $T) -> u64 { use std::hash::*; let mut s = std::collections::hash_map::DefaultHasher::new(); i.hash(&mut s); s.finish() }
        $crate::ints::IntOps {
            name: concat!("Integer<", stringify!($T), ", Bits<", stringify!($W), ">>"), tb: $N, w: $W, signed: $signed,
            from: |v| *mk(v) as i128,
            views: |v| {
                let i = mk(v);
                let n: $T = i.into();
                let j = i.clone();
                let p = <I as SizedInteger<$T, Bits<$W>>>::from_primitive(v as $T);
                vec![
                    ("deref", format!("{}", *i)),
                    ("to_primitive", format!("{}", i.to_primitive())),
                    ("into", format!("{}", n)),
                    ("from_primitive", format!("{}", *p)),
                    ("display", format!("{}", i)),
                    ("debug", format!("{:?}", i)),
                    ("clone", format!("{}", *j)),
                    ("msb.deref", format!("{}", **i.as_packed_msb())),
                    ("lsb.deref", format!("{}", **i.as_packed_lsb())),
                    ("msb.display", format!("{}", i.as_packed_msb())),
                    ("lsb.display", format!("{}", i.as_packed_lsb())),
                    ("msb.debug", format!("{:?}", i.as_packed_msb())),
                    ("lsb.debug", format!("{:?}", i.as_packed_lsb())),
                    ("msb.from", format!("{}", **MI::from(i))),
                    ("lsb.from", format!("{}", **LI::from(i))),
                    ("hash", if h(&i) == hn(*i) { format!("{}", *i) } else { "hash differs from the native number's".into() }),
                    ("renarrow", format!("{}", *I::from(*i))),
                ]
            },
            mask: || <I as SizedInteger<$T, Bits<$W>>>::value_bit_mask() as i128,
            to_msb: |v| mk(v).to_msb_bytes().map(|b| b.to_vec()),
            to_lsb: |v| mk(v).to_lsb_bytes().map(|b| b.to_vec()),
            from_msb: |b| <I as SizedInteger<$T, Bits<$W>>>::from_msb_bytes(&arr(b)).map(|i| *i as i128),
            from_lsb: |b| <I as SizedInteger<$T, Bits<$W>>>::from_lsb_bytes(&arr(b)).map(|i| *i as i128),
            pack_msb: |v| mk(v).as_packed_msb().pack().map(|b| b.to_vec()),
            pack_lsb: |v| mk(v).as_packed_lsb().pack().map(|b| b.to_vec()),
            unpack_msb: |b| MI::unpack(&arr(b)).map(|i| **i as i128),
            unpack_lsb: |b| LI::unpack(&arr(b)).map(|i| **i as i128),
            slice_msb: |v| { let mut o = vec![0x77; ($W + 7) / 8]; mk(v).as_packed_msb().pack_to_slice(&mut o)?; let u = MI::unpack_from_slice(&o)?; if *u != mk(v) { return Err($crate::packed_struct::PackingError::InternalError) } Ok(o) },
            slice_lsb: |v| { let mut o = vec![0x77; ($W + 7) / 8]; mk(v).as_packed_lsb().pack_to_slice(&mut o)?; let u = LI::unpack_from_slice(&o)?; if *u != mk(v) { return Err($crate::packed_struct::PackingError::InternalError) } Ok(o) },
            sizes: || vec![<MI as PackedStructInfo>::packed_bits(), <LI as PackedStructInfo>::packed_bits(),
                <MI as PackedStructSlice>::packed_bytes_size(None).unwrap(), <LI as PackedStructSlice>::packed_bytes_size(None).unwrap(),
                <Bits<$W> as NumberOfBits>::number_of_bits(), <Bits<$W> as NumberOfBits>::byte_array_len() * 8],
            sign_ext: $se,
            eq: |a, b| { let (x, y) = (mk(a), mk(b)); (x == y, h(&x) == h(&y), x != y) },
        }
    }};
    (u $T:ident $N:expr => $($W:expr),*) => { vec![$($crate::int_ops!($T, $N, $W, false, None)),*] };
    (s $T:ident $N:expr => $($W:expr),*) => { vec![$($crate::int_ops!($T, $N, $W, true, Some(|v: i128| {
        use $crate::packed_struct::prelude::*;
        use $crate::packed_struct::types::bits::*;
        <Integer<$T, Bits<$W>> as SizedIntegerSigned<$T, Bits<$W>>>::from_unpacked_to_signed(v as $T) as i128 }))),*] };
}

pub fn values(w: usize, tb: usize, signed: bool, n: usize, rng: &mut Rng) -> Vec<i128> {
    let mut v: Vec<i128> = vec![0, 1, -1, -2, 2, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128];
    for k in 0..tb {
        let p = 1i128 << k;
        v.extend([p, p - 1, p + 1, -p, !p, -p - 1]);
    }
    for k in [w - 1, w] { let p = 1i128 << k; v.extend([p - 2, p + 2, p * 3, -p + 1, -p + 2]); }
    for _ in 0..n { v.push(rng.next() as i128); v.push((rng.next() & mask(w) as u64) as i128); v.push(rng.below(1000) as i128 - 500) }
    // as the native type sees them
    v.iter().map(|x| wrap(*x, tb, signed)).collect()
}

fn num(b: &[u8], w: usize, lsb_bits: bool, plain_le: bool) -> u128 {
    // bit k of the number, from the bytes
    let n = b.len();
    let mut r = 0u128;
    for k in 0..w {
        let bit = if plain_le { (b[k / 8] >> (k % 8)) & 1 == 1 } else {
            // bit string of width w aligned to the end
            get_bit(b, n * 8 - w + bit_index(w, lsb_bits, k))
        };
        if bit { r |= 1 << k }
    }
    r
}
/// nothing but the low w bits, in the given arrangement
fn pad_zero(b: &[u8], w: usize, plain_le: bool) -> bool {
    if plain_le { let r = w % 8; r == 0 || b[b.len() - 1] >> r == 0 } else { (0..b.len() * 8 - w).all(|i| !get_bit(b, i)) }
}

pub fn run(ctx: &mut Ctx, all: &[IntOps]) {
    let prop = ctx.prop.clone();
    for o in all {
        let mut rng = Rng::named(ctx.seed, o.name);
        ctx.count("int_types");
        let bytes = (o.w + 7) / 8;
        let exhaustive = o.tb == 8 || (o.tb == 16 && ctx.thorough);
        let vals: Vec<i128> = if exhaustive { (0..1i128 << o.tb).map(|x| wrap(x, o.tb, o.signed)).collect() } else { values(o.w, o.tb, o.signed, ctx.n, &mut rng) };
        let exhaustive = exhaustive && !ctx.light;
        let vals = ctx.thin(vals, 4, &mut rng);
        if exhaustive { ctx.count("int_types_exhausted") }
        ctx.sample(|| format!("{} from {} native values, e.g. {}", o.name, vals.len(), vals[vals.len() - 1]));
        let bad = |ctx: &mut Ctx, what: &str, input: String, exp: String, got: String| ctx.violate(what, o.name, "", input, exp, got);
        if prop == "C04" || prop == "C16" {
            let m = guard(|| (o.mask)());
            ctx.event("mask", hash_bytes(o.name.as_bytes()));
            let em = wrap(mask(o.w) as i128, o.tb, o.signed);
            if m != Ok(em) { bad(ctx, "mask", "value_bit_mask()".into(), em.to_string(), format!("{:?}", m)) }
        }
        for (vi, &v) in vals.iter().enumerate() {
            let e = wrap(v, o.w, o.signed);
            let key = hash_vals(o.name, &[v]);
            if matches!(&prop[..], "C04" | "C16") {
                let r = guard(|| (o.from)(v));
                ctx.event("from", key);
                if e != v { ctx.count("narrowed") }
                if r != Ok(e) { bad(ctx, "from", v.to_string(), e.to_string(), format!("{:?}", r)) }
                let r = guard(|| (o.views)(v));
                match r {
                    Ok(r) => for (l, t) in r {
                        ctx.count("views");
                        if t != e.to_string() { bad(ctx, &format!("view.{}", l), v.to_string(), e.to_string(), t) }
                    },
                    Err(p) => bad(ctx, "views", v.to_string(), e.to_string(), p),
                }
                // equality and hash follow the kept number
                let other = vals[rng.below(vals.len())];
                let close = wrap(v ^ (1i128 << rng.below(o.tb)), o.tb, o.signed);
                for u in [other, close] {
                    let same = wrap(u, o.w, o.signed) == e;
                    let r = guard(|| (o.eq)(v, u));
                    ctx.event("eq", key ^ hash_vals("", &[u]));
                    if !matches!(r, Ok((a, b, c)) if a == same && c == !same && (!same || b)) { bad(ctx, "eq", format!("{} and {}", v, u), format!("equal: {}", same), format!("{:?}", r)) }
                }
                if let Some(f) = o.sign_ext {
                    let r = guard(|| f(v));
                    ctx.event("sign_extend", key);
                    if r != Ok(e) { bad(ctx, "sign_extend", v.to_string(), e.to_string(), format!("{:?}", r)) }
                }
                // reads the same after a round trip through the packed bytes
                for (what, p, u) in [("through_msb", o.pack_msb, o.unpack_msb), ("through_lsb", o.pack_lsb, o.unpack_lsb)] {
                    let r = guard(|| u(&p(v)?));
                    ctx.event(what, key);
                    if !matches!(&r, Ok(Ok(x)) if *x == e) { bad(ctx, what, v.to_string(), e.to_string(), fmt_res(&r)) }
                }
            }
            if matches!(&prop[..], "C01") {
                for (what, p, u) in [("int.msb", o.pack_msb, o.unpack_msb), ("int.lsb", o.pack_lsb, o.unpack_lsb), ("int.msb_slice", o.slice_msb, o.unpack_msb), ("int.lsb_slice", o.slice_lsb, o.unpack_lsb),
                                     ("int.msb_bytes", o.to_msb, o.from_msb), ("int.lsb_bytes", o.to_lsb, o.from_lsb)] {
                    let r = guard(|| u(&p(v)?));
                    ctx.event(what, key);
                    if !matches!(&r, Ok(Ok(x)) if *x == e) { bad(ctx, what, v.to_string(), e.to_string(), fmt_res(&r)) }
                }
            }
            if matches!(&prop[..], "C03" | "C16" | "C18") {
                let raw = (e as u128) & mask(o.w);
                for (what, p, lsb, le) in [("bytes.pack_msb", o.pack_msb, false, false), ("bytes.pack_lsb", o.pack_lsb, true, false), ("bytes.slice_msb", o.slice_msb, false, false), ("bytes.slice_lsb", o.slice_lsb, true, false),
                                           ("bytes.to_msb", o.to_msb, false, false), ("bytes.to_lsb", o.to_lsb, false, true)] {
                    let r = guard(|| p(v));
                    ctx.event(what, key);
                    let ok = matches!(&r, Ok(Ok(b)) if b.len() == bytes && num(b, o.w, lsb, le) == raw && (e < 0 || pad_zero(b, o.w, le)));
                    if !ok { bad(ctx, what, v.to_string(), format!("{} bytes holding {:#x}", bytes, raw), fmt_res(&r)) }
                }
                // decoding chosen bytes, leading bits of partial widths dirty
                let _ = vi;
                let b = if rng.chance(1, 2) { rng.bytes(bytes) } else { let x = rng.below(bytes * 8); let mut b = vec![0u8; bytes]; crate::model::set_bit(&mut b, x, true); b };
                for (what, u, lsb, le) in [("bytes.unpack_msb", o.unpack_msb, false, false), ("bytes.unpack_lsb", o.unpack_lsb, true, false), ("bytes.from_msb", o.from_msb, false, false), ("bytes.from_lsb", o.from_lsb, false, true)] {
                    let r = guard(|| u(&b));
                    ctx.event(what, hash_bytes(&b) ^ hash_bytes(o.name.as_bytes()));
                    let e = wrap(num(&b, o.w, lsb, le) as i128, o.w, o.signed);
                    if !matches!(&r, Ok(Ok(x)) if *x == e) { bad(ctx, what, hex(&b), e.to_string(), fmt_res(&r)) }
                }
            }
        }
        if prop == "C19" {
            let e = vec![o.w, o.w, bytes, bytes, o.w, bytes * 8];
            let r = guard(|| (o.sizes)());
            ctx.event("int.sizes", hash_bytes(o.name.as_bytes()));
            if r.as_ref().ok() != Some(&e) { bad(ctx, "int.sizes", "".into(), format!("{:?}", e), format!("{:?}", r)) }
        }
    }
}

/// Native integers: IntegerAsBytes against the standard library's conversions.
pub fn native(ctx: &mut Ctx) {
    use packed_struct::prelude::IntegerAsBytes;
    macro_rules! nat { ($($T:ident $N:expr, $s:expr);*) => { $( {
        let mut rng = Rng::named(ctx.seed, stringify!($T));
        let vals = values($N, $N, $s, ctx.n * 4, &mut rng);
        for v in ctx.thin(vals, 6, &mut rng) {
            let x = v as $T;
            let be = x.to_be_bytes();
            let le = x.to_le_bytes();
            let k = hash_vals(stringify!($T), &[v]);
            let mut chk = |ctx: &mut Ctx, what: &str, ok: Result<bool, String>| { ctx.event(what, k); if ok != Ok(true) { ctx.violate(what, stringify!($T), "", v.to_string(), format!("be {} le {}", hex(&be), hex(&le)), format!("{:?}", ok)) } };
            chk(ctx, "native.to_msb", guard(|| IntegerAsBytes::to_msb_bytes(&x) == be));
            chk(ctx, "native.to_lsb", guard(|| IntegerAsBytes::to_lsb_bytes(&x) == le));
            chk(ctx, "native.from_msb", guard(|| <$T as IntegerAsBytes>::from_msb_bytes(&be) == x));
            chk(ctx, "native.from_lsb", guard(|| <$T as IntegerAsBytes>::from_lsb_bytes(&le) == x));
        }
    } )* } }
    nat!(u8 8, false; i8 8, true; u16 16, false; i16 16, true; u32 32, false; i32 32, true; u64 64, false; i64 64, true);
}
