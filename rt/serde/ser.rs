//! Serialization monitors (use_serde). Included by the generated programs of C17.
use rt::packed_struct;
use rt::packed_struct::prelude::*;
use rt::packed_struct::types::bits::*;
use rt::packed_struct::{PackedStructInfo, PackingError, PackingResult};
use rt::rng::{hash_bytes, hash_vals};
use rt::{guard, hex, wrap, Ctx, Kind, Rng, Subject};
use serde::de::value::Error as VErr;
use serde::de::{DeserializeOwned, IntoDeserializer};
use serde::ser::{self, Serialize};
use std::fmt::{Debug, Display};

// ---------------------------------------------------------------- a recording serializer
/// Records every call made by a Serialize implementation, with the exact type.
pub struct Rec<'a>(pub &'a mut Vec<String>);
#[derive(Debug)]
pub struct No(String);
impl Display for No { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for No {}
impl ser::Error for No { fn custom<T: Display>(m: T) -> Self { No(m.to_string()) } }
macro_rules! rec { ($($f:ident $t:ty;)*) => { $( fn $f(self, v: $t) -> Result<(), No> { self.0.push(format!("{}:{:?}", stringify!($t), v)); Ok(()) } )* } }
impl<'a> ser::Serializer for Rec<'a> {
    type Ok = (); type Error = No;
    type SerializeSeq = Self; type SerializeTuple = Self; type SerializeTupleStruct = Self; type SerializeTupleVariant = Self;
    type SerializeMap = Self; type SerializeStruct = Self; type SerializeStructVariant = Self;
    rec! { serialize_bool bool; serialize_i8 i8; serialize_i16 i16; serialize_i32 i32; serialize_i64 i64; serialize_i128 i128; serialize_u8 u8; serialize_u16 u16; serialize_u32 u32;
        serialize_u64 u64; serialize_u128 u128; serialize_f32 f32; serialize_f64 f64; serialize_char char; serialize_str &str; serialize_bytes &[u8]; }
    fn serialize_none(self) -> Result<(), No> { self.0.push("none".into()); Ok(()) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), No> { self.0.push("some".into()); v.serialize(self) }
    fn serialize_unit(self) -> Result<(), No> { self.0.push("unit".into()); Ok(()) }
    fn serialize_unit_struct(self, n: &'static str) -> Result<(), No> { self.0.push(format!("unit struct {}", n)); Ok(()) }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<(), No> { self.0.push(format!("variant {} {} {}", n, i, v)); Ok(()) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> Result<(), No> { self.0.push(format!("newtype {}", n)); v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, i: u32, x: &'static str, v: &T) -> Result<(), No> { self.0.push(format!("newtype variant {} {} {}", n, i, x)); v.serialize(self) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, No> { self.0.push(format!("seq {:?}", n)); Ok(self) }
    fn serialize_tuple(self, n: usize) -> Result<Self, No> { self.0.push(format!("tuple {}", n)); Ok(self) }
    fn serialize_tuple_struct(self, s: &'static str, n: usize) -> Result<Self, No> { self.0.push(format!("tuple struct {} {}", s, n)); Ok(self) }
    fn serialize_tuple_variant(self, s: &'static str, _: u32, v: &'static str, n: usize) -> Result<Self, No> { self.0.push(format!("tuple variant {} {} {}", s, v, n)); Ok(self) }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, No> { self.0.push(format!("map {:?}", n)); Ok(self) }
    fn serialize_struct(self, s: &'static str, n: usize) -> Result<Self, No> { self.0.push(format!("struct {} {}", s, n)); Ok(self) }
    fn serialize_struct_variant(self, s: &'static str, _: u32, v: &'static str, n: usize) -> Result<Self, No> { self.0.push(format!("struct variant {} {} {}", s, v, n)); Ok(self) }
}
impl<'a> ser::SerializeSeq for Rec<'a> { type Ok = (); type Error = No; fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), No> { v.serialize(Rec(self.0)) } fn end(self) -> Result<(), No> { Ok(()) } }
impl<'a> ser::SerializeTuple for Rec<'a> { type Ok = (); type Error = No; fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), No> { v.serialize(Rec(self.0)) } fn end(self) -> Result<(), No> { Ok(()) } }
impl<'a> ser::SerializeTupleStruct for Rec<'a> { type Ok = (); type Error = No; fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), No> { v.serialize(Rec(self.0)) } fn end(self) -> Result<(), No> { Ok(()) } }
impl<'a> ser::SerializeTupleVariant for Rec<'a> { type Ok = (); type Error = No; fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), No> { v.serialize(Rec(self.0)) } fn end(self) -> Result<(), No> { Ok(()) } }
impl<'a> ser::SerializeMap for Rec<'a> { type Ok = (); type Error = No; fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), No> { v.serialize(Rec(self.0)) } fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), No> { v.serialize(Rec(self.0)) } fn end(self) -> Result<(), No> { Ok(()) } }
impl<'a> ser::SerializeStruct for Rec<'a> { type Ok = (); type Error = No; fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), No> { self.0.push(format!("field {}", k)); v.serialize(Rec(self.0)) } fn end(self) -> Result<(), No> { Ok(()) } }
impl<'a> ser::SerializeStructVariant for Rec<'a> { type Ok = (); type Error = No; fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), No> { self.0.push(format!("field {}", k)); v.serialize(Rec(self.0)) } fn end(self) -> Result<(), No> { Ok(()) } }

pub fn record<T: Serialize>(v: &T) -> Vec<String> {
    let mut o = vec![];
    if let Err(e) = v.serialize(Rec(&mut o)) { o.push(format!("error {}", e)) }
    o
}

// ---------------------------------------------------------------- binary formats
/// Through a positional format and a self-describing binary one.
pub fn binary<T: Serialize + DeserializeOwned>(v: &T) -> Result<(T, T), String> {
    let b = bincode::serialize(v).map_err(|e| format!("bincode: {}", e))?;
    // followed by something else
    let mut src = b.clone();
    src.extend([0xA5; 24]);
    let mut at = &src[..];
    let a: T = bincode::deserialize_from(&mut at).map_err(|e| format!("bincode {}: {}", hex(&b), e))?;
    if at.len() != 24 { return Err(format!("bincode {}: {} bytes taken", hex(&b), src.len() - at.len())) }
    let mut c = vec![];
    ciborium::into_writer(v, &mut c).map_err(|e| format!("cbor: {}", e))?;
    let mut at = &c[..];
    let d: T = ciborium::from_reader(&mut at).map_err(|e| format!("cbor {}: {}", hex(&c), e))?;
    Ok((a, d))
}

// ---------------------------------------------------------------- integers
pub fn int<T, B>(ctx: &mut Ctx, w: usize, signed: bool)
where T: rt::enums::Prim + Serialize + DeserializeOwned + Into<Integer<T, B>> + IntoDeserializer<'static, VErr> + Display,
      B: NumberOfBits + Clone + Copy + Debug + 'static, Integer<T, B>: Serialize + DeserializeOwned + PartialEq + Debug + Copy + std::ops::Deref<Target = T> + SizedInteger<T, B> {
    let name = format!("Integer<{}, Bits<{}>>", T::NAME, w);
    let mut rng = Rng::named(ctx.seed, &name);
    ctx.count("integer_types");
    let mut vals: Vec<i128> = vec![0, 1, -1, 2];
    for k in 0..T::BITS { let p = 1i128 << k; vals.extend([p, p - 1, p + 1, -p, -p - 1, !p]) }
    if T::BITS == 8 { vals = (0..256).collect() }
    for _ in 0..ctx.n { vals.push(rng.next() as i128); vals.push(wrap(rng.next() as i128, w, signed)) }
    for v in vals {
        let n = wrap(v, T::BITS, signed);
        let k = wrap(n, w, signed);
        let key = hash_bytes(name.as_bytes()) ^ (n as u64).rotate_left(7);
        let t = T::of(n);
        let x: Integer<T, B> = t.into();
        // as the plain native number
        let r = guard(|| (record(&x), serde_json::to_string(&x).map_err(|e| e.to_string()), serde_json::to_value(&x).map_err(|e| e.to_string())));
        ctx.event("int.serialize", key);
        let want = (vec![format!("{}:{}", T::NAME, k)], Ok(k.to_string()), serde_json::to_value(&T::of(k)).map_err(|e| e.to_string()));
        if r.as_ref().ok() != Some(&want) { ctx.violate("int.serialize", &name, "", n.to_string(), format!("{:?}", want), format!("{:?}", r)) }
        // from any native number, as by conversion
        let text = n.to_string();
        let r = guard(|| serde_json::from_str::<Integer<T, B>>(&text).map(|x| (*x).to()).map_err(|e| e.to_string()));
        ctx.event("int.deserialize", key);
        if n != k { ctx.count("int.limited") }
        if r != Ok(Ok(k)) { ctx.violate("int.deserialize", &name, "", text.clone(), k.to_string(), format!("{:?}", r)) }
        let r = guard(|| { let d: <T as IntoDeserializer<'static, VErr>>::Deserializer = t.into_deserializer(); <Integer<T, B> as serde::Deserialize>::deserialize(d).map(|x| ((*x).to(), x == t.into(), x.to_msb_bytes().map(|b| { let mut b = b.as_bytes_slice().to_vec(); if w % 8 != 0 && !b.is_empty() { b[0] &= (1 << (w % 8)) - 1 } b }))).map_err(|e| e.to_string()) });
        ctx.event("int.deserialize_native", key);
        let x2 = guard(|| -> Result<_, String> {
            let same = bincode::serialize(&x).map_err(|e| e.to_string())? == bincode::serialize(&T::of(k)).map_err(|e| e.to_string())?;
            let (a, d) = binary(&x)?;
            // from the bytes of any native number
            let n: Integer<T, B> = bincode::deserialize(&bincode::serialize(&t).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            Ok((same, (*a).to(), (*d).to(), (*n).to()))
        });
        ctx.event("int.binary", key);
        if x2 != Ok(Ok((true, k, k, k))) { ctx.violate("int.binary", &name, "", text.clone(), format!("{} as the native type", k), format!("{:?}", x2)) }
        let mb: Vec<u8> = (0..(w + 7) / 8).rev().map(|i| ((k as u128 & rt::mask(w)) >> (8 * i)) as u8).collect();
        if r != Ok(Ok((k, true, Ok(mb.clone())))) { ctx.violate("int.deserialize_native", &name, "", text.clone(), format!("{} {}", k, hex(&mb)), format!("{:?}", r)) }
    }
    // everything the native type refuses, and in the same words
    for text in ["-1", "256", "65536", "4294967296", "18446744073709551615", "18446744073709551616", "-129", "-32769", "-2147483649", "-9223372036854775808", "-9223372036854775809", "1.5", "1e3", "1.0", "\"7\"", "null", "true", "[]", "[1]", "{}", "", " 12 ", "12 x", "-0", "007"] {
        let a = guard(|| serde_json::from_str::<T>(text).map(|n| wrap(n.to(), w, signed)).map_err(|e| e.to_string()));
        let b = guard(|| serde_json::from_str::<Integer<T, B>>(text).map(|x| (*x).to()).map_err(|e| e.to_string()));
        ctx.event("int.text", hash_bytes(name.as_bytes()) ^ hash_bytes(text.as_bytes()));
        ctx.count(if matches!(a, Ok(Ok(_))) { "int.text_accepted" } else { "int.text_refused" });
        if a.clone().map(|r| r.ok()) != b.clone().map(|r| r.ok()) { ctx.violate("int.text", &name, "", text.into(), format!("{:?}", a), format!("{:?}", b)) }
    }
}

// ---------------------------------------------------------------- reserved fields
pub fn reserved<V, B>(ctx: &mut Ctx, w: usize, one: bool)
where ReservedBits<V, B>: Serialize + DeserializeOwned + PackedStruct + Default + PartialEq + Debug + PackedStructInfo {
    let name = format!("Reserved{}<Bits<{}>>", if one { "One" } else { "Zero" }, w);
    let want: Vec<u8> = ReservedBits::<V, B>::default().pack().map(|b| b.as_bytes_slice().to_vec()).unwrap_or_default();
    let r = guard(|| -> Result<_, String> {
        let v = ReservedBits::<V, B>::default();
        let j = serde_json::to_string(&v).map_err(|e| e.to_string())?;
        let b: ReservedBits<V, B> = serde_json::from_str(&j).map_err(|e| format!("{}: {}", j, e))?;
        let x = serde_json::to_value(&v).map_err(|e| e.to_string())?;
        let d: ReservedBits<V, B> = serde_json::from_value(x).map_err(|e| e.to_string())?;
        let (p, q) = binary(&v)?;
        let (p2, q2) = binary(&vec![(ReservedBits::<V, B>::default(), 7u8), (ReservedBits::<V, B>::default(), 9)])?;
        if p2 != q2 || p2.len() != 2 || p2[1].1 != 9 { return Err(format!("{:?} {:?}", p2, q2)) }
        Ok((b == v && d == v && p == v && q == v, format!("{:?}", b), b.pack().map(|b| b.as_bytes_slice().to_vec()), record(&v) == record(&b)))
    });
    ctx.event("reserved.survives", hash_bytes(name.as_bytes()));
    let ok = match &r { Ok(Ok((true, d, Ok(p), true))) => *p == want && d.contains(if one { '1' } else { '0' }) && (0..w).all(|i| rt::get_bit(p, p.len() * 8 - w + i) == one), _ => false };
    if !ok { ctx.violate("reserved.survives", &name, "", "".into(), hex(&want), format!("{:?}", r)) }
    ctx.count("reserved_types");
}

// ---------------------------------------------------------------- errors
pub fn errors(ctx: &mut Ctx) {
    let mut rng = Rng::named(ctx.seed, "errors");
    for k in 0..ctx.n * 10 {
        let mut n = || match rng.below(5) { 0 => 0, 1 => usize::MAX, 2 => rng.below(300), 3 => 1usize << rng.below(64), _ => rng.next() as usize };
        let e = match k % 10 {
            0 => PackingError::InvalidValue, 1 => PackingError::BitsError, 2 => PackingError::BufferTooSmall, 3 => PackingError::NotImplemented, 4 => PackingError::InstanceRequiredForSize,
            5 => PackingError::MoreThanOneDynamicType, 6 => PackingError::BufferSizeMismatch { expected: n(), actual: n() }, 7 => PackingError::BufferModMismatch { actual_size: n(), modulo_required: n() },
            8 => PackingError::SliceIndexingError { slice_len: n() }, _ => PackingError::InternalError };
        let r = guard(|| -> Result<_, String> {
            let j = serde_json::to_string(&e).map_err(|e| e.to_string())?;
            let b: PackingError = serde_json::from_str(&j).map_err(|x| format!("{}: {}", j, x))?;
            let d: PackingError = serde_json::from_value(serde_json::to_value(&e).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            let l: Vec<Result<u8, PackingError>> = serde_json::from_str(&serde_json::to_string(&vec![Ok(3u8), Err(e)]).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            let (p, q) = binary(&e)?;
            let (p2, _) = binary(&vec![(Err::<u8, _>(e), 1u32), (Ok(9), 2), (Err(e), 3)])?;
            if p != e || q != e || p2 != vec![(Err(e), 1), (Ok(9), 2), (Err(e), 3)] { return Err(format!("{:?} {:?} {:?}", p, q, p2)) }
            Ok((b, d, l, record(&b)))
        });
        ctx.event("error.survives", hash_bytes(format!("{:?}", e).as_bytes()));
        if r != Ok(Ok((e, e, vec![Ok(3), Err(e)], record(&e)))) { ctx.violate("error.survives", "PackingError", "", format!("{:?}", e), format!("{:?}", e), format!("{:?}", r)) }
    }
    // different errors stay different
    let all = [PackingError::InvalidValue, PackingError::BitsError, PackingError::BufferTooSmall, PackingError::NotImplemented, PackingError::InstanceRequiredForSize, PackingError::MoreThanOneDynamicType, PackingError::InternalError];
    for a in all { for b in all {
        ctx.event("error.distinct", hash_bytes(format!("{:?}{:?}", a, b).as_bytes()));
        if a != b && (record(&a) == record(&b) || serde_json::to_string(&a).ok() == serde_json::to_string(&b).ok()) { ctx.violate("error.distinct", "PackingError", "", format!("{:?} {:?}", a, b), "different".into(), "the same".into()) }
    } }
}

// ---------------------------------------------------------------- derived structures
fn at<'j>(j: &'j serde_json::Value, path: &str) -> Option<&'j serde_json::Value> {
    let mut c = j;
    for part in path.replace('[', ".[").split('.') {
        if let Some(i) = part.strip_prefix('[') { c = c.get(i.trim_end_matches(']').parse::<usize>().ok()?)? }
        else { c = c.get(part.trim_start_matches("r#"))? }
    }
    Some(c)
}

pub fn subject<S: Subject + Serialize + DeserializeOwned>(ctx: &mut Ctx) {
    let d = S::desc();
    let mut rng = Rng::named(ctx.seed, d.name);
    ctx.count("subjects");
    for t in d.tags { ctx.count(&format!("tag:{}", t)) }
    let ex = |s: &S| { let mut o = vec![]; s.extract(&mut o); o };
    for k in 0..ctx.n {
        let v = d.gen(&mut rng);
        let exp = d.pack(&v);
        if k == 0 { ctx.sample(|| format!("{} => {}", d.decl, serde_json::to_string(&S::build(&v)).unwrap_or_default())) }
        let r = guard(|| -> Result<_, String> {
            let s = S::build(&v);
            let t = serde_json::to_string(&s).map_err(|e| e.to_string())?;
            let u: S = serde_json::from_str(&t).map_err(|e| format!("{}: {}", t, e))?;
            let j = serde_json::to_value(&s).map_err(|e| e.to_string())?;
            let w: S = serde_json::from_value(j.clone()).map_err(|e| format!("{}: {}", j, e))?;
            let p = u.pack().map_err(|e| format!("{:?}", e))?;
            // and the other way: what was unpacked, serialized
            let z: S = serde_json::from_str(&serde_json::to_string(&S::unpack(&p).map_err(|e| format!("{:?}", e))?).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?;
            let (x, y) = binary(&s)?;
            if x != s || y != s || ex(&x) != v || ex(&y) != v || x.pack().map(|b| b.as_bytes_slice().to_vec()) != Ok(p.as_bytes_slice().to_vec()) { return Err(format!("binary formats give {:?} and {:?}", ex(&x), ex(&y))) }
            Ok((u == s && w == s && z == s, ex(&u), ex(&w), p.as_bytes_slice().to_vec(), w.pack().map(|b| b.as_bytes_slice().to_vec()), record(&u) == record(&s), j))
        });
        ctx.event("struct.survives", hash_vals(d.name, &v));
        let ok = matches!(&r, Ok(Ok((true, a, b, p, Ok(q), true, _))) if *a == v && *b == v && *p == exp && *q == exp);
        if !ok { ctx.violate("struct.survives", d.name, d.decl, format!("{:?}", v), format!("{:?} {}", v, hex(&exp)), format!("{:?}", r)); continue }
        // integers are plain numbers inside, too
        if let Ok(Ok((_, _, _, _, _, _, j))) = &r {
            for (l, x) in d.leaves.iter().zip(&v) {
                if !matches!(l.kind, Kind::UInt | Kind::SInt) { continue }
                ctx.event("struct.number", hash_vals(d.name, &[*x]) ^ hash_bytes(l.path.as_bytes()));
                let n = at(j, l.path);
                let ok = n.map_or(false, |n| n.as_i64().map(|n| n as i128) == Some(*x) || n.as_u64().map(|n| n as i128) == Some(*x));
                if !ok { ctx.violate("struct.number", d.name, d.decl, format!("{} = {}", l.path, x), x.to_string(), format!("{:?} in {}", n, j)) }
            }
        }
    }
}
