//! Reference model and monitors for tuples, vectors and the basic types.
use crate::ops::Subject;
use crate::model::Outcome;
use crate::report::*;
use crate::rng::*;
use packed_struct::{PackedStructSlice, PackingError, PackingResult};
use packed_struct::prelude::{Integer, LsbInteger, MsbInteger};
use packed_struct::types::bits::Bits;

/// A packable element with an independent model.
pub trait Elem: PackedStructSlice + Sized {
    fn g(rng: &mut Rng) -> Self;
    fn mp(&self) -> Vec<u8>;
    /// static size, None when dynamic
    fn st() -> Option<usize>;
    /// more than one dynamic part somewhere
    fn mu(b: &[u8]) -> PackingResult<Self>;
    fn text(&self) -> String;
    /// plausible, possibly hostile bytes
    fn gb(rng: &mut Rng) -> Vec<u8>;
    /// as g and gb, with faults
    fn gf(rng: &mut Rng) -> Self { Self::g(rng) }
    fn gbf(rng: &mut Rng) -> Vec<u8> { Self::gb(rng) }
    /// the errors of all elements that can't be packed / unpacked from these (fitting) bytes
    fn pe(&self) -> Vec<PackingError> { vec![] }
    fn ue(b: &[u8]) -> Vec<PackingError> { match Self::mu(b) { Ok(_) => vec![], Err(e) => vec![e] } }
    /// the errors of all elements whose size can't be told, for this instance / for the type
    fn se(&self) -> Vec<PackingError> { vec![] }
    fn sn() -> Vec<PackingError> { vec![] }
}
fn need(n: usize, b: &[u8]) -> PackingResult<()> { if b.len() == n { Ok(()) } else { Err(PackingError::BufferSizeMismatch { expected: n, actual: b.len() }) } }

impl Elem for u8 {
    fn g(r: &mut Rng) -> u8 { r.next() as u8 }
    fn mp(&self) -> Vec<u8> { vec![*self] }
    fn st() -> Option<usize> { Some(1) }
    fn mu(b: &[u8]) -> PackingResult<u8> { need(1, b)?; Ok(b[0]) }
    fn text(&self) -> String { format!("{}", self) }
    fn gb(r: &mut Rng) -> Vec<u8> { r.bytes(1) }
}
impl Elem for i8 {
    fn g(r: &mut Rng) -> i8 { r.next() as i8 }
    fn mp(&self) -> Vec<u8> { self.to_be_bytes().to_vec() }
    fn st() -> Option<usize> { Some(1) }
    fn mu(b: &[u8]) -> PackingResult<i8> { need(1, b)?; Ok(i8::from_be_bytes([b[0]])) }
    fn text(&self) -> String { format!("{}", self) }
    fn gb(r: &mut Rng) -> Vec<u8> { r.bytes(1) }
}
impl Elem for bool {
    fn g(r: &mut Rng) -> bool { r.chance(1, 2) }
    fn mp(&self) -> Vec<u8> { vec![if *self { 1 } else { 0 }] }
    fn st() -> Option<usize> { Some(1) }
    fn mu(b: &[u8]) -> PackingResult<bool> { need(1, b)?; match b[0] { 0 => Ok(false), 1 => Ok(true), _ => Err(PackingError::InvalidValue) } }
    fn text(&self) -> String { format!("{}", self) }
    fn gb(r: &mut Rng) -> Vec<u8> { if r.chance(1, 6) { r.bytes(1) } else { vec![r.below(2) as u8] } }
}
impl Elem for () {
    fn g(_: &mut Rng) -> () {}
    fn mp(&self) -> Vec<u8> { vec![] }
    fn st() -> Option<usize> { Some(0) }
    fn mu(b: &[u8]) -> PackingResult<()> { need(0, b) }
    fn text(&self) -> String { "()".into() }
    fn gb(_: &mut Rng) -> Vec<u8> { vec![] }
}
impl<const N: usize> Elem for [u8; N] {
    fn g(r: &mut Rng) -> [u8; N] { let mut a = [0; N]; for x in a.iter_mut() { *x = r.next() as u8 } a }
    fn mp(&self) -> Vec<u8> { let mut v = vec![]; for x in self.iter() { v.push(*x) } v }
    fn st() -> Option<usize> { Some(N) }
    fn mu(b: &[u8]) -> PackingResult<Self> { need(N, b)?; let mut a = [0; N]; for i in 0..N { a[i] = b[i] } Ok(a) }
    fn text(&self) -> String { format!("{:?}", &self[..]) }
    fn gb(r: &mut Rng) -> Vec<u8> { r.bytes(N) }
}
macro_rules! wrapped {
    ($($W:ident, $T:ident, $N:expr, $sg:expr, $lsb:expr;)*) => { $(
        impl Elem for $W<$T, Bits<$N>, Integer<$T, Bits<$N>>> {
            fn g(r: &mut Rng) -> Self { let i: Integer<$T, Bits<$N>> = (r.next() as $T).into(); i.into() }
            fn mp(&self) -> Vec<u8> {
                let n = ($N + 7) / 8;
                let mut o = vec![0u8; n];
                for k in 0..$N { if (***self >> k) & 1 == 1 { crate::model::set_bit(&mut o, n * 8 - $N + crate::model::bit_index($N, $lsb, k), true) } }
                o
            }
            fn st() -> Option<usize> { Some(($N + 7) / 8) }
            fn mu(b: &[u8]) -> PackingResult<Self> {
                let n = ($N + 7) / 8;
                need(n, b)?;
                let mut v = 0u128;
                for k in 0..$N { if crate::model::get_bit(b, n * 8 - $N + crate::model::bit_index($N, $lsb, k)) { v |= 1 << k } }
                let i: Integer<$T, Bits<$N>> = (crate::model::wrap(v as i128, $N, $sg) as $T).into();
                Ok(i.into())
            }
            fn text(&self) -> String { format!("{}", ***self) }
            fn gb(r: &mut Rng) -> Vec<u8> { r.bytes(($N + 7) / 8) }
        } )* }
}
wrapped! {
    MsbInteger, u16, 16, false, false; LsbInteger, u16, 16, false, true;
    MsbInteger, i32, 32, true, false; LsbInteger, i32, 32, true, true;
    MsbInteger, u32, 24, false, false; LsbInteger, u32, 24, false, true;
    MsbInteger, u64, 37, false, false; LsbInteger, u64, 37, false, true;
    MsbInteger, u64, 64, false, false; LsbInteger, i64, 64, true, true;
    MsbInteger, u8, 8, false, false; LsbInteger, u16, 10, false, true;
    MsbInteger, u16, 10, false, false; LsbInteger, u8, 8, false, true;
}
impl<S: Subject> Elem for S {
    fn g(r: &mut Rng) -> S { S::build(&S::desc().gen(r)) }
    fn mp(&self) -> Vec<u8> { let mut v = vec![]; self.extract(&mut v); S::desc().pack(&v) }
    fn st() -> Option<usize> { Some(S::desc().bytes) }
    fn mu(b: &[u8]) -> PackingResult<S> { need(S::desc().bytes, b)?; match S::desc().unpack(b) { Outcome::Ok(v) => Ok(S::build(&v)), Outcome::Invalid => Err(PackingError::InvalidValue) } }
    fn text(&self) -> String { let mut v = vec![]; self.extract(&mut v); format!("{:?}", v) }
    fn gb(r: &mut Rng) -> Vec<u8> { if r.chance(1, 2) { S::g(r).mp() } else { S::desc().gen_bytes(r) } }
    #[cfg(feature = "errors")]
    fn gf(r: &mut Rng) -> S { let k = r.below(2); S::build(&crate::err::faulty(S::desc(), r, k)) }
    #[cfg(feature = "errors")]
    fn gbf(r: &mut Rng) -> Vec<u8> { let k = r.below(2); crate::err::faulty_bytes(S::desc(), r, k) }
    #[cfg(feature = "errors")]
    fn pe(&self) -> Vec<PackingError> { let mut v = vec![]; self.extract(&mut v); crate::err::pack_errors(S::desc(), &v) }
    #[cfg(feature = "errors")]
    fn ue(b: &[u8]) -> Vec<PackingError> { crate::err::unpack_errors(S::desc(), b) }
}
#[cfg(feature = "full")]
impl<T: Elem> Elem for Vec<T> {
    fn g(r: &mut Rng) -> Self { let n = r.items(&[0, 1, 2, 3, 4, 7, 33]); (0..n).map(|_| T::g(r)).collect() }
    fn mp(&self) -> Vec<u8> { self.iter().flat_map(|x| x.mp()).collect() }
    fn st() -> Option<usize> { None }
    fn mu(b: &[u8]) -> PackingResult<Self> {
        let n = T::st().ok_or(PackingError::InstanceRequiredForSize)?;
        if b.is_empty() { return Ok(vec![]) }
        if b.len() % n != 0 { return Err(PackingError::BufferModMismatch { actual_size: b.len(), modulo_required: n }) }
        b.chunks(n).map(|c| T::mu(c)).collect()
    }
    fn text(&self) -> String { format!("[{}]", self.iter().map(|x| x.text()).collect::<Vec<_>>().join(", ")) }
    fn gb(r: &mut Rng) -> Vec<u8> { let n = r.items(&[0, 1, 2, 3, 4]); (0..n).flat_map(|_| T::gb(r)).collect() }
    fn gf(r: &mut Rng) -> Self { let n = r.below(6); (0..n).map(|_| T::gf(r)).collect() }
    fn gbf(r: &mut Rng) -> Vec<u8> { let n = r.below(5); (0..n).flat_map(|_| T::gbf(r)).collect() }
    fn pe(&self) -> Vec<PackingError> { self.iter().flat_map(|x| x.pe()).collect() }
    fn se(&self) -> Vec<PackingError> { T::sn() }
    fn sn() -> Vec<PackingError> { T::sn() }
    fn ue(b: &[u8]) -> Vec<PackingError> { b.chunks(T::st().unwrap()).flat_map(|c| T::ue(c)).collect() }
}
macro_rules! tup {
    ($($i:tt $A:ident),+) => {
        impl<$($A: Elem),+> Elem for ($($A,)+) {
            fn g(r: &mut Rng) -> Self { ($($A::g(r),)+) }
            fn mp(&self) -> Vec<u8> { let mut o = vec![]; $( o.extend(self.$i.mp()); )+ o }
            fn st() -> Option<usize> { let mut n = 0; $( n += $A::st()?; )+ Some(n) }
            fn mu(b: &[u8]) -> PackingResult<Self> {
                let sizes: Vec<Option<usize>> = vec![$($A::st()),+];
                let dynamic = sizes.iter().filter(|s| s.is_none()).count();
                if dynamic > 1 { return Err(PackingError::MoreThanOneDynamicType) }
                let stat: usize = sizes.iter().map(|s| s.unwrap_or(0)).sum();
                if b.len() < stat || (dynamic == 0 && b.len() != stat) { return Err(PackingError::BufferSizeMismatch { expected: stat, actual: b.len() }) }
                let rest = b.len() - stat;
                let mut at = 0;
                Ok(($( { let n = sizes[$i].unwrap_or(rest); let p = &b[at..at + n]; at += n; let _ = at; $A::mu(p)? },)+))
            }
            fn text(&self) -> String { format!("({})", vec![$(self.$i.text()),+].join(", ")) }
            fn gb(r: &mut Rng) -> Vec<u8> { let mut o = vec![]; $( o.extend($A::gb(r)); )+ o }
            fn gf(r: &mut Rng) -> Self { ($($A::gf(r),)+) }
            fn gbf(r: &mut Rng) -> Vec<u8> { let mut o = vec![]; $( o.extend($A::gbf(r)); )+ o }
            fn pe(&self) -> Vec<PackingError> { let mut o = vec![]; $( o.extend(self.$i.pe()); )+ o }
            fn se(&self) -> Vec<PackingError> { let mut o = vec![]; $( o.extend(self.$i.se()); )+ o }
            fn sn() -> Vec<PackingError> { let mut o = vec![]; $( o.extend($A::sn()); )+ o }
            fn ue(b: &[u8]) -> Vec<PackingError> {
                let sizes: Vec<Option<usize>> = vec![$($A::st()),+];
                let rest = b.len() - sizes.iter().map(|s| s.unwrap_or(0)).sum::<usize>();
                let mut at = 0;
                let mut o = vec![];
                $( { let n = sizes[$i].unwrap_or(rest); o.extend($A::ue(&b[at..at + n])); at += n; } )+
                let _ = at;
                o
            }
        }
    };
}
tup!(0 A);
tup!(0 A, 1 B);
tup!(0 A, 1 B, 2 C);
tup!(0 A, 1 B, 2 C, 3 D);
tup!(0 A, 1 B, 2 C, 3 D, 4 E);
tup!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F);
tup!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G);
tup!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H);
tup!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I);
tup!(0 A, 1 B, 2 C, 3 D, 4 E, 5 F, 6 G, 7 H, 8 I, 9 J);

pub type Msg = PackingResult<String>;
fn show<T>(r: &Result<PackingResult<T>, String>, f: impl Fn(&T) -> String) -> String {
    match r { Ok(Ok(v)) => format!("Ok({})", f(v)), Ok(Err(e)) => format!("Err({:?})", e), Err(p) => p.clone() }
}

/// All sequence monitors for one type.
pub fn check<T: Elem>(ctx: &mut Ctx, name: &str) {
    let mut rng = Rng::named(ctx.seed, name);
    ctx.count("sequence_types");
    match T::st() { None => ctx.count("sequence_types_dynamic"), Some(_) => ctx.count("sequence_types_static") }
    let n = ctx.n;
    // static size
    let r = guard(|| T::packed_bytes_size(None));
    let e: PackingResult<usize> = T::st().ok_or(PackingError::InstanceRequiredForSize);
    ctx.event("size.static", hash_bytes(name.as_bytes()));
    if r != Ok(e) { ctx.violate("size.static", name, "", "packed_bytes_size(None)".into(), format!("{:?}", e), format!("{:?}", r)) }
    let two_dynamic = T::mu(&[]).err() == Some(PackingError::MoreThanOneDynamicType);
    for k in 0..n {
        if two_dynamic { break }
        let v = T::g(&mut rng);
        let exp = v.mp();
        let key = hash_bytes(name.as_bytes()) ^ hash_bytes(&exp).rotate_left(11);
        if k == 0 { ctx.sample(|| format!("{} {} => {}", name, v.text(), hex(&exp))) }
        let r = guard(|| T::packed_bytes_size(Some(&v)));
        ctx.event("size.instance", key);
        if r != Ok(Ok(exp.len())) { ctx.violate("size.instance", name, "", v.text(), exp.len().to_string(), format!("{:?}", r)) }
        let r = guard(|| pack_any(&v));
        ctx.event("seq.pack", key);
        if show(&r, |b| hex(b)) != format!("Ok({})", hex(&exp)) { ctx.violate("seq.pack", name, "", v.text(), hex(&exp), show(&r, |b| hex(b))) }
        // exact slice and wrong lengths
        let lens = [exp.len(), exp.len() + 1, exp.len().saturating_sub(1), 0, exp.len() + 1 + rng.below(40), rng.below(exp.len() + 1), exp.len() + (1 << rng.below(if k % 16 == 0 && !ctx.light { 18 } else { 9 }))];
        for len in lens {
            let mut o = rng.unfit(&exp, len);
            let before = o.clone();
            let r = guard(|| v.pack_to_slice(&mut o));
            ctx.event("seq.pack_to_slice", key ^ (len as u64) << 40);
            let e = if len == exp.len() { Ok(()) } else { Err(PackingError::BufferSizeMismatch { expected: exp.len(), actual: len }) };
            if r != Ok(e) { ctx.violate("seq.pack_to_slice", name, "", format!("{} into {} bytes", v.text(), len), format!("{:?}", e), format!("{:?}", r)) }
            else if e.is_ok() && o != exp { ctx.violate("seq.pack_to_slice", name, "", v.text(), hex(&exp), hex(&o)) }
            else if e.is_err() && o != before { ctx.violate("seq.refused_untouched", name, "", format!("{} into {} bytes", v.text(), len), hex(&before), hex(&o)) }
        }
        let r = guard(|| T::unpack_from_slice(&exp));
        ctx.event("seq.unpack", key);
        let want = format!("Ok({})", v.text());
        if show(&r, |x| x.text()) != want { ctx.violate("seq.unpack", name, "", hex(&exp), want, show(&r, |x| x.text())) }
    }
    for _ in 0..n {
        let mut b = T::gb(&mut rng);
        match rng.below(6) { 0 => { b.pop(); } 1 => b.push(rng.next() as u8), 2 => { let l = rng.below(b.len() + 3); b = rng.bytes(l) } 4 => { let l = rng.below(b.len() * 2 + 20); b = rng.unfit(&b, l) } 3 if !b.is_empty() => { let i = rng.below(b.len()); b[i] = rng.next() as u8 } _ => () }
        let r = guard(|| T::unpack_from_slice(&b));
        let e = show(&Ok(T::mu(&b)), |x: &T| x.text());
        ctx.event("seq.unpack_bytes", hash_bytes(name.as_bytes()) ^ hash_bytes(&b));
        ctx.count(match &T::mu(&b) { Ok(_) => "outcome.ok", Err(PackingError::InvalidValue) => "outcome.InvalidValue", Err(PackingError::BufferSizeMismatch { .. }) => "outcome.BufferSizeMismatch",
            Err(PackingError::BufferModMismatch { .. }) => "outcome.BufferModMismatch", Err(PackingError::MoreThanOneDynamicType) => "outcome.MoreThanOneDynamicType", Err(_) => "outcome.other" });
        let g = show(&r, |x| x.text());
        if g != e && !relaxed(&e, &g) { ctx.violate("seq.unpack_bytes", name, "", hex(&b), e, g) }
    }
    // every short length
    let st = T::st().unwrap_or(12);
    let mut lens: Vec<usize> = (0..st + 6).collect();
    if !ctx.light { lens.extend((3..18).map(|k| st + (1 << k))) }
    for len in lens {
        let g = T::gb(&mut rng);
        let b = rng.unfit(&g, len);
        let r = guard(|| T::unpack_from_slice(&b));
        let e = show(&Ok(T::mu(&b)), |x: &T| x.text());
        ctx.event("seq.unpack_len", hash_bytes(name.as_bytes()) ^ hash_bytes(&b));
        let g = show(&r, |x| x.text());
        if g != e && !relaxed(&e, &g) { ctx.violate("seq.unpack_len", name, "", hex(&b), e, g) }
    }
}

/// When several elements are invalid at once the order in which they are reported is not
/// part of the property: both sides have to be element errors.
fn relaxed(e: &str, g: &str) -> bool {
    let elem = |s: &str| s.starts_with("Err(InvalidValue") || s.starts_with("Err(BufferModMismatch");
    elem(e) && elem(g)
}

#[cfg(feature = "full")]
fn pack_any<T: Elem>(v: &T) -> PackingResult<Vec<u8>> { v.pack_to_vec() }
#[cfg(not(feature = "full"))]
fn pack_any<T: Elem>(v: &T) -> PackingResult<Vec<u8>> { let mut o = vec![0x33; T::packed_bytes_size(Some(v))?]; v.pack_to_slice(&mut o)?; Ok(o) }

/// Vectors of items that occupy nothing.
#[cfg(feature = "full")]
pub fn no_bytes<T: Elem>(ctx: &mut Ctx, name: &str) {
    let mut rng = Rng::named(ctx.seed, name);
    for n in [0usize, 1, 2, 5, 64] {
        let v: Vec<T> = (0..n).map(|_| T::g(&mut rng)).collect();
        let key = hash_bytes(name.as_bytes()) ^ n as u64;
        let what = format!("{} items", n);
        let mut say = |m: &str, e: String, g: String| { ctx.event(m, key); if e != g { ctx.violate(m, name, "", what.clone(), e, g) } };
        say("seq.no_bytes.size", "Ok(Ok(0))".into(), format!("{:?}", guard(|| <Vec<T>>::packed_bytes_size(Some(&v)))));
        say("seq.no_bytes.pack", "Ok([])".into(), show(&guard(|| v.pack_to_vec()), |b| format!("{:?}", b)));
        say("seq.no_bytes.pack_to_slice", "Ok(Ok(()))".into(), format!("{:?}", guard(|| v.pack_to_slice(&mut []))));
        let mut o = [0x37u8; 3];
        let e: PackingResult<()> = Err(PackingError::BufferSizeMismatch { expected: 0, actual: 3 });
        say("seq.no_bytes.pack_to_slice", format!("{:?}", Ok::<_, String>(e)), format!("{:?}", guard(|| v.pack_to_slice(&mut o))));
        say("seq.no_bytes.untouched", "[55, 55, 55]".into(), format!("{:?}", o));
        say("seq.no_bytes.unpack", "Ok([])".into(), show(&guard(|| <Vec<T>>::unpack_from_slice(&[])), |x| x.text()));
        // what it yields for more isn't specified, but it doesn't panic
        let b = rng.bytes(n + 1);
        say("seq.no_bytes.unpack_total", "true".into(), guard(|| <Vec<T>>::unpack_from_slice(&b).map(|v| v.len())).is_ok().to_string());
    }
}
