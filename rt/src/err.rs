//! Fallible packed types and the monitors for error propagation.
use crate::model::*;
use crate::ops::*;
use crate::report::*;
use crate::rng::*;
use crate::seq::Elem;
use packed_struct::prelude::*;
use packed_struct::{PackedStructInfo, PackingResult};

/// The error a code stands for.
pub fn coded(k: u8) -> PackingError {
    let n = k as usize;
    match k % 11 {
        0 => PackingError::InvalidValue,
        1 => PackingError::BitsError,
        2 => PackingError::BufferTooSmall,
        3 => PackingError::NotImplemented,
        4 => PackingError::InstanceRequiredForSize,
        5 => PackingError::MoreThanOneDynamicType,
        6 => PackingError::BufferSizeMismatch { expected: n, actual: n * 1000 + 7 },
        7 => PackingError::BufferModMismatch { actual_size: n * 3, modulo_required: n },
        8 => PackingError::SliceIndexingError { slice_len: n },
        9 => PackingError::InternalError,
        _ => PackingError::BufferSizeMismatch { expected: usize::MAX, actual: 0 },
    }
}
pub fn pack_fault(v: i128) -> Option<PackingError> { if v >= 0xF0 { Some(coded(v as u8)) } else { None } }
pub fn unpack_fault(v: i128) -> Option<PackingError> { if v >= 0xE0 && v < 0xF0 { Some(coded(v as u8)) } else { None } }

/// A hand-written packed type of N bits (N >= 8). Numbers whose low byte is 0xF0 and above
/// fail to pack, bytes 0xE0..0xEF fail to unpack.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Fus(pub u8);
impl PackedStruct for Fus {
    type ByteArray = [u8; 1];
    fn pack(&self) -> PackingResult<[u8; 1]> { match pack_fault(self.0 as i128) { Some(e) => Err(e), None => Ok([self.0]) } }
    fn unpack(src: &[u8; 1]) -> PackingResult<Self> { match unpack_fault(src[0] as i128) { Some(e) => Err(e), None => Ok(Fus(src[0])) } }
}
impl PackedStructInfo for Fus { fn packed_bits() -> usize { 8 } }

fn valid_bits(d: &Desc, b: &[u8]) -> Vec<PackingError> {
    let mut o = vec![];
    for l in d.leaves {
        match l.kind {
            Kind::Fus => if let Some(e) = unpack_fault(l.decode(b).unwrap()) { o.push(e) },
            _ => if l.decode(b).is_none() { o.push(PackingError::InvalidValue) },
        }
    }
    o
}
pub fn pack_errors(d: &Desc, v: &[i128]) -> Vec<PackingError> {
    d.leaves.iter().zip(v).filter(|(l, _)| l.kind == Kind::Fus).filter_map(|(_, v)| pack_fault(*v)).collect()
}
pub fn unpack_errors(d: &Desc, b: &[u8]) -> Vec<PackingError> { valid_bits(d, b) }

/// values where `k` randomly chosen fallible leaves fail to pack
pub fn faulty(d: &Desc, rng: &mut Rng, k: usize) -> Vec<i128> {
    let mut v = d.gen(rng);
    let c: Vec<usize> = (0..v.len()).filter(|i| d.leaves[*i].kind == Kind::Fus).collect();
    for _ in 0..k { if !c.is_empty() { v[c[rng.below(c.len())]] = 0xF0 + rng.below(16) as i128 } }
    v
}
pub fn faulty_bytes(d: &Desc, rng: &mut Rng, k: usize) -> Vec<u8> {
    let v = d.gen(rng);
    let mut b = d.pack(&v);
    let c: Vec<usize> = (0..v.len()).filter(|i| matches!(d.leaves[*i].kind, Kind::Fus | Kind::Bool | Kind::Enum)).collect();
    for _ in 0..k {
        if c.is_empty() { break }
        let l = &d.leaves[c[rng.below(c.len())]];
        if l.kind == Kind::Fus { l.encode(0xE0 + rng.below(16) as i128, &mut b) }
        else { for i in 0..l.width { let x = rng.chance(1, 2); set_bit(&mut b, l.start + i, x) } }
    }
    b
}

fn judge<T: std::fmt::Debug>(ctx: &mut Ctx, what: &str, d: &Desc, input: String, errs: &[PackingError], ok: &T, r: Result<PackingResult<T>, String>) where T: PartialEq {
    ctx.event(what, hash_bytes(d.name.as_bytes()) ^ hash_bytes(input.as_bytes()) ^ hash_bytes(what.as_bytes()));
    ctx.count(match errs.len() { 0 => "faults.none", 1 => "faults.one", _ => "faults.several" });
    let good = match &r { Ok(Ok(v)) => errs.is_empty() && v == ok, Ok(Err(e)) => errs.contains(e), Err(_) => false };
    if good { if let Ok(Err(e)) = &r { ctx.count(&format!("surfaced.{}", format!("{:?}", e).split(' ').next().unwrap())) } }
    if !good {
        let exp = if errs.is_empty() { format!("Ok({:?})", ok) } else { format!("one of the elements' errors {:?}", errs) };
        ctx.violate(what, d.name, d.decl, input, exp, crate::mon::fmt_res(&r));
    }
}

pub fn run(ctx: &mut Ctx, subjects: &[Ops]) {
    for s in subjects {
        let d = s.desc;
        let mut rng = Rng::named(ctx.seed, d.name);
        ctx.count("subjects");
        for t in d.tags { ctx.count(&format!("tag:{}", t)) }
        ctx.sample(|| d.decl.to_string());
        // every fallible leaf on its own
        let fus: Vec<usize> = (0..d.leaves.len()).filter(|i| d.leaves[*i].kind == Kind::Fus).collect();
        ctx.add("fallible_leaves", fus.len() as u64);
        let mut cases: Vec<Vec<i128>> = vec![];
        let mut bytes: Vec<Vec<u8>> = vec![];
        for &i in &fus {
            for k in [0xF0 + rng.below(16) as i128, 0xF0, 0xFF] { let mut v = d.gen(&mut rng); v[i] = k; cases.push(v) }
            for k in [0xE0 + rng.below(16) as i128, 0xE0, 0xEF] { let mut b = d.pack(&d.gen(&mut rng)); d.leaves[i].encode(k, &mut b); bytes.push(b) }
        }
        for i in 0..ctx.n { cases.push(faulty(d, &mut rng, i % 4)); bytes.push(faulty_bytes(d, &mut rng, i % 4)) }
        for v in &cases {
            let errs = pack_errors(d, v);
            let exp = d.pack(v);
            let inp = format!("{:?}", v);
            judge(ctx, "fault.pack", d, inp.clone(), &errs, &exp, guard(|| (s.pack)(v)));
            judge(ctx, "fault.pack_to_slice", d, inp.clone(), &errs, &exp, guard(|| { let mut o = vec![0x99; d.bytes]; (s.pack_slice)(v, &mut o)?; Ok(o) }));
            judge(ctx, "fault.pack_to_vec", d, inp.clone(), &errs, &exp, guard(|| (s.pack_vec)(v)));
            // as an item of a vector, between good ones
            let good: Vec<Vec<i128>> = (0..rng.below(3)).map(|_| d.gen(&mut rng)).collect();
            let mut many = good.clone();
            let at = rng.below(many.len() + 1);
            many.insert(at, v.clone());
            let exp: Vec<u8> = many.iter().flat_map(|v| d.pack(v)).collect();
            judge(ctx, "fault.vec_pack", d, format!("{:?}", many), &errs, &exp, guard(|| (s.many_pack)(&many)));
            // formatting
            let r = guard(|| (s.show)(v, Some(31)));
            ctx.event("fault.display", hash_bytes(inp.as_bytes()));
            let ok = match &r {
                Ok(t) if errs.is_empty() => t.contains(d.name),
                Ok(t) => errs.iter().any(|e| t.contains(&format!("{:?}", e))),
                Err(_) => false,
            };
            if !ok { ctx.violate("fault.display", d.name, d.decl, inp, format!("text naming one of {:?}", errs), format!("{:?}", r)) }
        }
        for b in &bytes {
            let errs = unpack_errors(d, b);
            let exp: Vec<i128> = d.leaves.iter().map(|l| l.decode(b).unwrap_or(-1)).collect();
            judge(ctx, "fault.unpack", d, hex(b), &errs, &exp, guard(|| (s.unpack)(b)));
            judge(ctx, "fault.unpack_slice", d, hex(b), &errs, &exp, guard(|| (s.unpack_slice)(b)));
            let mut many: Vec<Vec<u8>> = (0..rng.below(3)).map(|_| d.pack(&d.gen(&mut rng))).collect();
            let at = rng.below(many.len() + 1);
            many.insert(at, b.clone());
            let exp: Vec<Vec<i128>> = many.iter().map(|b| d.leaves.iter().map(|l| l.decode(b).unwrap_or(-1)).collect()).collect();
            let all: Vec<u8> = many.concat();
            judge(ctx, "fault.vec_unpack", d, hex(&all), &errs, &exp, guard(|| (s.many_unpack)(&all)));
        }
    }
}

impl Elem for Fus {
    fn g(r: &mut Rng) -> Self { Fus(r.below(0xE0) as u8) }
    fn mp(&self) -> Vec<u8> { vec![self.0] }
    fn st() -> Option<usize> { Some(1) }
    fn mu(b: &[u8]) -> PackingResult<Self> {
        if b.len() != 1 { return Err(PackingError::BufferSizeMismatch { expected: 1, actual: b.len() }) }
        match unpack_fault(b[0] as i128) { Some(e) => Err(e), None => Ok(Fus(b[0])) }
    }
    fn text(&self) -> String { format!("Fus({})", self.0) }
    fn gb(r: &mut Rng) -> Vec<u8> { vec![r.below(0xE0) as u8] }
    fn gf(r: &mut Rng) -> Self { if r.chance(1, 3) { Fus(0xF0 + r.below(16) as u8) } else { Self::g(r) } }
    fn gbf(r: &mut Rng) -> Vec<u8> { if r.chance(1, 3) { vec![0xE0 + r.below(16) as u8] } else { Self::gb(r) } }
    fn pe(&self) -> Vec<PackingError> { pack_fault(self.0 as i128).into_iter().collect() }
}

/// A hand-written element whose size can't be told for some instances.
#[derive(Clone, PartialEq, Debug)]
pub struct SizeFails(pub u8);
fn size_fault(v: u8) -> Option<PackingError> { if v < 0xF0 { None } else { Some(match coded(v) { PackingError::InstanceRequiredForSize => PackingError::NotImplemented, e => e }) } }
impl PackedStructSlice for SizeFails {
    fn pack_to_slice(&self, output: &mut [u8]) -> PackingResult<()> { for b in output.iter_mut() { *b = self.0 } Ok(()) }
    fn unpack_from_slice(src: &[u8]) -> PackingResult<Self> { Self::mu(src) }
    fn packed_bytes_size(s: Option<&Self>) -> PackingResult<usize> { match s.and_then(|s| size_fault(s.0)) { Some(e) => Err(e), None => Ok(1) } }
}
impl Elem for SizeFails {
    fn g(r: &mut Rng) -> Self { SizeFails(r.below(0xF0) as u8) }
    fn mp(&self) -> Vec<u8> { vec![self.0] }
    fn st() -> Option<usize> { Some(1) }
    fn mu(b: &[u8]) -> PackingResult<Self> { if b.len() != 1 { Err(PackingError::BufferSizeMismatch { expected: 1, actual: b.len() }) } else { Ok(SizeFails(b[0])) } }
    fn text(&self) -> String { format!("SizeFails({})", self.0) }
    fn gb(r: &mut Rng) -> Vec<u8> { r.bytes(1) }
    fn gf(r: &mut Rng) -> Self { if r.chance(1, 3) { SizeFails(0xF0 + r.below(16) as u8) } else { Self::g(r) } }
    fn se(&self) -> Vec<PackingError> { size_fault(self.0).into_iter().collect() }
}
/// And one whose size can't be told without an instance.
#[derive(Clone, PartialEq, Debug)]
pub struct NoSize<const K: u8>(pub u8);
impl<const K: u8> PackedStructSlice for NoSize<K> {
    fn pack_to_slice(&self, output: &mut [u8]) -> PackingResult<()> { for b in output.iter_mut() { *b = self.0 } Ok(()) }
    fn unpack_from_slice(src: &[u8]) -> PackingResult<Self> { Self::mu(src) }
    fn packed_bytes_size(s: Option<&Self>) -> PackingResult<usize> { match s { Some(_) => Ok(1), None => Err(coded(K)) } }
}
impl<const K: u8> Elem for NoSize<K> {
    fn g(r: &mut Rng) -> Self { NoSize(r.next() as u8) }
    fn mp(&self) -> Vec<u8> { vec![self.0] }
    fn st() -> Option<usize> { Some(1) }
    fn mu(b: &[u8]) -> PackingResult<Self> { if b.len() != 1 { Err(PackingError::BufferSizeMismatch { expected: 1, actual: b.len() }) } else { Ok(NoSize(b[0])) } }
    fn text(&self) -> String { format!("NoSize({})", self.0) }
    fn gb(r: &mut Rng) -> Vec<u8> { r.bytes(1) }
    fn sn() -> Vec<PackingError> { vec![coded(K)] }
}

/// Tuples and vectors with fallible elements.
pub fn sequence<T: Elem>(ctx: &mut Ctx, name: &str) {
    let mut rng = Rng::named(ctx.seed, name);
    ctx.count("sequence_types");
    for k in 0..ctx.n * 4 {
        let v = if k % 4 == 0 { T::g(&mut rng) } else { T::gf(&mut rng) };
        let (mut errs, sizes) = (v.pe(), v.se());
        let exp = v.mp();
        // no item at all: nothing has to be asked
        if exp.is_empty() && !sizes.is_empty() { continue }
        errs.extend(&sizes);
        ctx.count(match errs.len() { 0 => "faults.none", 1 => "faults.one", _ => "faults.several" });
        if !sizes.is_empty() { ctx.count("faults.size") }
        for (what, r, sizes, ok) in [("fault.seq_size", guard(|| T::packed_bytes_size(Some(&v))), sizes, Ok(exp.len())), ("fault.seq_static_size", guard(|| T::packed_bytes_size(None)), T::sn(), T::st().ok_or(PackingError::InstanceRequiredForSize))] {
            ctx.event(what, hash_bytes(name.as_bytes()) ^ hash_bytes(&exp));
            // a part of varying size may be met first
            let dynamic = Err(PackingError::InstanceRequiredForSize);
            let good = match &r { Ok(x) if sizes.is_empty() => *x == ok, Ok(Err(e)) => sizes.contains(e) || ok == dynamic && *e == PackingError::InstanceRequiredForSize, _ => false };
            if !good { ctx.violate(what, name, "", v.text(), if sizes.is_empty() { format!("{:?}", ok) } else { format!("one of {:?}", sizes) }, format!("{:?}", r)) }
        }
        for (what, r) in [
            ("fault.seq_pack_to_vec", guard(|| v.pack_to_vec())),
            ("fault.seq_pack_to_slice", guard(|| { let mut o = vec![0x99; exp.len()]; v.pack_to_slice(&mut o)?; Ok(o) })),
        ] {
            ctx.event(what, hash_bytes(name.as_bytes()) ^ hash_bytes(&exp));
            let good = match &r { Ok(Ok(b)) => errs.is_empty() && *b == exp, Ok(Err(e)) => errs.contains(e), Err(_) => false };
            if !good { ctx.violate(what, name, "", v.text(), if errs.is_empty() { hex(&exp) } else { format!("one of {:?}", errs) }, crate::mon::fmt_res(&r)) }
        }
        let b = if k % 4 == 0 { T::gb(&mut rng) } else { T::gbf(&mut rng) };
        let mut errs = T::ue(&b);
        if b.is_empty() && !T::sn().is_empty() { continue }
        errs.extend(T::sn());
        ctx.count(match errs.len() { 0 => "faults.none", 1 => "faults.one", _ => "faults.several" });
        let r = guard(|| T::unpack_from_slice(&b));
        ctx.event("fault.seq_unpack", hash_bytes(name.as_bytes()) ^ hash_bytes(&b).rotate_left(3));
        let (good, got) = match &r {
            Ok(Ok(x)) => (errs.is_empty() && T::mu(&b).map(|y| y.text()) == Ok(x.text()), format!("Ok({})", x.text())),
            Ok(Err(e)) => (errs.contains(e), format!("Err({:?})", e)),
            Err(p) => (false, p.clone()),
        };
        if !good { ctx.violate("fault.seq_unpack", name, "", hex(&b), if errs.is_empty() { format!("{:?}", T::mu(&b).map(|x| x.text())) } else { format!("one of {:?}", errs) }, got) }
    }
}

/// Display and Debug of every error say the same.
pub fn texts(ctx: &mut Ctx) {
    let mut rng = Rng::named(ctx.seed, "texts");
    for k in 0..ctx.n * 8 {
        let mut e = coded((k % 256) as u8);
        let (a, b) = (rng.next() as usize >> rng.below(64), rng.next() as usize >> rng.below(64));
        match &mut e {
            PackingError::BufferSizeMismatch { expected, actual } => { *expected = a; *actual = b }
            PackingError::BufferModMismatch { actual_size, modulo_required } => { *actual_size = a; *modulo_required = b }
            PackingError::SliceIndexingError { slice_len } => *slice_len = a,
            _ => (),
        }
        let r = guard(|| (format!("{}", e), format!("{:?}", e), std::error::Error::source(&e).is_none(), e.to_string()));
        let want = match &e {
            PackingError::BufferSizeMismatch { expected, actual } => format!("BufferSizeMismatch {{ expected: {}, actual: {} }}", expected, actual),
            PackingError::BufferModMismatch { actual_size, modulo_required } => format!("BufferModMismatch {{ actual_size: {}, modulo_required: {} }}", actual_size, modulo_required),
            PackingError::SliceIndexingError { slice_len } => format!("SliceIndexingError {{ slice_len: {} }}", slice_len),
            PackingError::InvalidValue => "InvalidValue".into(), PackingError::BitsError => "BitsError".into(), PackingError::BufferTooSmall => "BufferTooSmall".into(),
            PackingError::NotImplemented => "NotImplemented".into(), PackingError::InstanceRequiredForSize => "InstanceRequiredForSize".into(),
            PackingError::MoreThanOneDynamicType => "MoreThanOneDynamicType".into(), PackingError::InternalError => "InternalError".into(),
        };
        ctx.event("error.text", hash_bytes(want.as_bytes()));
        if !matches!(&r, Ok((d, g, _, s)) if *d == want && *g == want && *s == want) { ctx.violate("error.text", "PackingError", "", want.clone(), want.clone(), format!("{:?}", r)) }
    }
}
