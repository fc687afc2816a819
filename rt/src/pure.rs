//! History checker: one table of operations over shared inputs, executed alone, in long random
//! histories and concurrently; every result has to be the one the operation has alone.
use crate::enums::EnumOps;
use crate::err::{coded, faulty, faulty_bytes, pack_errors, unpack_errors};
use crate::ints::IntOps;
use crate::model::*;

use crate::ops::Subject;
use crate::report::*;
use crate::rng::*;
use crate::seq::Elem;
use packed_struct::prelude::*;
use packed_struct::types::bits::ByteArray;
use packed_struct::{PackedStructInfo, PackingResult};
use std::collections::HashSet;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Barrier};

pub struct Op {
    pub name: String,
    /// operations on the same type
    pub group: usize,
    pub input: String,
    pub decl: &'static str,
    pub run: Box<dyn Fn() -> String + Send + Sync>,
    /// what the reference model says, where it decides
    pub expect: Option<String>,
    /// the inputs are as they were
    pub intact: Box<dyn Fn() -> bool + Send + Sync>,
}

#[derive(Default)]
pub struct Table { pub ops: Vec<Op>, groups: usize }

fn text<T: std::fmt::Debug>(r: PackingResult<T>) -> String { format!("{:?}", r) }

/// Takes so many bytes and no more.
struct Narrow(String, usize);
impl std::fmt::Write for Narrow {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() { if self.0.len() >= self.1 { return Err(std::fmt::Error) } self.0.push(c) }
        Ok(())
    }
}

impl Table {
    pub fn group(&mut self) { self.groups += 1 }
    fn add(&mut self, name: String, decl: &'static str, input: String, expect: Option<String>, intact: impl Fn() -> bool + Send + Sync + 'static, run: impl Fn() -> String + Send + Sync + 'static) {
        let run = move || guard(|| run()).unwrap_or_else(|p| p);
        self.ops.push(Op { name, group: self.groups, input, decl, run: Box::new(run), expect, intact: Box::new(intact) })
    }
    fn judged<T: std::fmt::Debug>(errs: Vec<PackingError>, ok: impl FnOnce() -> T) -> Option<String> {
        match errs.len() { 0 => Some(text(Ok(ok()))), 1 => Some(text::<T>(Err(errs[0]))), _ => None }
    }

    /// `k` instances and `k` inputs of a derived structure
    pub fn structure<S: Subject + std::fmt::Display + Send + Sync>(&mut self, rng: &mut Rng, k: usize) {
        self.group();
        let d = S::desc();
        for i in 0..k {
            let v = faulty(d, rng, [0, 0, 1, 2][i % 4]);
            let shared = Arc::new(S::build(&v));
            let kept = Arc::new(S::build(&v));
            let input = format!("{:?}", v);
            let e = Self::judged(pack_errors(d, &v), || d.pack(&v));
            macro_rules! op { ($n:expr, $e:expr, |$s:ident| $b:expr) => {{
                let ($s, a, b) = (shared.clone(), shared.clone(), kept.clone());
                self.add(format!("{} {}", d.name, $n), d.decl, input.clone(), $e, move || *a == *b && format!("{:?}", a) == format!("{:?}", b), move || $b);
            }} }
            op!("pack", e.clone(), |s| text(s.pack().map(|b| b.as_bytes_slice().to_vec())));
            op!("pack_to_vec", e.clone(), |s| text(s.pack_to_vec()));
            let n = d.bytes;
            op!("pack_to_slice", e.clone(), |s| { let mut o = vec![0xC3; n]; text(s.pack_to_slice(&mut o).map(|_| o)) });
            let bad = n + 1 + rng.below(5);
            op!("pack_to_slice, wrong length", Some(text::<()>(Err(PackingError::BufferSizeMismatch { expected: n, actual: bad }))), |s| { let mut o = vec![0xC3; bad]; text(s.pack_to_slice(&mut o)) });
            op!("packed_bytes_size", Some(text(Ok(n))), |s| text(<S as PackedStructSlice>::packed_bytes_size(Some(&*s))));
            op!("display", None, |s| s.show(None));
            let sw = rng.below(32) as u8;
            op!("formatter", None, |s| s.show(Some(sw)));
            let room = rng.below(160);
            op!("display, writer fails", None, |s| { let mut w = Narrow(String::new(), room); let r = write!(w, "{}", s); format!("{:?} {}", r, w.0) });
            op!("debug", None, |s| format!("{:?}", s));
            op!("repeat", None, |s| { let (a, b) = (text(s.pack().map(|b| b.as_bytes_slice().to_vec())), text(s.pack().map(|b| b.as_bytes_slice().to_vec()))); format!("{} {}", a == b, b) });
            op!("round trip", Self::judged(pack_errors(d, &v), || 0).filter(|_| pack_errors(d, &v).is_empty() && unpack_errors(d, &d.pack(&v)).is_empty()).map(|_| "Ok(true)".into()),
                |s| text((|| { let u = S::unpack(&s.pack()?)?; Ok(u == *s) })()));
            let b = Arc::new(if i % 2 == 0 { faulty_bytes(d, rng, i % 3) } else { d.gen_bytes(rng) });
            let kb = b.to_vec();
            let e = Self::judged(unpack_errors(d, &b), || match d.unpack(&b) { Outcome::Ok(v) => v, Outcome::Invalid => vec![] });
            let input = hex(&b);
            macro_rules! bop { ($n:expr, $e:expr, |$s:ident| $x:expr) => {{
                let ($s, a, k) = (b.clone(), b.clone(), kb.clone());
                self.add(format!("{} {}", d.name, $n), d.decl, input.clone(), $e, move || *a == k, move || $x);
            }} }
            let ex = |s: &S| { let mut o = vec![]; s.extract(&mut o); o };
            bop!("unpack", e.clone(), |b| { let mut a = <S::ByteArray as ByteArray>::new(0); a.as_mut_bytes_slice().copy_from_slice(&b); text(S::unpack(&a).map(|s| ex(&s))) });
            bop!("unpack_from_slice", e.clone(), |b| text(S::unpack_from_slice(&b).map(|s| ex(&s))));
            if n > 0 { bop!("unpack_from_slice, wrong length", Some(text::<()>(Err(PackingError::BufferSizeMismatch { expected: n, actual: n - 1 }))), |b| text(S::unpack_from_slice(&b[1..]).map(|s| ex(&s)))) }
            bop!("unpack and pack", None, |b| text((|| S::unpack_from_slice(&b)?.pack_to_vec())()));
            bop!("vector", None, |b| text((|| { let w = [&b[..], &b[..], &b[..]].concat(); Vec::<S>::unpack_from_slice(&w)?.pack_to_vec() })()));
        }
        self.add(format!("{} sizes", d.name), d.decl, String::new(), Some(format!("{:?}", (Ok::<usize, PackingError>(d.bytes), d.bits, d.bytes))), || true,
            move || format!("{:?}", (<S as PackedStructSlice>::packed_bytes_size(None), S::packed_bits(), <S::ByteArray as ByteArray>::len())));
    }

    /// a tuple or vector type
    pub fn sequence<T: Elem + Send + Sync + 'static>(&mut self, name: &'static str, rng: &mut Rng, k: usize) {
        self.group();
        for i in 0..k {
            let v = Arc::new(if i % 2 == 0 { T::g(rng) } else { T::gf(rng) });
            let t = v.text();
            let e = Self::judged(v.pe(), || v.mp());
            macro_rules! op { ($n:expr, $e:expr, |$s:ident| $b:expr) => {{
                let ($s, a, k) = (v.clone(), v.clone(), t.clone());
                self.add(format!("{} {}", name, $n), "", t.clone(), $e, move || a.text() == k, move || $b);
            }} }
            op!("pack_to_vec", e.clone(), |s| text(s.pack_to_vec()));
            let n = v.mp().len();
            op!("pack_to_slice", e.clone(), |s| { let mut o = vec![0x99; n]; text(s.pack_to_slice(&mut o).map(|_| o)) });
            op!("pack_to_slice, wrong length", None, |s| { let mut o = vec![0x99; n + 1]; text(s.pack_to_slice(&mut o).map(|_| o)) });
            op!("packed_bytes_size", Some(text(Ok(n))), |s| text(T::packed_bytes_size(Some(&*s))));
            let mut b = if i % 2 == 0 { v.mp() } else { T::gbf(rng) };
            if i % 3 == 2 { b.push(1) }
            let b = Arc::new(b);
            let kb = b.to_vec();
            let a = b.clone();
            self.add(format!("{} unpack_from_slice", name), "", hex(&b), None, { let a = a.clone(); move || *a == kb }, move || text(T::unpack_from_slice(&a).map(|s| s.text())));
        }
        self.add(format!("{} static size", name), "", String::new(), None, || true, || text(T::packed_bytes_size(None)));
    }

    pub fn integers(&mut self, all: Vec<IntOps>, rng: &mut Rng, k: usize) {
        for o in all {
            self.group();
            let o = Arc::new(o);
            for _ in 0..k {
                let v = wrap(rng.next() as i128, o.tb, o.signed);
                let b = rng.bytes((o.w + 7) / 8);
                let e = wrap(v, o.w, o.signed);
                let u = wrap(rng.next() as i128, o.tb, o.signed);
                macro_rules! op { ($n:expr, $e:expr, |$q:ident| $b:expr) => {{ let $q = o.clone(); self.add(format!("{} {}", o.name, $n), "", format!("{} / {}", v, hex(&b)), $e, || true, move || $b) }} }
                op!("from", Some(e.to_string()), |q| (q.from)(v).to_string());
                op!("views", None, |q| format!("{:?}", (q.views)(v)));
                op!("eq", None, |q| format!("{:?}", (q.eq)(v, u)));
                op!("mask", None, |q| (q.mask)().to_string());
                op!("round msb", Some(text(Ok(e))), |q| text((|| (q.unpack_msb)(&(q.pack_msb)(v)?))()));
                op!("round lsb", Some(text(Ok(e))), |q| text((|| (q.unpack_lsb)(&(q.pack_lsb)(v)?))()));
                for (n, p) in [("to msb", o.to_msb), ("to lsb", o.to_lsb), ("pack msb", o.pack_msb), ("pack lsb", o.pack_lsb)] { op!(n, None, |q| text(p(v))) }
                for (n, p) in [("from msb", o.from_msb), ("from lsb", o.from_lsb), ("unpack msb", o.unpack_msb), ("unpack lsb", o.unpack_lsb)] { let b2 = b.clone(); op!(n, None, |q| text(p(&b2))) }
            }
        }
    }

    pub fn enums(&mut self, all: Vec<EnumOps>, rng: &mut Rng, k: usize) {
        for o in all {
            self.group();
            let o = Arc::new(o);
            let d = o.desc;
            for j in 0..k {
                let i = rng.below(d.variants.len());
                let (name, num) = d.variants[i];
                let n = if j % 2 == 0 { num } else { wrap(num ^ (1 << rng.below(o.prim.1)), o.prim.1, o.prim.2) };
                let at = d.variants.iter().position(|v| v.1 == n);
                let s = match j % 3 { 0 => name.to_string(), 1 => name.to_lowercase(), _ => format!("{}x", name) };
                let es = d.variants.iter().position(|v| v.0 == s);
                macro_rules! op { ($n:expr, $e:expr, |$q:ident| $b:expr) => {{ let $q = o.clone(); self.add(format!("{} {}", d.name, $n), d.decl, format!("{} {} {:?}", i, n, s), $e, || true, move || $b) }} }
                op!("to_primitive", Some(num.to_string()), |q| (q.to)(i).to_string());
                op!("from_primitive", Some(format!("{:?}", at)), |q| format!("{:?}", (q.from)(n)));
                let t = s.clone();
                op!("from_str", Some(format!("{:?}", es)), |q| format!("{:?}", (q.from_str)(&t)));
                let t = s.clone();
                op!("from_str_lower", Some(format!("{:?}", d.variants.iter().position(|v| v.0.to_lowercase() == s))), |q| format!("{:?}", (q.from_lower)(&t)));
                op!("display", None, |q| format!("{:?}", (q.display)(i)));
                op!("all_variants", None, |q| format!("{:?}", (q.all)()));
                op!("catch-all from", Some(format!("{:?}", Some((at, n)))), |q| format!("{:?}", (q.ca_from)(n)));
                op!("catch-all to", Some(n.to_string()), |q| (q.ca_to)(at, n).to_string());
                op!("catch-all display", None, |q| format!("{:?}", (q.ca_display)(None, n)));
                op!("catch-all eq", None, |q| format!("{:?}", (q.ca_eq)((at, n), (None, n))));
                let t = s.clone();
                op!("catch-all from_str", None, |q| format!("{:?}", (q.ca_str)(&t)));
            }
        }
    }

    pub fn errors(&mut self) {
        self.group();
        for k in 0..12u8 {
            let e = coded(k);
            self.add("PackingError".into(), "", format!("{:?}", e), None, || true, move || format!("{} {:?} {}", e, e, e == coded(k)));
        }
    }

    pub fn run(self, ctx: &mut Ctx, cold: bool) {
        let ops = Arc::new(self.ops);
        let n = ops.len();
        let groups = self.groups + 1;
        let mut rng = Rng::named(ctx.seed, "histories");
        ctx.add("operations_in_table", n as u64);
        ctx.add("groups_in_table", groups as u64);
        let threads = if ctx.light { 3 } else { 8 };
        let bad = |ctx: &mut Ctx, what: &str, i: usize, exp: &str, got: &str| ctx.violate(what, &ops[i].name, ops[i].decl, ops[i].input.clone(), exp.to_string(), got.to_string());
        // concurrently from the very start: first uses race
        let mut early: Vec<Vec<(usize, String)>> = vec![];
        if cold {
            let gate = Arc::new(Barrier::new(threads));
            let hs: Vec<_> = (0..threads).map(|t| {
                let (ops, gate, light) = (ops.clone(), gate.clone(), ctx.light);
                let mut rng = Rng::named(ctx.seed, &format!("cold{}", t / 2));
                std::thread::spawn(move || {
                    let mut order: Vec<usize> = (0..ops.len()).collect();
                    for i in (1..order.len()).rev() { order.swap(i, rng.below(i + 1)) }
                    if light { order.truncate(24) }
                    gate.wait();
                    order.into_iter().map(|i| (i, (ops[i].run)())).collect::<Vec<_>>()
                })
            }).collect();
            early = hs.into_iter().map(|h| h.join().expect("harness: a thread died")).collect();
        }
        // alone
        let alone: Vec<String> = if ctx.light && cold { vec![String::new(); n] } else { (0..n).map(|i| (ops[i].run)()).collect() };
        let alone: Vec<String> = if ctx.light && cold {
            let mut a = alone;
            for (i, _) in early.iter().flatten() { if a[*i].is_empty() { a[*i] = (ops[*i].run)() } }
            a
        } else { alone };
        for i in 0..n {
            if alone[i].is_empty() { continue }
            ctx.event("alone", hash_bytes(ops[i].name.as_bytes()) ^ hash_bytes(ops[i].input.as_bytes()));
            if let Some(e) = &ops[i].expect { if *e != alone[i] { bad(ctx, "pure.alone", i, e, &alone[i]) } }
            if alone[i].starts_with("PANIC: ") && alone[i] != "PANIC: boom" { bad(ctx, "pure.panic", i, "no panic", &alone[i]) }
        }
        ctx.sample(|| format!("{} on {} alone: {}", ops[0].name, ops[0].input, alone[0]));
        for (t, l) in early.iter().enumerate() {
            for (i, r) in l {
                ctx.event("concurrent.first_uses", (t * 1000003 + i) as u64);
                if *r != alone[*i] { bad(ctx, "pure.first_uses", *i, &alone[*i], r) }
            }
        }
        let alone = Arc::new(alone);
        let failing: Vec<usize> = (0..n).filter(|i| alone[*i].contains("Err(") || alone[*i].starts_with("PANIC")).collect();
        ctx.add("operations_that_fail", failing.len() as u64);
        let by_group: Arc<Vec<Vec<usize>>> = Arc::new({ let mut g = vec![vec![]; groups + 1]; for i in 0..n { g[ops[i].group].push(i) } g.retain(|x| !x.is_empty()); g });

        // long histories on one thread
        let steps = if ctx.light { 0 } else { ctx.n * 400 };
        let mut seen: HashSet<u64> = HashSet::new();
        let mut prev = 0;
        let mut hot: Vec<usize> = vec![0];
        for s in 0..steps {
            if s % 40 == 0 {
                let g = &by_group[rng.below(by_group.len())];
                hot = (0..1 + rng.below(6)).map(|_| g[rng.below(g.len())]).collect();
                for _ in 0..rng.below(3) { hot.push(rng.below(n)) }
                if !failing.is_empty() && rng.chance(1, 2) { hot.push(failing[rng.below(failing.len())]) }
            }
            let i = hot[rng.below(hot.len())];
            let r = (ops[i].run)();
            if r != alone[i] { bad(ctx, "pure.history", i, &alone[i], &format!("{} after {}", r, ops[prev].name)) }
            seen.insert((prev * n + i) as u64);
            prev = i;
        }
        ctx.add("history.operations", steps as u64);
        ctx.add("history.distinct_successions", seen.len() as u64);
        ctx.add("evaluations", steps as u64);
        for k in seen { ctx.distinct.insert(k ^ hash_bytes(b"succession")); }
        // the same operation very often, then everything once more
        if !ctx.light {
            for _ in 0..6 {
                let i = rng.below(n);
                let times = 70_000 / (1 + alone[i].len() / 100);
                for _ in 0..times { let r = (ops[i].run)(); if r != alone[i] { bad(ctx, "pure.repetition", i, &alone[i], &r); break } }
                ctx.add("repetition.operations", times as u64);
                ctx.add("evaluations", times as u64);
            }
            for i in 0..n { let r = (ops[i].run)(); if r != alone[i] { bad(ctx, "pure.after_repetition", i, &alone[i], &r) } }
        }

        // concurrently, on the same values; the counters are relaxed so that they order nothing
        if !(ctx.light && cold) {
            let active: Arc<Vec<AtomicUsize>> = Arc::new((0..groups + 1).map(|_| AtomicUsize::new(0)).collect());
            let rounds = if ctx.light { 2 } else { (ctx.n / 4).max(4) };
            let per = if ctx.light { 12 } else { 150 };
            let gate = Arc::new(Barrier::new(threads));
            let hs: Vec<_> = (0..threads).map(|t| {
                let (ops, alone, active, gate, by_group) = (ops.clone(), alone.clone(), active.clone(), gate.clone(), by_group.clone());
                let seed = ctx.seed;
                std::thread::spawn(move || {
                    let mut mine = Rng::named(seed, &format!("thread{}", t));
                    let mut bad: Vec<(usize, String)> = vec![];
                    let mut seen: HashSet<u64> = HashSet::new();
                    let (mut done, mut overlapped, mut yields) = (0u64, 0u64, 0u64);
                    for round in 0..rounds {
                        // all threads use the same few operations
                        let mut common = Rng::named(seed, &format!("round{}", round));
                        let g = &by_group[common.below(by_group.len())];
                        let mut hot: Vec<usize> = (0..1 + common.below(7)).map(|_| g[common.below(g.len())]).collect();
                        if common.chance(1, 3) { let g = &by_group[common.below(by_group.len())]; hot.push(g[common.below(g.len())]) }
                        gate.wait();
                        let mut prev = hot[0];
                        for _ in 0..per {
                            let i = if mine.chance(1, 30) { mine.below(ops.len()) } else { hot[mine.below(hot.len())] };
                            if alone[i].is_empty() { continue }
                            let a = &active[ops[i].group];
                            if a.fetch_add(1, Relaxed) > 0 { overlapped += 1 }
                            let r = (ops[i].run)();
                            a.fetch_sub(1, Relaxed);
                            if r != alone[i] && bad.len() < 20 { bad.push((i, r)) }
                            done += 1;
                            seen.insert((prev * ops.len() + i) as u64);
                            prev = i;
                            if mine.chance(1, 50) { yields += 1; std::thread::yield_now() }
                        }
                    }
                    (bad, seen, done, overlapped, yields)
                })
            }).collect();
            for h in hs {
                let (b, seen, done, overlapped, yields) = h.join().expect("harness: a thread died");
                for (i, r) in b { bad(ctx, "pure.concurrent", i, &alone[i], &r) }
                ctx.add("concurrent.operations", done);
                ctx.add("concurrent.overlapped_another_on_the_type", overlapped);
                ctx.add("concurrent.yields", yields);
                ctx.add("concurrent.distinct_successions", seen.len() as u64);
                ctx.add("evaluations", done);
                for k in seen { ctx.distinct.insert(k ^ hash_bytes(b"concurrent")); }
            }
            ctx.add("threads", threads as u64);
        }
        for i in 0..n {
            ctx.event("inputs_intact", hash_bytes(ops[i].name.as_bytes()) ^ hash_bytes(ops[i].input.as_bytes()));
            if guard(|| (ops[i].intact)()) != Ok(true) { bad(ctx, "pure.input_modified", i, "the inputs as before", "changed") }
        }
    }
}

/// An element whose implementation panics for some values.
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Boom(pub u8);
impl PackedStruct for Boom {
    type ByteArray = [u8; 1];
    fn pack(&self) -> PackingResult<[u8; 1]> { if self.0 >= 200 { panic!("boom") } Ok([self.0]) }
    fn unpack(src: &[u8; 1]) -> PackingResult<Self> { if src[0] < 20 { panic!("boom") } Ok(Boom(src[0])) }
}
impl PackedStructInfo for Boom { fn packed_bits() -> usize { 8 } }
impl Elem for Boom {
    fn g(r: &mut Rng) -> Boom { Boom(r.next() as u8) }
    fn mp(&self) -> Vec<u8> { vec![self.0] }
    fn st() -> Option<usize> { Some(1) }
    fn mu(b: &[u8]) -> PackingResult<Boom> { Ok(Boom(b[0])) }
    fn text(&self) -> String { format!("{:?}", self) }
    fn gb(r: &mut Rng) -> Vec<u8> { r.bytes(1) }
    fn pe(&self) -> Vec<PackingError> { vec![coded(0), coded(1)] }
}

/// An element whose implementation uses the library itself, in the middle of the library's work.
#[derive(Clone, PartialEq, Debug)]
pub struct Re<S>(pub S);
impl<S: Subject + std::fmt::Display> Re<S> {
    fn detour() {
        let d = S::desc();
        let mut rng = Rng::named(5, d.name);
        let v = faulty(d, &mut rng, 0);
        let s = S::build(&v);
        let p = s.pack_to_vec();
        assert!(p == Ok(d.pack(&v)), "detour packs {:?}", p);
        let b = faulty_bytes(d, &mut rng, 1);
        let _ = S::unpack_from_slice(&b);
        let _ = Vec::<S>::unpack_from_slice(&[&b[..], &b[..]].concat());
        let _ = (7u8, s.clone(), true).pack_to_vec();
        let _ = format!("{}", s);
    }
}
impl<S: Subject + std::fmt::Display> PackedStruct for Re<S> {
    type ByteArray = S::ByteArray;
    fn pack(&self) -> PackingResult<S::ByteArray> { Self::detour(); let r = self.0.pack(); Self::detour(); r }
    fn unpack(src: &S::ByteArray) -> PackingResult<Self> { Self::detour(); let r = S::unpack(src).map(Re); Self::detour(); r }
}
impl<S: Subject + std::fmt::Display> PackedStructInfo for Re<S> { fn packed_bits() -> usize { S::packed_bits() } }
impl<S: Subject + std::fmt::Display> Elem for Re<S> {
    fn g(r: &mut Rng) -> Self { Re(<S as Elem>::g(r)) }
    fn mp(&self) -> Vec<u8> { Elem::mp(&self.0) }
    fn st() -> Option<usize> { <S as Elem>::st() }
    fn mu(b: &[u8]) -> PackingResult<Self> { <S as Elem>::mu(b).map(Re) }
    fn text(&self) -> String { Elem::text(&self.0) }
    fn gb(r: &mut Rng) -> Vec<u8> { <S as Elem>::gb(r) }
    fn gf(r: &mut Rng) -> Self { Re(<S as Elem>::gf(r)) }
    fn gbf(r: &mut Rng) -> Vec<u8> { <S as Elem>::gbf(r) }
    fn pe(&self) -> Vec<PackingError> { Elem::pe(&self.0) }
}
