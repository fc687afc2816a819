//! Monitors for primitive enums. `GenEnum` is implemented by generated code with plain matches,
//! so that the reference (names, numbers, order) does not come from the derive under test.
use crate::report::*;
use crate::rng::*;
use packed_struct::{EnumCatchAll, PrimitiveEnum};
use packed_struct::PrimitiveEnumStaticStr;
#[cfg(feature = "full")]
use packed_struct::PrimitiveEnumDynamicStr;

/// The eight possible backing types.
pub trait Prim: Copy + PartialEq + std::fmt::Debug + 'static {
    const NAME: &'static str;
    const BITS: usize;
    const SIGNED: bool;
    fn of(v: i128) -> Self;
    fn to(self) -> i128;
}
macro_rules! prims { ($($t:ident $b:expr, $s:expr;)*) => { $( impl Prim for $t {
    const NAME: &'static str = stringify!($t); const BITS: usize = $b; const SIGNED: bool = $s;
    fn of(v: i128) -> Self { v as $t }
    fn to(self) -> i128 { self as i128 }
} )* } }
prims! { u8 8, false; i8 8, true; u16 16, false; i16 16, true; u32 32, false; i32 32, true; u64 64, false; i64 64, true; }

pub struct EnumDesc {
    pub name: &'static str,
    pub decl: &'static str,
    pub prim: &'static str,
    pub implicit: bool,
    pub variants: &'static [(&'static str, i128)],
}

pub trait GenEnum: PrimitiveEnum + PartialEq + std::fmt::Debug + PrimitiveEnumStaticStr + 'static where Self::Primitive: Prim {
    fn spec() -> &'static EnumDesc;
    fn make(i: usize) -> Self;
    fn index(&self) -> usize;
    /// the number the Rust language assigns (`as`)
    fn native(&self) -> i128;
}

#[derive(Clone)]
pub struct EnumOps {
    pub desc: &'static EnumDesc,
    pub prim: (&'static str, usize, bool),
    pub native: fn(usize) -> i128,
    pub to: fn(usize) -> i128,
    pub from: fn(i128) -> Option<usize>,
    pub from_str: fn(&str) -> Option<usize>,
    pub from_lower: fn(&str) -> Option<usize>,
    pub display: fn(usize) -> Vec<String>,
    pub all: fn() -> Vec<Vec<usize>>,
    // the catch-all wrapper: (variant, number) where the variant is None for catch-all
    pub ca_from: fn(i128) -> Option<(Option<usize>, i128)>,
    pub ca_to: fn(Option<usize>, i128) -> i128,
    pub ca_eq: fn((Option<usize>, i128), (Option<usize>, i128)) -> (bool, bool),
    pub ca_str: fn(&str) -> (Option<(Option<usize>, i128)>, Option<(Option<usize>, i128)>),
    pub ca_display: fn(Option<usize>, i128) -> Vec<String>,
    pub ca_all: fn() -> Vec<Vec<(Option<usize>, i128)>>,
    pub ca_wrap: fn(usize) -> Vec<(Option<usize>, i128)>,
}

fn ca<E: GenEnum>(v: Option<usize>, n: i128) -> EnumCatchAll<E> where E::Primitive: Prim {
    match v { Some(i) => EnumCatchAll::Enum(E::make(i)), None => EnumCatchAll::CatchAll(E::Primitive::of(n)) }
}
fn un<E: GenEnum>(c: EnumCatchAll<E>) -> (Option<usize>, i128) where E::Primitive: Prim {
    match c { EnumCatchAll::Enum(e) => (Some(e.index()), e.native()), EnumCatchAll::CatchAll(p) => (None, p.to()) }
}

pub fn enum_ops<E: GenEnum + MaybeDyn>() -> EnumOps where E::Primitive: Prim {
    EnumOps {
        desc: E::spec(),
        prim: (E::Primitive::NAME, E::Primitive::BITS, E::Primitive::SIGNED),
        native: |i| E::make(i).native(),
        to: |i| E::make(i).to_primitive().to(),
        from: |n| E::from_primitive(E::Primitive::of(n)).map(|e| e.index()),
        from_str: |s| E::from_str(s).map(|e| e.index()),
        from_lower: |s| E::from_str_lower(s).map(|e| e.index()),
        display: |i| { let mut o = vec![PrimitiveEnumStaticStr::to_display_str(&E::make(i)).to_string()]; o.extend(E::make(i).dyn_display()); o },
        all: || { let mut o = vec![<E as PrimitiveEnumStaticStr>::all_variants().iter().map(|e| e.index()).collect::<Vec<_>>()]; o.extend(E::dyn_all()); o },
        ca_from: |n| EnumCatchAll::<E>::from_primitive(E::Primitive::of(n)).map(un),
        ca_to: |v, n| ca::<E>(v, n).to_primitive().to(),
        ca_eq: |a, b| { let (x, y) = (ca::<E>(a.0, a.1), ca::<E>(b.0, b.1)); (x == y, x != y) },
        ca_str: |s| (EnumCatchAll::<E>::from_str(s).map(un), EnumCatchAll::<E>::from_str_lower(s).map(un)),
        ca_display: |v, n| E::ca_dyn_display(ca::<E>(v, n)),
        ca_all: || E::ca_dyn_all(),
        ca_wrap: |i| vec![un(EnumCatchAll::from_enum(E::make(i))), un(EnumCatchAll::from(E::make(i)))],
    }
}

/// The dynamic interface exists with std or alloc only.
pub trait MaybeDyn: GenEnum where Self::Primitive: Prim {
    fn dyn_display(&self) -> Vec<String> { vec![] }
    fn dyn_all() -> Vec<Vec<usize>> { vec![] }
    fn ca_dyn_display(_: EnumCatchAll<Self>) -> Vec<String> { vec![] }
    fn ca_dyn_all() -> Vec<Vec<(Option<usize>, i128)>> { vec![] }
}
#[cfg(feature = "full")]
impl<E: GenEnum + PrimitiveEnumDynamicStr> MaybeDyn for E where E::Primitive: Prim {
    fn dyn_display(&self) -> Vec<String> { vec![PrimitiveEnumDynamicStr::to_display_str(self).into_owned()] }
    fn dyn_all() -> Vec<Vec<usize>> { vec![<E as PrimitiveEnumDynamicStr>::all_variants().iter().map(|e| e.index()).collect()] }
    fn ca_dyn_display(c: EnumCatchAll<Self>) -> Vec<String> { vec![PrimitiveEnumDynamicStr::to_display_str(&c).into_owned()] }
    fn ca_dyn_all() -> Vec<Vec<(Option<usize>, i128)>> { vec![<EnumCatchAll<E> as PrimitiveEnumDynamicStr>::all_variants().iter().map(|e| un(*e)).collect()] }
}
#[cfg(not(feature = "full"))]
impl<E: GenEnum> MaybeDyn for E where E::Primitive: Prim {}

fn key(d: &EnumDesc, n: i128) -> u64 { hash_vals(d.name, &[n]) }

/// Numbers worth trying: every one for small backing types, otherwise everything that a
/// truncation, a sign error or an off-by-one would confuse with a variant.
pub fn numbers(o: &EnumOps, n: usize, thorough: bool, rng: &mut Rng) -> Vec<i128> {
    let (_, bits, signed) = o.prim;
    let w = |v: i128| crate::model::wrap(v, bits, signed);
    if bits == 8 || (bits == 16 && thorough) { return (0..1i128 << bits).map(|v| w(v)).collect() }
    let mut v = vec![];
    for k in 0..bits { let p = 1i128 << k; v.extend([p, p - 1, p + 1, -p, -p - 1]) }
    for (_, d) in o.desc.variants {
        v.extend([*d, d + 1, d - 1, -d, !d, d ^ 1]);
        for k in [7, 8, 15, 16, 31, 32, 63] { v.extend([d + (1i128 << k), d - (1i128 << k), d ^ (1i128 << k), d & ((1i128 << k) - 1)]) }
        v.push(d ^ (1i128 << rng.below(bits)));
    }
    for _ in 0..n { v.push(rng.next() as i128); v.push(rng.below(300) as i128 - 20) }
    let mut v: Vec<i128> = v.into_iter().map(w).collect();
    v.sort();
    v.dedup();
    v
}

fn strings(d: &EnumDesc, n: usize, light: bool, rng: &mut Rng) -> Vec<String> {
    let mut v: Vec<String> = ["", " ", "\0", "0", "1", "Unknown", "Unknown value: 0", "None", "CatchAll", "Enum", "é", "🦀"].iter().map(|s| s.to_string()).collect();
    v.push(d.name.into());
    let some = rng.below(d.variants.len());
    for (name, num) in if light { &d.variants[some..some + 1] } else { d.variants } {
        let cs: Vec<char> = name.chars().collect();
        v.push(name.to_string());
        v.push(name.to_lowercase());
        v.push(name.to_uppercase());
        v.push(num.to_string());
        v.push(format!("{}::{}", d.name, name));
        v.push(format!(" {}", name));
        v.push(format!("{} ", name));
        v.push(format!("{}\n", name));
        v.push(format!("{0}{0}", name));
        v.push(cs[..cs.len() - 1].iter().collect());
        v.push(cs[1..].iter().collect());
        v.push(format!("{}_", name));
        v.push(name.to_lowercase() + "x");
        // every single case flip
        for i in 0..cs.len() {
            let c = cs[i];
            let f: String = if c.is_lowercase() { c.to_uppercase().collect() } else { c.to_lowercase().collect() };
            let s: String = cs[..i].iter().collect::<String>() + &f + &cs[i + 1..].iter().collect::<String>();
            v.push(s);
        }
        // snake, kebab and camel case relatives
        v.push(name.replace('_', ""));
        v.push(name.replace('_', "-"));
        let mut sn = String::new();
        for (i, c) in cs.iter().enumerate() { if c.is_uppercase() && i > 0 { sn.push('_') } sn.extend(c.to_lowercase()) }
        v.push(sn);
        v.push(name.to_ascii_lowercase());
        v.push(name.to_ascii_uppercase());
    }
    // every character appended, prepended and inserted somewhere
    let (name, _) = d.variants[some];
    for c in (0..128u32).chain([0x80, 0x85, 0xA0, 0xAD, 0xDF, 0x130, 0x131, 0x17F, 0x212A, 0x300, 0x301, 0x2028, 0x3000, 0x200B, 0x200C, 0x200D, 0x200E, 0x202F, 0xFE0F, 0xFEFF, 0xFF21, 0xFFFD, 0x10400, 0x10FFFF]) {
        let c = char::from_u32(c).unwrap();
        v.push(format!("{}{}", name, c));
        v.push(format!("{}{}", c, name));
        v.push(format!("{}{}", name.to_lowercase(), c));
        let (n2, _) = d.variants[rng.below(d.variants.len())];
        let cs: Vec<char> = n2.chars().collect();
        let at = rng.below(cs.len());
        v.push(cs[..at].iter().chain([&c]).chain(&cs[at..]).collect());
        v.push(cs[..at].iter().chain([&c]).chain(&cs[at + 1..]).collect());
        v.push(format!("{}{}", c, n2.to_lowercase()));
    }
    // a character dropped, doubled, two swapped
    for (name, _) in d.variants.iter().take(30) {
        let cs: Vec<char> = name.chars().collect();
        for at in 0..cs.len() {
            v.push(cs[..at].iter().chain(&cs[at + 1..]).collect());
            v.push(cs[..at + 1].iter().chain(&cs[at..]).collect());
            if at > 0 { let mut x = cs.clone(); x.swap(at - 1, at); v.push(x.into_iter().collect()) }
        }
    }
    for k in [16, 255, 256, 257, 4096] { v.push(name.chars().cycle().take(k).collect()); v.push(format!("{}{}", name, " ".repeat(k))); v.push(format!("{}{}", name, "\0".repeat(k))) }
    for _ in 0..n {
        let l = rng.below(6);
        v.push((0..l).map(|_| (b'A' + rng.below(58) as u8) as char).collect());
        let (a, _) = d.variants[rng.below(d.variants.len())];
        let (b, _) = d.variants[rng.below(d.variants.len())];
        v.push(format!("{}{}", a, b));
    }
    v
}

/// The name of a variant declared as `r#type` may be understood with and without its prefix: the
/// display string settles it, all the other operations have to agree with that.
fn settled(o: &EnumOps) -> EnumOps {
    let mut o = o.clone();
    if o.desc.variants.iter().any(|v| v.0.starts_with("r#")) {
        let variants: Vec<(&'static str, i128)> = o.desc.variants.iter().enumerate().map(|(i, v)| match v.0.strip_prefix("r#") {
            Some(bare) if matches!(guard(|| (o.display)(i)), Ok(l) if l.iter().all(|s| s == bare)) => (bare, v.1),
            _ => *v
        }).collect();
        let d = o.desc;
        o.desc = Box::leak(Box::new(EnumDesc { name: d.name, decl: d.decl, prim: d.prim, implicit: d.implicit, variants: variants.leak() }));
    }
    o
}

pub fn run(ctx: &mut Ctx, all: &[EnumOps]) {
    let prop = ctx.prop.clone();
    for o in all {
        let o = &settled(o);
        let d = o.desc;
        let mut rng = Rng::named(ctx.seed, d.name);
        ctx.count("enums");
        ctx.add("variants", d.variants.len() as u64);
        ctx.count(&format!("backing.{}", d.prim));
        if d.implicit { ctx.count("enums_implicit") }
        let bad = |ctx: &mut Ctx, what: &str, input: String, exp: String, got: String| ctx.violate(what, d.name, d.decl, input, exp, got);
        ctx.sample(|| format!("{} with {:?}", d.decl, d.variants));
        if matches!(&prop[..], "C21" | "C16") {
            ctx.event("backing", key(d, 0));
            if o.prim.0 != d.prim { bad(ctx, "backing", format!("{:?}", d.variants), d.prim.into(), o.prim.0.into()) }
        }
        if matches!(&prop[..], "C11" | "C21" | "C16" | "C18" | "C22") {
            for (i, (name, num)) in d.variants.iter().enumerate() {
                assert_eq!((o.native)(i), *num, "harness: {} {}", d.name, name);
                let r = guard(|| (o.to)(i));
                ctx.event("to_primitive", key(d, *num));
                if r != Ok(*num) { bad(ctx, "to_primitive", name.to_string(), num.to_string(), format!("{:?}", r)) }
            }
        }
        let nums = numbers(o, ctx.n, ctx.thorough, &mut rng);
        let mut nums = ctx.thin(nums, 10, &mut rng);
        if ctx.light { nums.extend(d.variants.iter().take(5).map(|v| v.1)) }
        let texts = strings(d, ctx.n, ctx.light, &mut rng);
        let mut texts = ctx.thin(texts, 10, &mut rng);
        if ctx.light { texts.extend(d.variants.iter().take(5).map(|v| v.0.to_string())) }
        let lower: Vec<String> = d.variants.iter().map(|v| v.0.to_lowercase()).collect();
        let find = |n: i128| d.variants.iter().position(|(_, v)| *v == n);
        if matches!(&prop[..], "C11" | "C16" | "C18" | "C21" | "C22") {
            if o.prim.1 == 8 { ctx.count("enums_exhausted") }
            for &n in &nums {
                let e = find(n);
                ctx.event("from_primitive", key(d, n));
                ctx.count(if e.is_some() { "numbers_defined" } else { "numbers_undefined" });
                let r = guard(|| (o.from)(n));
                if r != Ok(e) { bad(ctx, "from_primitive", n.to_string(), format!("{:?}", e), format!("{:?}", r)) }
            }
        }
        if matches!(&prop[..], "C12" | "C16" | "C18" | "C22") {
            for &n in &nums {
                let e = find(n);
                ctx.event("catch_all.from", key(d, n));
                ctx.count(if e.is_some() { "numbers_defined" } else { "numbers_undefined" });
                let r = guard(|| (o.ca_from)(n));
                if r != Ok(Some((e, n))) { bad(ctx, "catch_all.from", n.to_string(), format!("{:?}", (e, n)), format!("{:?}", r)) }
                let r = guard(|| (o.ca_to)(e, n));
                ctx.event("catch_all.to", key(d, n));
                if r != Ok(n) { bad(ctx, "catch_all.to", format!("{:?}", (e, n)), n.to_string(), format!("{:?}", r)) }
                // a hand-made catch-all carries its number even when there is a variant for it
                let r = guard(|| (o.ca_to)(None, n));
                if r != Ok(n) { bad(ctx, "catch_all.to", format!("CatchAll({})", n), n.to_string(), format!("{:?}", r)) }
                let m = nums[rng.below(nums.len())];
                for (a, b) in [((e, n), (find(m), m)), ((None, n), (e, n)), ((e, n), (None, n)), ((None, n), (None, m)), ((None, n), (find(m), m)), ((e, n), (e, n))] {
                    let r = guard(|| (o.ca_eq)(a, b));
                    ctx.event("catch_all.eq", key(d, n) ^ key(d, m).rotate_left(5));
                    if r != Ok((a.1 == b.1, a.1 != b.1)) { bad(ctx, "catch_all.eq", format!("{:?} == {:?}", a, b), format!("{}", a.1 == b.1), format!("{:?}", r)) }
                }
                for v in [e, None] {
                    let want = match v { Some(i) => d.variants[i].0.to_string(), None => format!("Unknown value: {}", n) };
                    let r = guard(|| (o.ca_display)(v, n));
                    ctx.event("catch_all.display", key(d, n));
                    // the wording around the number is not promised
                    let ok = match (&r, v) { (Ok(l), Some(_)) => l.iter().all(|s| *s == want), (Ok(l), None) => l.iter().all(|s| shows(s, n)), _ => false };
                    if !ok { bad(ctx, "catch_all.display", format!("{:?}", (v, n)), want, format!("{:?}", r)) }
                }
            }
            for i in 0..d.variants.len() {
                let r = guard(|| (o.ca_wrap)(i));
                let e = (Some(i), d.variants[i].1);
                ctx.event("catch_all.wrap", key(d, e.1));
                if r != Ok(vec![e, e]) { bad(ctx, "catch_all.wrap", d.variants[i].0.into(), format!("{:?}", e), format!("{:?}", r)) }
            }
            let want: Vec<(Option<usize>, i128)> = d.variants.iter().enumerate().map(|(i, v)| (Some(i), v.1)).collect();
            let r = guard(|| (o.ca_all)());
            ctx.event("catch_all.all_variants", key(d, 0));
            if !matches!(&r, Ok(l) if l.iter().all(|x| *x == want)) { bad(ctx, "catch_all.all_variants", "".into(), format!("{:?}", want), format!("{:?}", r)) }
            for s in texts.clone() {
                let a = d.variants.iter().position(|v| v.0 == s).map(|i| (Some(i), d.variants[i].1));
                let b = lower.iter().position(|v| *v == s).map(|i| (Some(i), d.variants[i].1));
                let r = guard(|| (o.ca_str)(&s));
                ctx.event("catch_all.lookup", hash_bytes(d.name.as_bytes()) ^ hash_bytes(s.as_bytes()));
                if r != Ok((a, b)) { bad(ctx, "catch_all.lookup", format!("{:?}", s), format!("{:?}", (a, b)), format!("{:?}", r)) }
            }
        }
        if matches!(&prop[..], "C20" | "C16" | "C18" | "C22") {
            for (i, v) in d.variants.iter().enumerate() {
                let r = guard(|| (o.display)(i));
                ctx.event("display", key(d, v.1));
                if !matches!(&r, Ok(l) if l.iter().all(|s| s == v.0)) { bad(ctx, "display", v.0.into(), v.0.into(), format!("{:?}", r)) }
            }
            for s in texts.clone() {
                let k = hash_bytes(d.name.as_bytes()) ^ hash_bytes(s.as_bytes());
                let e = d.variants.iter().position(|v| v.0 == s);
                let r = guard(|| (o.from_str)(&s));
                ctx.event("from_str", k);
                ctx.count(if e.is_some() { "strings_known" } else { "strings_unknown" });
                if r != Ok(e) { bad(ctx, "from_str", format!("{:?}", s), format!("{:?}", e), format!("{:?}", r)) }
                let e = lower.iter().position(|v| *v == s);
                let r = guard(|| (o.from_lower)(&s));
                ctx.event("from_str_lower", k);
                if r != Ok(e) { bad(ctx, "from_str_lower", format!("{:?}", s), format!("{:?}", e), format!("{:?}", r)) }
            }
            let want: Vec<usize> = (0..d.variants.len()).collect();
            let r = guard(|| (o.all)());
            ctx.event("all_variants", key(d, 0));
            if !matches!(&r, Ok(l) if l.iter().all(|x| *x == want)) { bad(ctx, "all_variants", "".into(), format!("{:?}", want), format!("{:?}", r)) }
        }
    }
}

/// the text contains exactly this number
pub fn shows(s: &str, n: i128) -> bool {
    let mut nums = vec![];
    let mut cur = String::new();
    for c in s.chars().chain(" ".chars()) {
        if c.is_ascii_digit() || (c == '-' && cur.is_empty()) { cur.push(c) } else { if cur.chars().any(|c| c.is_ascii_digit()) { nums.push(cur.clone()) } cur.clear() }
    }
    nums == vec![n.to_string()]
}
