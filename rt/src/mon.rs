//! Monitors over generated structures. Each one drives the real code and compares every
//! observed result with the reference model.
use crate::model::*;
use crate::ops::*;
use crate::report::*;
use crate::rng::*;
use packed_struct::{PackingError, PackingResult};

pub fn fmt_res<T: std::fmt::Debug>(r: &Result<PackingResult<T>, String>) -> String {
    match r { Ok(Ok(v)) => format!("Ok({:?})", v), Ok(Err(e)) => format!("Err({:?})", e), Err(p) => p.clone() }
}
fn fmt_b(r: &Result<PackingResult<Vec<u8>>, String>) -> String {
    match r { Ok(Ok(v)) => hex(v), Ok(Err(e)) => format!("Err({:?})", e), Err(p) => p.clone() }
}
fn fmt_o(o: &Outcome) -> String { match o { Outcome::Ok(v) => format!("Ok({:?})", v), Outcome::Invalid => "Err(InvalidValue)".into() } }
fn same(r: &Result<PackingResult<Vec<i128>>, String>, o: &Outcome) -> bool {
    match (r, o) { (Ok(Ok(v)), Outcome::Ok(w)) => v == w, (Ok(Err(PackingError::InvalidValue)), Outcome::Invalid) => true, _ => false }
}

pub struct M<'a> { pub s: &'a Ops, pub d: &'static Desc }

impl<'a> M<'a> {
    pub fn new(s: &'a Ops) -> Self { M { s, d: s.desc } }
    fn bad(&self, ctx: &mut Ctx, what: &str, input: String, expected: String, got: String) {
        ctx.violate(what, self.d.name, self.d.decl, input, expected, got)
    }
    pub fn key(&self, v: &[i128]) -> u64 { hash_vals(self.d.name, v) }
    pub fn keyb(&self, b: &[u8]) -> u64 { hash_bytes(self.d.name.as_bytes()) ^ hash_bytes(b).rotate_left(9) }

    /// pack(v) is exactly the model's bytes
    pub fn pack_is(&self, ctx: &mut Ctx, what: &str, v: &[i128]) {
        let exp = self.d.pack(v);
        let r = guard(|| (self.s.pack)(v));
        ctx.event(what, self.key(v));
        if !matches!(&r, Ok(Ok(b)) if *b == exp) { self.bad(ctx, what, format!("{:?}", v), hex(&exp), fmt_b(&r)) }
    }
    /// unpack(b) is exactly the model's outcome
    pub fn unpack_is(&self, ctx: &mut Ctx, what: &str, b: &[u8]) {
        let exp = self.d.unpack(b);
        let r = guard(|| (self.s.unpack)(b));
        ctx.event(what, self.keyb(b));
        match exp { Outcome::Ok(_) => ctx.count("decoded_ok"), Outcome::Invalid => ctx.count("decoded_invalid") }
        if !same(&r, &exp) { self.bad(ctx, what, hex(b), fmt_o(&exp), fmt_res(&r)) }
    }
    pub fn roundtrip(&self, ctx: &mut Ctx, v: &[i128]) {
        let r = guard(|| (self.s.round)(v));
        ctx.event("round_trip.array", self.key(v));
        if !matches!(&r, Ok(Ok((true, u))) if &u[..] == v) { self.bad(ctx, "round_trip.array", format!("{:?}", v), format!("equal value {:?}", v), fmt_res(&r)) }
        let r = guard(|| { let mut o = vec![0xA5u8; self.d.bytes]; (self.s.pack_slice)(v, &mut o)?; (self.s.unpack_slice)(&o) });
        ctx.event("round_trip.slice", self.key(v));
        if !matches!(&r, Ok(Ok(u)) if &u[..] == v) { self.bad(ctx, "round_trip.slice", format!("{:?}", v), format!("{:?}", v), fmt_res(&r)) }
        let r = guard(|| { let o = (self.s.pack_vec)(v)?; (self.s.unpack_slice)(&o) });
        ctx.event("round_trip.vec", self.key(v));
        if !matches!(&r, Ok(Ok(u)) if &u[..] == v) { self.bad(ctx, "round_trip.vec", format!("{:?}", v), format!("{:?}", v), fmt_res(&r)) }
    }
    /// change one leaf: only that leaf changes after the round trip, only its bits change in the bytes
    pub fn independence(&self, ctx: &mut Ctx, v: &[i128], rng: &mut Rng) {
        let c: Vec<usize> = (0..v.len()).filter(|i| !self.d.leaves[*i].is_reserved()).collect();
        if c.is_empty() { return }
        let i = c[rng.below(c.len())];
        let mut w = v.to_vec();
        w[i] = self.d.leaves[i].gen(rng);
        let r = guard(|| { let a = (self.s.unpack)(&(self.s.pack)(v)?)?; let b = (self.s.unpack)(&(self.s.pack)(&w)?)?; Ok((a, b)) });
        ctx.event("independence", self.key(&w) ^ i as u64);
        let ok = match &r { Ok(Ok((a, b))) => a == v && (0..v.len()).all(|k| if k == i { b[k] == w[k] } else { a[k] == b[k] }), _ => false };
        if !ok { self.bad(ctx, "independence", format!("{:?} then {} = {}", v, self.d.leaves[i].path, w[i]), format!("{:?} then {:?}", v, w), fmt_res(&r)) }
    }
    /// every single value bit of every leaf, alone and cleared from all ones
    pub fn walk(&self, ctx: &mut Ctx, what: &str) {
        let base: Vec<i128> = self.d.leaves.iter().map(|l| match l.kind { Kind::Enum => l.valid[0], _ => 0 }).collect();
        let ones: Vec<i128> = self.d.leaves.iter().map(|l| match l.kind { Kind::Enum => *l.valid.last().unwrap(), Kind::Bool => 1, Kind::Rz | Kind::Ro => 0, _ => wrap(-1, l.width, l.signed) }).collect();
        self.pack_is(ctx, what, &base);
        self.pack_is(ctx, what, &ones);
        for (i, l) in self.d.leaves.iter().enumerate() {
            let mut alts: Vec<i128> = vec![];
            match l.kind {
                Kind::Rz | Kind::Ro => continue,
                Kind::Bool => alts.extend([0, 1]),
                Kind::Enum => alts.extend(l.valid.iter().cloned().take(24)),
                _ => for k in 0..l.width { alts.push(wrap(1i128 << k, l.width, l.signed)); alts.push(wrap(!(1i128 << k), l.width, l.signed)) },
            }
            for a in alts {
                for bg in [&base, &ones] {
                    let mut v = bg.clone();
                    v[i] = a;
                    self.pack_is(ctx, what, &v);
                }
            }
        }
    }
    /// unpack every byte string with one bit set / one bit cleared
    pub fn walk_unpack(&self, ctx: &mut Ctx, what: &str) {
        for i in 0..self.d.bytes * 8 {
            for bg in [0u8, 0xFF] {
                let mut b = vec![bg; self.d.bytes];
                set_bit(&mut b, i, bg == 0);
                self.unpack_is(ctx, what, &b);
            }
        }
    }
    /// uncovered and reserved bits have no influence on unpacking
    pub fn gaps_ignored(&self, ctx: &mut Ctx, v: &[i128], rng: &mut Rng) {
        let mut b = self.d.pack(v);
        self.d.dirty(&mut b, rng);
        let r = guard(|| (self.s.unpack)(&b));
        ctx.event("gaps_ignored", self.keyb(&b));
        if !matches!(&r, Ok(Ok(u)) if &u[..] == v) { self.bad(ctx, "gaps_ignored", hex(&b), format!("{:?}", v), fmt_res(&r)) }
    }
    /// repacking what was unpacked is the canonical form of the input
    pub fn canonical(&self, ctx: &mut Ctx, b: &[u8]) {
        let exp = self.d.unpack(b);
        let r = guard(|| (self.s.repack)(b));
        ctx.event("canonical", self.keyb(b));
        let (ok, want) = match &exp {
            Outcome::Invalid => (matches!(&r, Ok(Err(PackingError::InvalidValue))), "Err(InvalidValue)".to_string()),
            Outcome::Ok(v) => { let c = self.d.pack(v); (matches!(&r, Ok(Ok((p, u))) if *p == c && u == v), format!("{} from {:?}", hex(&c), v)) }
        };
        if !ok { self.bad(ctx, "canonical", hex(b), want, fmt_res(&r)) }
        // the canonical form differs from the input in uncovered and reserved bits only
        if let (Ok(Ok((p, _))), Outcome::Ok(_)) = (&r, &exp) {
            let o = self.d.owner();
            for i in 0..o.len().min(p.len() * 8) {
                let owned = matches!(o[i], Some(l) if !self.d.leaves[l].is_reserved());
                if owned && get_bit(p, i) != get_bit(b, i) {
                    self.bad(ctx, "canonical.bits", hex(b), format!("bit {} preserved", i), hex(p));
                    break;
                }
            }
        }
    }
    pub fn all_bytes(&self, ctx: &mut Ctx, limit: usize, mut f: impl FnMut(&mut Ctx, &[u8])) -> bool {
        if self.d.bytes > limit { return false }
        match self.d.bytes {
            1 => for a in 0..=255u8 { f(ctx, &[a]) },
            2 => for a in 0..=65535u16 { f(ctx, &a.to_be_bytes()) },
            _ => return false,
        }
        ctx.count("subjects_exhausted");
        true
    }
    pub fn slice_agrees(&self, ctx: &mut Ctx, v: &[i128], b: &[u8]) {
        let a = guard(|| (self.s.pack)(v));
        let p = guard(|| { let mut o = vec![0x5Au8; self.d.bytes]; (self.s.pack_slice)(v, &mut o)?; Ok(o) });
        let w = guard(|| (self.s.pack_vec)(v));
        ctx.event("slice.pack", self.key(v));
        if fmt_b(&a) != fmt_b(&p) || !matches!(p, Ok(Ok(_))) { self.bad(ctx, "slice.pack", format!("{:?}", v), fmt_b(&a), fmt_b(&p)) }
        if fmt_b(&a) != fmt_b(&w) { self.bad(ctx, "slice.pack_to_vec", format!("{:?}", v), fmt_b(&a), fmt_b(&w)) }
        let exp = self.d.pack(v);
        if fmt_b(&p) != hex(&exp) { self.bad(ctx, "slice.pack.model", format!("{:?}", v), hex(&exp), fmt_b(&p)) }
        let a = guard(|| (self.s.unpack)(b));
        let u = guard(|| (self.s.unpack_slice)(b));
        ctx.event("slice.unpack", self.keyb(b));
        if fmt_res(&a) != fmt_res(&u) { self.bad(ctx, "slice.unpack", hex(b), fmt_res(&a), fmt_res(&u)) }
        let exp = self.d.unpack(b);
        if !same(&u, &exp) { self.bad(ctx, "slice.unpack.model", hex(b), fmt_o(&exp), fmt_res(&u)) }
    }
    pub fn wrong_lengths(&self, ctx: &mut Ctx, v: &[i128], len: usize, rng: &mut Rng) {
        let n = self.d.bytes;
        if len == n { return }
        let want = PackingError::BufferSizeMismatch { expected: n, actual: len };
        let fill = rng.unfit(&self.d.pack(v), len);
        let mut o = fill.clone();
        let r = guard(|| (self.s.pack_slice)(v, &mut o));
        ctx.event("length.pack", self.key(v) ^ (len as u64) << 32);
        if !matches!(&r, Ok(Err(e)) if *e == want) { self.bad(ctx, "length.pack", format!("buffer of {} bytes", len), format!("Err({:?})", want), fmt_res(&r)) }
        if o != fill { self.bad(ctx, "length.pack.untouched", format!("buffer of {} bytes", len), hex(&fill), hex(&o)) }
        let r = guard(|| (self.s.unpack_slice)(&fill));
        ctx.event("length.unpack", self.keyb(&fill) ^ (len as u64) << 32);
        if !matches!(&r, Ok(Err(e)) if *e == want) { self.bad(ctx, "length.unpack", format!("source of {} bytes", len), format!("Err({:?})", want), fmt_res(&r)) }
    }
    pub fn sizes(&self, ctx: &mut Ctx, v: &[i128]) {
        let n = self.d.bytes;
        let mut chk = |ctx: &mut Ctx, what: &str, exp: usize, r: Result<PackingResult<usize>, String>| {
            ctx.event(what, hash_bytes(self.d.name.as_bytes()));
            if !matches!(&r, Ok(Ok(x)) if *x == exp) { self.bad(ctx, what, format!("{:?}", v), exp.to_string(), fmt_res(&r)) }
        };
        chk(ctx, "size.byte_array", n, guard(|| Ok((self.s.arr_len)())));
        chk(ctx, "size.static", n, guard(|| (self.s.size)(None)));
        chk(ctx, "size.instance", n, guard(|| (self.s.size)(Some(v))));
        chk(ctx, "size.packed_bits", self.d.bits, guard(|| Ok((self.s.packed_bits)())));
        chk(ctx, "size.packed", n, guard(|| (self.s.pack)(v).map(|b| b.len())));
        chk(ctx, "size.packed_vec", n, guard(|| (self.s.pack_vec)(v).map(|b| b.len())));
    }
    pub fn many(&self, ctx: &mut Ctx, rng: &mut Rng) {
        let k = if ctx.light { rng.below(3) } else { rng.items(&[0, 1, 2, 3, 5, 17]) };
        let vs: Vec<Vec<i128>> = (0..k).map(|_| self.d.gen(rng)).collect();
        let exp: Vec<u8> = vs.iter().flat_map(|v| self.d.pack(v)).collect();
        let r = guard(|| (self.s.many_pack)(&vs));
        ctx.event("vec.pack", self.keyb(&exp));
        if !matches!(&r, Ok(Ok(b)) if *b == exp) { self.bad(ctx, "vec.pack", format!("{:?}", vs), hex(&exp), fmt_b(&r)) }
        let r = guard(|| (self.s.many_unpack)(&exp));
        ctx.event("vec.unpack", self.keyb(&exp));
        // items without bytes leave no trace of their number
        let vs = if self.d.bytes == 0 { vec![] } else { vs };
        if !matches!(&r, Ok(Ok(u)) if *u == vs) { self.bad(ctx, "vec.unpack", hex(&exp), format!("{:?}", vs), fmt_res(&r)) }
    }
    /// Vec<S> over arbitrary bytes, including lengths that are no multiple of the item size
    pub fn many_bytes(&self, ctx: &mut Ctx, rng: &mut Rng) {
        let n = self.d.bytes;
        if n == 0 { return }
        let k = rng.items(&[0, 1, 2, 3, 4, 5]);
        let mut b: Vec<u8> = (0..k).flat_map(|_| self.d.gen_bytes(rng)).collect();
        if rng.chance(1, 3) { let e = rng.below(n + 2); b.extend(rng.bytes(e)) }
        if rng.chance(1, 6) && !b.is_empty() { b.pop(); }
        let r = guard(|| (self.s.many_unpack)(&b));
        ctx.event("vec.unpack_bytes", self.keyb(&b));
        let exp: PackingResult<Vec<Vec<i128>>> = if b.len() % n != 0 {
            Err(PackingError::BufferModMismatch { actual_size: b.len(), modulo_required: n })
        } else {
            let mut o = vec![];
            let mut e = None;
            for c in b.chunks(n) { match self.d.unpack(c) { Outcome::Ok(v) => o.push(v), Outcome::Invalid => { e = Some(PackingError::InvalidValue); break } } }
            match e { Some(e) => Err(e), None => Ok(o) }
        };
        match &exp { Ok(_) => ctx.count("vec.accepted"), Err(PackingError::InvalidValue) => ctx.count("vec.item_invalid"), Err(_) => ctx.count("vec.mod_mismatch") }
        if !matches!(&r, Ok(x) if *x == exp) { self.bad(ctx, "vec.unpack_bytes", hex(&b), format!("{:?}", exp), fmt_res(&r)) }
    }

    // ------------------------------------------------------------------ visualisation
    pub fn model_show(&self, v: &[i128], dbg: &[String], sw: u8) -> String {
        let d = self.d;
        let p = d.pack(v);
        let mut s = String::new();
        let join = |f: &dyn Fn(&u8) -> String| p.iter().map(|b| f(b)).collect::<Vec<_>>().join(", ");
        if sw & 1 != 0 { s += &format!("{} ({} {})\r\n\r\n", d.name, d.bytes, if d.bytes == 1 { "byte" } else { "bytes" }) }
        if sw & 2 != 0 { s += &format!("Decimal\r\n[{}]\r\n\r\n", join(&|b| b.to_string())) }
        if sw & 4 != 0 { s += &format!("Hex\r\n[{}]\r\n\r\n", join(&|b| format!("0x{:X}", b))) }
        if sw & 8 != 0 { s += &format!("Binary\r\n[{}]\r\n\r\n", join(&|b| (0..8).fold("0b".to_string(), |a, i| a + if b >> (7 - i) & 1 == 1 { "1" } else { "0" }))) }
        if sw & 16 != 0 {
            let name_w = d.rows.iter().map(|r| r.name.len()).max().unwrap_or(0) + 1;
            let widest = d.rows.iter().map(|r| r.end - r.start).max().unwrap_or(0);
            for (r, t) in d.rows.iter().zip(dbg) {
                let name = format!("{}{}", " ".repeat(name_w - r.name.len()), r.name);
                if widest > 32 {
                    s += &format!("{} | {:?}\r\n", name, t);
                } else {
                    let bits: String = (r.start..=r.end).map(|i| if get_bit(&p, i) { '1' } else { '0' }).collect();
                    let a = r.start.to_string();
                    let b = r.end.to_string();
                    s += &format!("{} | bits {}{}:{}{} | 0b{}{} | {:?}\r\n", name, " ".repeat(3usize.saturating_sub(a.len())), a, b, " ".repeat(3usize.saturating_sub(b.len())),
                        bits, " ".repeat(widest - (r.end - r.start)), t);
                }
            }
        }
        s
    }
    pub fn show_is(&self, ctx: &mut Ctx, v: &[i128], sw: Option<u8>) {
        let dbg = match guard(|| (self.s.row_debug)(v)) { Ok(d) => d, Err(p) => { self.bad(ctx, "show.debug", format!("{:?}", v), "no panic".into(), p); return } };
        let exp = self.model_show(v, &dbg, sw.unwrap_or(31));
        let r = guard(|| (self.s.show)(v, sw));
        ctx.event(if sw.is_none() { "show.display" } else { "show.formatter" }, self.key(v) ^ (sw.unwrap_or(99) as u64) << 40);
        let got = match &r { Ok(s) => s.clone(), Err(p) => p.clone() };
        if got != exp && !(r.is_ok() && norm_show(&got) == norm_show(&exp)) { self.bad(ctx, "show", format!("{:?} switches {:?}", v, sw), exp, got) }
        else if got != exp { ctx.count("show.cosmetic_difference") }
    }
}

/// Column padding is cosmetic: compares the text with runs of blanks collapsed.
/// (The sections, their order, every number, bit and text still have to be the same.)
pub fn norm_show(s: &str) -> String {
    s.split("\r\n").map(|l| l.split_whitespace().collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join("\n")
}

pub fn each(ctx: &mut Ctx, subjects: &[Ops], mut f: impl FnMut(&mut Ctx, &M, &mut Rng)) {
    for s in subjects {
        let m = M::new(s);
        let mut rng = Rng::named(ctx.seed, s.desc.name);
        ctx.count("subjects");
        ctx.add("leaves", s.desc.leaves.len() as u64);
        for t in s.desc.tags { ctx.count(&format!("tag:{}", t)) }
        f(ctx, &m, &mut rng);
    }
}

/// The monitors of one property over a list of structures.
pub fn run(ctx: &mut Ctx, subjects: &[Ops]) {
    let prop = ctx.prop.clone();
    let n = ctx.n;
    each(ctx, subjects, |ctx, m, rng| {
        ctx.sample(|| { let v = m.d.gen(rng); format!("{} => {:?} packs to {}", m.d.decl, v, hex(&m.d.pack(&v))) });
        match &prop[..] {
            "C01" => for _ in 0..n {
                let v = m.d.gen(rng);
                m.roundtrip(ctx, &v);
                m.independence(ctx, &v, rng);
                if rng.chance(1, 4) { m.many(ctx, rng) }
            },
            "C02" => {
                m.walk(ctx, "place.walk");
                m.walk_unpack(ctx, "place.walk_unpack");
                for _ in 0..n {
                    let v = m.d.gen(rng);
                    m.pack_is(ctx, "place.pack", &v);
                    m.gaps_ignored(ctx, &v, rng);
                    let b = m.d.gen_bytes(rng);
                    m.unpack_is(ctx, "place.unpack", &b);
                }
            }
            "C03" | "C10" | "C16" => {
                if !ctx.light {
                    m.walk(ctx, "pack.walk");
                    m.walk_unpack(ctx, "unpack.walk");
                }
                for _ in 0..n {
                    let v = m.d.gen(rng);
                    m.pack_is(ctx, "pack", &v);
                    m.unpack_is(ctx, "unpack", &m.d.pack(&v));
                    let b = m.d.gen_bytes(rng);
                    m.unpack_is(ctx, "unpack", &b);
                    if prop != "C03" { m.roundtrip(ctx, &v); m.independence(ctx, &v, rng); }
                    if prop == "C16" { m.sizes(ctx, &v); m.slice_agrees(ctx, &v, &b); m.many(ctx, rng) }
                }
            }
            "C14" => {
                // the rows as written in the documentation are compared outside; this is the real layout
                m.walk(ctx, "layout.walk");
                for _ in 0..n { let v = m.d.gen(rng); m.pack_is(ctx, "layout.pack", &v); m.sizes(ctx, &v) }
            }
            "C04" => for _ in 0..n {
                // out-of-range values for the native-typed fields: they wrap, the neighbours keep theirs
                let mut v = m.d.gen(rng);
                for (i, l) in m.d.leaves.iter().enumerate() {
                    if matches!(l.kind, Kind::UInt | Kind::SInt) && rng.chance(2, 3) { v[i] = wrap(if rng.chance(1, 4) { -1 - rng.below(3) as i128 } else { rng.next() as i128 }, l.tbits, l.signed) }
                }
                m.pack_is(ctx, "wrap.pack", &v);
                let w: Vec<i128> = m.d.leaves.iter().zip(&v).map(|(l, v)| l.normal(*v)).collect();
                let r = guard(|| (m.s.unpack)(&(m.s.pack)(&v)?));
                ctx.event("wrap.round", m.key(&v));
                if !matches!(&r, Ok(Ok(u)) if *u == w) { m.bad(ctx, "wrap.round", format!("{:?}", v), format!("{:?}", w), fmt_res(&r)) }
                let b = m.d.gen_bytes(rng);
                m.unpack_is(ctx, "wrap.unpack", &b);
            },
            "C05" | "C12" | "C11" => {
                let done = m.all_bytes(ctx, if ctx.thorough { 2 } else { 1 }, |ctx, b| { m.unpack_is(ctx, "decode.all", b); m.canonical(ctx, b) });
                if !done { m.walk_unpack(ctx, "decode.walk") }
                for _ in 0..n {
                    let b = m.d.gen_bytes(rng);
                    m.unpack_is(ctx, "decode", &b);
                    m.canonical(ctx, &b);
                    if prop != "C05" { let v = m.d.gen(rng); m.pack_is(ctx, "encode", &v); m.roundtrip(ctx, &v) }
                }
            }
            "C06" => {
                let done = m.all_bytes(ctx, 1, |ctx, b| m.canonical(ctx, b));
                if !done { m.walk_unpack(ctx, "reserved.walk") }
                m.walk(ctx, "reserved.walk_pack");
                for _ in 0..n {
                    let v = m.d.gen(rng);
                    m.pack_is(ctx, "reserved.pack", &v);
                    m.gaps_ignored(ctx, &v, rng);
                    let b = m.d.gen_bytes(rng);
                    m.unpack_is(ctx, "reserved.unpack", &b);
                    m.canonical(ctx, &b);
                    let mut b = b;
                    m.d.dirty(&mut b, rng);
                    m.canonical(ctx, &b);
                }
            }
            "C07" => {
                for len in 0..m.d.bytes + 9 { let v = m.d.gen(rng); m.wrong_lengths(ctx, &v, len, rng) }
                // lengths that a narrower number would confuse with the right one
                for k in 0..32 { let v = m.d.gen(rng); m.wrong_lengths(ctx, &v, m.d.bytes + 1 + k, rng) }
                for k in 3..18 { let v = m.d.gen(rng); m.wrong_lengths(ctx, &v, m.d.bytes + (1 << k), rng); m.wrong_lengths(ctx, &v, m.d.bytes ^ (1 << k), rng) }
                for _ in 0..n {
                    let v = m.d.gen(rng);
                    let b = m.d.gen_bytes(rng);
                    m.slice_agrees(ctx, &v, &b);
                    let len = [m.d.bytes * 2, m.d.bytes + 256, m.d.bytes * 8, m.d.bits, 65536][rng.below(5)];
                    if rng.chance(1, 8) { m.wrong_lengths(ctx, &v, len, rng) }
                }
            }
            "C09" => {
                // every remainder once
                for extra in 1..m.d.bytes { let mut b: Vec<u8> = m.d.pack(&m.d.gen(rng)); b.extend(rng.bytes(extra)); many_exact(ctx, m, &b) }
                for _ in 0..n { m.many(ctx, rng); m.many_bytes(ctx, rng) }
            }
            "C13" => {
                for sw in 0..32u8 { let v = m.d.gen(rng); m.show_is(ctx, &v, Some(sw)) }
                for _ in 0..n { let v = m.d.gen(rng); m.show_is(ctx, &v, None); }
            }
            "C19" => for _ in 0..n.max(1) { let v = m.d.gen(rng); m.sizes(ctx, &v) },
            "C18" => {
                let lens = if ctx.light { 3 } else { m.d.bytes.min(70) + 4 };
                for len in 0..lens { let v = m.d.gen(rng); m.wrong_lengths(ctx, &v, len, rng) }
                for len in [m.d.bytes * 2, m.d.bytes + 1, m.d.bytes.saturating_sub(1), if ctx.light { 40 } else { 1 << 16 }] { let v = m.d.gen(rng); m.wrong_lengths(ctx, &v, len, rng) }
                for i in 0..n {
                    let mut v = m.d.gen(rng);
                    // every second value doesn't fit
                    if i % 2 == 1 { for (k, l) in m.d.leaves.iter().enumerate() { if matches!(l.kind, Kind::UInt | Kind::SInt) { v[k] = wrap(rng.next() as i128, l.tbits, l.signed) } } }
                    let b = m.d.gen_bytes(rng);
                    m.pack_is(ctx, "safe.pack", &v);
                    m.unpack_is(ctx, "safe.unpack", &b);
                    m.slice_agrees(ctx, &v, &b);
                    m.many(ctx, rng);
                    m.many_bytes(ctx, rng);
                    let len = rng.below(m.d.bytes * 2 + 2);
                    m.wrong_lengths(ctx, &v, len, rng);
                    m.show_is(ctx, &v, None);
                    m.sizes(ctx, &v);
                }
            }
            p => panic!("no monitors for {}", p),
        }
    });
}

fn many_exact(ctx: &mut Ctx, m: &M, b: &[u8]) {
    let n = m.d.bytes;
    let r = guard(|| (m.s.many_unpack)(b));
    ctx.event("vec.remainder", m.keyb(b));
    let want = PackingError::BufferModMismatch { actual_size: b.len(), modulo_required: n };
    if b.len() % n != 0 && !matches!(&r, Ok(Err(e)) if *e == want) { m.bad(ctx, "vec.remainder", hex(b), format!("Err({:?})", want), fmt_res(&r)) }
}
