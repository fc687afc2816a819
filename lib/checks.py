"""One function per property."""
import os
import html
import json
import random
import re
import sys
import layout
import plans
import decls
import concurrent.futures
from plans import *
from harness import *

# size of the workload; C16, C18 and C22 repeat theirs under many configurations
HEAVY = sys.argv[1:2] and sys.argv[1] in ('C16', 'C18', 'C22')
T = 4 if THOROUGH else 1 if HEAVY else 2
BINS = 8


def structs(c, bins):
    c.extra['structures_generated'] = sum(len(g.structs) for g in bins)
    c.extra['enums_generated'] = sum(len(g.enums) for g in bins)


def share(xs, k, quick):
    """the k-th share of a shuffled list: all of it when thorough, else `quick` items"""
    xs = list(xs)
    random.Random('%s' % SEED).shuffle(xs)
    xs = xs[k::BINS]
    return xs if THOROUGH else xs[:quick * T]


def generated(c, make, bins=BINS):
    """make(k) -> (Gen, keyword arguments for program())"""
    progs, gs = {}, []
    for k in range(bins):
        g, kw = make(k)
        gs.append(g)
        progs['p%d' % k] = program(g, **kw)
    structs(c, gs)
    return progs


RULE = ('A case is one operation of the library on one generated input, compared with the reference model; distinct cases differ in monitor, declaration or input. '
        'Generated declarations: ')


def C01(c):
    c.rule = RULE + ('random mixes of all field kinds, notations, names, nesting; plus a grid of width x bit offset x byte order x sign. Every value drawn fits its field; '
                     'packed and unpacked through array, slice and vector, then again with one field changed.')
    grid = cells(['native', 'sized'])

    def make(k):
        g = mixed('C01', SEED, k, inner=8, structs=36 * T, grid=(share(grid, k, 96),))
        types = [rtype(t) for t in BASIC_T] + seq_types(g.r, g.structs[:6], 0)[::7][:6] if k == 0 else []
        return g, dict(main='rt::mon::run(ctx, &subjects()); rt::ints::run(ctx, &ints()); ' + seq_main(types), extra=ints_fn(int_parts(k, BINS)))
    c.standard(generated(c, make), 300 * T)


# Known finding: an exclusive byte range loses its last byte (an existing test asserts that).
KF1 = '''use packed_struct::prelude::*;
#[derive(PackedStruct, Debug, PartialEq)]
#[packed_struct(bit_numbering="msb0", size_bytes="6", endian="msb")]
pub struct P { #[packed_field(bytes="1..5")] a: u32 }
fn main() {
    let p = P { a: 0x12345678 }.pack().unwrap();
    let u = P::unpack(&[0xAA, 0x56, 0x78, 0x9A, 0xBC, 0xDE]).map(|p| p.a);
    println!("{:?} {:?}", p, u);
    println!("PROBE {}", if p == [0, 0x12, 0x34, 0x56, 0x78, 0] && u == Ok(0x56789ABC) { "good" } else if p == [0, 0x34, 0x56, 0x78, 0, 0] && u == Ok(0x0056789A) { "known" } else { "bad" });
}
'''
KF1B = '''use packed_struct::prelude::*;
#[derive(PackedStruct, Debug, PartialEq)]
#[packed_struct(bit_numbering="msb0", size_bytes="2", endian="msb")]
pub struct P { #[packed_field(bytes="0..1")] a: u8 }
fn main() {
    let p = P { a: 0xC5 }.pack().unwrap();
    println!("PROBE {}", if p == [0xC5, 0] && P::unpack(&[0x3A, 0xFF]) == Ok(P { a: 0x3A }) { "good" } else { "bad" });
}
'''
KF1_TEXT = 'exclusive byte range bytes="1..5" covers bytes 1 to 3 only (a u32 of 0x12345678 packs to [0, 0x34, 0x56, 0x78, 0, 0])'
KF1B_TEXT = 'exclusive byte range bytes="0..1" of a u8 is rejected at compile time'

# Positions that need more than 24 bits to count.
FAR = '''use packed_struct::prelude::*;
use packed_struct::types::bits::ByteArray;
#[derive(PackedStruct, Debug, PartialEq, Clone)]
#[packed_struct(bit_numbering="msb0", endian="msb")]
pub struct Far { #[packed_field(bits="16777223..=16777226")] a: Integer<u8, packed_bits::Bits::<4>>, #[packed_field(bits="0..=6")] b: u8, #[packed_field(bits="16777227..=16777250")] c: Integer<u32, packed_bits::Bits::<24>> }
fn main() {
    let ok = std::thread::Builder::new().stack_size(1 << 29).spawn(|| {
        let s = Far { a: 0xF.into(), b: 0x7F, c: 0xABCDEF.into() };
        let p = Box::new(s.pack().unwrap());
        let mut want = std::collections::BTreeMap::new();
        let mut put = |at: usize, w: usize, v: u64| for k in 0..w { if (v >> (w - 1 - k)) & 1 == 1 { *want.entry((at + k) / 8).or_insert(0u8) |= 0x80 >> ((at + k) % 8) } };
        put(16777223, 4, 0xF); put(0, 7, 0x7F); put(16777227, 24, 0xABCDEF);
        let got: std::collections::BTreeMap<usize, u8> = p.iter().enumerate().filter(|(_, b)| **b != 0).map(|(i, b)| (i, *b)).collect();
        println!("{:?} {:?} {}", want, got, p.len());
        want == got && p.len() == 2097157 && Far::unpack(&p).unwrap() == s
    }).unwrap().join().unwrap_or(false);
    println!("PROBE {}", if ok { "good" } else { "bad" });
}
'''


def C02(c):
    c.rule = RULE + ('every notation (bits/bytes; single, open, inclusive, exclusive, decimal and hexadecimal), msb0 and lsb0, explicit and implicit placement, shuffled declaration order, gaps; '
                     'the grid visits width 1..64 x bit offset 0..7. Every value bit and every packed bit is walked alone and in complement.')
    grid = cells(['native', 'sized', 'sized'])

    def make(k):
        g = mixed('C02', SEED, k, inner=4, structs=24 * T, maxf=6)
        sh_ = share(grid, k, 128)
        g.grid(sh_[::2])
        g.grid(sh_[1::2], mode='lsb0')
        g.notations(k, BINS)
        return g, {}
    ws, bad = c.standard(generated(c, make), 60 * T, probes=dict(kf1=KF1, kf1b=KF1B, far=FAR), may_fail=['kf1b'])
    c.probe(ws, 'kf1', bad, KF1_TEXT)
    if 'kf1b' in bad:
        c.finding(KF1B_TEXT)
    else:
        c.probe(ws, 'kf1b', bad, None)
    c.probe(ws, 'far', bad, None)


def C03(c):
    c.rule = RULE + ('a grid of width 9..64 x bit offset x byte order x sign as native, sized, enum and catch-all fields with the byte order from the field or the structure; '
                     'all 128 integer types and the native types as stand-alone wrappers and byte conversions.')
    grid = [x for x in cells(['native', 'sized', 'sized', 'catchall'], widths=list(range(9, 65)) + [1, 5, 8]) if x[4] != 'catchall' or x[0] % 3 == 0]

    def make(k):
        g = mixed('C03', SEED, k, inner=2, structs=8 * T, exotic=False, kinds=['native', 'sized', 'enum', 'catchall'], maxf=5)
        g.grid(share(grid, k, 280))
        for _ in range(T):
            byte_orders(g)
        return g, dict(main='rt::mon::run(ctx, &subjects()); rt::ints::run(ctx, &ints()); ' + ('rt::ints::native(ctx);' if k == 0 else ''), extra=ints_fn(int_parts(k, BINS)))
    c.standard(generated(c, make), 60 * T)


def C04(c):
    c.rule = RULE + ('structures of native and sized integers of all widths given out-of-range native values. All 128 integer types with every native value (8 bit types; 16 bit types '
                     'when thorough) or boundary, bit-walking and random values.')

    def make(k):
        g = mixed('C04', SEED, k, inner=3, structs=20 * T, kinds=['native', 'native', 'sized', 'bool'], maxf=7)
        g.grid(share(cells(['native']), k, 60))
        return g, dict(main='rt::mon::run(ctx, &subjects()); rt::ints::run(ctx, &ints()); ', extra=ints_fn(int_parts(k, BINS)))
    c.standard(generated(c, make), 100 * T)


def C05(c):
    c.rule = RULE + ('random mixes rich in enums, bools and reserved fields; structures of one byte are decoded from every input, the others from packed values with single-bit and '
                     'single-field perturbations, dirty gaps, constants and random bytes.')

    def make(k):
        g = mixed('C05', SEED, k, inner=6, structs=22 * T, maxf=7)
        hostile = ['enum', 'enum', 'catchall', 'bool', 'widebool', 'rz', 'ro', 'native', 'sized']
        for _ in range(24 * T):
            g.random_struct([], hostile, maxf=6)
        for w in (range(1, 9)):
            for s in (False, True):
                f = [g.en(w, s, g.r.random() < .2)]
                if w < 7:
                    f.append(g.r.choice([g.boolean(), g.native(1, True), g.reserved(1, True), g.boolean(2)]))
                g.struct(f, mode=g.r.choice(['msb0', 'lsb0']), first_gap=g.r.randint(0, 8 - sum(x.width for x in f)) if sum(x.width for x in f) <= 8 else 0, tail=0)
        return g, {}
    c.standard(generated(c, make), 250 * T)


def C06(c):
    c.rule = RULE + 'reserved fields of widths 1 to 255 alone, in arrays, at all offsets and in nested structures, unpacked from dirty bytes; and all 255 widths of the stand-alone types.'

    def make(k):
        g = gen_for('C06', SEED, k)
        kinds = ['rz', 'ro', 'rz', 'ro', 'native', 'bool', 'enum', 'sized']
        for _ in range(6):
            g.inner_struct(['rz', 'ro', 'native'])
        pool = list(g.structs)
        for _ in range(28 * T):
            g.random_struct(pool, kinds, maxf=6)
        r = g.r
        for _ in range(10 * T):
            # a reserved field at every alignment, wide ones too, between two values
            w = r.choice([r.randint(1, 24), r.randint(25, 255), 256 - r.randint(1, 9)])
            f = g.reserved(w, r.random() < .5)
            if w <= 64 and r.random() < .5:
                f = g.array(f, r.choice([2, 3, 5, 8, 9]))
            g.struct([g.native(r.randint(1, 9), False), f, g.native(r.randint(1, 9), True)], mode=r.choice(['msb0', 'auto', 'lsb0']), first_gap=r.randint(0, 7))
        return g, dict(main='rt::mon::run(ctx, &subjects()); rt::basic::bits(ctx, &widths());', extra=bits_fn(range(1 + k, 256, BINS)))
    c.standard(generated(c, make), 60 * T)


def C07(c):
    c.rule = RULE + ('random mixes; both interfaces driven with the same value and the same bytes, and every wrong length from 0 to size + 8 and some far larger. The basic types and wrappers likewise.')

    def make(k):
        g = mixed('C07', SEED, k, inner=6, structs=40 * T)
        types = [rtype(t) for t in BASIC_T + CARRIED][k::BINS] + [s['name'] for s in g.structs[:2]] + seq_types(g.r, g.structs[:4], 0, dyn=False, vecs=False)[k::BINS]
        return g, dict(main='rt::mon::run(ctx, &subjects()); ' + seq_main(types))
    c.standard(generated(c, make), 200 * T)


def C08(c):
    c.rule = ('Tuple types of 1 to 10 elements (basic types, byte arrays, wrappers, derived structures, nested tuples), without and with a dynamic element at every position, and with two; '
              'packed and unpacked with fitting, short, long and random buffers. Distinct: (monitor, tuple type, bytes).')

    def make(k):
        g = gen_for('C08', SEED, k)
        for _ in range(5):
            g.inner_struct()
        g.random_struct([], maxf=4)
        types = []
        for rep in range(T):
            types += seq_types(random.Random('C08/%d/%d' % (SEED, rep if k < 4 else rep + 100)), g.structs, 0, vecs=False)[k % 4::4]
        types = list(dict.fromkeys(types))
        c.extra['tuple_types'] = c.extra.get('tuple_types', 0) + len(types)
        return g, dict(main=seq_main(types))
    c.standard(generated(c, make), 150 * T)


def C09(c):
    c.rule = RULE + ('random mixes as vector items, and basic types and wrappers; 0 to 33 items, every remainder of the item size, invalid items.')

    def make(k):
        g = mixed('C09', SEED, k, inner=6, structs=36 * T, maxf=6)
        r = g.r
        types = ['Vec<%s>' % rtype(t) for t in BASIC_T + CARRIED if t not in ('()', 'OnHeap<0>')][k::BINS] + ['Vec<%s>' % s['name'] for s in r.sample(g.structs, 4)]
        types += ['Vec<(%s,)>' % ', '.join(rtype(r.choice([t for t in BASIC_T])) for _ in range(n)) for n in r.sample(range(2, 11), 3)]
        types = [t for t in dict.fromkeys(types) if t not in ('Vec<((),)>', 'Vec<((), ())>')]
        none = ['()', '[u8; 0]', 'OnHeap<0>', '((), ())', '([u8; 0], (), ())'] if k == 0 else []
        return g, dict(main='rt::mon::run(ctx, &subjects()); ' + seq_main(types) + seq_main(none, 'rt::seq::no_bytes'))
    c.standard(generated(c, make), 200 * T)


KF2 = '''use packed_struct::prelude::*;
#[derive(PackedStruct, Debug, PartialEq, Clone)]
#[packed_struct(bit_numbering="msb0")]
pub struct Inner { #[packed_field(bits="0..=2")] x: u8 }
#[derive(PackedStruct, Debug, PartialEq, Clone)]
#[packed_struct(bit_numbering="msb0")]
pub struct Outer { #[packed_field(bits="0..=2")] inner: Inner }
fn main() {
    let p = Outer { inner: Inner { x: 7 } }.pack();
    let u = Outer::unpack(&[0xE0]).map(|o| o.inner.x);
    println!("{:?} {:?}", p, u);
    println!("PROBE {}", if p == Ok([0xE0]) && u == Ok(7) { "good" } else if p == Ok([0]) && u == Ok(0) { "known" } else { "bad" });
}
'''
KF2_TEXT = 'a derived structure of 3 bits positioned at bit 0 loses its value when nested in a 3 bit field (x = 7 packs to [0x00])'


def C10(c):
    c.rule = RULE + ('arrays of every field kind (1 to 257 elements, element widths 1 to 512 bits, at all offsets), derived and hand-written types nested up to four levels, arrays of nested types.')

    def make(k):
        g = mixed('C10', SEED, k, inner=12, structs=4)
        r = g.r
        pool = list(g.structs[:14])
        for _ in range(30 * T):
            fs = []
            for _ in range(r.randint(1, 4)):
                x = r.random()
                f = g.nested(r.choice(pool)) if x < .4 else g.raw() if x < .55 else g.scalar()
                if r.random() < .65 and f.width <= 130:
                    f = g.array(f, r.choice([1, 2, 3, 4, 5, 7, 8, 12, 16]))
                fs.append(f)
            g.struct(fs, mode=r.choice(['msb0', 'auto', 'lsb0']), first_gap=r.choice([0, 1, 3, 5, 8, 13]), shuffle=r.random() < .3, gap=r.choice([0, .4]))
        for w in range(1 + k, 65, BINS):
            # narrow elements, all offsets over the runs
            for form in ('native', 'sized'):
                e = getattr(g, form)(w, r.random() < .5)
                g.struct([g.array(e, r.choice([2, 3, 5, 9])), g.native(3, False)], mode='msb0', first_gap=r.randint(0, 7))
        return g, {}
    ws, bad = c.standard(generated(c, make), 60 * T, probes=dict(kf2=KF2))
    c.probe(ws, 'kf2', bad, KF2_TEXT)


def enums(c, prop, n, enum_structs=0, infer=0, count=24, n_run=100):
    def make(k):
        g = gen_for(prop, SEED, k)
        r = g.r
        enum_set(g, count * T, raw=True)
        if infer:
            infer_set(g, infer * T)
        for _ in range(enum_structs * T):
            kinds = ['enum', 'enum', 'bool', 'native'] if prop == 'C11' else ['catchall', 'catchall', 'native', 'bool']
            g.random_struct([], kinds, maxf=5)
        if enum_structs:
            # every width, both signs
            for w in list(range(1 + k, 65, BINS)):
                for s in (False, True):
                    f = g.en(w, s, prop == 'C12')
                    g.struct([g.native(r.randint(1, 7), False), f, g.boolean()], mode=r.choice(['msb0', 'lsb0']), first_gap=r.randint(0, 7))
        return g, dict(main='rt::enums::run(ctx, &enums()); ' + ('rt::mon::run(ctx, &subjects());' if enum_structs else ''), full_enums=True)
    return generated(c, make)


def C11(c):
    c.rule = ('Enums over all eight backing types, explicit and inferred, with explicit, implicit, negative, non-contiguous and suffixed discriminants in random order. Every number of 8 bit types '
              '(16 bit when thorough), otherwise boundaries, truncation and sign relatives of each variant and random numbers; and enum fields of every width 1..64 in structures.')
    c.standard(enums(c, 'C11', 0, enum_structs=10), 100 * T)


def C12(c):
    c.rule = 'As C11, with the catch-all wrapper around each enum, alone and as fields of every width 1..64 in both byte orders.'
    c.standard(enums(c, 'C12', 0, enum_structs=10, count=12), 60 * T)


def C20(c):
    c.rule = ('Enums with names of all shapes (digits, underscores, non-ASCII, mixed and lower case); looked up by every variant name, its case flips, prefixes, suffixes and relatives, and random strings.')
    c.standard(enums(c, 'C20', 0, count=40), 60 * T)


def C21(c):
    c.rule = ('Enums without a backing type whose numbers sit at and around every limit of the eight integer types, mixed signs, big numbers under a repr, literal suffixes; and each explicit derive.')
    c.standard(enums(c, 'C21', 0, count=8, infer=30), 20 * T)


def C13(c):
    c.rule = RULE + 'random mixes; Display and all 32 switch combinations of the formatter, compared with the packed bytes, row by row.'

    def make(k):
        g = mixed('C13', SEED, k, inner=5, structs=30 * T, raw_idents=False)
        r = g.r
        # structures whose fields are all narrow enough for the table
        for _ in range(20 * T):
            fs = [g.scalar(['native', 'sized', 'bool', 'enum', 'catchall', 'rz', 'ro'], maxw=r.choice([8, 16, 31, 32, 33])) for _ in range(r.randint(1, 7))]
            fs = [g.array(f, r.choice([1, 2, 3, 11])) if r.random() < .3 else f for f in fs if f.width <= 33] or [g.boolean()]
            g.struct(fs, mode=r.choice(['msb0', 'auto', 'lsb0']), shuffle=r.random() < .3, first_gap=r.choice([0, 0, 3, 9]), gap=r.choice([0, .3]))
        for w in (31, 32, 33, 34):
            g.struct([g.native(w, False), g.boolean()], mode='msb0', first_gap=r.randint(0, 9))
        return g, dict(show=True)
    c.standard(generated(c, make), 60 * T)


def C19(c):
    c.rule = RULE + 'random mixes; all 128 integer types and their wrappers, all 255 bit widths with their byte counts and reserved types, byte arrays of 0 to 4096 bytes.'

    def make(k):
        g = mixed('C19', SEED, k, inner=6, structs=50 * T)
        return g, dict(main='rt::mon::run(ctx, &subjects()); rt::ints::run(ctx, &ints()); rt::basic::bits(ctx, &widths()); ' + ('rt::basic::byte_arrays(ctx);' if k == 0 else ''),
                       extra=ints_fn(int_parts(k, BINS)) + '\n' + bits_fn(range(1 + k, 256, BINS)))
    c.standard(generated(c, make), 20)


def C23(c):
    c.rule = ('Structures, arrays, nested structures, tuples and vectors whose elements include a hand-written type with programmed failures (every error kind), enums and bools; every fallible '
              'position failed alone, and several at once. Distinct: (monitor, type, input).')

    def make(k):
        g = gen_for('C23', SEED, k, raw_idents=False)
        r = g.r
        kinds = ['fus', 'fus', 'fus', 'native', 'bool', 'enum', 'sized']
        for _ in range(6):
            g.inner_struct(kinds)
        pool = list(g.structs)
        for _ in range(3):
            s = r.choice(pool)
            f = g.nested(s)
            pool.append(g.struct([g.nested(s, f.width), g.fus()], mode='msb0', first_gap=-(f.width + 8) % 8, gap=0, tail=0, size_bytes='yes', depth=s['depth'] + 1))
        for _ in range(26 * T):
            g.random_struct(pool, kinds, maxf=5)
        r2 = random.Random('C23s/%d/%d' % (SEED, k))
        types = seq_types(r2, g.structs[:6], 0, fus=True)
        types = [t for t in types if 'Fus' in t or 'St' in t][k % 4::4]
        types += ['Vec<Fus>', '(u8, Vec<Fus>, Fus)']
        # sizes that can't be told
        for n in range(1, 11):
            for what in ('SizeFails', 'NoSize<%d>' % r2.choice([0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 17])):
                es = [r2.choice(['u8', '[u8; 2]', 'bool', 'Fus']) for _ in range(n)]
                es[r2.randrange(n)] = what
                if n > 1 and r2.random() < .5:
                    at = r2.choice([i for i in range(n) if es[i] != what])
                    es[at] = r2.choice(['Vec<u8>', what, 'SizeFails', '(u8, %s)' % what])
                types.append('(%s,)' % ', '.join(es))
        types += ['Vec<NoSize<%d>>' % k, 'Vec<(u8, NoSize<%d>)>' % (k + 5)] if k not in (4,) else []
        # a tuple with two dynamic elements can't be unpacked at all
        types = [t for t in dict.fromkeys(types) if t.count('Vec<') <= 1]
        return g, dict(show=True, extra='use rt::err::{Fus, NoSize, SizeFails};', main='rt::err::run(ctx, &subjects()); rt::err::texts(ctx); ' + seq_main(types, 'rt::err::sequence'))
    c.standard(generated(c, make), 60 * T)


# ------------------------------------------------------------------ configurations
def _configs():
    """(name, default features, features, toolchain, release)"""
    if THOROUGH:
        out = []
        for bits in range(32):
            f = [n for i, n in enumerate(['std', 'alloc', 'use_serde', 'byte_types_64', 'byte_types_256']) if bits >> i & 1]
            for release in (False, True):
                out.append((f, 'nightly' if 'alloc' in f else None, release))
        return out
    return [(['std'], None, False), (['std'], None, True), ([], None, False), ([], None, True), (['alloc'], 'nightly', False), (['std', 'alloc', 'use_serde'], 'nightly', False),
            (['std', 'use_serde'], None, False), (['use_serde', 'byte_types_64'], None, False), (['std', 'byte_types_64'], None, True), (['std', 'byte_types_256'], None, False),
            (['byte_types_256'], None, True), (['alloc', 'use_serde', 'byte_types_256'], 'nightly', True)]


def _c16(k, small=False, T=1):
    g = gen_for('C16s' if small else 'C16', SEED, k)
    g.isize_max = (1 << 31) - 1
    r = g.r
    for _ in range(2 if small else 4):
        g.inner_struct()
    pool = list(g.structs)
    for _ in range(5 if small else 6 * T):
        g.random_struct(pool, maxf=5 if small else 7)
    if small:
        g.struct([g.native(r.randint(1, 7), False), g.blk(r.choice([31, 32, 33])), g.native(r.randint(1, 7), False)], mode='msb0', first_gap=r.randint(1, 7))
        g.struct([g.array(g.native(r.randint(1, 31), r.random() < .5), 9), g.boolean()], mode='msb0', first_gap=r.randint(1, 7))
        # the widths that don't fit the machine word of a 32 bit target
        g.struct([g.native(64, True), g.sized(r.randint(33, 63), False), g.sized(64, True), g.en(64, False), g.en(r.randint(33, 63), True, True)], mode='msb0', first_gap=r.randint(0, 7))
    else:
        exotics(g)
        g.grid(share(cells(['native', 'sized']), k, 24)[:48])
    for b in PRIMS[k % 4::4] if small else PRIMS[k % 2::2] * T:
        g.enum(prim=b)
    if small:
        big = r.choice([[1, 2**32], [-1, 2**32 + 5, -2**40], [2**63, 0], [2**31, 2**32 - 1]])
        g.enum_from(big, None, implicit=True, suffix=False, force_repr='u64' if max(big) >= 2**63 else None)
    else:
        g.enum_from([r.choice(BOUNDS), r.choice(NEG)], None, implicit=True, suffix=False)
    return g


def C16(c):
    c.rule = ('One workload (structures of all kinds, integer types, width types, enums, tuples and vectors) built and observed under feature sets, toolchains and profiles, natively, on a 32 bit target '
              '(wasm32, run by node) and interpreted on a 64 bit big endian one (Miri); every result compared with the same reference model. Distinct counts each configuration of its own.')
    gs = [_c16(k, T=1) for k in range(4)]
    structs(c, gs)
    sz = random.Random('C16q/%s' % SEED)
    widths = sz.sample(range(1, 256), 48)

    def programs(full, extra_bits):
        out = {}
        for k, g in enumerate(gs):
            types = seq_types(random.Random('C16q/%s/%d' % (SEED, k)), g.structs[:5], 0, dyn=full, vecs=full)[k::4][:11 * T]
            ws = widths[k::4] + extra_bits[k::4]
            out['p%d' % k] = program(g, full_enums=True, main='rt::mon::run(ctx, &subjects()); rt::enums::run(ctx, &enums()); rt::ints::run(ctx, &ints()); rt::ints::native(ctx); rt::basic::bits(ctx, &widths()); ' + seq_main(types),
                                     extra='extern crate alloc;\n' + ints_fn(int_parts(k, 4)) + '\n' + bits_fn(ws))
        if extra_bits:
            h = gen_for('C16w', SEED, len(extra_bits))
            for w in h.r.sample(extra_bits, 12):
                f = h.r.choice([True, False])
                h.struct([h.native(h.r.randint(1, 9), False), h.reserved(w, f), h.sized(h.r.randint(1, 40), True)], mode=h.r.choice(['msb0', 'lsb0', 'auto']), first_gap=h.r.randint(0, 7))
            out['wide'] = program(h, extra='extern crate alloc;')
        return out

    def nostd(alloc):
        h = '#![no_std]\n#![allow(warnings)]\n' + ('extern crate alloc;\n' if alloc else '')
        return h + ''.join('pub mod m%d {\n%s%s\n}\n' % (k, decls.PRELUDE, '\n'.join([e.decl for e in g.enums] + [s['decl'] for s in g.structs])) for k, g in enumerate(gs))

    def native(cfg):
        fs, tc, release = cfg
        tag = '+'.join(fs or ['none']) + ('/release' if release else '/debug')
        full = 'std' in fs or 'alloc' in fs
        top = 2047 if 'byte_types_256' in fs else 511 if 'byte_types_64' in fs else 255
        r = random.Random('C16w/%s/%d' % (SEED, top))
        extra = [] if top == 255 else sorted({256, 257, 264, 511 if top > 511 else 510, top - 1, top} | set(r.sample(range(258, top), 24)))
        ws = c.workspace(tag.replace('/', '-'), programs(full, extra), features=fs, default_features=False, full=full, opt=1, lib=None if 'std' in fs else nostd('alloc' in fs))
        mine, other = c.build(ws, release=release, toolchain=tc, jobs=3)
        if other:
            return tag, ws, mine, other, []
        bad = {p for p, _ in mine}
        names = sorted(p[:-3] for p in os.listdir(os.path.join(ws, 'gen/src/bin')))
        return tag, ws, mine, other, [c.run_program([c.exe(ws, p, release)], p, 30, tag=tag.replace('/', '-')) for p in names if p not in bad and 'gen' not in bad]

    def wasm():
        tag = 'wasm32'
        ws = c.workspace(tag, programs(True, []), opt=1)
        c.vendored_std(ws, None)
        # one codegen unit per program: the monitors are compiled a second time only
        mine, other = c.build(ws, release=True, toolchain='nightly', args=['-Zbuild-std=std,panic_unwind', '--target', 'wasm32-unknown-unknown'], env={'RUSTFLAGS': '-Awarnings -Cpanic=unwind'}, jobs=5)
        if other:
            return tag, ws, mine, other, []
        bad = {p for p, _ in mine}
        js = ['node', os.path.join(VERIF, 'lib/wasm.js')]
        return tag, ws, mine, other, [c.run_program(js + [c.exe(ws, p, True, 'wasm32-unknown-unknown') + '.wasm'], p, 30, tag=tag, stdout=True, sanitizer=True) for p in ['p%d' % k for k in range(len(gs))] if p not in bad]

    def big_endian(target, count, at=0):
        tag = target.split('-')[0]
        progs = {}
        for k in range(at, at + count):
            g = _c16(k, small=True)
            types = seq_types(random.Random('C16m/%s/%d' % (SEED, k)), g.structs[:3], 0)
            types = random.Random('%s/%d' % (SEED, k)).sample(types, 2)
            progs['m%d' % k] = program(g, full_enums=True, main='rt::mon::run(ctx, &subjects()); rt::enums::run(ctx, &enums()); rt::ints::run(ctx, &ints()); rt::ints::native(ctx); ' + seq_main(types),
                                       extra=ints_fn(int_parts(k, 32)))
        ws = c.workspace(tag, progs)
        e = c.miri(ws, target)
        with concurrent.futures.ThreadPoolExecutor(count) as ex:
            return tag, ws, [], [], list(ex.map(lambda p: c.run_program(c.miri_cmd(p, target), p, 1, env=e, timeout=800, tag=tag, stdout=True, cwd=ws, sanitizer=True, tier='light'), progs))

    jobs = [(big_endian, ('s390x-unknown-linux-gnu', 8 if THOROUGH else 3))]
    if THOROUGH:
        jobs += [(big_endian, ('powerpc-unknown-linux-gnu', 4, 8)), (big_endian, ('i686-unknown-linux-gnu', 4, 12))]
    jobs += [(wasm, ())] + [(native, (cfg,)) for cfg in _configs()]
    results = []

    def timed(fn, a):
        t = time.time()
        r = fn(*a)
        c.extra.setdefault('seconds_per_configuration', {})[r[0]] = round(time.time() - t, 1)
        return r
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        for f in [ex.submit(timed, fn, a) for fn, a in jobs]:
            results.append(f.result())
    plain = [r for r in results if r[0] == 'std/debug'][0]
    if plain[3]:
        c.fail_lib(plain[3], 'std')
    per = {}
    for tag, ws, mine, other, res in results:
        if other:
            n, m = other[0]
            c.violations.append(Violation('configuration.does_not_build', subject=tag, expected='builds like the default configuration', got='%s: %s' % (n, (m.get('rendered') or m['message'])[:3000]), repro=tag))
        c.compile_violations(ws, mine, 'configuration.declaration_rejected')
        before = c.evaluations
        for r in res:
            c.take(r, os.path.join(ws, 'gen/src/bin/%s.rs' % r['name']))
        per[tag] = c.evaluations - before
    c.extra['observations_per_configuration'] = per


# ------------------------------------------------------------------ sanitizers
ASAN_CANARY = '''fn main() {
    let n = std::env::args().count() + 3;
    let v: Vec<u8> = vec![1; n];
    let p = v.as_ptr();
    println!("{}", unsafe { std::ptr::read_volatile(p.add(n + 2)) });
}
'''
MIRI_CANARY = '''fn main() {
    let mut v: Vec<u8> = Vec::with_capacity(8);
    unsafe { v.set_len(4) };
    if v[std::env::args().count()] > 3 { println!("a") } else { println!("b") }
}
'''


def hostile(k, T=1, small=False):
    g = gen_for('C18s' if small else 'C18', SEED, k)
    r = g.r
    for _ in range(2 if small else 5):
        g.inner_struct()
    pool = list(g.structs)
    for _ in range(10 if small else 14 * T):
        g.random_struct(pool, maxf=4 if small else 7)
    if small:
        g.struct([g.native(r.randint(1, 7), False), g.blk(r.choice([31, 32, 33])), g.native(r.randint(1, 7), False)], mode='msb0', first_gap=r.randint(1, 7))
        g.struct([g.array(g.native(r.randint(1, 31), r.random() < .5), 9), g.boolean()], mode='msb0', first_gap=r.randint(1, 7))
    else:
        exotics(g)
    for _ in range(1 if small else 6 * T):
        enum_one = g.enum(prim=r.choice(PRIMS))
    types = seq_types(random.Random('C18q/%d/%d' % (SEED, k)), g.structs[:4], 0)
    types = r.sample(types, 3) if small else types[k::BINS]
    types += [['(u8, OnHeap<5>, Aligned<7>)'], ['Vec<OnHeap<3>>', '(Aligned<1>, Vec<Direct<2>>)', '(u8, Direct<3>)'], ['OnHeap<33>', 'Vec<Aligned<5>>'], ['(bool, Prefixed, OnHeap<1>)']][k % 4]
    ints = int_parts(k * 9 if small else k, 128 if small else BINS)
    return g, dict(show=True, full_enums=True, main='rt::mon::run(ctx, &subjects()); rt::enums::run(ctx, &enums()); rt::ints::run(ctx, &ints()); ' + seq_main(types) + (seq_main(['()', '((), [u8; 0])'], 'rt::seq::no_bytes') if k % 4 == 0 else ''), extra=ints_fn(ints))


def failing(k, T=1):
    g = gen_for('C18f', SEED, k, raw_idents=False)
    kinds = ['fus', 'fus', 'native', 'bool', 'enum', 'sized']
    for _ in range(4):
        g.inner_struct(kinds)
    pool = list(g.structs)
    for _ in range(8 * T):
        g.random_struct(pool, kinds, maxf=5)
    types = [t for t in seq_types(random.Random('C18g/%d/%d' % (SEED, k)), g.structs[:3], 0, fus=True) if ('Fus' in t or 'St' in t) and t.count('Vec<') <= 1][:8]
    return g, dict(show=True, extra='use rt::err::Fus;', main='rt::err::run(ctx, &subjects()); rt::err::texts(ctx); ' + seq_main(types, 'rt::err::sequence'))


def C18(c):
    c.rule = ('Hostile workload (out-of-range values, dirty and random bytes, wrong lengths, failing elements, formatting, all tuple arities, enums) over random declarations, under AddressSanitizer with overflow '
              'checks, under AddressSanitizer in release mode, and a small share interpreted by Miri. Every operation is guarded against panics and its result compared with the model.')
    progs, gs = {}, []
    for k in range(6):
        g, kw = hostile(k, T)
        gs.append(g)
        progs['p%d' % k] = program(g, **kw)
    for k in range(2):
        g, kw = failing(k, T)
        gs.append(g)
        progs['f%d' % k] = program(g, **kw)
    tiny = {}
    for k in range(12 if THOROUGH else 4):
        g, kw = hostile(100 + k, small=True)
        gs.append(g)
        tiny['m%d' % k] = program(g, **kw)
    structs(c, gs)

    def asan(release):
        ws = c.workspace('asan-release' if release else 'asan', dict(progs, canary=ASAN_CANARY), opt=1)
        env = {'RUSTFLAGS': '-Awarnings -Zsanitizer=address'}
        mine, other = c.build(ws, release=release, toolchain='nightly', args=['--target', HOST], env=env)
        if other:
            c.fail_lib(other, 'AddressSanitizer')
        bad = {p for p, _ in mine}
        tag = 'asan-release' if release else 'asan'
        e = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0'}
        c.canary([c.exe(ws, 'canary', release, HOST)], 'AddressSanitizer: heap-buffer-overflow', 'AddressSanitizer', env=e)
        jobs = [(lambda p=p: c.run_program([c.exe(ws, p, release, HOST)], p, 60 * T, env=e, tag=tag, sanitizer=True)) for p in progs if p not in bad]
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            return ws, mine, [f.result() for f in [ex.submit(j) for j in jobs]]

    def miri():
        ws = c.workspace('miri', dict(tiny, canary=MIRI_CANARY))
        e = c.miri(ws)
        c.canary(c.miri_cmd('canary'), 'Undefined Behavior', 'Miri', env=e, cwd=ws)
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            res = [f.result() for f in [ex.submit(c.run_program, c.miri_cmd(p), p, 2, env=e, timeout=800, tag='miri', stdout=True, cwd=ws, sanitizer=True, tier='light') for p in tiny]]
        return ws, [], res
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        rs_ = [f.result() for f in [ex.submit(asan, False), ex.submit(asan, True), ex.submit(miri)]]
    for ws, mine, res in rs_:
        c.compile_violations(ws, mine)
        for r in res:
            before = dict(c.counters)
            c.take(r, os.path.join(ws, 'gen/src/bin/%s.rs' % r['name']))
            c.counters['observed_under_' + r['tag']] = c.counters.get('observed_under_' + r['tag'], 0) + sum(v - before.get(k, 0) for k, v in c.counters.items() if '.' in k)


# ------------------------------------------------------------------ purity
TSAN_CANARY = """static mut X: u64 = 0;
fn main() {
    let t = std::thread::spawn(|| unsafe { for _ in 0..1000 { X += 1 } });
    unsafe { for _ in 0..1000 { X += 1 } }
    t.join().unwrap();
    println!("{}", unsafe { X });
}
"""


def _c22(k, small=False):
    g = gen_for('C22s' if small else 'C22', SEED, k)
    r = g.r
    kinds = ['fus', 'native', 'sized', 'sized', 'bool', 'enum', 'catchall', 'rz', 'ro', 'raw']
    for _ in range(1 if small else 3):
        g.inner_struct()
        g.inner_struct(kinds)
    pool = list(g.structs)
    for _ in range(2 if small else 8 * T):
        g.random_struct(pool, r.choice([None, kinds]), maxf=4 if small else 7)
    if not small:
        exotics(g)
    for p in r.sample(PRIMS, 1 if small else 6):
        g.enum(prim=p)
    n = [s['name'] for s in g.structs]
    types = [t for t in seq_types(random.Random('C22q/%s/%d' % (SEED, k)), g.structs[:5], 0, fus=True) if t.count('Vec<') <= 1]
    types = r.sample(types, 1 if small else 14)
    types += ['(u8, rt::pure::Re<%s>, bool)' % n[0]] if small else [
        '(u8, rt::pure::Boom, %s)' % n[0], 'Vec<rt::pure::Boom>', '(%s, rt::pure::Re<%s>, bool)' % (n[1], n[0]), 'Vec<rt::pure::Re<%s>>' % n[1], '(rt::pure::Re<%s>, Vec<rt::pure::Re<%s>>)' % (n[2], n[3])]
    inst = 1 if small else 6
    body = 'let mut t = rt::pure::Table::default(); let mut r = rt::Rng::named(ctx.seed, "table"); let r = &mut r; '
    body += ' '.join('t.structure::<%s>(r, %d);' % (x, inst) for x in n)
    body += ' '.join('t.sequence::<%s>(%s, r, %d);' % (x, rs(x), inst) for x in types)
    ints = int_parts(k * 5, 64) if small else int_parts(k, BINS)
    body += 't.integers(ints(), r, %d); t.enums(enums(), r, %d); t.errors(); t.run(ctx, %s)' % (1 if small else 2, 2 if small else 8, 'true' if k % 2 == 0 else 'false')
    return g, dict(show=True, full_enums=True, main=body, extra='use rt::err::Fus;\n' + ints_fn(ints))


def C22(c):
    c.rule = ('Table of operations (pack, unpack, sizes, formatting, conversions, lookups; many of them failing or panicking in a user element, some reentrant) over shared instances and buffers of random '
              'declarations. Each is executed alone, in long random histories, many thousand times in a row, and concurrently by 8 threads; every result is compared with the one alone and with the model; the '
              'inputs are compared afterwards. Also under ThreadSanitizer and, small, under Miri with its race detector and several schedules. Distinct: successions of two operations per phase.')
    progs, gs = {}, []
    for k in range(BINS):
        g, kw = _c22(k)
        gs.append(g)
        progs['p%d' % k] = program(g, **kw)
    tiny = {}
    for k in range(8 if THOROUGH else 4):
        g, kw = _c22(k, True)
        gs.append(g)
        tiny['m%d' % k] = program(g, **kw)
    structs(c, gs)

    def native(release):
        tag = 'release' if release else 'debug'
        ws = c.workspace(tag, progs, opt=1)
        mine, other = c.build(ws, release=release, jobs=4)
        if other:
            c.fail_lib(other, tag)
        bad = {p for p, _ in mine}
        return ws, mine, [c.run_program([c.exe(ws, p, release)], p, (300 if release else 150) * T, tag=tag) for p in progs if p not in bad]

    def tsan():
        some = {p: progs[p] for p in (progs if THOROUGH else ['p0', 'p1'])}
        ws = c.workspace('tsan', dict(some, canary=TSAN_CANARY))
        mine, other = c.build(ws, toolchain='nightly', args=['-Zbuild-std', '--target', HOST], env={'RUSTFLAGS': '-Awarnings -Zsanitizer=thread'}, jobs=6)
        if other:
            c.fail_lib(other, 'ThreadSanitizer')
        bad = {p for p, _ in mine}
        e = {'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66'}
        c.canary([c.exe(ws, 'canary', False, HOST)], 'ThreadSanitizer: data race', 'ThreadSanitizer', env=e)
        return ws, mine, [c.run_program([c.exe(ws, p, False, HOST)], p, 20 * T, env=e, tag='tsan', sanitizer=True) for p in some if p not in bad]

    def miri():
        ws = c.workspace('miri', dict(tiny, canary=TSAN_CANARY))
        e = c.miri(ws)
        c.canary(c.miri_cmd('canary'), 'Data race detected', 'Miri', env=e, cwd=ws)

        def one(job):
            p, s = job
            return c.run_program(c.miri_cmd(p), p, 1, env=dict(e, MIRIFLAGS=e['MIRIFLAGS'] + ' -Zmiri-preemption-rate=0.05 -Zmiri-seed=%d' % (SEED * 100 + s)), timeout=800, tag='miri-%d' % s, stdout=True, cwd=ws, sanitizer=True, tier='light')
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            return ws, [], list(ex.map(one, [(p, s) for s in range(6 if THOROUGH else 1) for p in tiny]))
    with concurrent.futures.ThreadPoolExecutor(4) as ex:
        rs_ = [f.result() for f in [ex.submit(native, False), ex.submit(native, True), ex.submit(tsan), ex.submit(miri)]]
    for ws, mine, res in rs_:
        c.compile_violations(ws, mine)
        for r in res:
            before = c.evaluations
            c.take(r, os.path.join(ws, 'gen/src/bin/%s.rs' % r['name']))
            k = 'observed_under_' + r['tag'].split('-')[0]
            c.counters[k] = c.counters.get(k, 0) + c.evaluations - before


# ------------------------------------------------------------------ serde
SERDE = 'serde = { version = "1", features = ["derive"] }\nserde_json = "1"\nbincode = "1"\nciborium = "0.2"\n'


def C17(c):
    c.rule = ('All 128 integer types with every native value (8 bit types) or boundary, bit and random values, and texts the native type refuses; reserved types of all 255 widths; every error; '
              'random derived structures of all these with arrays and nesting. Observed through serde_json text and values, bincode (positional, not self-describing), CBOR, serde value deserializers, and a recording serializer that notes every call. '
              'Distinct: (monitor, type, value).')
    kinds = ['native', 'sized', 'sized', 'sized', 'bool', 'enum', 'rz', 'ro']
    progs, gs = {}, []
    for k in range(BINS):
        g = gen_for('C17', SEED, k)
        for _ in range(5):
            g.inner_struct(kinds)
        pool = list(g.structs)
        for s in pool[:2]:
            f = g.nested(s)
            pool.append(g.struct([g.nested(s, f.width), g.native(4, False)], mode='msb0', first_gap=-(f.width + 4) % 8, gap=0, tail=0, size_bytes='yes', depth=1))
        for _ in range(18 * T):
            g.random_struct(pool, kinds, maxf=6)
        sel = 'serde::Serialize, serde::Deserialize, '
        for e in g.enums:
            e.decl = e.decl.replace('#[derive(', '#[derive(' + sel, 1)
        for s in g.structs:
            s['decl'] = s['decl'].replace('#[derive(', '#[derive(' + sel, 1)
        gs.append(g)
        main = ['ser::subject::<%s>(ctx);' % s['name'] for s in g.structs]
        for kind, t, _, ws in int_parts(k, BINS):
            main += ['ser::int::<%s, Bits<%d>>(ctx, %d, %s);' % (t, w, w, 'true' if kind == 's' else 'false') for w in ws]
        for w in range(1 + k, 256, BINS):
            main += ['ser::reserved::<packed_struct::types::Bit%s, Bits<%d>>(ctx, %d, %s);' % ('One' if o else 'Zero', w, w, 'true' if o else 'false') for o in (0, 1)]
        if k == 0:
            main.append('ser::errors(ctx);')
        progs['p%d' % k] = program(g, extra='#[path = "%s/rt/serde/ser.rs"] mod ser;' % VERIF, main=' '.join(main))
    structs(c, gs)
    c.standard(progs, 60 * T, features=['use_serde'], deps=SERDE)


# ------------------------------------------------------------------ documentation
def _type_text(t):
    return re.sub(r'\s+', '', html.unescape(t)).replace('::<', '<')


def _documentation(c, ws, name):
    """struct name -> list of texts attached to it or to its impls, as recorded by rustdoc"""
    rc, out, err = sh(['cargo', '+nightly', 'rustdoc', '--offline', '-q', '-p', 'gen', '--bin', name, '--', '-Zunstable-options', '--output-format', 'json', '--document-private-items', '-Awarnings'],
                      cwd=ws, env={'CARGO_TARGET_DIR': os.path.join(ws, 'target-doc'), 'RUSTFLAGS': '-Awarnings', 'CARGO_TERM_COLOR': 'never'})
    if rc != 0:
        raise Broken('rustdoc failed: ' + err[-3000:])
    d = json.load(open(os.path.join(ws, 'target-doc/doc/%s.json' % name)))
    docs = {}
    for it in d['index'].values():
        kind = next(iter(it['inner']))
        who = it['name'] if kind in ('struct', 'enum') else None
        if kind == 'impl':
            f = it['inner']['impl']['for']
            who = f.get('resolved_path', {}).get('path', f.get('resolved_path', {}).get('name'))
        if who and it.get('docs'):
            docs.setdefault(who.split('::')[-1], []).append(it['docs'])
    return docs


def C14(c):
    c.rule = ('Random declarations with all field kinds, arrays, nesting and notations, documented by rustdoc; the size and every row (bits, name, type) compared with the layout, which is also observed '
              'by packing every bit. A case is one documented row or size, or one observed packing.')
    bins = 4
    gs = []
    for k in range(bins):
        g = mixed('C14', SEED, k, inner=8, structs=50 * T, raw_idents=False)
        g.grid(share(cells(['native', 'sized']), k, 64))
        for _ in range(10 * T):
            g.random_struct(g.structs[:6], maxf=3)
        gs.append(g)
    structs(c, gs)
    progs = {'p%d' % k: program(g) for k, g in enumerate(gs)}
    ws = c.workspace('std', progs)
    wd = c.workspace('doc', progs)

    def plain():
        mine, other = c.build(ws, jobs=5)
        if other:
            c.fail_lib(other, 'default features')
        c.compile_violations(ws, mine)
        bad = {p for p, _ in mine}
        return bad, [c.run_program([c.exe(ws, p)], p, 10 * T) for p in progs if p not in bad]

    def doc():
        try:
            return {p: _documentation(c, wd, p) for p in progs}
        except Broken as e:
            return e
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(plain), ex.submit(doc)
        (bad, res), docs = a.result(), b.result()
    for r in res:
        c.take(r, os.path.join(ws, 'gen/src/bin/%s.rs' % r['name']))
    if isinstance(docs, Broken):
        if bad:
            return
        raise docs
    for k, g in enumerate(gs):
        d = docs['p%d' % k]
        for s in g.structs:
            texts = [t for t in d.get(s['name'], []) if '<table' in t or re.search(r'\d+ bytes?', t)]
            text = '\n'.join(texts)

            def bad_(what, expected, got, input=''):
                c.violations.append(Violation(what, subject=s['name'], decl=s['decl'], input=input, expected=expected, got=got, program=os.path.join(ws, 'gen/src/bin/p%d.rs' % k)))
            sizes = re.findall(r'(\d+)\s+bytes?\b', re.sub(r'<table.*?</table>', '', text, flags=re.S))
            c.evaluations += 1
            c.distinct += 1
            c.counters['doc.sizes'] = c.counters.get('doc.sizes', 0) + 1
            if not sizes or any(int(x) != s['bytes'] for x in sizes):
                bad_('doc.size', '%d bytes' % s['bytes'], 'sizes %s in %r' % (sizes, text[:300]))
            rows = []
            for tr in re.findall(r'<tr[^>]*>(.*?)</tr>', re.sub(r'<thead.*?</thead>', '', text, flags=re.S), flags=re.S):
                rows.append([x.strip() for x in re.findall(r'<td[^>]*>(.*?)</td>', tr, flags=re.S)])
            want = [['%d' % a if a == b else '%d:%d' % (a, b), n, _type_text(t)] for n, a, b, t in s['rows']]
            got = [[re.sub(r'\s+', '', r[0]), html.unescape(r[1])] + [_type_text(r[2])] if len(r) == 3 else r for r in rows]
            c.evaluations += len(want)
            c.distinct += len(want)
            c.counters['doc.rows'] = c.counters.get('doc.rows', 0) + len(want)
            if got != want:
                i = next((i for i in range(min(len(got), len(want))) if got[i] != want[i]), min(len(got), len(want)))
                bad_('doc.row', str(want[i] if i < len(want) else 'no further row'), str(got[i] if i < len(got) else 'no row'), input='row %d of %d' % (i, len(want)))
    s = gs[0].structs[3]
    c.samples.append('%s documented as: %s' % (s['decl'], ' '.join(docs['p0'].get(s['name'], []))))


# ------------------------------------------------------------------ accepted and rejected declarations
def _module_file(cases):
    """Rust text with one module per case, and the first line of every module."""
    lines, starts = ['#![allow(warnings)]'], []
    for key, decl in cases:
        starts.append((len(lines) + 1, key))
        lines += ['pub mod m%d {' % key] + (decls.PRELUDE + decl).split('\n') + ['}']
    lines += ['fn main() {}', '']
    return '\n'.join(lines), starts


def _rejected(c, ws, release, progs, tag):
    """Compiles all modules; returns the keys of those that were rejected. Modules with errors are
    taken out until the rest compiles, so that no error hides behind another module's."""
    left = {p: list(cs) for p, cs in progs.items()}
    rejected = {}
    for rnd in range(12):
        starts = {}
        for p, cs in left.items():
            text, starts[p] = _module_file(cs)
            open(os.path.join(ws, 'gen/src/bin/%s.rs' % p), 'w').write(text)
        mine, other = c.build(ws, release=release, cmd='check', args=['--keep-going'], jobs=4)
        c.counters['compiler_runs'] = c.counters.get('compiler_runs', 0) + len([p for p in left if left[p]])
        if other:
            c.fail_lib(other, tag)
        if not mine:
            return rejected
        hit = 0
        for p, msg in mine:
            spans = [s for s in msg['spans'] if s['file_name'].endswith('bin/%s.rs' % p)]
            keys = set()
            for s in [s for s in spans if s['is_primary']] or spans:
                keys.update([k for ln, k in starts[p] if ln <= s['line_start']][-1:])
            for k in keys:
                if k not in rejected:
                    rejected[k] = msg['message']
                    hit += 1
        if not hit:
            raise Broken('cannot attribute compiler errors: ' + (mine[0][1].get('rendered') or mine[0][1]['message'])[:1500])
        left = {p: [x for x in cs if x[0] not in rejected] for p, cs in left.items()}
    raise Broken('no fixpoint of compiler errors')


def C15(c):
    c.rule = ('Pairs of declarations on both sides of every rejection rule with random widths, positions, types and notations, and random valid declarations and field names; each is given to the '
              'derive built with and without overflow checks. A case is one (declaration, build of the derive) with its expected verdict.')
    cases = decls.pairs(SEED, 60 if THOROUGH else 20)
    g = Gen('C15/%s' % SEED, prefix='V')
    for _ in range(6):
        g.inner_struct()
    pool = list(g.structs)
    for _ in range(200 if THOROUGH else 40):
        g.random_struct(pool)
    byname = {s['name']: s for s in pool}

    def emit(group, s, decl, ok):
        # with everything it refers to
        need = [e.decl for e in g.enums if e.name in decl] + [byname[n]['decl'] for n in byname if n in decl and n != s['name']]
        more = [e.decl for e in g.enums if any(e.name in d for d in need[0:]) and e.decl not in need]
        cases.append((group, '\n'.join(dict.fromkeys(need + more)) + '\n' + decl + '\n', ok))
    for s in g.structs[6:]:
        emit('random', s, s['decl'], True)
    decls.perturbed(g, pool, 240 if THOROUGH else 60, emit)
    for gr, _, ok in cases:
        k = 'declarations.%s.%s' % ('valid' if ok else 'invalid', gr.split('.')[0])
        c.counters[k] = c.counters.get(k, 0) + 1
    good = [(i, d) for i, (_, d, ok) in enumerate(cases) if ok]
    bad = [(i, d) for i, (_, d, ok) in enumerate(cases) if not ok]
    progs = {}
    for k in range(4):
        progs['good%d' % k] = good[k::4]
        progs['bad%d' % k] = bad[k::4]

    def run(release):
        ws = c.workspace('release' if release else 'debug', {p: 'fn main() {}' for p in progs})
        return _rejected(c, ws, release, progs, 'default features')
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        res = list(ex.map(run, [False, True]))
    for prof, rej in zip(('debug', 'release'), res):
        for i, (gr, d, ok) in enumerate(cases):
            c.evaluations += 1
            c.distinct += 1
            got = i not in rej
            if got != ok:
                c.violations.append(Violation('declaration.' + gr, subject='%s build of the derive' % prof, decl=d, input=gr, expected='accepted' if ok else 'rejected',
                                              got='accepted' if got else 'rejected: ' + rej[i], repro=prof))
        c.counters['rejected_by_%s_build' % prof] = len(rej)
        c.counters['accepted_by_%s_build' % prof] = len(cases) - len(rej)
    c.samples = ['%s, expected %s:\n%s' % (gr, 'accepted' if ok else 'rejected', d) for gr, d, ok in random.Random(SEED).sample(cases, 4)]
    c.programs = len(cases)
