"""Pairs of declarations that have to be rejected and that have to be accepted."""
import random
import re
from layout import Gen, tbits, NASTY

PRELUDE = 'use rt::packed_struct;\nuse rt::packed_struct::prelude::*;\nuse rt::packed_struct::types::bits::Bits;\nuse rt::raws::*;\n'
D = '#[derive(PackedStruct, Clone, Debug, PartialEq)]\n'
EN = '#[derive(PrimitiveEnum_u8, Clone, Copy, Debug, PartialEq)] pub enum En { A = 0, B = 1 }\n'


def ty(w, s=False):
    return ('i' if s else 'u') + str(tbits(w))


def st(attrs, fields, name='S', pre=''):
    a = ', '.join('%s="%s"' % kv for kv in attrs)
    return pre + D + ('#[packed_struct(%s)]\n' % a if a else '') + 'pub struct %s {\n%s\n}\n' % (name, '\n'.join('    ' + f + ',' for f in fields))


def fld(name, t, **kw):
    at = ', '.join('%s="%s"' % (k, v) for k, v in kw.items())
    return ('#[packed_field(%s)] ' % at if at else '') + '%s: %s' % (name, t)


def rng(r, a, b):
    return r.choice(['%d:%d', '%d..=%d']) % (a, b) if r.random() < .8 else '%d..%d' % (a, b + 1)


def overlaps(r, out):
    """two fields, adjacent or overlapping by one bit or more"""
    mode = r.choice(['msb0', 'lsb0'])
    w, v = r.randint(1, 40), r.randint(1, 40)
    p = r.randint(0, 20)
    kind = r.choice(['plain', 'plain', 'array', 'implicit', 'start'])
    attrs = [('bit_numbering', mode), ('endian', r.choice(['msb', 'lsb'])), ('size_bytes', 32)]
    lap = r.choice([1, 1, r.randint(1, min(w, v))])
    n = r.randint(2, 6)
    if kind == 'array':
        e = r.randint(1, 8)
        w = e * n
        lap = r.choice([1, min(w, v), r.randint(1, min(w, v))])
    for ok in (True, False):
        q = p + w if ok else p + w - lap
        a = fld('a', ty(w), bits=rng(r, p, p + w - 1))
        b = fld('b', ty(v), bits=rng(r, q, q + v - 1))
        if kind == 'array':
            a = fld('a', '[u8; %d]' % n, bits=rng(r, p, p + w - 1))
        if kind == 'implicit' and mode == 'msb0':
            # an implicitly placed field runs into the next one
            b = fld('x', 'bool') 
            c = fld('b', ty(v), bits=rng(r, q + (1 if ok else 0), q + v - 1 + (1 if ok else 0)))
            fs = [a, b, c]
        elif kind == 'start' and mode == 'msb0':
            fs = [a, fld('b', ty(v), bits='%d..' % q, size_bits=v)]
            r.shuffle(fs)
        else:
            fs = [a, b]
            r.shuffle(fs)
        out.append(('overlap', st(attrs, fs), ok))


def contained(r, out):
    mode = r.choice(['msb0', 'lsb0'])
    attrs = [('bit_numbering', mode), ('endian', 'msb'), ('size_bytes', 16)]
    w = r.randint(3, 64)
    p = r.randint(0, 60)
    q = r.randint(p, p + w - 1)
    free = p + w + r.randint(0, 2)
    for ok in (True, False):
        fs = [fld('a', ty(w), bits=rng(r, p, p + w - 1)), fld('b', 'bool', bits=free if ok else q)]
        r.shuffle(fs)
        out.append(('overlap', st(attrs, fs), ok))


def outside(r, out):
    n = r.randint(1, 12)
    w = r.randint(1, min(8 * n, 40))
    over = r.choice([1, 1, r.randint(1, 20), 10000])
    kind = r.choice(['msb0', 'lsb0', 'start', 'next', 'bytes', 'array', 'lsb0bytes', 'lsb0one', 'second'])
    e = [('endian', r.choice(['msb', 'lsb']))]
    for ok in (True, False):
        k = 0 if ok else over
        end = 8 * n - 1 + k
        if kind in ('msb0', 'lsb0'):
            out.append(('outside.' + kind, st([('bit_numbering', kind), ('size_bytes', n)] + e, [fld('a', ty(w), bits=rng(r, end - w + 1, end))]), ok))
        elif kind == 'start':
            out.append(('outside.start', st([('bit_numbering', 'msb0'), ('size_bytes', n)] + e, [fld('a', ty(w), bits='%d..' % (end - w + 1), size_bits=w)]), ok))
        elif kind == 'next':
            w1 = r.randint(1, 8 * n) if n < 8 else 64
            fs, tot = [], 0
            while tot < 8 * n:
                x = min(r.randint(1, 64), 8 * n - tot)
                fs.append(fld('f%d' % len(fs), ty(x), size_bits=x))
                tot += x
            if not ok:
                fs.append(fld('z', ty(min(k, 64)), size_bits=min(k, 64)))
            out.append(('outside.next', st([('size_bytes', n)] + e, fs), ok))
        elif kind == 'bytes':
            b = r.randint(1, min(n, 8))
            a = n - b + (0 if ok else r.choice([1, b, 100]))
            out.append(('outside.bytes', st([('bit_numbering', 'msb0'), ('size_bytes', n)] + e, [fld('a', ty(8 * b), bytes=rng_bytes(r, a, a + b - 1))]), ok))
        elif kind == 'lsb0bytes':
            b = r.randint(1, min(n, 8))
            a = n - b + (0 if ok else r.choice([1, b, 100]))
            out.append(('outside.lsb0bytes', st([('bit_numbering', 'lsb0'), ('size_bytes', n)] + e, [fld('a', ty(8 * b), bytes=rng_bytes(r, a, a + b - 1))]), ok))
        elif kind == 'lsb0one':
            out.append(('outside.lsb0', st([('bit_numbering', 'lsb0'), ('size_bytes', n)], [fld('a', 'bool', bits=end)]), ok))
        elif kind == 'second':
            # only the second field is outside; it would wrap around onto a free bit
            out.append(('outside.second', st([('bit_numbering', r.choice(['msb0', 'lsb0'])), ('size_bytes', n)], [fld('a', 'bool', bits=r.randint(0, 8 * n - 2)), fld('b', 'bool', bits=end)]), ok))
        else:
            m = r.randint(1, 8 * n)
            out.append(('outside.array', st([('bit_numbering', 'msb0'), ('size_bytes', n)], [fld('a', '[bool; %d]' % m, bits=rng(r, end - m + 1, end))]), ok))


def rng_bytes(r, a, b):
    return '%d' % a if a == b and r.random() < .5 else r.choice(['%d:%d', '%d..=%d']) % (a, b)


def numbering(r, out):
    w = r.randint(1, 64)
    p = r.randint(0, 9)
    for ok in (True, False):
        attrs = [('endian', 'msb')] + ([('bit_numbering', 'msb0')] if ok else [])
        k = r.choice(['bits', 'start', 'bytes', 'second'])
        if k == 'bits':
            f = [fld('a', ty(w), bits=rng(r, p, p + w - 1))]
        elif k == 'start':
            f = [fld('a', ty(w), bits='%d..' % p, size_bits=w)]
        elif k == 'bytes':
            f = [fld('a', 'u8', bytes=p)]
        else:
            f = [fld('a', 'u8'), fld('b', ty(w), bits=rng(r, 8, 7 + w))]
            if ok:
                f[0] = fld('a', 'u8', bits='0:7')
        if k == 'second' and not ok:
            attrs.append(('size_bytes', 10))
        out.append(('numbering', st(attrs, f), ok))


def lsb0(r, out):
    w = r.randint(1, 64)
    n = (w + 7) // 8 + r.randint(0, 3)
    e = ('endian', 'lsb')
    full = fld('a', ty(w), bits=rng(r, 0, w - 1))
    out.append(('lsb0.full', st([('bit_numbering', 'lsb0'), ('size_bytes', n), e], [full]), True))
    out.append(('lsb0.nosize', st([('bit_numbering', 'lsb0'), e], [full]), False))
    out.append(('lsb0.start', st([('bit_numbering', 'lsb0'), ('size_bytes', n), e], [fld('a', ty(w), bits='0' + r.choice(['..', ':']), size_bits=w)]), False))
    out.append(('lsb0.next', st([('bit_numbering', 'lsb0'), ('size_bytes', n), e], [fld('a', ty(w), size_bits=w)]), False))
    out.append(('lsb0.second_next', st([('bit_numbering', 'lsb0'), ('size_bytes', n + 1), e], [full, fld('b', 'bool')]), False))


def ambiguous(r, out):
    ws = [r.randint(1, 24) for _ in range(r.randint(1, 4))]
    if sum(ws) % 8 == 0:
        ws[0] += 1
    e = [('endian', 'msb')]
    fs = [fld('f%d' % i, ty(w), size_bits=w) for i, w in enumerate(ws)]
    n = (sum(ws) + 7) // 8
    out.append(('ambiguous', st(e, fs), False))
    out.append(('ambiguous.msb0', st(e + [('bit_numbering', 'msb0')], fs), False))
    out.append(('ambiguous.sized', st(e + [('size_bytes', n)], fs), True))
    first = fld('f0', ty(ws[0]), bits='0' + r.choice(['..', ':']), size_bits=ws[0])
    out.append(('ambiguous.positioned', st(e + [('bit_numbering', 'msb0')], [first] + fs[1:]), True))
    pad = -sum(ws) % 8
    out.append(('ambiguous.whole', st(e, fs + [fld('z', 'u8', size_bits=pad)]), True))


def unknown_width(r, out):
    inner = D + '#[packed_struct(bit_numbering="msb0")]\npub struct In { #[packed_field(bits="0..=7")] a: u8 }\n'
    n = r.randint(2, 5)
    for t, kw, w, pre in [('En', dict(ty='enum'), r.randint(1, 8), EN), ('In', {}, 8, inner), ('Raw12', {}, 12, ''), ('Raw24', {}, 24, ''), ('[En; %d]' % n, dict(ty='enum'), 4, EN),
                          ('[Raw7; %d]' % n, {}, 7, ''), ('EnumCatchAll<En>', dict(ty='enum'), 8, EN)]:
        size = 'element_size_bits' if t[0] == '[' else r.choice(['size_bits', 'element_size_bits'])
        for pos in ('next', 'start'):
            a = [('bit_numbering', 'msb0'), ('size_bytes', 40)]
            k2 = dict(kw)
            if pos == 'start':
                k2['bits'] = '%d..' % r.randint(0, 9)
            out.append(('unknown_width', st(a, [fld('a', t, **k2)], pre=pre), False))
            k2[size] = w
            out.append(('unknown_width', st(a, [fld('a', t, **k2)], pre=pre), True))


def endianness(r, out):
    w = r.randint(9, 64)
    s = r.random() < .5
    t = r.choice([ty(w, s), 'Integer<%s, packed_bits::Bits::<%d>>' % (ty(w, s), w), '[%s; 2]' % ty(w, s)])
    size = {'element_size_bits': w} if t[0] == '[' else {'size_bits': w}
    a = [('size_bytes', 24)]
    out.append(('endian', st(a, [fld('a', t, **size)]), False))
    out.append(('endian', st(a + [('endian', r.choice(['msb', 'lsb', 'be', 'le', 'MSB']))], [fld('a', t, **size)]), True))
    out.append(('endian', st(a, [fld('a', t, endian=r.choice(['msb', 'lsb', 'be', 'le', 'LE']), **size)]), True))
    w2 = r.randint(1, 8)
    t = r.choice([ty(w2, s), 'Integer<%s, packed_bits::Bits::<%d>>' % (ty(w2, s), w2)])
    out.append(('endian', st(a, [fld('a', t, size_bits=w2)]), True))
    e16 = '#[derive(PrimitiveEnum_%s, Clone, Copy, Debug, PartialEq)] pub enum En { A = 3, B = 90 }\n' % ty(w, s)
    out.append(('endian.enum', st(a, [fld('a', 'En', ty='enum', size_bits=w)], pre=e16), False))
    out.append(('endian.enum', st(a, [fld('a', 'En', ty='enum', size_bits=w, endian='lsb')], pre=e16), True))
    # the other field's own declaration does not count
    out.append(('endian.other', st(a, [fld('a', 'u16', endian='msb'), fld('b', ty(w, s), size_bits=w)]), False))


def classes(r, out):
    b = r.choice([8, 16, 32, 64])
    lo, hi = {8: (1, 8), 16: (9, 16), 32: (17, 32), 64: (33, 64)}[b]
    t = r.choice('ui') + str(b)
    a = [('size_bytes', 24), ('endian', 'msb'), ('bit_numbering', 'msb0')]
    good = [lo, hi, r.randint(lo, hi)]
    wrong = [hi + 1, r.choice([hi + 1, hi + 8, 65])] + ([lo - 1, r.randint(1, lo - 1)] if lo > 1 else [])
    form = r.choice(['native', 'sized', 'enum', 'array', 'range'])
    for w, ok in [(r.choice(good), True), (r.choice(wrong), False), (hi + 1, False)]:
        if form == 'native':
            out.append(('class', st(a, [fld('a', t, size_bits=w)]), ok))
        elif form == 'range':
            out.append(('class', st(a, [fld('a', t, bits=rng(r, 3, 2 + w))]), ok))
        elif form == 'sized':
            out.append(('class', st(a, [fld('a', 'Integer<%s, packed_bits::Bits::<%d>>' % (t, w))]), ok))
        elif form == 'array':
            out.append(('class', st(a, [fld('a', '[%s; 2]' % t, element_size_bits=w)]), ok))
        else:
            e = '#[derive(PrimitiveEnum_%s, Clone, Copy, Debug, PartialEq)] pub enum En { A = 0, B = 1 }\n' % t
            out.append(('class.enum', st(a, [fld('a', r.choice(['En', 'EnumCatchAll<En>']), ty='enum', size_bits=w)], pre=e), ok))


def arrays(r, out):
    n = r.randint(2, 9)
    e = r.randint(1, 8)
    a = [('size_bytes', 24), ('endian', 'msb'), ('bit_numbering', 'msb0')]
    out.append(('array', st(a, [fld('a', '[u8; %d]' % n, bits=rng(r, 3, 2 + n * e))]), True))
    out.append(('array.uneven', st(a, [fld('a', '[u8; %d]' % n, bits=rng(r, 3, 2 + n * e + r.randint(1, n - 1)))]), False))
    if n * e > 1:
        out.append(('array.uneven', st(a, [fld('a', '[u8; %d]' % n, bits=rng(r, 3, 2 + n * e - 1))]), False))
    out.append(('array.few', st(a, [fld('a', '[bool; %d]' % n, bits=rng(r, 0, n - 2))]), False))
    out.append(('array.zero', st(a, [fld('a', '[u8; 0]', element_size_bits=8)]), False))
    out.append(('array.zero', st(a, [fld('b', 'u8'), fld('a', '[u8; 0]')]), False))
    out.append(('array.one', st(a, [fld('a', '[u8; 1]', element_size_bits=e)]), True))


def shapes(r, out):
    a = '#[packed_struct(bit_numbering="msb0")]\n'
    f = '#[packed_field(bits="0..=7")] a: '
    out.append(('shape', D + a + 'pub struct S { %su8 }\n' % f, True))
    out.append(('shape.generic', D + a + 'pub struct S<T> { %sT }\n' % f, False))
    out.append(('shape.generic', D + a + 'pub struct S<const N: usize> { %su8 }\n' % f, False))
    out.append(('shape.enum', '#[derive(PackedStruct, Clone, Debug, PartialEq)]\npub enum S { A = 0, B = 1 }\n', False))
    out.append(('shape.union', '#[derive(PackedStruct, Clone, Copy)]\n' + a + 'pub union S { %su8 }\n' % f, False))
    out.append(('shape.tuple', D + a + 'pub struct S(#[packed_field(bits="0..=7")] u8);\n', False))
    for t in ['&\'static u8', '(u8, u8)', '[[u8; 2]; 2]', '*const u8', 'fn()', 'f32', 'char', 'usize', 'u128', 'String', '[&\'static u8; 2]', '[(u8,); 2]']:
        k = {'element_size_bits': 8} if t[0] == '[' else {'size_bits': {'f32': 32, 'char': 32, 'usize': 64, 'u128': 128}.get(t, 8)}
        out.append(('shape.type', st([('size_bytes', 16), ('endian', 'msb')], [fld('a', t, **k)]), False))
    # an enum is no packed field without being named one
    out.append(('shape.enum_field', st([('size_bytes', 1)], [fld('a', 'En', size_bits=3)], pre=EN), False))
    out.append(('shape.enum_field', st([('size_bytes', 1)], [fld('a', 'En', size_bits=3, ty='enum')], pre=EN), True))


def enums(r, out):
    p = r.choice(['', '_u8', '_u16', '_u32', '_u64', '_i8', '_i16', '_i32', '_i64'])
    d = lambda body, pp=p, pre='', rep='': out.append(('enum', '%s#[derive(PrimitiveEnum%s, Clone, Copy, Debug, PartialEq)]\n%spub enum E { %s }\n' % (pre, pp, rep, body[0]), body[1]))
    x, y, z = r.sample(range(0, 100), 3)
    d(('A = %d, B = %d, C = %d' % (x, y, z), True))
    d(('A = %d, B, C' % x, True))
    d(('A, B, C', True))
    for body in ['A(u8), B = %d', 'A = %d, B(u8)', 'A, B { x: u8 }, C = %d', 'A = %d, B, C()', 'A {}, B = %d']:
        b = body % x
        rep = '#[repr(%s)]\n' % (p[1:] if p else 'u8')
        d((b, False), rep=rep)
    for e in ['1 + %d', '1 << %d', 'K', 'K + %d', "'a' as isize", '!%d', '{ %d }', '-K', 'true as isize', 'if true { %d } else { 0 }']:
        b = 'A = ' + (e % (x % 8) if '%' in e else e) + ', B = 120'
        d((b, False), pre='const K: isize = 2;\n', pp='_i64')
    for t in ('u8', 'u16', 'u32', 'i8', 'i16', 'i32'):
        n = int(t[1:])
        lo, hi = (0, (1 << n) - 1) if t[0] == 'u' else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
        v = r.choice([hi + 1, lo - 1, hi + r.randint(2, 1000)])
        d(('A = %d, B = %d' % (x, v), False), pp='_' + t)
        d(('A = %d, B = %d' % (hi, lo), True), pp='_' + t)
    d(('A = %d' % x, False)) if False else None
    out.append(('enum.struct', '#[derive(PrimitiveEnum%s, Clone, Copy, Debug, PartialEq)]\npub struct E { a: u8 }\n' % p, False))
    # one past the end by implicit continuation
    out.append(('enum.implicit', '#[derive(PrimitiveEnum_u8, Clone, Copy, Debug, PartialEq)]\npub enum E { A = 255, B }\n', False))
    out.append(('enum.implicit', '#[derive(PrimitiveEnum_u8, Clone, Copy, Debug, PartialEq)]\npub enum E { A = 254, B }\n', True))
    out.append(('enum.implicit', '#[derive(PrimitiveEnum_i8, Clone, Copy, Debug, PartialEq)]\npub enum E { A = 127, B }\n', False))
    out.append(('enum.implicit', '#[derive(PrimitiveEnum_i8, Clone, Copy, Debug, PartialEq)]\npub enum E { A = -128, B, C }\n', True))


def names(r, out):
    """any field name will do"""
    for nm in NASTY + ['packed_struct', 'target_bytes', 'src_bytes', 'Bits', 'Integer', 'None_', 'Some_', 'std', 'core', 'alloc', 'self_', 'fmt_fields', 'start', 'end', 'index', 'byte', 'mask', 'shift',
                       'err', 'e', 's', 'n', 'p', 't', 'u', 'v', 'w', 'to', 'from', 'array', 'item', 'data', 'buf', 'byte_array', 'slice', 'r#for', 'r#loop', 'r#let', 'r#use']:
        k = r.randrange(4)
        other = r.choice([x for x in NASTY if x != nm])
        fs = [fld(nm, r.choice(['u8', 'bool', '[u8; 3]', 'Integer<u16, packed_bits::Bits::<11>>', 'i32', '[bool; 2]', 'ReservedOne<packed_bits::Bits::<5>>'])),
              fld(other, r.choice(['u16', 'bool', '[u16; 2]', 'u8']))]
        r.shuffle(fs)
        out.append(('name', st([('size_bytes', 24), ('endian', r.choice(['msb', 'lsb']))], fs), True))


def pairs(seed, rounds):
    r = random.Random('C15/%s' % seed)
    out = []
    for _ in range(rounds):
        for _ in range(3):
            overlaps(r, out)
        contained(r, out)
        for _ in range(5):
            outside(r, out)
        numbering(r, out)
        lsb0(r, out)
        ambiguous(r, out)
        endianness(r, out)
        for _ in range(2):
            classes(r, out)
        arrays(r, out)
    for _ in range(max(1, rounds // 8)):
        unknown_width(r, out)
        shapes(r, out)
        enums(r, out)
        names(r, out)
    seen, res = set(), []
    for g, d, ok in out:
        if (d, ok) not in seen:
            seen.add((d, ok))
            res.append((g, d, ok))
    return res


def perturbed(g, pool, count, emit):
    """random structures of many fields, and the same ones with one thing wrong"""
    r = g.r
    for k in range(count):
        mode = r.choice(['msb0', 'msb0', 'lsb0', 'auto'])
        fs = [g.random_field(pool) for _ in range(r.choice([2, 3, 4, 6, 9, 14]))]
        if r.random() < .3:
            fs.insert(r.randrange(len(fs)), g.array(g.blk(r.choice([3, 9, 40])), r.choice([2, 5])))
        if mode == 'auto':
            s = g.struct(fs, mode='auto', size_bytes='yes', tail=0)
            emit('perturbed', s, s['decl'], True)
            total = sum(f.width for f in fs)
            d = re.sub(r'size_bytes="[^"]*"', '', s['decl'].split('pub struct')[0]).replace('(, ', '(').replace(', )', ')') + 'pub struct' + s['decl'].split('pub struct', 1)[1]
            emit('perturbed.unsized', s, d, total % 8 == 0)
            d = re.sub(r'size_bytes="[^"]*"', 'size_bytes="%d"' % (s['bytes'] - 1), s['decl'].split('pub struct')[0]) + 'pub struct' + s['decl'].split('pub struct', 1)[1]
            if s['bytes'] > 1:
                emit('perturbed.small', s, d, False)
            continue
        pos, at = [], r.randint(0, 7)
        for f in fs:
            pos.append(at)
            at += f.width + r.choice([0, 0, 0, 1, 2, 5, 8, 17])
        perm = list(range(len(fs)))
        r.shuffle(perm)
        fs, pos = [fs[i] for i in perm], [pos[i] for i in perm]
        s = g.struct(fs, mode=mode, size_bytes='yes', positions=pos)
        emit('perturbed', s, s['decl'], True)
        head, body = s['decl'].split('pub struct', 1)
        # 1. one field moved onto another one
        for _ in range(2):
            i, j = r.sample(range(len(fs)), 2)
            to = [x for x in (pos[j] + fs[j].width - 1, pos[j] - fs[i].width + 1, pos[j] + r.randrange(fs[j].width), pos[j]) if x >= 0]
            bad = list(pos)
            bad[i] = r.choice(to)
            if bad[i] != pos[i]:
                t = g.struct(fs, mode=mode, size_bytes='yes', positions=bad)
                g.structs.pop()
                emit('perturbed.overlap', t, t['decl'], False)
        # 2. a byte too small (the first field starts in the first byte, the last one ends in the last)
        if s['bytes'] > 1:
            emit('perturbed.small', s, re.sub(r'size_bytes="[^"]*"', 'size_bytes="%d"' % (s['bytes'] - 1), head) + 'pub struct' + body, False)
        # 3. an integer of more than 8 bits without a byte order
        wide = [(nm, f) for nm, f in s['fields'] if f.intlike and f.ew > 8]
        if wide:
            nm, f = r.choice(wide)
            h = head
            if s['has_default']:
                h = re.sub(r'endian="[^"]*",? ?', '', h).replace(', )', ')')
            b = []
            for line in body.split('\n'):
                if re.search(r'(?<![\w#])%s: ' % re.escape(nm), line) and ('endian' in line or s['has_default']):
                    line = re.sub(r'endian="[^"]*",? ?', '', line).replace(', )', ')').replace('#[packed_field()] ', '')
                b.append(line)
            emit('perturbed.endian', s, h + 'pub struct' + '\n'.join(b), False)
        # 4. positions without a bit numbering
        if re.search(r'packed_field\([^)]*\b(bits|bytes)=', body):
            emit('perturbed.numbering', s, re.sub(r'bit_numbering="[^"]*"', '', head).replace('(, ', '(').replace(', )', ')').replace(', ,', ',') + 'pub struct' + body, False)
