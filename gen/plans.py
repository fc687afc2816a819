"""Workloads: which programs are generated for which property."""
import random
import layout
from layout import Gen, program, rs

ALL_INTS = [('u', 'u8', 8, 1, 8), ('s', 'i8', 8, 1, 8), ('u', 'u16', 16, 9, 16), ('s', 'i16', 16, 9, 16),
            ('u', 'u32', 32, 17, 32), ('s', 'i32', 32, 17, 32), ('u', 'u64', 64, 33, 64), ('s', 'i64', 64, 33, 64)]


def ints_fn(parts):
    """parts: list of (u/s, type, bits, widths)"""
    return 'fn ints() -> Vec<rt::ints::IntOps> { let mut v = vec![]; %s v }' % ' '.join(
        'v.extend(rt::int_ops!(%s %s %d => %s));' % (k, t, b, ', '.join(map(str, ws))) for k, t, b, ws in parts)


def int_parts(k, of):
    """the k-th share of all 128 integer types"""
    allw = [(kind, t, b, w) for kind, t, b, lo, hi in ALL_INTS for w in range(lo, hi + 1)]
    out = {}
    for kind, t, b, w in allw[k::of]:
        out.setdefault((kind, t, b), []).append(w)
    return [(a[0], a[1], a[2], ws) for a, ws in out.items()]


def bits_fn(widths):
    return 'fn widths() -> Vec<rt::basic::BitsOps> { rt::bits_ops!(%s) }' % ', '.join('%s %d' % ('BitsPartialBytes' if w % 8 else 'BitsFullBytes', w) for w in widths)


# ------------------------------------------------------------------ structures
def exotics(g, kinds=None):
    """Layouts that random generation rarely reaches."""
    r = g.r
    # wide blocks at every bit offset, across the 32 byte line and far beyond
    for n in r.sample([31, 32, 33, 34, 40, 63, 64, 65, 66], 4):
        g.struct([g.native(r.randint(1, 7), False), g.blk(n), g.native(r.randint(1, 7), False)], mode='msb0', first_gap=r.randint(0, 7))
    g.struct([g.native(r.randint(1, 7), False), g.blk(r.choice([127, 128, 129, 255, 256, 257, 300])), g.boolean()], mode=r.choice(['msb0', 'lsb0']), first_gap=r.randint(0, 7))
    g.struct([g.array(g.blk(33), 2), g.boolean()], mode='msb0', first_gap=r.randint(1, 7))
    # many elements
    g.struct([g.array(g.native(8, r.random() < .5), r.choice([257, 258, 270, 300]))], mode=r.choice(['msb0', 'auto']))
    g.struct([g.array(g.boolean(), r.choice([33, 64, 70, 255, 257])), g.native(3, False)], mode=r.choice(['msb0', 'auto']), first_gap=r.randint(0, 7))
    g.struct([g.array(g.native(r.randint(1, 7), r.random() < .5), r.choice([33, 37, 64])), g.boolean()], mode='msb0', first_gap=r.randint(0, 7))
    g.struct([g.array(g.native(8, False), r.choice([32, 33, 40, 256]))], mode='msb0', first_gap=r.randint(1, 7))
    g.struct([g.array(g.native(r.randint(9, 31), r.random() < .5), 17), g.array(g.sized(r.randint(33, 63), True), 9)], mode='msb0', first_gap=r.randint(0, 7))
    # fields far from the start
    for p in r.sample([255, 256, 257, 511, 512, 1023, 2047, 2048, 4095, 8191], 3):
        p += r.randint(0, 7)
        w = r.randint(1, 64)
        g.struct([g.native(w, r.random() < .5), g.native(r.randint(1, 16), False)], mode=r.choice(['msb0', 'lsb0']), positions=[p, p + w])
    # every field one bit, and one field only
    g.struct([g.boolean() for _ in range(r.choice([8, 9, 16, 31]))], mode=r.choice(['msb0', 'auto', 'lsb0']), shuffle=True)
    g.struct([g.native(r.randint(1, 64), r.random() < .5)], mode='msb0', first_gap=r.choice([0, 1, 7, 9]))
    # many fields
    g.struct([g.scalar(kinds, maxw=r.choice([9, 17, 33])) if kinds and 'fus' not in kinds else g.native(r.randint(1, 33), r.random() < .5) if r.random() < .5 else g.boolean() for _ in range(r.choice([33, 40, 65, 70]))],
             mode=r.choice(['msb0', 'auto', 'lsb0']), shuffle=r.random() < .5, gap=.1)
    # many arrays of many elements, all of one type, so that any mix-up between them would still compile
    e = g.native(8, False) if kinds is None or 'native' in kinds else g.scalar(kinds, maxw=9)
    g.struct([g.array(e, r.choice([11, 12, 13])) if r.random() < .8 else e for _ in range(13)], mode=r.choice(['msb0', 'auto', 'lsb0']), gap=0)
    e = g.boolean() if kinds is None or 'bool' in kinds else g.scalar(kinds, maxw=9)
    g.struct([g.array(e, r.choice([2, 10, 11, 12, 21])) if i == r.randrange(3) or i in (11, 12, 21) else e for i in range(24)], mode=r.choice(['msb0', 'auto', 'lsb0']), gap=0)
    # no fields at all
    for n in r.sample([0, 1, 2, 5, 9], 2):
        g.struct([], mode='msb0', size_bytes='yes', tail=n)
    # all 64-bit fields at odd offsets
    g.struct([g.native(64, True), g.sized(64, False), g.native(57, True), g.sized(63, True)], mode='msb0', first_gap=r.randint(1, 7))
    # three levels of nesting, arrays of structures of arrays
    a = g.inner_struct(kinds, maxf=3)
    fa = g.nested(a)
    w = fa.width
    rel = -(w * 2 + 5) % 8
    b = g.struct([g.array(g.nested(a, w), 2), g.native(5, False)], mode='msb0', first_gap=rel, gap=0, tail=0, size_bytes='yes')
    fb = g.nested(b)
    rel = -(fb.width * 2 + 3) % 8
    c = g.struct([g.array(g.nested(b, fb.width), 2), g.native(3, True)], mode='msb0', first_gap=rel, gap=0, tail=0, size_bytes='yes', depth=2)
    fc = g.nested(c)
    g.struct([g.boolean(), fc, g.array(g.nested(c, fc.width), 2), g.sized(13, True)], mode=r.choice(['msb0', 'lsb0']), first_gap=r.randint(0, 7), shuffle=True, depth=3)


def cells(forms, widths=range(1, 65)):
    return [(w, o, l, s, f) for f in forms for w in widths for o in range(8) for l in (0, 1) for s in (0, 1)]


def gen_for(prop, seed, k, **kw):
    return Gen('%s/%s/%s' % (prop, seed, k), prefix='P%d' % k, **kw)


def mixed(prop, seed, k, inner=12, structs=60, kinds=None, exotic=True, grid=None, maxf=8, **kw):
    g = gen_for(prop, seed, k, **kw)
    for _ in range(inner):
        g.inner_struct(kinds)
    pool = list(g.structs)
    if kinds is None or 'native' in kinds:
        # second level
        for s in g.r.sample(pool, min(3, len(pool))):
            f = g.nested(s)
            pad = -(f.width + 4) % 8
            pool.append(g.struct([g.nested(s, f.width), g.native(4, False)], mode='msb0', first_gap=pad, gap=0, tail=0, size_bytes='yes', depth=s['depth'] + 1))
    for _ in range(structs):
        g.random_struct(pool, kinds, maxf=maxf)
    if exotic:
        exotics(g, kinds)
    if grid:
        g.grid(grid[0], per=grid[1] if len(grid) > 1 else 8)
    return g


def byte_orders(g):
    """every source of a byte order (structure, field, both, field alone) x array or scalar x element kind, and structures nested in ones of another order"""
    r = g.r
    mk = [g.native, g.sized, lambda w, s: g.en(w, s), lambda w, s: g.en(w, s, True)]
    for mode in ('msb0', 'auto', 'lsb0'):
        for default in ('msb', 'lsb', None):
            fs = []
            for m in mk:
                w = r.choice([r.randint(9, 16), r.randint(9, 32), r.randint(33, 64), 16, 24, 32, 64])
                if m is mk[2] or m is mk[3]:
                    w = min(w, 33)
                f = m(w, r.random() < .5)
                fs.append(g.array(f, r.choice([1, 2, 3, 5])) if r.random() < .7 else f)
            kw = dict(gap=.3, shuffle=mode != 'auto', first_gap=r.randint(0, 8))
            if default is None:
                del kw['first_gap']
            g.struct(fs, mode=mode, endian=default or 'none', field_endian=1.0 if r.random() < .6 else .5, **kw)
        for default in ('msb', 'lsb'):
            n = g.struct([g.sized(r.randint(9, 40), False), g.native(16, True), g.array(g.sized(12, False), 2)], mode='msb0', endian=default, field_endian=.4, first_gap=0, gap=0, tail=0, size_bytes='no')
            if n['bits'] % 8:
                n = g.struct([g.native(16, False), g.array(g.sized(24, True), 2)], mode='msb0', endian=default, field_endian=.4, gap=0, tail=0, size_bytes='no')
            other = {'msb': 'lsb', 'lsb': 'msb'}[default]
            g.struct([g.nested(n), g.sized(r.randint(9, 30), False), g.array(g.nested(n), 2)], mode=mode, endian=other, field_endian=.3, gap=0, depth=1)


# ------------------------------------------------------------------ sequences
BASIC_T = ['u8', 'i8', 'bool', '[u8; 1]', '[u8; 3]', '[u8; 8]', '()', 'MI!(u16, 16)', 'LI!(u16, 16)', 'MI!(i32, 32)', 'LI!(i32, 32)', 'MI!(u32, 24)',
           'LI!(u32, 24)', 'MI!(u64, 37)', 'LI!(u64, 37)', 'MI!(u64, 64)', 'LI!(i64, 64)', 'MI!(u8, 8)', 'LI!(u16, 10)', 'MI!(u16, 10)', 'LI!(u8, 8)', '[u8; 33]']


# carriers other than [u8; N] and hand-written slice packers (rt/src/raws.rs)
CARRIED = ['OnHeap<1>', 'OnHeap<5>', 'OnHeap<33>', 'Aligned<1>', 'Aligned<7>', 'Aligned<32>', 'Direct<2>', 'Direct<16>', 'OnHeap<0>']


def rtype(t):
    if t.startswith(('MI!(', 'LI!(')):
        a, b = t[4:-1].split(', ')
        n = 'MsbInteger' if t[0] == 'M' else 'LsbInteger'
        return '%s<%s, Bits<%s>, Integer<%s, Bits<%s>>>' % (n, a, b, a, b)
    return t


def seq_types(r, structs, count, dyn=True, vecs=True, fus=False):
    """tuples of all arities, the dynamic element at every position"""
    names = [s['name'] for s in structs if s['bytes']]
    out = []

    def elem(depth=0, zero=True):
        x = r.random()
        if fus and x < .4:
            return 'Fus'
        if names and x < .65:
            return r.choice(names)
        if depth < 2 and x < .78:
            return tup(r.randint(1, 4), None, depth + 1)
        t = rtype(r.choice(BASIC_T + CARRIED))
        return t if zero or t not in ('()', 'OnHeap<0>') else 'u8'

    def nonzero():
        t = elem(1)
        return 'u8' if '()' in t or '<0>' in t else t

    def vec(depth=0):
        return 'Prefixed' if not fus and r.random() < .15 else 'Vec<%s>' % nonzero()

    def tup(n, at, depth=0):
        es = [elem(depth) for _ in range(n)]
        if at is not None:
            es[at] = vec(depth) if depth or r.random() < .8 else tup(r.randint(1, 3), 0, depth + 1)
        return '(%s,)' % ', '.join(es)
    # every arity static, every arity with the dynamic element at every position
    for n in range(1, 11):
        out.append(tup(n, None))
        if dyn:
            for at in range(n):
                out.append(tup(n, at))
    if dyn:
        # two dynamic elements
        for n in range(2, 11):
            a, b = sorted(r.sample(range(n), 2))
            es = [rtype(r.choice(BASIC_T)) for _ in range(n)]
            es[a], es[b] = vec(), vec()
            out.append('(%s,)' % ', '.join(es))
    if vecs:
        for t in [rtype(t) for t in BASIC_T if t != '()'] + names[:6] + [t for t in CARRIED if t != 'OnHeap<0>']:
            out.append('Vec<%s>' % t)
        out.append('Vec<(u8, bool)>')
    while len(out) < count:
        n = r.randint(1, 10)
        out.append(tup(n, r.choice([None] + list(range(n))) if dyn else None))
    return list(dict.fromkeys(out))


def seq_main(types, fn='rt::seq::check'):
    return ' '.join('%s::<%s>(ctx, %s);' % (fn, t, rs(t)) for t in types)


# ------------------------------------------------------------------ enums
BOUNDS = [0, 1, 2, 100, 126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 2**31 - 2, 2**31 - 1, 2**31, 2**31 + 1,
          2**32 - 2, 2**32 - 1, 2**32, 2**32 + 1, 2**63 - 2, 2**63 - 1]
BIG = [2**63, 2**63 + 1, 2**64 - 2, 2**64 - 1]
NEG = [-1, -2, -127, -128, -129, -130, -32767, -32768, -32769, -2**31 + 1, -2**31, -2**31 - 1, -2**31 - 2, -2**62, -2**63 + 1]
PRIMS = ['u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64']


def fit(p, v):
    b = int(p[1:])
    return -(1 << (b - 1)) <= v < (1 << (b - 1)) if p[0] == 'i' else 0 <= v < (1 << b)


def enum_set(g, count, implicit_share=.4, raw=False):
    r = g.r
    for i in range(count):
        p = PRIMS[i % 8]
        if r.random() < implicit_share:
            e = g.enum(prim=p, suffix=False)
            # the same numbers through the inferring derive
            vals = e.values
            g.enums.pop()
            g.enum_from(vals, None, implicit=True, suffix=False)
        else:
            g.enum(prim=p)
    # a wide backing type that holds small numbers, so that truncation would alias
    for p in PRIMS:
        g.enum_from(sorted(r.sample(range(0, 120), r.randint(1, 6))), p)
        if p[0] == 'i':
            v = r.sample(range(-100, 100), r.randint(2, 7))
            g.enum_from(v, p)
    # implicit continuation across zero and from big numbers
    g.enum_from([-3, -2, -1, 0, 1, 2], 'i8')
    g.enum_from([-3, -2, -1, 0, 1], None, implicit=True)
    g.enum_from([250, 251, 252, 253, 254, 255], 'u8')
    g.enum_from([126, 127, 128, 129], None, implicit=True)
    g.enum_from([65535, 65536, 65537], None, implicit=True)
    g.enum_from([5, 6, 7, 2, 3, 100, 101], 'u16')
    g.enum_from([2**64 - 2, 2**64 - 1, 0, 1], 'u64', force_repr='u64')
    g.enum_from([-2**63 + 1, 2**63 - 1, 0], 'i64')
    g.enum_from(list(range(60)), 'u8', names=['V%d' % i for i in range(60)])
    g.enum_from([0], 'u8', names=['Only'])
    k = r.choice([257, 300])
    g.enum_from(list(range(k)), r.choice(['u16', 'u32', 'i16']), names=['V%d' % i for i in range(k)])
    # progressions: no gap, one, two; steps; from zero and from elsewhere; up and down
    for k in range(10):
        p = r.choice(PRIMS)
        n = r.choice([3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 32, 33])
        first = r.choice([0, 0, 1, 1, 2, 3, 10, r.randint(0, 40)])
        if p[0] == 'i' and r.random() < .4:
            first = -r.randint(1, n + 2)
        step = r.choice([1, 1, 1, 1, 1, 2]) if first + 2 * n < 120 else 1
        gaps = [1, 1, 0, 0, 2, 1, 1, 2, 3, 1][k]
        vals = [first + step * i for i in range(n)]
        for _ in range(gaps):
            at = r.randrange(1, n)
            by = r.choice([1, 1, 1, 2, 5])
            vals = vals[:at] + [v + by for v in vals[at:]]
        if r.random() < .2:
            vals.reverse()
        if r.random() < .3:
            g.enum_from(vals, None, implicit=True, suffix=False)
        else:
            g.enum_from(vals, p)
    if raw:
        g.enum_from(r.sample(range(100), 6), 'u8', names=r.sample(['r#type', 'r#match', 'r#Fn', 'r#Plain', 'r#async', 'r#_x', 'r#Über', 'Type'], 6))
        g.enum_from([0, 1], 'i16', names=['r#loop', 'r'])
    # long names, names that begin or end alike
    base = ''.join(r.choice(['Quite', 'A', 'Long', 'Name_', 'X1']) for _ in range(40))
    g.enum_from([1, 2, 3, 4, 5, 6], 'u8', names=[base, base + 'a', base[:-1], 'Z' + base, base[:31], base[:32]])
    g.enum_from([3, 1, 2, 7, 9], 'u8', names=['A', 'Aa', 'AaA_', '_A', 'A1'])


def infer_set(g, count):
    """sets of numbers at the limits of the integer types, without a backing type"""
    r = g.r
    for b in BOUNDS:
        g.enum_from([b], None, implicit=True, suffix=False)
        g.enum_from([b, 3] if b != 3 else [b], None, implicit=True, suffix=False)
    for b in NEG:
        g.enum_from([b], None, implicit=True, suffix=False)
        for _ in range(2):
            hi = r.choice(BOUNDS)
            vals = [b, hi]
            if r.random() < .5:
                vals.append(r.choice([x for x in range(-5, 40) if x not in vals]))
            r.shuffle(vals)
            if Gen.infer(vals):
                g.enum_from(vals, None, implicit=True, suffix=False)
    for b in BIG:
        g.enum_from([b], None, implicit=True, suffix=False, force_repr='u64')
        g.enum_from([7, b, 9], None, implicit=True, suffix=False, force_repr='u64')
    for _ in range(count):
        n = r.randint(1, 6)
        vals = set()
        while len(vals) < n:
            k = r.random()
            v = r.choice(BOUNDS) if k < .5 else r.choice(NEG) if k < .65 else r.randint(-300, 300) if k < .8 else r.randint(0, 2**r.randint(1, 62))
            vals.add(v)
        vals = list(vals)
        r.shuffle(vals)
        if Gen.infer(vals):
            g.enum_from(vals, None, implicit=True, suffix=False)
    # explicit literal suffixes decide the type
    for p in PRIMS:
        for _ in range(3):
            b = int(p[1:])
            lo, hi = (-(1 << (b - 1)) + (1 if b == 64 else 0), (1 << (b - 1)) - 1) if p[0] == 'i' else (0, (1 << b) - 1)
            small = r.sample(range(max(lo, -60), 60), 3)
            vals = r.choice([small, small + [hi], small + ([lo] if lo not in small else [])])
            g.enum_from(vals, p, implicit=True, suffix=True, force_repr=p)
    # the suffix on a single variant, whatever its number and place
    for p in PRIMS:
        b = int(p[1:])
        lo, hi = (-(1 << (b - 1)) + (1 if b == 64 else 0), (1 << (b - 1)) - 1) if p[0] == 'i' else (0, (1 << b) - 1)
        for special in (0, 1, hi, lo, r.randint(max(lo, -100), 100)):
            if special > g.isize_max:
                special = 3
            rest = [v for v in r.sample(range(max(lo, -50), 50), r.randint(0, 3)) if v != special]
            for at in {0, len(rest)}:
                vals = rest[:at] + [special] + rest[at:]
                g.enum_from(vals, p, implicit=True, suffix=False, force_repr=p, suffix_on={at})
    # each explicit derive
    for p in PRIMS:
        for _ in range(2):
            g.enum(prim=p)
