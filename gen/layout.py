"""Random declarations of packed structures together with an independent computation of
their layout. Nothing here looks at the derive macros: the layout is decided first and the
declaration is then written so that it documents that layout."""
import random

NAT = {8: (1, 8), 16: (9, 16), 32: (17, 32), 64: (33, 64)}


def tbits(w):
    for t, (lo, hi) in NAT.items():
        if lo <= w <= hi:
            return t
    raise ValueError(w)


def wrap(v, w, signed):
    v &= (1 << w) - 1
    if signed and v >> (w - 1):
        v -= 1 << w
    return v


class PLeaf:
    """leaf relative to its field"""
    def __init__(self, path, kind, rel, width, signed=False, valid=(), tb=64, lsb=None, fixed=False):
        self.path, self.kind, self.rel, self.width, self.signed = path, kind, rel, width, signed
        self.valid, self.tb, self.lsb, self.fixed = tuple(valid), tb, lsb, fixed

    def moved(self, prefix, by, lsb=None):
        # fixed: the byte order was already decided by an inner structure
        return PLeaf(prefix + self.path, self.kind, self.rel + by, self.width, self.signed, self.valid, self.tb,
                     self.lsb if self.fixed else lsb, self.fixed)


class FT:
    """a field type with its width"""
    def __init__(self, ty, width, leaves, build, extract, auto=None, intlike=False, enum=False, tags=(), array=None, elem=None):
        self.ty, self.width, self.leaves, self.build, self.extract = ty, width, leaves, build, extract
        self.auto, self.intlike, self.enum, self.tags = auto, intlike, enum, tuple(tags)
        self.array, self.elem = array, elem

    @property
    def ew(self):
        return self.elem.width if self.elem else self.width


class EnumSpec:
    def __init__(self, name, prim, variants, decl, derive_prim):
        self.name, self.prim, self.variants, self.decl, self.derive_prim = name, prim, variants, decl, derive_prim
        self.signed = prim[0] == 'i'
        self.tb = int(prim[1:])

    @property
    def values(self):
        return [v for _, v in self.variants]

    def helpers(self, full=False):
        n = self.name
        mk = ''.join(' %d => %s::%s,' % (v, n, k) for k, v in self.variants)
        no = ''.join(' %s::%s => %d,' % (n, k, v) for k, v in self.variants)
        ar = ', '.join('%d' % v for v in self.values)
        s = ('fn mk_%s(v: i128) -> %s { match v {%s _ => panic!("harness: no variant {}", v) } }\n'
             'fn no_%s(e: %s) -> i128 { match e {%s } }\n'
             'fn ca_%s(v: i128) -> EnumCatchAll<%s> { if [%s].contains(&v) { EnumCatchAll::Enum(mk_%s(v)) } else { EnumCatchAll::CatchAll(rt::enums::Prim::of(v)) } }\n'
             'fn nc_%s(e: &EnumCatchAll<%s>) -> i128 { match e { EnumCatchAll::Enum(e) => no_%s(*e), EnumCatchAll::CatchAll(p) => { let p = rt::enums::Prim::to(*p); if [%s].contains(&p) { p + (1 << 100) } else { p } } } }\n'
             % (n, n, mk, n, n, no, n, n, ar, n, n, n, n, ar))
        if full:
            s += ('impl rt::enums::GenEnum for %s {\n'
                  '    fn spec() -> &\'static rt::enums::EnumDesc { static D: rt::enums::EnumDesc = rt::enums::EnumDesc { name: %s, decl: %s, prim: %s, implicit: %s, variants: &[%s] }; &D }\n'
                  '    fn make(i: usize) -> Self { [%s][i] }\n'
                  '    fn index(&self) -> usize { match self { %s } }\n'
                  '    fn native(&self) -> i128 { *self as i128 }\n}\n'
                  % (n, rs(n), rs(self.decl), rs(self.prim), 'true' if self.implicit else 'false', ', '.join('(%s, %d)' % (rs(k), v) for k, v in self.variants),
                     ', '.join('%s::%s' % (n, k) for k, _ in self.variants), ', '.join('%s::%s => %d' % (n, k, i) for i, (k, _) in enumerate(self.variants))))
        return s


WORDS = ['alpha', 'beta', 'gamma', 'delta', 'speed', 'mode', 'flag', 'crc', 'len', 'kind', 'temp', 'gain', 'rate', 'x', 'y', 'id', 'ver', 'seq']
NASTY = ['src', 'target', 'bytes', 'packed', 'b', '_a', '_b', '_c', 'res', 'unpacked', 'primitive_integer', 'sized_integer', 'wrapper', 'r',
         'val', 'value', 'output', 'i', 'fields', 'fmt', 'f', 'display', 'unpacked_0', 'unpacked_1', 'unpacked_0_0', 'unpacked_1_0',
         'r#type', 'r#match', 'r#fn', 'pack', 'unpack', 'packed_bits', 'integer', 'result', 'error', 'len', 'new', 'r#struct']
VARNAMES = ['Off', 'On', 'Idle', 'Run', 'NormalMode', 'SelfTest', 'Err1', 'Err2', 'A', 'B', 'C', 'LowPower', 'X_1', 'Y_2', 'HTTPServer', 'Max', 'Min',
            'Über', 'lower', 'mixedCase', 'UPPER', '_Hidden', 'V9', 'Zero', 'Half', 'Full', 'Last', 'Q3', 'Other', 'Unknown', 'Default', 'Ready']


class Gen:
    def __init__(self, seed, prefix='', raw_idents=True, nasty=True, ascii_only=False):
        self.r = random.Random(seed)
        self.n = 0
        self.prefix = prefix
        self.enums = []
        self.structs = []
        self.pool = []
        self.raw_idents, self.nasty = raw_idents, nasty

    # ---------------------------------------------------------------- enums
    # what a discriminant without a representation can hold
    isize_max = (1 << 63) - 1

    def lit(self, v, suffix=''):
        r = self.r
        a = abs(v)
        k = r.randrange(8)
        if k == 0:
            s = '0x%x' % a
        elif k == 1:
            s = '0x%X' % a
        elif k == 2:
            s = '0b' + bin(a)[2:]
        elif k == 3:
            s = '0o%o' % a
        elif k == 4 and a > 999:
            s = '{:_}'.format(a)
        else:
            s = '%d' % a
        return ('-' if v < 0 else '') + s + suffix

    def enum(self, width=None, signed=None, prim=None, count=None, implicit=False, suffix=None, extremes=True):
        """An enum whose variants all fit width bits of the given signedness."""
        r = self.r
        if width is None:
            tb = int(prim[1:]) if prim else r.choice([8, 8, 16, 32, 64])
            width = tb
        tb = tbits(width)
        if prim:
            signed = prim[0] == 'i'
            tb = int(prim[1:])
        if signed is None:
            signed = r.random() < .4
        prim = prim or ('i' if signed else 'u') + str(tb)
        lo, hi = (-(1 << (width - 1)), (1 << (width - 1)) - 1) if signed else (0, (1 << width) - 1)
        space = hi - lo + 1
        count = min(count or r.choice([1, 2, 3, 3, 4, 5, 8, 13, 20]), space)
        # often all numbers are small, in wide types too
        k = r.choice([3, 7, 8, 15, 16, 31, 32])
        if width > k and r.random() < .3:
            hi = min(hi, (1 << k) - 1)
            lo = max(lo, -(1 << k)) if r.random() < .5 else 0
            count = min(count, hi - lo + 1)
        vals = set()
        if extremes:
            vals.update(r.sample(sorted({lo, hi}), k=min(count, r.randrange(0, 3), len({lo, hi}))))
        while len(vals) < count:
            k = r.randrange(4)
            if k == 0 and vals:
                x = r.choice(sorted(vals)) + r.choice([1, 1, 2, -1])
            elif k == 1:
                x = (1 << r.randrange(width)) * (-1 if signed and r.random() < .5 else 1)
            elif k == 2:
                x = r.randint(max(lo, -20), min(hi, 20))
            else:
                x = r.randint(lo, hi)
            if lo <= x <= hi:
                vals.add(x)
        vals = sorted(vals)
        if r.random() < .6:
            r.shuffle(vals)
        return self.enum_from(vals, prim, suffix=suffix)

    ENUMNAMES = ['En', 'Mode', 'HTTPMode', 'state_', 'X', 'SelfTest', 'Ab1', 'En_', 'DebugLevel', 'a', 'E']

    @staticmethod
    def infer(vals):
        """smallest type that holds them all"""
        lo, hi = min(vals), max(vals)
        for b in (8, 16, 32, 64):
            if lo < 0 and lo >= -(1 << (b - 1)) and hi < (1 << (b - 1)):
                return 'i%d' % b
            if lo >= 0 and hi < (1 << b):
                return 'u%d' % b
        return None

    def enum_from(self, vals, prim=None, suffix=None, implicit=False, names=None, force_repr=None, suffix_on=None):
        """prim: expected backing type (None: inferred from the numbers). suffix_on: the variants
        whose literal carries a suffix, all others don't"""
        r = self.r
        count = len(vals)
        prim = prim or self.infer(vals)
        self.n += 1
        name = '%s%s%d' % (r.choice(self.ENUMNAMES) if r.random() < .4 else 'En', self.prefix, self.n)
        if names is None:
            names = []
            for i in range(count):
                nm = r.choice(VARNAMES)
                while nm.lower() in [x.lower() for x in names]:
                    nm = r.choice(VARNAMES) + str(r.randrange(100))
                names.append(nm)
        repr_ = force_repr
        # enums default to isize: bigger numbers need a repr; so do suffixed literals
        want_suffix = suffix if suffix is not None else (not implicit and r.random() < .25)
        if repr_ is None and (any(v > self.isize_max or v < -self.isize_max for v in vals) or want_suffix or r.random() < .15):
            repr_ = prim
        use_suffix = repr_ is not None and want_suffix
        body, prev = [], None
        any_suffix = False
        for i, (nm, v) in enumerate(zip(names, vals)):
            implicit_v = 0 if prev is None else prev + 1
            if suffix_on is not None and i in suffix_on:
                body.append('%s = %s' % (nm, self.lit(v, repr_)))
            elif v == implicit_v and r.random() < .6:
                body.append('%s' % nm)
            else:
                sf = repr_ if suffix_on is None and use_suffix and (not any_suffix or r.random() < .7) else ''
                any_suffix = any_suffix or bool(sf)
                body.append('%s = %s' % (nm, self.lit(v, sf)))
            prev = v
        if suffix_on is not None:
            use_suffix = True
        elif use_suffix and not any_suffix:
            return self.enum_from(vals, prim, suffix, implicit, names, force_repr)
        derive = 'PrimitiveEnum' if implicit else 'PrimitiveEnum_' + prim
        decl = '#[derive(%s, Clone, Copy, Debug, PartialEq)]\n%spub enum %s { %s }' % (derive, '#[repr(%s)]\n' % repr_ if repr_ else '', name, ', '.join(body))
        e = EnumSpec(name, prim, list(zip(names, vals)), decl, derive)
        e.repr, e.implicit = repr_, implicit
        e.suffixed = use_suffix
        self.enums.append(e)
        return e

    def pooled_enum(self, width, signed):
        c = [e for e, w, s in self.pool if w == width and s == signed]
        if c and self.r.random() < .7:
            return self.r.choice(c)
        e = self.enum(width, signed)
        self.pool.append((e, width, signed))
        return e

    # ---------------------------------------------------------------- types
    def native(self, w, signed):
        t = ('i' if signed else 'u') + str(tbits(w))
        return FT(t, w, [PLeaf('', 'SInt' if signed else 'UInt', 0, w, signed, tb=tbits(w))],
                  lambda i: 'v[%s] as %s' % (i, t), lambda x: 'o.push(%s as i128);' % x, auto=tbits(w), intlike=True, tags=['native', 'w%d' % w])

    def sized(self, w, signed):
        t = ('i' if signed else 'u') + str(tbits(w))
        k = self.r.randrange(4)
        b = ['packed_bits::Bits::<%d>', 'packed_bits::Bits<%d>', 'packed_bits::Bits::<%d>', 'Bits<%d>'][k] % w
        return FT('Integer<%s, %s>' % (t, b), w, [PLeaf('', 'SInt' if signed else 'UInt', 0, w, signed, tb=tbits(w))],
                  lambda i: '(v[%s] as %s).into()' % (i, t), lambda x: 'o.push(*%s as i128);' % x, auto=w if k != 3 else None, intlike=True, tags=['sized', 'w%d' % w])

    def boolean(self, w=1):
        return FT('bool', w, [PLeaf('', 'Bool', 0, w, tb=1)], lambda i: 'v[%s] != 0' % i, lambda x: 'o.push(%s as i128);' % x, auto=1, tags=['bool'] if w == 1 else ['widebool'])

    def en(self, w, signed, catchall=False, spec=None):
        e = spec or self.pooled_enum(w, signed)
        if catchall:
            return FT('EnumCatchAll<%s>' % e.name, w, [PLeaf('', 'CatchAll', 0, w, e.signed, e.values, tb=e.tb)],
                      lambda i: 'ca_%s(v[%s])' % (e.name, i), lambda x: 'o.push(nc_%s(&%s));' % (e.name, x), intlike=True, enum=True, tags=['catchall', 'w%d' % w])
        return FT(e.name, w, [PLeaf('', 'Enum', 0, w, e.signed, e.values, tb=e.tb)],
                  lambda i: 'mk_%s(v[%s])' % (e.name, i), lambda x: 'o.push(no_%s(%s));' % (e.name, x), intlike=True, enum=True, tags=['enum', 'w%d' % w])

    def reserved(self, w, one):
        r = self.r
        n = r.choice(['ReservedOne', 'ReservedOnes'] if one else ['ReservedZero', 'ReservedZeroes'])
        k = r.randrange(3)
        b = ['packed_bits::Bits::<%d>', 'packed_bits::Bits<%d>', 'packed_bits::Bits::<%d>'][k] % w
        return FT('%s<%s>' % (n, b), w, [PLeaf('', 'Ro' if one else 'Rz', 0, w)], lambda i: 'Default::default()', lambda x: 'let _ = &%s; o.push(0);' % x, auto=w, tags=['reserved', 'ro' if one else 'rz'])

    RAWS = {3: 'u8', 7: 'u8', 8: 'u8', 12: 'u16', 17: 'u32', 24: 'u32', 33: 'u64', 40: 'u64', 57: 'u64', 64: 'u64', 65: 'u128', 100: 'u128', 120: 'u128'}

    def raw(self, bits=None):
        bits = bits or self.r.choice(sorted(self.RAWS))
        t = self.RAWS[bits]
        return FT('Raw%d' % bits, bits, [PLeaf('', 'UInt', 0, bits, tb=128, lsb=False, fixed=True)],
                  lambda i: 'Raw%d(v[%s] as %s)' % (bits, i, t), lambda x: 'o.push(%s.0 as i128);' % x, tags=['raw', 'raw%d' % bits])

    def fus(self):
        return FT('Fus', 8, [PLeaf('', 'Fus', 0, 8, tb=8, lsb=False, fixed=True)], lambda i: 'Fus(v[%s] as u8)' % i, lambda x: 'o.push(%s.0 as i128);' % x, tags=['fus'])

    def blk(self, n):
        return FT('Blk<%d>' % n, n * 8, [PLeaf('[%d]' % k, 'UInt', k * 8, 8, tb=8, lsb=False, fixed=True) for k in range(n)],
                  lambda i: 'Blk(core::array::from_fn(|k| v[%s + k] as u8))' % i, lambda x: 'for k in 0..%d { o.push(%s.0[k] as i128) }' % (n, x), tags=['blk', 'nested_wide'])

    def nested(self, s, width=None):
        full = s['bytes'] * 8
        first = min([l.rel for l in s['leaves']])
        width = width or full - self.r.randint(0, min(first, 7))
        lv = []
        for l in s['leaves']:
            lv.append(PLeaf('.' + l.path, l.kind, l.rel - (full - width), l.width, l.signed, l.valid, l.tb, l.lsb, True))
        n = len(lv)
        return FT(s['name'], width, lv, lambda i: '<%s as Subject>::build(&v[%s..%s + %d])' % (s['name'], i, i, n), lambda x: '%s.extract(o);' % x,
                  tags=['nested', 'depth%d' % (s['depth'] + 1)] + (['nested_partial'] if width % 8 else []) + (['nested_wide'] if width > 64 else []))

    def array(self, ft, n):
        lv = []
        for k in range(n):
            lv += [l.moved('[%d]' % k, k * ft.width, l.lsb) for l in ft.leaves]
        m = len(ft.leaves)
        return FT('[%s; %d]' % (ft.ty, n), ft.width * n, lv,
                  lambda i: 'core::array::from_fn(|k| { let i = %s + k * %d; %s })' % (i, m, ft.build('i')),
                  lambda x: 'for e in %s.iter() { %s }' % (x, ft.extract('(*e)') if not ft.extract('e').startswith('e.') and not 'nc_' in ft.extract('e') else ft.extract('e')),
                  auto=ft.auto * n if ft.auto else None, intlike=ft.intlike, enum=ft.enum,
                  tags=['array', 'array_of_' + (ft.tags[0] if ft.tags else '?')] + (['array_long'] if n > 32 else []) + list(ft.tags), array=n, elem=ft)

    # ---------------------------------------------------------------- notation
    def num(self, n):
        r = self.r
        s = '%d' % n
        if r.random() < .12:
            s = r.choice(['0x%x', '0x%X', '0X%x', '0x0%x']) % n
        if r.random() < .08:
            s = ' ' + s
        if r.random() < .08:
            s = s + ' '
        return s

    def range_text(self, a, b, lsb0, excl_ok=True):
        """inclusive numbers a <= b (already in the structure's numbering)"""
        r = self.r
        forms = ['%s:%s', '%s..=%s'] * 2
        x, y = a, b
        if excl_ok:
            forms.append('EX')
        f = r.choice(forms)
        if f == 'EX':
            return '%s..%s' % (self.num(a), self.num(b + 1))
        if r.random() < (.5 if lsb0 else .1):
            x, y = b, a
        return f % (self.num(x), self.num(y))

    def struct(self, fields, mode='msb0', size_bytes=None, endian=None, shuffle=False, gap=0.0, first_gap=0, forms='all', name=None, depth=0,
               tail=0, positions=None, field_endian=.35, tags=(), nolsb=False, notate=None):
        """fields: list of FT. Lays them out in order with gaps, writes the declaration.
        mode: msb0 | auto | lsb0. positions: explicit list of starts."""
        r = self.r
        self.n += 1
        name = name or '%sSt%d' % (self.prefix, self.n)
        # 1. layout, msb0
        pos, at = [], first_gap if mode != 'auto' else 0
        for i, f in enumerate(fields):
            if positions:
                at = positions[i]
            elif i and mode != 'auto' and r.random() < gap:
                at += r.choice([1, 2, 3, 5, 7, 8, 9, 13, 16, 33])
            pos.append(at)
            at += f.width
        used = max((p + f.width for p, f in zip(pos, fields)), default=0)
        if mode == 'lsb0' or size_bytes == 'yes' or (size_bytes is None and r.random() < .3):
            size_bytes = (used + 7) // 8 + tail
        elif size_bytes in ('no', None):
            size_bytes = None
        if mode == 'auto' and used % 8 and size_bytes is None:
            size_bytes = (used + 7) // 8
        nbytes = size_bytes if size_bytes is not None else (used + 7) // 8
        nbits = nbytes * 8 if size_bytes is not None else used
        order = list(range(len(fields)))
        if shuffle and mode != 'auto':
            r.shuffle(order)
        # 2. endianness: None default means every wide int field declares its own
        default = {'none': None}.get(endian, endian) if endian is not None else r.choice(['msb', 'lsb', None])
        names, used_names = {}, set()
        for i in order:
            while True:
                if self.nasty and r.random() < .3:
                    nm = r.choice(NASTY)
                    if not self.raw_idents and nm.startswith('r#'):
                        continue
                    if used_names and r.random() < .3:
                        b = r.choice(sorted(used_names))
                        if not b.startswith('r#'):
                            nm = b + '_%d' % r.randrange(3)
                elif fields[i].tags[:1] == ('reserved',) and r.random() < .7:
                    nm = '_reserved%d' % i
                else:
                    nm = r.choice(WORDS) + (str(r.randrange(30)) if r.random() < .6 else '')
                if nm not in used_names:
                    break
            used_names.add(nm)
            names[i] = nm
        leaves, rows, lines, tagset = [], [], [], set(tags)
        tagset.add('mode_' + mode)
        prev_end = None
        struct_attrs = []
        if mode != 'auto':
            struct_attrs.append('bit_numbering="%s"' % r.choice([mode, mode, mode.upper(), mode.capitalize()]))
        if size_bytes is not None:
            struct_attrs.append('size_bytes="%s"' % self.num(size_bytes).strip())
        spell = lambda e: r.choice({'msb': ['msb', 'msb', 'be', 'MSB', 'BE'], 'lsb': ['lsb', 'lsb', 'le', 'LSB', 'LE']}[e])
        if default:
            struct_attrs.append('endian="%s"' % spell(default))
        r.shuffle(struct_attrs)
        off = 0
        build, extract, dbg, allrows = [], [], [], []
        for idx, i in enumerate(order):
            f, p = fields[i], pos[i]
            w = f.width
            attrs = []
            # endianness
            fe = None
            if f.intlike and f.ew > 8:
                fe = None if default and r.random() > field_endian else r.choice(['msb', 'lsb'])
            elif f.intlike and r.random() < .1:
                fe = r.choice(['msb', 'lsb'])
            if fe:
                attrs.append('endian="%s"' % spell(fe))
            lsb = ((fe or default) == 'lsb') if f.intlike and f.ew > 8 else False
            if f.intlike and f.ew > 8:
                tagset.add('lsb' if lsb else 'msb')
                if lsb and f.ew % 8:
                    tagset.add('lsb_partial')
            if f.enum:
                attrs.append('ty="enum"')
            # width attribute
            size_attr = None
            if f.array and f.array >= 1 and f.array != 1:
                size_attr = ('element_size_bits="%s"' % self.num(f.ew)) if f.ew % 8 or r.random() < .5 else 'element_size_bytes="%s"' % self.num(f.ew // 8)
            elif r.random() < .15:
                size_attr = ('element_size_bits="%s"' % self.num(w)) if w % 8 or r.random() < .5 else 'element_size_bytes="%s"' % self.num(w // 8)
            else:
                size_attr = ('size_bits="%s"' % self.num(w)) if w % 8 or r.random() < .5 else 'size_bytes="%s"' % self.num(w // 8)
            need = f.auto != w
            # position
            can_next = (mode == 'auto') or (mode == 'msb0' and (prev_end == p if idx else (p == 0 and (nbits % 8 == 0 or size_bytes is not None))))
            can_start = mode == 'msb0'
            choices = []
            if mode == 'auto':
                choices = ['next']
            else:
                choices = ['range'] * 3 + (['start'] if can_start else []) + (['next'] * 2 if can_next else [])
            c = r.choice(choices)
            if notate:
                c = 'given'
            tagset.add('pos_' + c)
            if c == 'given':
                text, sized = notate[i]
                attrs.append(text)
                if sized and (need or r.random() < .15):
                    attrs.append(size_attr)
            elif c == 'range':
                a, b = (p, p + w - 1) if mode == 'msb0' else (nbytes * 8 - 1 - (p + w - 1), nbytes * 8 - 1 - p)
                if a % 8 == 0 and w % 8 == 0 and r.random() < .35:
                    if w == 8 and r.random() < .5:
                        attrs.append('bytes="%s"' % self.num(a // 8))
                        tagset.add('n_byte1')
                    else:
                        # exclusive byte ranges are a known finding and never generated
                        attrs.append('bytes="%s"' % self.range_text(a // 8, b // 8, mode == 'lsb0', excl_ok=False))
                        tagset.add('n_bytes')
                elif w == 1 and r.random() < .8:
                    attrs.append('bits="%s"' % self.num(a))
                    tagset.add('n_bit1')
                else:
                    attrs.append('bits="%s"' % self.range_text(a, b, mode == 'lsb0'))
                    tagset.add('n_bits')
                if r.random() < .12 and not (f.array and f.array > 1 and size_attr.startswith('size_')):
                    attrs.append(size_attr)
            else:
                if c == 'start':
                    if p % 8 == 0 and r.random() < .3:
                        attrs.append('bytes="%s%s"' % (self.num(p // 8), r.choice(['..', ':'])))
                    else:
                        attrs.append('bits="%s%s"' % (self.num(p), r.choice(['..', ':'])))
                if need or r.random() < .15:
                    attrs.append(size_attr)
            prev_end = p + w
            r.shuffle(attrs)
            at = ''
            if attrs and r.random() < .2:
                at = ''.join('#[packed_field(%s)] ' % a for a in attrs)
            elif attrs:
                at = '#[packed_field(%s)] ' % ', '.join(attrs)
            if r.random() < .1:
                at = '/// Some field, bits="0" endian="lsb"\n    ' + at
            elif r.random() < .06:
                at = at + '#[allow(dead_code)] '
            lines.append('    %s%s%s: %s,' % (at, r.choice(['pub ', 'pub ', '', 'pub(crate) ']), names[i], f.ty))
            nm = names[i]
            for l in f.leaves:
                leaves.append(l.moved(nm, p, lsb))
            build.append('%s: %s' % (nm, f.build(str(off))))
            extract.append(f.extract('self.' + nm))
            if f.array:
                for k in range(f.array):
                    rows.append(('%s[%d]' % (nm, k), p + k * f.ew, p + (k + 1) * f.ew - 1, f.elem.ty))
                    dbg.append('format!("{:?}", self.%s[%d])' % (nm, k))
            else:
                rows.append((nm, p, p + w - 1, f.ty))
                dbg.append('format!("{:?}", self.%s)' % nm)
            off += len(f.leaves)
            tagset.update(t for t in f.tags if not t.startswith('w'))
        attr = ''
        if struct_attrs:
            if r.random() < .2:
                attr = ''.join('#[packed_struct(%s)]\n' % a for a in struct_attrs)
            else:
                attr = '#[packed_struct(%s)]\n' % ', '.join(struct_attrs)
        decl = '%s#[derive(PackedStruct, Clone, Debug, PartialEq)]\n%spub struct %s {\n%s\n}' % ('', attr, name, '\n'.join(lines))
        for l in leaves:
            if l.lsb is None:
                l.lsb = False
        if nbytes > 32:
            tagset.add('struct_wide')
        if nbits % 8:
            tagset.add('struct_partial')
        s = dict(name=name, decl=decl, bytes=nbytes, bits=nbits, leaves=leaves, rows=rows, build=build, extract=extract, dbg=dbg, depth=depth, tags=sorted(tagset),
                 has_default=default, fields=[(names[i], fields[i]) for i in order], mode=mode)
        self.structs.append(s)
        return s

    def notations(self, share, of):
        """every spelling of a position, at a few places each: one field per structure is spelled
        the way in question, a flag before and after it sees whether it stays within its bits"""
        r = self.r
        nums = ['%d', '0x%x', '0X%X', ' %d', '%d ', '0x0%x']
        todo = []
        for mode in ('msb0', 'lsb0'):
            for n in nums:
                todo += [(mode, 'bits', f, n) for f in ('1', 'a:b', 'a..=b', 'a..b', 'b:a', 'b..=a')]
                todo += [(mode, 'bytes', f, n) for f in ('1', 'a:b', 'a..=b', 'b:a', 'b..=a')]
                if mode == 'msb0':
                    todo += [(mode, u, f, n) for u in ('bits', 'bytes') for f in ('a:', 'a..')]
        random.Random('notations%s' % share).shuffle(todo)
        for mode, unit, form, n in todo[share::of]:
            u = 8 if unit == 'bytes' else 1
            w = (1 if form == '1' else r.randint(2, 7)) * 8 if u == 8 else (1 if form == '1' else r.randint(2, 64))
            # around the places where one and two digits, and 8 and 16 bits, meet
            at = r.choice([1, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33]) if u == 8 else r.choice([1, 2, 5, 7, 8, 9, 10, 11, 15, 16, 17, 63, 64, 99, 100, 255, 256, 257])
            f = self.boolean() if w == 1 else self.scalar(['native', 'native', 'enum', 'catchall'], maxw=64) if r.random() < .3 and u == 1 and form != '1' else \
                self.native(w, r.random() < .5) if w <= 64 and r.random() < .7 else self.blk(w // 8) if w % 8 == 0 else self.sized(w, r.random() < .5)
            w = f.width
            end = at * u + w + 1
            nbytes = (end + 7) // 8 + r.randint(0, 2)
            if mode == 'lsb0':
                pos = [nbytes * 8 - end, nbytes * 8 - at * u - w, nbytes * 8 - at * u]
                if pos[0] < 0:
                    continue
            else:
                pos = [at * u - 1, at * u, at * u + w]
            t = lambda v: n % v
            plain = lambda p: ('bits="%d"' % (p if mode == 'msb0' else nbytes * 8 - 1 - p), False)
            last = at + w // u - 1
            text = {'1': t(at), 'a:': t(at) + ':', 'a..': t(at) + '..', 'a:b': t(at) + ':' + t(last), 'a..=b': t(at) + '..=' + t(last), 'a..b': t(at) + '..' + t(last + 1),
                    'b:a': t(last) + ':' + t(at), 'b..=a': t(last) + '..=' + t(at)}[form]
            self.struct([self.boolean(), f, self.boolean()], mode=mode, size_bytes='yes', positions=pos, shuffle=True, tail=nbytes - (pos[2] + 8) // 8,
                        notate=[plain(pos[0]), ('%s="%s"' % (unit, text), form in ('a:', 'a..')), plain(pos[2])])

    # ---------------------------------------------------------------- random fields
    def scalar(self, kinds=None, maxw=64):
        r = self.r
        k = r.choice(kinds or ['native', 'native', 'sized', 'sized', 'sized', 'bool', 'bool', 'enum', 'catchall', 'rz', 'ro', 'raw', 'widebool'])
        w = r.choice([r.randint(1, 8), r.randint(1, 8), r.randint(9, 16), r.randint(9, 24), r.randint(17, 32), r.randint(33, 64), r.choice([8, 16, 24, 32, 40, 48, 56, 64])])
        w = min(w, maxw)
        s = r.random() < .5
        if k == 'native':
            return self.native(w, s)
        if k == 'sized':
            return self.sized(w, s)
        if k == 'bool':
            return self.boolean()
        if k == 'widebool':
            return self.boolean(r.randint(2, 8))
        if k == 'enum':
            return self.en(min(w, r.choice([2, 3, 4, 8, 16, 64])), s)
        if k == 'catchall':
            return self.en(min(w, r.choice([2, 3, 4, 8, 16, 64])), s, True)
        if k in ('rz', 'ro'):
            w = r.choice([1, 2, 3, 5, 7, 8, 9, 12, 16, 17, 24, 31, 40, 63, 64, 65, 100, 128, 200, 255]) if r.random() < .7 else r.randint(1, 255)
            return self.reserved(min(w, maxw if maxw < 64 else 255), k == 'ro')
        if k == 'fus':
            return self.fus()
        if k == 'raw':
            return self.raw(r.choice([b for b in self.RAWS if b <= max(maxw, 3)]))
        raise ValueError(k)

    def random_field(self, inner=(), kinds=None):
        r = self.r
        x = r.random()
        if inner and x < .25:
            f = self.nested(r.choice(inner))
            if r.random() < .35:
                f = self.array(f, r.choice([1, 2, 3, 4, 7]))
            return f
        if x < .4:
            f = self.scalar(kinds)
            if f.width > 128:
                return f
            return self.array(f, r.choice([1, 2, 2, 3, 4, 5, 8, 9, 16, 17]))
        return self.scalar(kinds)

    def random_struct(self, inner=(), kinds=None, maxf=8, mode=None, depth=0, **kw):
        r = self.r
        mode = mode or r.choice(['msb0', 'msb0', 'msb0', 'auto', 'lsb0'])
        fs = [self.random_field(inner, kinds) for _ in range(r.randint(1, maxf))]
        kw.setdefault('shuffle', r.random() < .3)
        kw.setdefault('gap', r.choice([0, 0, .3, .6]))
        kw.setdefault('first_gap', r.choice([0, 0, 0, 1, 3, 4, 6, 8, 11]))
        kw.setdefault('tail', r.choice([0, 0, 0, 1, 3]))
        d = max([0] + [int(t[5:]) for f in fs for t in f.tags if t.startswith('depth')])
        return self.struct(fs, mode=mode, depth=d, **kw)

    def inner_struct(self, kinds=None, maxf=4, partial=None):
        """A structure that can be nested: its unused bits are at the front."""
        r = self.r
        fs = [self.scalar(kinds) for _ in range(r.randint(1, maxf))]
        tot = sum(f.width for f in fs)
        pad = -tot % 8
        if partial is False and pad:
            fs.append(self.native(pad, False))
            pad = 0
        return self.struct(fs, mode=r.choice(['msb0', 'lsb0']), first_gap=pad, gap=0, tail=0, depth=0)

    def grid(self, cells, per=8, mode='msb0'):
        """cells: (w, offset 0..7, lsb, signed, form). Every cell becomes a field at that bit offset and byte order."""
        r = self.r
        cells = list(cells)
        r.shuffle(cells)
        for c in range(0, len(cells), per):
            chunk = cells[c:c + per]
            fs, pos, at = [], [], 0
            order = {}
            for (w, o, lsb, sg, form) in chunk:
                while at % 8 != o:
                    at += 1
                if form == 'native':
                    f = self.native(w, sg)
                elif form == 'sized':
                    f = self.sized(w, sg)
                elif form == 'enum':
                    f = self.en(w, sg)
                else:
                    f = self.en(w, sg, True)
                # byte order by field attribute through a per-structure default of None would hide the default, so alternate
                f.want = 'lsb' if lsb else 'msb'
                fs.append(f)
                pos.append(at)
                at += w
            self.struct_grid(fs, pos, mode)

    def struct_grid(self, fs, pos, mode):
        r = self.r
        # force the byte order: the random choice in struct() is overridden through a wrapper
        return self.struct_forced(fs, pos, mode)

    def struct_forced(self, fs, pos, mode):
        r = self.r
        self.n += 1
        name = '%sSt%d' % (self.prefix, self.n)
        used = max(p + f.width for p, f in zip(pos, fs))
        nbytes = (used + 7) // 8
        default = r.choice(['msb', 'lsb', None])
        size = mode == 'lsb0' or r.random() < .3
        lines, leaves, rows, build, extract, dbg = [], [], [], [], [], []
        off = 0
        tags = {'grid', 'mode_' + mode}
        for i, (f, p) in enumerate(zip(fs, pos)):
            nm = 'f%d' % i
            at = []
            if f.ew > 8 and f.want != default:
                at.append('endian="%s"' % f.want)
            if f.enum:
                at.append('ty="enum"')
            a, b = (p, p + f.width - 1) if mode == 'msb0' else (nbytes * 8 - p - f.width, nbytes * 8 - 1 - p)
            at.append('bits="%s"' % self.range_text(a, b, mode == 'lsb0'))
            lsb = f.want == 'lsb' and f.ew > 8
            if lsb:
                tags.add('lsb')
                if f.ew % 8:
                    tags.add('lsb_partial')
            lines.append('    #[packed_field(%s)] %s: %s,' % (', '.join(at), nm, f.ty))
            for l in f.leaves:
                leaves.append(l.moved(nm, p, lsb))
            build.append('%s: %s' % (nm, f.build(str(off))))
            extract.append(f.extract('self.' + nm))
            rows.append((nm, p, p + f.width - 1, f.ty))
            dbg.append('format!("{:?}", self.%s)' % nm)
            off += len(f.leaves)
        sa = ['bit_numbering="%s"' % mode]
        if size:
            sa.append('size_bytes="%d"' % nbytes)
        if default:
            sa.append('endian="%s"' % default)
        decl = '#[derive(PackedStruct, Clone, Debug, PartialEq)]\n#[packed_struct(%s)]\npub struct %s {\n%s\n}' % (', '.join(sa), name, '\n'.join(lines))
        s = dict(name=name, decl=decl, bytes=nbytes, bits=nbytes * 8 if size else used, leaves=leaves, rows=rows, build=build, extract=extract, dbg=dbg, depth=0,
                 tags=sorted(tags), fields=[('f%d' % i, f) for i, f in enumerate(fs)], mode=mode, has_default=default)
        self.structs.append(s)
        return s


# -------------------------------------------------------------------- Rust text
def rs(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'


def subject_impl(s, show=False):
    lv = []
    for l in s['leaves']:
        lv.append('Leaf { path: %s, kind: Kind::%s, start: %d, width: %d, lsb: %s, signed: %s, valid: &[%s], tbits: %d }' % (
            rs(l.path), l.kind, l.rel, l.width, 'true' if l.lsb else 'false', 'true' if l.signed else 'false', ', '.join(map(str, l.valid)), l.tb))
    rows = ['Row { name: %s, start: %d, end: %d, ty: %s }' % (rs(n), a, b, rs(t)) for n, a, b, t in s['rows']]
    out = ['impl Subject for %s {' % s['name'],
           '    fn desc() -> &\'static Desc { static D: Desc = Desc { name: %s, decl: %s, bytes: %d, bits: %d, leaves: &[%s], rows: &[%s], tags: &[%s] }; &D }' % (
               rs(s['name']), rs(s['decl']), s['bytes'], s['bits'], ', '.join(lv), ', '.join(rows), ', '.join(rs(t) for t in s['tags'])),
           '    fn build(v: &[i128]) -> Self { let _ = v; %s { %s } }' % (s['name'], ', '.join(s['build'])),
           '    fn extract(&self, o: &mut Vec<i128>) { %s }' % ' '.join(s['extract'])]
    if show:
        out.append('    fn row_debug(&self) -> Vec<String> { vec![%s] }' % ', '.join(s['dbg']))
        out.append('    fn show(&self, sw: Option<u8>) -> String { match sw { None => format!("{}", self), Some(k) => { let mut d = self.packed_struct_display_formatter(); '
                   'd.header = k & 1 != 0; d.raw_decimal = k & 2 != 0; d.raw_hex = k & 4 != 0; d.raw_binary = k & 8 != 0; d.fields = k & 16 != 0; format!("{}", d) } } }')
    out.append('}')
    return '\n'.join(out)


HEADER = '''#![allow(warnings)]
use rt::packed_struct::prelude::*;
use rt::packed_struct::types::bits::Bits;
use rt::packed_struct;
use rt::raws::*;
use rt::{Subject, Desc, Leaf, Row, Kind, Ops, ops};
'''


def program(gen, show=False, subjects=None, main='rt::mon::run(ctx, &subjects())', extra='', full_enums=False):
    """Full source of one monitored program."""
    subs = subjects if subjects is not None else gen.structs
    parts = [HEADER]
    for e in gen.enums:
        parts.append(e.decl + '\n' + e.helpers(full_enums))
    for s in gen.structs:
        parts.append(s['decl'] + '\n' + subject_impl(s, show))
    parts.append('fn subjects() -> Vec<Ops> { vec![%s] }' % ', '.join('ops::<%s>()' % s['name'] for s in subs))
    if full_enums:
        parts.append('fn enums() -> Vec<rt::enums::EnumOps> { vec![%s] }' % ', '.join('rt::enums::enum_ops::<%s>()' % e.name for e in gen.enums))
    parts.append(extra)
    parts.append('fn main() { rt::run_main(|ctx| { %s; }) }' % main)
    return '\n\n'.join(parts)
