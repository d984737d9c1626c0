"""Reference layouts (committed tables in /verif/spec) and the Rust text generated from them.

`mk`  : Rust expression building an arbitrary value (every byte comes from vf_any)
`enc` : Rust statements writing the reference encoding of a value into `o: Out`
`dec` : Rust boolean expression: value `v` is what the reference decoder reads from `b` at `p`
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PDUS = json.load(open(ROOT + '/spec/pdus.json'))
RECS = json.load(open(ROOT + '/spec/records.json'))
ENUMS = json.load(open(ROOT + '/spec/enums.json'))
W = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'f32': 4, 'f64': 8}
FIELD_RECS = set(RECS) - {'AcousticBeamData', 'AcousticBeamFundamentalParameter', 'AcousticEmitterSystemData',
                          'AngularVelocity', 'EmitterSystem', 'Vector3Double', 'VelocityVector'}


class Shape:
    """Concrete sizes of the variable parts of a value"""
    def __init__(self, n=0, nbytes=0, bits=0, strlen=5, count=1, lists=None, grid=0, n2=None, het=False):
        self.n, self.nbytes, self.bits, self.strlen, self.count, self.grid = n, nbytes, bits, strlen, count, grid
        self.lists = lists
        self.n2 = n2            # number of elements of lists within list elements
        self.het = het          # elements of a list differ in size

    def sub(self, i):
        """shape of element i of a list"""
        if not self.het and self.n2 is None:
            return self
        n = self.n if self.n2 is None else self.n2
        if not self.het:
            return Shape(n, self.nbytes, self.bits, self.strlen, self.count, grid=self.grid)
        return Shape(max(0, n - (i & 1)), self.nbytes + (0, 5, 2, 13)[i % 4], self.bits + (0, 70, 3, 256)[i % 4], self.strlen, self.count,
                     grid=self.grid, n2=self.n2 and self.n2 - 1, het=True)

    def __str__(self):
        return 'nested lists %d%s, byte strings %d, datum %d bits, marking %d, lists %s, grid type %d%s' % (
            self.n, '' if self.n2 is None else '/%d' % self.n2, self.nbytes, self.bits, self.strlen, self.lists, self.grid,
            ', elements of different sizes' if self.het else '')


def rpath(r):
    return 'open_dis_rust::common::data_types::%s::%s' % (os.path.basename(RECS[r]['file'])[:-3], r)


def epath(e):
    return 'en::' + e


def is_fixed(sp):
    k = sp.split(':')[0]
    if k in W or k in ('enum', 'flags', 'arr', 'pad'):
        return True
    if k == 'rec':
        return all(is_fixed(f[1]) for f in RECS[sp[4:]]['fields'])
    return False


def has_enum(sp):
    k = sp.split(':')
    if k[0] == 'rec':
        return any(has_enum(f[1]) for f in RECS[k[1]]['fields'])
    if k[0] in ('vec', 'opt'):
        return has_enum(sp[4:])
    if k[0] == 'list':
        return has_enum(':'.join(k[2:]))
    return k[0] in ('enum', 'gridaxis', 'griddata')


def fsize(sp):
    """size in bytes of a fixed spec"""
    k = sp.split(':')
    if k[0] in W:
        return W[k[0]]
    if k[0] == 'enum':
        return int(k[2]) if len(k) > 2 else ENUMS[k[1]]['width']
    if k[0] == 'flags':
        return W[k[2]]
    if k[0] == 'arr':
        return W[k[1]] * int(k[2])
    if k[0] == 'pad':
        return int(k[1])
    if k[0] == 'rec':
        return sum(fsize(f[1]) for f in RECS[k[1]]['fields'])
    raise KeyError(sp)


def minsize(sp):
    """smallest encoding (empty lists)"""
    k = sp.split(':')
    if k[0] == 'rec':
        return sum(minsize(f[1]) for f in RECS[k[1]]['fields'])
    if k[0] in ('vec', 'opt', 'list', 'bytes', 'bits', 'raw'):
        return 0
    if k[0] == 'str':
        return int(k[1])
    return fsize(sp)


def rtype(sp):
    k = sp.split(':')
    if k[0] in W:
        return k[0]
    if k[0] == 'enum':
        return epath(k[1])
    if k[0] == 'flags':
        return 'en::' + k[1]
    if k[0] == 'arr':
        return '[%s; %s]' % (k[1], k[2])
    if k[0] == 'rec':
        return rpath(k[1])
    if k[0] == 'vec':
        return 'Vec<%s>' % rtype(sp[4:])
    if k[0] == 'opt':
        return 'Option<%s>' % rtype(sp[4:])
    raise KeyError(sp)


def enc_size(sp, sh):
    """encoded size for the shape"""
    k = sp.split(':')
    if is_fixed(sp):
        return fsize(sp)
    if k[0] == 'rec':
        return sum(enc_size(f[1], sh) for f in RECS[k[1]]['fields'])
    if k[0] == 'str':
        return int(k[1])
    if k[0] == 'bytes':
        return sh.nbytes * (sh.count if '*' in k[1] else 1)
    if k[0] == 'bits':
        return 8 * ((sh.bits + 63) // 64)
    if k[0] == 'list':
        return sum(enc_size(':'.join(k[2:]), sh.sub(i)) for i in range(sh.n))
    if k[0] == 'raw':
        return sh.nbytes
    if k[0] == 'opt':
        return enc_size(sp[4:], sh)
    if k[0] == 'gridaxis':
        return 4 if sh.grid == 0 else 20 + 2 * sh.n + sh.nbytes
    if k[0] == 'griddata':
        return [2 + sh.n + sh.nbytes, 10 + 2 * sh.n + sh.nbytes, 4 + 4 * sh.n][sh.grid]
    raise KeyError(sp)


def caps(sp, d=None):
    """largest numbers the count fields of a record can hold: {'n': [per depth], 'nbytes', 'bits', 'count'}"""
    d = {'n': [], 'nbytes': 1 << 31, 'bits': 1 << 31, 'count': 1 << 31} if d is None else d
    k = sp.split(':')
    if k[0] in ('gridaxis', 'griddata'):
        d['n'].append(65535)
    if k[0] == 'vec':
        caps(sp[4:], d)
    if k[0] == 'opt':
        caps(sp[4:], d)
    if k[0] == 'rec':
        fs = RECS[k[1]]['fields']
        w = {f: 256 ** fsize(s) - 1 for f, s in fs if is_fixed(s)}
        for f, s in fs:
            q = s.split(':')
            if q[0] == 'list':
                d['n'].append(w[q[1]])
                caps(':'.join(q[2:]), d)
            elif q[0] == 'bytes':
                if '*' in q[1]:
                    a, b = q[1].split('*')
                    d['nbytes'] = min(d['nbytes'], w[a])
                    d['count'] = min(d['count'], w[b])
                else:
                    d['nbytes'] = min(d['nbytes'], w[q[1]])
            elif q[0] == 'bits':
                d['bits'] = min(d['bits'], w[q[1]])
            else:
                caps(s, d)
    return d


class Gen:
    """Emits helper functions on demand and keeps the assertion numbering"""
    def __init__(self):
        self.helpers = {}
        self.harness = []       # (name, body, meta)
        self.ids = {}
        self.next_id = 1
        self.cur = None

    # ------------------------------------------------------------ ids
    def id(self, label):
        i = self.next_id
        self.next_id += 1
        self.ids[i] = {'harness': self.cur, 'label': label}
        return i

    # ------------------------------------------------------------ enums
    def codes(self, e):
        """fn known_E(u32)->bool"""
        n = 'known_' + e
        if n not in self.helpers:
            cs = sorted(v for _, v in ENUMS[e]['variants'])
            rs = []
            for c in cs:
                if rs and rs[-1][1] == c - 1:
                    rs[-1][1] = c
                else:
                    rs.append([c, c])
            pat = ' | '.join('%d' % a if a == b else '%d..=%d' % (a, b) for a, b in rs)
            d = dict(ENUMS[e]['variants'])[ENUMS[e]['default']]
            self.helpers[n] = ('fn known_%s(x: u32) -> bool { matches!(x, %s) }\n'
                               'fn exp_%s(x: u32) -> u32 { if known_%s(x) { x } else { %d } }\n' % (e, pat, e, e, d))
        return n

    # ------------------------------------------------------------ values
    def mk(self, sp, sh, free=False):
        k = sp.split(':')
        if k[0] in W:
            return 'r%s()' % k[0]
        if k[0] == 'enum':
            return '%s::deserialize(&mut &any::<%d>()[..])' % (epath(k[1]), ENUMS[k[1]]['width'])
        if k[0] == 'flags':
            return '<%s as FieldDeserialize>::deserialize_field(&mut &any::<%d>()[..])' % (epath(k[1]), fsize(sp))
        if k[0] == 'arr':
            if k[1] == 'u8':
                return 'any::<%s>()' % k[2]
            return 'any::<%s>().map(|x| x as %s)' % (k[2], k[1])
        if k[0] == 'vec':
            raise KeyError(sp)
        if k[0] == 'str':
            return 'rascii(%d)' % sh.strlen
        if k[0] == 'rec':
            return self.mk_rec(k[1], sh, free)
        if k[0] in ('bytes',):
            return 'rbytes(%d)' % enc_size(sp, sh)
        if k[0] == 'bits':
            return 'rbytes(%d)' % ((sh.bits + 7) // 8)
        if k[0] == 'list':
            return self.mk_vec(':'.join(k[2:]), sh.n, sh, free)
        if k[0] == 'gridaxis':
            m = 'open_dis_rust::common::data_types::grid_axis_descriptor::GridAxisType::'
            if sh.grid == 0:
                return m + 'FixedSpacing { number_of_points_on_x_axis: ru16(), initial_index: ru16() }'
            return m + ('VariableSpacing { number_of_points_on_x_axis: %s, initial_index: ru16(), coordinate_scale_x: rf64(), '
                        'coordinate_offset_x: rf64(), x_values: %s, padding: rbytes(%d) }'
                        % ('ru16()' if free else '%d' % sh.n, self.mk_vec('u16', sh.n, sh), sh.nbytes))
        if k[0] == 'griddata':
            m = 'open_dis_rust::common::data_types::grid_data_record::DataRepresentationType::'
            c = 'ru16()' if free else '%d' % sh.n
            if sh.grid == 0:
                return m + 'Type0 { number_of_octets: %s, data_values: rbytes(%d), padding: rbytes(%d) }' % (c, sh.n, sh.nbytes)
            if sh.grid == 1:
                return m + ('Type1 { field_scale: rf32(), field_offset: rf32(), number_of_values: %s, data_values: %s, padding: rbytes(%d) }'
                            % (c, self.mk_vec('u16', sh.n, sh), sh.nbytes))
            return m + 'Type2 { number_of_values: %s, padding: ru16(), data_values: %s }' % (c, self.mk_vec('f32', sh.n, sh))
        raise KeyError(sp)

    def mk_vec(self, el, n, sh, free=False):
        sh = sh or Shape()
        if n == 0:
            return 'Vec::new()'
        if n > 8:
            sh = sh.sub(0)
        if n > 8 and has_enum(el):
            return ('{ let w = %s; let mut v = Vec::with_capacity(%d); let mut i = 0; while i < %d { v.push(w[i %% 5].clone()); i += 1; } forget(w); v }'
                    % (self.mk_vec(el, 5, sh, free), n, n))
        if n > 8 and not el.startswith('opt:'):
            return '{ let mut v = Vec::with_capacity(%d); let mut i = 0; while i < %d { v.push(%s); i += 1; } v }' % (n, n, self.mk(el, sh, free))
        if n > 8:
            return '{ let mut v = Vec::with_capacity(%d); let mut i = 0; while i < %d { v.push(if i & 1 == 0 { Some(%s) } else { None }); i += 1; } v }' % (
                n, n, self.mk_vec(el[8:], 1, sh, free) if el[4:].startswith('vec:') else self.mk(el[4:], sh, free))
        if el.startswith('opt:'):
            # alternate between Some and None
            xs = ['Some(%s)' % (self.mk_vec(el[8:], 1, sh.sub(i), free) if el[4:].startswith('vec:') else self.mk(el[4:], sh.sub(i), free))
                  if i % 2 == 0 else 'None' for i in range(n)]
        else:
            xs = [self.mk(el, sh.sub(i), free) for i in range(n)]
        return '{ let mut v = Vec::with_capacity(%d); %s v }' % (n, ' '.join('v.push(%s);' % x for x in xs))

    def mk_rec(self, r, sh, free=False):
        fs = RECS[r]['fields']
        if is_fixed('rec:' + r):
            n = 'mk_' + r
            if n not in self.helpers:
                sz = fsize('rec:' + r)
                z = ''
                off = 0
                for f, sp in fs:
                    if sp.startswith('pad:'):
                        for i in range(fsize(sp)):
                            z += 'b[%d] = 0; ' % (off + i)
                    off += fsize(sp)
                call = ('<%s as FieldDeserialize>::deserialize_field' % rpath(r)) if r in FIELD_RECS else rpath(r) + '::deserialize'
                self.helpers[n] = 'fn %s() -> %s { let mut b = any::<%d>(); %s%s(&mut &b[..]) }\n' % (n, rpath(r), sz, z, call)
            return n + '()'
        if r in ('AntennaPattern', 'ModulationParameters'):
            if sh.nbytes == 0:
                return rpath(r) + '::new()'
            return '%s::deserialize(&mut &any::<%d>()[..], %d).unwrap()' % (rpath(r), sh.nbytes, sh.nbytes)
        counts = self.counts(r, sh)
        parts = []
        for f, sp in fs:
            if f in counts and not free:
                parts.append('%s: %d' % (f, counts[f]))
            elif f in counts and r == 'VariableDatumRecord':
                parts.append('%s: %d' % (f, counts[f]))
            elif r == 'GridAxisDescriptor' and f == 'axis_type':
                parts.append('axis_type: en::GridAxisDescriptorAxisType::%s' % ('RegularAxis' if sh.grid == 0 else 'IrregularAxis'))
            elif r == 'GridDataRecord' and f == 'data_representation':
                parts.append('data_representation: en::GriddedDataDataRepresentation::Type%d' % sh.grid)
            else:
                parts.append('%s: %s' % (f, self.mk(sp, sh, free)))
        return '%s { %s }' % (rpath(r), ', '.join(parts))

    def counts(self, r, sh):
        c = {}
        for f, sp in RECS[r]['fields']:
            k = sp.split(':')
            if k[0] == 'list':
                c[k[1]] = sh.n
            elif k[0] == 'bytes':
                if '*' in k[1]:
                    a, b = k[1].split('*')
                    c[a] = sh.nbytes
                    c[b] = sh.count
                else:
                    c[k[1]] = sh.nbytes
            elif k[0] == 'bits':
                c[k[1]] = sh.bits
        return c

    # ------------------------------------------------------------ reference encoder
    def enc(self, sp, v, sh):
        """statements; v is a place expression of the type"""
        k = sp.split(':')
        if k[0] in W:
            x = '(%s).to_bits()' % v if k[0][0] == 'f' else '(%s)' % v
            return 'o.put((%s).to_be_bytes());' % x
        if k[0] == 'enum':
            w = fsize(sp)
            return 'o.put((%s as u32 as u%d).to_be_bytes());' % (v, 8 * w)
        if k[0] == 'flags':
            return 'o.put((%s.bits() as %s).to_be_bytes());' % (v, k[2])
        if k[0] == 'arr':
            return '{ let mut i = 0; while i < %s { o.p(%s[i] as u8); i += 1; } }' % (k[2], v)
        if k[0] == 'pad':
            return ' '.join(['o.p(0);'] * int(k[1]))
        if k[0] == 'str':
            return ('{ let s = %s.as_bytes(); let mut i = 0; while i < %s { o.p(if i < s.len() { s[i] } else { 0 }); i += 1; } }'
                    % (v, k[1]))
        if k[0] == 'bytes':
            return '{ let mut i = 0; while i < %s.len() { o.p(%s[i]); i += 1; } }' % (v, v)
        if k[0] == 'bits':
            return '{ let mut i = 0; while i < %s.len() || i %% 8 != 0 { o.p(if i < %s.len() { %s[i] } else { 0 }); i += 1; } }' % (v, v, v)
        if k[0] == 'list':
            return '{ let mut i = 0; while i < %s.len() { %s i += 1; } }' % (v, self.enc(':'.join(k[2:]), v + '[i]', sh))
        if k[0] == 'vec':
            return 'for e in %s.iter() { %s }' % (v, self.enc(sp[4:], '(*e)', sh))
        if k[0] == 'opt':
            return 'if let Some(e) = &%s { %s }' % (v, self.enc(sp[4:], '(*e)', sh))
        if k[0] == 'rec':
            return self.enc_rec(k[1], v, sh)
        if k[0] == 'gridaxis':
            m = 'open_dis_rust::common::data_types::grid_axis_descriptor::GridAxisType::'
            return ('match &%s { %sFixedSpacing { number_of_points_on_x_axis, initial_index } => { o.put(number_of_points_on_x_axis.to_be_bytes()); '
                    'o.put(initial_index.to_be_bytes()); } %sVariableSpacing { number_of_points_on_x_axis, initial_index, coordinate_scale_x, '
                    'coordinate_offset_x, x_values, padding } => { o.put(number_of_points_on_x_axis.to_be_bytes()); o.put(initial_index.to_be_bytes()); '
                    'o.put(coordinate_scale_x.to_bits().to_be_bytes()); o.put(coordinate_offset_x.to_bits().to_be_bytes()); '
                    'for e in x_values.iter() { o.put(e.to_be_bytes()); } for e in padding.iter() { o.p(*e); } } }' % (v, m, m))
        if k[0] == 'griddata':
            m = 'open_dis_rust::common::data_types::grid_data_record::DataRepresentationType::'
            return ('match &%s { %sType0 { number_of_octets, data_values, padding } => { o.put(number_of_octets.to_be_bytes()); '
                    'for e in data_values.iter() { o.p(*e); } for e in padding.iter() { o.p(*e); } } '
                    '%sType1 { field_scale, field_offset, number_of_values, data_values, padding } => { o.put(field_scale.to_bits().to_be_bytes()); '
                    'o.put(field_offset.to_bits().to_be_bytes()); o.put(number_of_values.to_be_bytes()); '
                    'for e in data_values.iter() { o.put(e.to_be_bytes()); } for e in padding.iter() { o.p(*e); } } '
                    '%sType2 { number_of_values, padding, data_values } => { o.put(number_of_values.to_be_bytes()); o.put(padding.to_be_bytes()); '
                    'for e in data_values.iter() { o.put(e.to_bits().to_be_bytes()); } } }' % (v, m, m, m))
        raise KeyError(sp)

    def enc_rec(self, r, v, sh):
        if r in ('AntennaPattern', 'ModulationParameters'):
            # contents are private: the bytes given when it was built are compared by the caller
            return '{ let mut t = BytesMut::with_capacity(512); (%s).serialize(&mut t); let mut i = 0; while i < t.len() { o.p(t[i]); i += 1; } forget(t); }' % v
        if is_fixed('rec:' + r):
            n = 'enc_' + r
            if n not in self.helpers:
                self.helpers[n] = None
                body = ' '.join(self.enc(sp, 'v.' + f, sh) for f, sp in RECS[r]['fields'])
                self.helpers[n] = 'fn %s(v: &%s, o: &mut Out) { %s }\n' % (n, rpath(r), body)
            return '%s(&%s, o);' % (n, v)
        body = ' '.join(self.enc(sp, 'w.' + f, sh) for f, sp in RECS[r]['fields'])
        return '{ let w: &%s = &%s; %s }' % (rpath(r), v, body)

    # ------------------------------------------------------------ reference decoder
    def dec(self, sp, v, sh):
        """boolean expression; reads b at p (p: &mut usize)"""
        k = sp.split(':')
        if k[0] in W:
            if k[0][0] == 'f':
                return '((%s).to_bits() == u%d::from_be_bytes(g(b, p)))' % (v, 8 * W[k[0]])
            return '((%s) == %s::from_be_bytes(g(b, p)))' % (v, k[0])
        if k[0] == 'enum':
            self.codes(k[1])
            return '((%s as u32) == exp_%s(u%d::from_be_bytes(g(b, p)) as u32))' % (v, k[1], 8 * fsize(sp))
        if k[0] == 'flags':
            return '((%s.bits()) == %s::from_be_bytes(g(b, p)))' % (v, k[2])
        if k[0] == 'arr':
            return '{ let mut ok = true; let mut i = 0; while i < %s { ok &= %s[i] == (b[*p] as %s); *p += 1; i += 1; } ok }' % (k[2], v, k[1])
        if k[0] == 'pad':
            return '{ *p += %s; true }' % k[1]
        if k[0] == 'str':
            return ('{ let s = %s.as_bytes(); let mut ok = s.len() <= %s; let mut i = 0; while i < %s { if i < s.len() { ok &= s[i] == b[*p + i] && s[i] != 0; } '
                    'else if i == s.len() { ok &= b[*p + i] == 0; } i += 1; } *p += %s; ok }' % (v, k[1], k[1], k[1]))
        if k[0] in ('bytes', 'bits'):
            n = enc_size(sp, sh) if k[0] == 'bytes' else (sh.bits + 7) // 8
            sk = 0 if k[0] == 'bytes' else enc_size(sp, sh) - n
            return ('{ let mut ok = %s.len() == %d; let mut i = 0; while i < %d { ok &= i < %s.len() && %s[i] == b[*p + i]; i += 1; } *p += %d; ok }'
                    % (v, n, n, v, v, n + sk))
        if k[0] == 'list' and sh.het and 0 < sh.n <= 8:
            return '(%s.len() == %d && { %s })' % (v, sh.n, ' & '.join('(%s)' % self.dec(':'.join(k[2:]), '%s[%d]' % (v, i), sh.sub(i)) for i in range(sh.n)))
        if k[0] == 'list':
            return ('{ let mut ok = %s.len() == %d; let mut i = 0; while i < %s.len() { ok &= %s; i += 1; } ok }'
                    % (v, sh.n, v, self.dec(':'.join(k[2:]), v + '[i]', sh.sub(0))))
        if k[0] == 'rec':
            return self.dec_rec(k[1], v, sh)
        if k[0] in ('gridaxis', 'griddata'):
            return self.dec_grid(k[0], v, sh)
        raise KeyError(sp)

    def dec_grid(self, k, v, sh):
        rd = lambda t, x: ('(*%s == %s::from_be_bytes(g(b, p)))' % (x, t)) if t[0] != 'f' else '(%s.to_bits() == u%s::from_be_bytes(g(b, p)))' % (x, t[1:])
        arr = lambda t, x, n: ('{ let mut ok = %s.len() == %d; let mut i = 0; while i < %s.len() { ok &= %s; i += 1; } ok }' % (
            x, n, x, ('(%s[i] == %s::from_be_bytes(g(b, p)))' % (x, t)) if t[0] != 'f' else '(%s[i].to_bits() == u%s::from_be_bytes(g(b, p)))' % (x, t[1:])))
        if k == 'gridaxis':
            m = 'open_dis_rust::common::data_types::grid_axis_descriptor::GridAxisType::'
            if sh.grid == 0:
                return 'match &%s { %sFixedSpacing { number_of_points_on_x_axis: a, initial_index: c } => %s & %s, _ => false }' % (v, m, rd('u16', 'a'), rd('u16', 'c'))
            return ('match &%s { %sVariableSpacing { number_of_points_on_x_axis: a, initial_index: c, coordinate_scale_x: d, coordinate_offset_x: e, x_values: f, padding: h } => '
                    '%s & %s & %s & %s & %s & %s, _ => false }' % (v, m, rd('u16', 'a'), rd('u16', 'c'), rd('f64', 'd'), rd('f64', 'e'), arr('u16', 'f', sh.n), arr('u8', 'h', sh.nbytes)))
        m = 'open_dis_rust::common::data_types::grid_data_record::DataRepresentationType::'
        if sh.grid == 0:
            return 'match &%s { %sType0 { number_of_octets: a, data_values: c, padding: d } => %s & %s & %s, _ => false }' % (
                v, m, rd('u16', 'a'), arr('u8', 'c', sh.n), arr('u8', 'd', sh.nbytes))
        if sh.grid == 1:
            return 'match &%s { %sType1 { field_scale: a, field_offset: c, number_of_values: d, data_values: e, padding: f } => %s & %s & %s & %s & %s, _ => false }' % (
                v, m, rd('f32', 'a'), rd('f32', 'c'), rd('u16', 'd'), arr('u16', 'e', sh.n), arr('u8', 'f', sh.nbytes))
        return 'match &%s { %sType2 { number_of_values: a, padding: c, data_values: d } => %s & %s & %s, _ => false }' % (
            v, m, rd('u16', 'a'), rd('u16', 'c'), arr('f32', 'd', sh.n))

    def dec_rec(self, r, v, sh):
        if is_fixed('rec:' + r):
            n = 'dec_' + r
            if n not in self.helpers:
                self.helpers[n] = None
                body = ' & '.join(self.dec(sp, 'v.' + f, sh) for f, sp in RECS[r]['fields'])
                self.helpers[n] = 'fn %s(v: &%s, b: &[u8], p: &mut usize) -> bool { %s }\n' % (n, rpath(r), body)
            return '%s(&%s, b, p)' % (n, v)
        body = ' '.join('ok &= %s;' % self.dec(sp, 'w.' + f, sh) for f, sp in RECS[r]['fields'])
        return '{ let w = &%s; let mut ok = true; %s ok }' % (v, body)

    # ------------------------------------------------------------ wire constants of a shape
    def sets(self, sp, off, sh):
        """([(offset, bytes)], end): what a buffer of this shape must contain at count fields"""
        k = sp.split(':')
        if k[0] != 'rec' and k[0] != 'list':
            return [], off + enc_size(sp, sh)
        if k[0] == 'list':
            out = []
            for i in range(sh.n):
                s, off = self.sets(':'.join(k[2:]), off, sh.sub(i))
                out += s
            return out, off
        out = []
        counts = self.counts(k[1], sh)
        for f, s2 in RECS[k[1]]['fields']:
            if f in counts:
                out.append((off, counts[f].to_bytes(fsize(s2), 'big')))
            s, off = self.sets(s2, off, sh)
            out += s
        return out, off

    # ------------------------------------------------------------ assembling
    def add(self, name, body, **meta):
        self.harness.append((name, body, meta))

    def source(self, prelude):
        s = prelude + '\n'
        for n in self.helpers:
            s += '#[inline]\n' + self.helpers[n].replace('\nfn ', '\n#[inline]\nfn ')
        for n, body, _ in self.harness:
            s += '#[unsafe(no_mangle)]\npub extern "C" fn %s() {\n%s\n}\n' % (n, body)
        s += '#[cfg(feature = "replay")]\npub fn run(h: &str) {\n match h {\n'
        for n, _, _ in self.harness:
            s += '  "%s" => %s(),\n' % (n, n)
        s += '  _ => println!("NO-SUCH-HARNESS"),\n }\n}\n'
        return s
