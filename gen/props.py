"""Harness generators, one function per property"""
from spec import *


def pdu_path(n):
    return 'open_dis_rust::%s::%s' % (PDUS[n]['module'], n)


def variants(n, deep=False):
    """shapes of a PDU: sizes of its lists and of the variable parts of their elements"""
    fs = PDUS[n]['fields']
    lists = [f for f, sp, _ in fs if sp.startswith('vec:')]
    var = any(not is_fixed(sp) for _, sp, _ in fs)
    if not var:
        return [Shape(lists=[])]
    L = len(lists)
    out = [Shape(0, 0, 0, 5, 0, [0] * L),
           Shape(1, 3, 20, 11, 1, [1] * L),
           Shape(2, 5, 64, 0, 2, [(2, 1, 3, 0)[i % 4] for i in range(L)], grid=1)]
    if any(sp == 'vec:rec:GridDataRecord' for _, sp, _ in fs):
        out.append(Shape(3, 0, 0, 0, 0, [1] * L, grid=2))
    if deep:
        out += [Shape(3, 8, 128, 13, 2, [(0, 4, 2, 1)[i % 4] for i in range(L)]),
                Shape(0, 1, 7, 10, 3, [(5, 0, 1, 2)[i % 4] for i in range(L)], grid=1),
                Shape(4, 17, 65, 1, 1, [7] * L)]
    hs = het_shape(fs)
    return out + ([hs] if hs else [])


MAXLEN = 8192


def list_el_size(sp, sh):
    """average encoded size of the elements of a list of this element type (every other optional one is absent)"""
    if sp.startswith('opt:vec:'):
        return enc_size(sp[8:], sh) / 2
    if sp.startswith('opt:'):
        return enc_size(sp[4:], sh) / 2
    return enc_size(sp, sh)


def big_variants(n, seen, cap=300):
    """shapes with lists of more than 255 elements, as far as the size limit allows; element types already in `seen` are left out"""
    fs = PDUS[n]['fields']
    ls = [sp[4:] for f, sp, _ in fs if sp.startswith('vec:')]
    pad = [f == 'padding' for f, sp, _ in fs if sp.startswith('vec:')]
    sh0 = Shape(0, 0, 16, 5, 0, [0] * len(ls))
    room = MAXLEN - 12 - sum(enc_size(sp, sh0) for f, sp, _ in fs if not sp.startswith(('vec:', 'opt:')))
    out = []
    todo = [i for i in range(len(ls)) if not pad[i] and ls[i] not in seen]
    while todo:
        take, left = {}, room
        for i in list(todo):
            e = max(list_el_size(ls[i], sh0), 0.5)
            k = int(min(cap, left // e))
            if k >= min(258, room // e):
                take[i] = min(k, 258 + 7 * (i % 6))
                left -= take[i] * e
                todo.remove(i)
                seen.add(ls[i])
        if not take:
            break
        out.append(Shape(0, 0, 16, 5, 0, [take.get(i, 0) for i in range(len(ls))]))
    return out


# 6: present, but empty
OPT_SIZES = {1: (1, 2), 2: (2, 1), 4: (0, 4), 5: (5, 0), 6: (0, 0)}


def opt_shapes(n, deep=False):
    """shapes for PDUs with optional parts governed by a length"""
    fs = PDUS[n]['fields']
    if not any(sp.startswith('opt:') for _, sp, _ in fs):
        return []
    L = len([1 for _, sp, _ in fs if sp.startswith('vec:')])
    return [Shape(nbytes=k, lists=[0] * L) for k in sorted(OPT_SIZES)]


def osize(n, f, sh):
    """octets of a length-governed field of a PDU: its length field may be narrow; a few shapes give such fields different sizes"""
    fs = PDUS[n]['fields']
    if sh.nbytes in OPT_SIZES:
        return OPT_SIZES[sh.nbytes][[x[0] for x in fs if x[2]].index(f) & 1]
    lf = [x[2] for x in fs if x[0] == f][0]
    return min(sh.nbytes, 256 ** fsize([x[1] for x in fs if x[0] == lf][0]) - 1)


def osh(n, f, sh):
    return Shape(nbytes=osize(n, f, sh))


def het_shape(fs, k=4):
    """lists whose elements differ in size; None when there are none"""
    el = [sp for _, sp, _ in fs if not is_fixed(sp) and sp != 'rec:EntityMarking' and not sp.startswith('opt:')]
    if not any(sp[4:].startswith('opt:') or not is_fixed(sp[4:] if sp.startswith('vec:') else sp) for sp in el):
        return None
    return Shape(3, 2, 20, 9, 1, [k] * len([1 for _, sp, _ in fs if sp.startswith('vec:')]), grid=1, n2=2, het=True)


def big_shapes(specs, deep=False, room=7900):
    """shapes in which the counts within these fields are large: lists of 11 and of more than 255 elements, byte strings of 33, 256, 257, 300 octets,
    data of 2056 and 4160 bits, as far as the count fields and the room allow"""
    cs = [caps(sp) for sp in specs]
    N = [c for c in (x['n'] for x in cs) if c]
    nb = min([c['nbytes'] for c in cs] + [1 << 31])
    two = any(len(x) > 1 for x in N)
    nested = bool(N)
    size = lambda sh: sum(enc_size(sp, sh) for sp in specs)
    want = []
    if nested:
        want += [Shape(11, 3, 20, 5, 1, grid=1), Shape(11, 3, 20, 5, 1, grid=2)][:2 if any('Grid' in sp for sp in specs) else 1]
        top = min(min(x[0] for x in N), 300)
        k = top
        while k > 17 and size(Shape(k, 1, 1, 5, 1, grid=1, n2=0)) > room:
            k -= 1
        want.append(Shape(k, 1, 1, 5, 1, grid=1, n2=0))
        if two:
            want += [Shape(2, 1, 1, 5, 1, n2=min(255, N[0][1])), Shape(3, 1, 1, 5, 1, n2=17)]
    if any('bytes:' in str(RECS.get(r)) or 'raw' in str(RECS.get(r)) for sp in specs for r in recs_in(sp)):
        want += [Shape(2, 257, 8, 5, 1), Shape(1, 33, 8, 5, 2), Shape(1, 300, 8, 5, 1)] + ([Shape(1, 4096, 8, 5, 1), Shape(1, 256, 8, 5, 1), Shape(3, 128, 8, 5, 9)] if deep else [])
        want.append(Shape(1, 2, 8, 5, 258))
    if any('bits:' in str(RECS.get(r)) for sp in specs for r in recs_in(sp)):
        want += [Shape(1, 1, b, 5, 1) for b in ((2056, 4160) + ((255, 256, 257, 32767, 511 * 64) if deep else ()))]
    out = []
    for sh in want:
        if size(sh) <= room and str(sh) not in [str(x) for x in out]:
            out.append(sh)
    return out


def recs_in(sp):
    k = sp.split(':')
    if k[0] in ('vec', 'opt'):
        return recs_in(sp[4:])
    if k[0] == 'list':
        return recs_in(':'.join(k[2:]))
    if k[0] != 'rec':
        return []
    out = [k[1]]
    for f, s in RECS[k[1]]['fields']:
        out += recs_in(s)
    return out


def body_fields(n):
    return PDUS[n]['fields']


def build_pdu(g, n, sh, free, hdr=True):
    """Rust statements leaving `p`: an arbitrary PDU value of the shape. free: count fields arbitrary too"""
    P = PDUS[n]
    s = 'let mut p = %s::default();\n' % pdu_path(n)
    if hdr:
        s += '*p.header_mut() = <PduHeader as FieldDeserialize>::deserialize_field(&mut &any::<12>()[..]);\n'
    li = 0
    lenf = {lf: f for f, _, lf in P['fields'] if lf}
    for f, sp, lf in P['fields']:
        if sp.startswith('pad:'):
            continue
        if sp.startswith('vec:'):
            if f == 'padding':      # private list, always empty
                li += 1
                continue
            s += 'p.%s = %s;\n' % (f, g.mk_vec(sp[4:], sh.lists[li], sh, free))
            li += 1
        elif sp.startswith('opt:'):
            if osize(n, f, sh) or sh.nbytes == 6:
                s += 'p.%s = Some(%s);\n' % (f, g.mk(sp[4:], osh(n, f, sh), free))
            else:
                s += 'p.%s = None;\n' % f
        else:
            s += 'p.%s = %s;\n' % (f, g.mk(sp, sh, free))
    return s


def enc_field(g, n, f, sp, sh, var='p'):
    """reference encoding of one field, into o"""
    if sp.startswith('pad:'):
        return g.enc(sp, '', sh)
    if sp == 'vec:u8' and f == 'padding':
        return ''
    return g.enc(sp, '%s.%s' % (var, f), sh)


def auto_len(n):
    """{length field: annotated field}"""
    return {lf: f for f, _, lf in PDUS[n]['fields'] if lf}


HDR = '''o.p(p.header().protocol_version as u8); o.p(p.header().exercise_id); o.p(%d); o.p(%d); o.put(p.header().timestamp.to_be_bytes());'''


def c02(g, deep=False):
    seen = set()
    for n in PDUS:
        P = PDUS[n]
        for vi, sh in enumerate(variants(n, deep) + big_variants(n, set() if deep else seen) + opt_shapes(n)):
            g.cur = h = 'c02_%s_v%d' % (n, vi)
            s = build_pdu(g, n, sh, True)
            s += 'let h0 = *p.header();\nlet mut w = Out::new(); let o = &mut w; let mut st = [0usize; %d];\n' % (len(P['fields']) + 2)
            s += 'o.p(h0.protocol_version as u8); o.p(h0.exercise_id); o.p(%d); o.p(%d); o.put(h0.timestamp.to_be_bytes()); o.p(0); o.p(0); o.p(h0.status_record.to_u8());\n' % (
                P['type_code'], P['family_code'])
            s += 'o.p(0);\n'
            al = auto_len(n)
            for i, (f, sp, lf) in enumerate(P['fields']):
                s += 'st[%d] = o.n;\n' % i
                if f in al:
                    tgt = [x for x in P['fields'] if x[0] == al[f]][0]
                    s += 'o.put((%d as %s).to_be_bytes());\n' % (osize(n, al[f], sh), sp)
                else:
                    s += enc_field(g, n, f, sp, sh) + '\n'
            s += 'st[%d] = o.n;\n' % len(P['fields'])
            s += 'o.b[8] = (o.n >> 8) as u8; o.b[9] = o.n as u8;\n'
            s += 'let mut buf = BytesMut::with_capacity(8448);\nlet r = p.serialize(&mut buf);\n'
            s += 'chk(r.is_ok(), %d);\n' % g.id('%s: encoding succeeds' % n)
            s += 'chk(buf.len() == o.n, %d);\n' % g.id('%s: total encoded size' % n)
            s += 'assume(buf.len() == o.n);\n'
            for lab, a, b in (('protocol version and exercise', 0, 2), ('PDU type', 2, 3), ('protocol family', 3, 4), ('timestamp', 4, 8),
                              ('length', 8, 10), ('status', 10, 11)):
                s += 'chk(same(&buf, 0, o, %d, %d), %d);\n' % (a, b, g.id('%s: header %s on the wire' % (n, lab)))
            for i, (f, sp, lf) in enumerate(P['fields']):
                s += 'chk(same(&buf, 0, o, st[%d], st[%d]), %d);\n' % (i, i + 1, g.id('%s.%s: encoded bytes (shape: %s)' % (n, f, sh)))
            s += 'cover(%d);\n' % g.id('reached')
            s += 'forget(buf); forget(p); forget(r);'
            g.add(h, s, pdu=n, shape=str(sh))


def dec_layout(g, n, sh):
    """list of (field, spec, offset or None) plus sets, end"""
    off = 12
    sets = []
    out = []
    al = auto_len(n)
    for f, sp, lf in PDUS[n]['fields']:
        if sp.startswith('vec:'):
            out.append((f, sp, None))
            continue
        if sp.startswith('opt:'):
            out.append((f, sp, off))
            off += osize(n, f, sh)
            continue
        if f in al:
            sets.append((off, osize(n, al[f], sh).to_bytes(fsize(sp), 'big')))
        out.append((f, sp, off))
        s, off = g.sets(sp, off, sh)
        sets += s
    return out, sets, off


def dec_variants(n, deep=False, big=False):
    fs = PDUS[n]['fields']
    var = any(not is_fixed(sp) and not sp.startswith('vec:') and sp != 'rec:EntityMarking' for _, sp, _ in fs)
    if not var:
        return [Shape(lists=[])]
    out = [Shape(0, 0, 0, 5, 0), Shape(1, 3, 0, 5, 1), Shape(2, 2, 0, 5, 2)]
    if deep:
        out += [Shape(3, 9, 0, 5, 1), Shape(1, 1, 0, 5, 4), Shape(5, 6, 0, 5, 1)]
    specs = [sp for _, sp, _ in fs if not sp.startswith('vec:')]
    hs = het_shape([x for x in fs if not x[1].startswith('vec:')])
    return out + ([hs] if hs else []) + (big_shapes(specs, deep) if big else [])


def ascii_assume(n, lay, win=(0, 0)):
    """marking characters are ASCII, except the octets of the window (indices into the 11)"""
    s = ''
    for f, sp, off in lay:
        if sp == 'rec:EntityMarking':
            s += 'let mut i = %d; while i < %d { %sassume(b[i] < 0x80); } i += 1; }\n' % (
                off + 1, off + 12, 'if i < %d || i >= %d { ' % (off + 1 + win[0], off + 1 + win[1]) if win[1] else '{ ')
    return s


def c01(g, deep=False):
    for n in PDUS:
        P = PDUS[n]
        for vi, sh in enumerate(dec_variants(n, deep, True) + opt_shapes(n)):
            for wh in (0, 1):
                g.cur = h = 'c01_%s_v%d%s' % (n, vi, '_nohdr' if wh else '')
                lay, sets, end = dec_layout(g, n, sh)
                s = 'let mut b: [u8; %d] = any();\nb[2] = %d;\n' % (end + 3, P['type_code'])
                for o, bs in sets:
                    for i, x in enumerate(bs):
                        s += 'b[%d] = %d; ' % (o + i, x)
                s += '\n' + ascii_assume(n, lay)
                s += 'let b = &b[..]; let mut s = b;\n'
                if wh:
                    s += 'let hd = <PduHeader as FieldDeserialize>::deserialize_field(&mut s);\nlet r = %s::deserialize_without_header(&mut s, hd);\n' % pdu_path(n)
                else:
                    s += 'let r = %s::deserialize(&mut s);\n' % pdu_path(n)
                s += 'match r { Ok(v) => {\n'
                hd = 'v.header()'
                g.codes('ProtocolVersion'); g.codes('ProtocolFamily'); g.codes('PduType')
                for lab, e in (('protocol version', '%s.protocol_version as u32 == exp_ProtocolVersion(b[0] as u32)' % hd),
                               ('exercise id', '%s.exercise_id == b[1]' % hd),
                               ('PDU type', '%s.pdu_type as u32 == %d' % (hd, P['type_code'])),
                               ('protocol family', '%s.protocol_family as u32 == exp_ProtocolFamily(b[3] as u32)' % hd),
                               ('timestamp', '%s.timestamp == u32::from_be_bytes(g(b, &mut 4))' % hd),
                               ('length', '%s.length == u16::from_be_bytes(g(b, &mut 8))' % hd),
                               ('status', '%s.status_record.to_u8() == b[10]' % hd)):
                    s += 'chk(%s, %d);\n' % (e, g.id('%s: header %s decoded' % (n, lab)))
                for f, sp, off in lay:
                    if off is None or sp.startswith('pad:'):
                        continue
                    if sp.startswith('opt:'):
                        if osize(n, f, sh):
                            e = ('match &v.%s { Some(x) => { let mut t = BytesMut::with_capacity(512); x.serialize(&mut t); let ok = eqs(&t[..], &b[%d..%d]); forget(t); ok } None => false }'
                                 % (f, off, off + osize(n, f, sh)))
                        else:
                            e = 'v.%s.is_none()' % f
                        s += 'chk(%s, %d);\n' % (e, g.id('%s.%s: decoded value' % (n, f)))
                        continue
                    s += '{ let mut q = %dusize; let p = &mut q; chk(%s, %d); }\n' % (off, g.dec(sp, 'v.' + f, sh), g.id('%s.%s: decoded value' % (n, f)))
                s += 'cover(%d);\nforget(v);\n' % g.id('reached')
                s += '} Err(e) => { forget(e); chk(false, %d); } }' % g.id('%s: complete buffer is decoded' % n)
                g.add(h, s, pdu=n, shape=str(sh))


# ------------------------------------------------------------------------------------ C03
def len_variants(n, deep=False):
    v = variants(n, deep)
    if len(v) == 1:
        return v
    L = len([1 for _, sp, _ in PDUS[n]['fields'] if sp.startswith('vec:')])
    return v + [Shape(1, 4, 63, 11, 1, [3] * L, grid=1), Shape(2, 1, 65, 4, 3, [5 if i % 2 else 0 for i in range(L)])]


def c03(g, deep=False):
    seen = set()
    for n in PDUS:
        for vi, sh in enumerate(len_variants(n, deep) + big_variants(n, set() if deep else seen) + opt_shapes(n)):
            g.cur = h = 'c03_%s_v%d' % (n, vi)
            s = build_pdu(g, n, sh, True)
            s += 'let c0 = p.calculate_length();\np.finalize();\nlet fl = p.header().length;\np.header_mut().length = ru16();\n'
            s += 'let pre = any::<5>();\nlet mut buf = BytesMut::with_capacity(8448); buf.put_slice(&pre);\n'
            s += 'let r = p.serialize(&mut buf);\nlet c1 = p.calculate_length();\n'
            s += 'chk(r.is_ok(), %d);\n' % g.id('%s: encoding succeeds (shape: %s)' % (n, sh))
            s += 'assume(buf.len() >= 17);\nlet L = buf.len() - 5;\n'
            s += 'chk(u16::from_be_bytes([buf[13], buf[14]]) as usize == L, %d);\n' % g.id('%s: length on the wire is the number of octets written (shape: %s)' % (n, sh))
            s += 'chk(p.header().length as usize == L, %d);\n' % g.id('%s: header length after encoding (shape: %s)' % (n, sh))
            s += 'chk(matches!(&c0, Ok(x) if *x as usize == L), %d);\n' % g.id('%s: calculated length before encoding (shape: %s)' % (n, sh))
            s += 'chk(matches!(&c1, Ok(x) if *x as usize == L), %d);\n' % g.id('%s: calculated length after encoding (shape: %s)' % (n, sh))
            s += 'chk(fl as usize == L, %d);\n' % g.id('%s: length set by finalize (shape: %s)' % (n, sh))
            s += 'cover(%d);\nforget(buf); forget(p); forget(r); forget(c0); forget(c1);' % g.id('reached')
            g.add(h, s, pdu=n, shape=str(sh))
        # a decoded PDU reports the length of what was decoded
        if all(not sp.startswith('vec:') for _, sp, _ in PDUS[n]['fields']):
            for vi, sh in enumerate(dec_variants(n, deep)):
                g.cur = h = 'c03_%s_d%d' % (n, vi)
                lay, sets, end = dec_layout(g, n, sh)
                s = dec_buf(n, lay, sets, end)
                s += 'match %s::deserialize(&mut s) { Ok(mut v) => {\n' % pdu_path(n)
                s += 'let c = v.calculate_length(); v.finalize();\n'
                s += 'chk(matches!(&c, Ok(%d)), %d);\n' % (end, g.id('%s: calculated length of a decoded PDU' % n))
                s += 'chk(v.header().length == %d, %d);\n' % (end, g.id('%s: finalize on a decoded PDU' % n))
                s += 'cover(%d); forget(v); forget(c); } Err(e) => { forget(e); } }' % g.id('reached')
                g.add(h, s, pdu=n, shape=str(sh))


def dec_buf(n, lay, sets, end, extra=3):
    """statements: `b` an arbitrary buffer holding a complete PDU of the layout (+extra octets), `s` a cursor"""
    s = 'let mut b: [u8; %d] = any();\nb[2] = %d;\n' % (end + extra, PDUS[n]['type_code'])
    for o, bs in sets:
        for i, x in enumerate(bs):
            s += 'b[%d] = %d; ' % (o + i, x)
    s += '\n' + ascii_assume(n, lay)
    s += 'let b = &b[..]; let mut s = b;\n'
    return s


# ------------------------------------------------------------------------------------ C04
def fixed_end(n):
    return 12 + sum(minsize(sp) for _, sp, _ in PDUS[n]['fields'] if not sp.startswith('vec:'))


def content_sized(n):
    """has record bodies whose size depends on their content"""
    return [f for f, sp, _ in PDUS[n]['fields'] if not sp.startswith('vec:') and not is_fixed(sp) and sp != 'rec:EntityMarking']


def c04(g, deep=False):
    for n in PDUS:
        end = fixed_end(n)
        cs = content_sized(n)
        x = (26 if deep else 14) if cs else 4
        marked = any(sp == 'rec:EntityMarking' for _, sp, _ in PDUS[n]['fields'])
        wins = ([(0, 4), (4, 8), (7, 11)] if deep else [(0, 3), (8, 11)]) if marked else [(0, 0)]
        for wh, win in [(a, b) for a in (0, 1) for b in wins]:
            g.cur = h = 'c04_%s%s%s' % (n, '_nohdr' if wh else '', '_w%d' % win[0] if marked else '')
            N = end + x
            s = 'let mut b: [u8; %d] = any();\n' % N
            s += ascii_assume(n, dec_layout(g, n, Shape())[0], win)
            if wh:
                s += 'let l = ru16() as usize; assume(l <= %d);\n' % (N - 12)
                s += 'let hd = <PduHeader as FieldDeserialize>::deserialize_field(&mut &b[..12]);\nlet ty = b[2];\nlet mut s = &b[12..12 + l];\n'
                s += 'let r = %s::deserialize_without_header(&mut s, hd);\n' % pdu_path(n)
                s += 'let l = l + 12;\n'
            else:
                s += 'let l = ru16() as usize; assume(l <= %d);\nlet ty = b[2];\nlet mut s = &b[..l];\nlet r = %s::deserialize(&mut s);\n' % (N, pdu_path(n))
            g.codes('PduType')
            s += 'let good = exp_PduType(ty as u32) == %d;\n' % PDUS[n]['type_code']
            s += 'match r { Ok(v) => {\n'
            s += 'chk(l >= %d, %d);\n' % (end, g.id('%s: a truncated PDU is not decoded' % n))
            s += 'chk(good, %d);\n' % g.id('%s: only a PDU of this type is decoded' % n)
            s += 'cover(%d);\nforget(v); }\nErr(e) => {\n' % g.id('reached Ok')
            if not cs:
                s += 'chk(l < %d || !good, %d);\n' % (end, g.id('%s: a complete PDU of this type is decoded' % n))
            s += 'chk(!(l >= %d && good) || matches!(e, DISError::BufferUnderflow { .. }), %d);\n' % (end, g.id('%s: kind of error for a truncated list' % n))
            s += 'chk(!(l < 12) || matches!(e, DISError::BufferUnderflow { .. }), %d);\n' % g.id('%s: a truncated header is reported as an underflow' % n)
            s += 'chk(!(l >= 12 && l < %d && good) || matches!(e, DISError::BufferUnderflow { .. }), %d);\n' % (end, g.id('%s: a truncated body is reported as an underflow' % n))
            s += 'cover(%d);\nforget(e); } }' % g.id('reached Err')
            g.add(h, s, pdu=n, cost=10 if cs else 0)


        # long contents: complete, a bit short, cut in the middle
        if cs:
            for vi, sh in enumerate(dec_variants(n, deep, True)):
                lay, sets, e2 = dec_layout(g, n, sh)
                offs = [o for f, sp, o in lay if o is not None and not is_fixed(sp)]
                cut = sorted(set([12, offs[0] - 1, offs[0], (offs[0] + e2) // 2, e2 - 257, e2 - 256, e2 - 255, e2 - 9, e2 - 2, e2 - 1, e2, e2 + 1] + offs[1:]))
                cut = [c for c in cut if 12 <= c <= e2 + 1]
                for wh in (0, 1):
                    g.cur = h = 'c04_%s_long%d%s' % (n, vi, '_nohdr' if wh else '')
                    s = dec_buf(n, lay, sets, e2, 1).replace('let mut s = b;', '')
                    s += 'let mut i = 0; let ls = [%s]; while i < %d { let l = ls[i]; i += 1;\n' % (', '.join('%dusize' % c for c in cut), len(cut))
                    if wh:
                        s += 'let hd = <PduHeader as FieldDeserialize>::deserialize_field(&mut &b[..12]); let mut s = &b[12..l]; let r = %s::deserialize_without_header(&mut s, hd);\n' % pdu_path(n)
                    else:
                        s += 'let mut s = &b[..l]; let r = %s::deserialize(&mut s);\n' % pdu_path(n)
                    s += 'match r { Ok(v) => { chk(l >= %d, %d); chk(s.len() == l.wrapping_sub(%d), %d); forget(v); }\n' % (
                        e2, g.id('%s: a truncated PDU is not decoded (shape: %s)' % (n, sh)), e2, g.id('%s: what follows a PDU is left (shape: %s)' % (n, sh)))
                    s += 'Err(e) => { chk(l < %d, %d); chk(matches!(e, DISError::BufferUnderflow { .. }), %d); forget(e); } } }\n' % (
                        e2, g.id('%s: a complete PDU is decoded (shape: %s)' % (n, sh)), g.id('%s: truncation is reported as an underflow (shape: %s)' % (n, sh)))
                    s += 'cover(%d);' % g.id('reached')
                    g.add(h, s, pdu=n, shape=str(sh), cost=5)


# ------------------------------------------------------------------------------------ C05
C05_PRELUDE = """
/// a buffer that hands out its octets in pieces of k
pub struct Pieces<'a> { d: &'a [u8], at: usize, k: usize }
impl Buf for Pieces<'_> {
    fn remaining(&self) -> usize { self.d.len() - self.at }
    fn chunk(&self) -> &[u8] {
        let e = (self.at / self.k + 1) * self.k;
        &self.d[self.at..if e < self.d.len() { e } else { self.d.len() }]
    }
    fn advance(&mut self, n: usize) { assert!(n <= self.d.len() - self.at); self.at += n; }
}
/// one of the two, so that one instance of the code under test serves both
pub struct Either<'a> { p: bool, a: bytes::buf::Chain<&'a [u8], &'a [u8]>, b: Pieces<'a> }
impl Buf for Either<'_> {
    fn remaining(&self) -> usize { if self.p { self.a.remaining() } else { self.b.remaining() } }
    fn chunk(&self) -> &[u8] { if self.p { self.a.chunk() } else { self.b.chunk() } }
    fn advance(&mut self, n: usize) { if self.p { self.a.advance(n) } else { self.b.advance(n) } }
}
"""


def c05_records(g, deep):
    """records decoded from a buffer in pieces are what they are in one piece; encoding others in between changes nothing"""
    for r in RECS:
        T = rpath(r)
        opaque = r in INT_FNS
        # encoding and decoding other values of the type in between
        vs = [sh for sh in rec_variants(r) if enc_size('rec:' + r, sh) <= 200]
        for k, (sa, sb) in enumerate(((vs[0], vs[-1]), (vs[-1], vs[0])) if len(vs) > 1 else ((vs[0], vs[0]),)):
            g.cur = h = 'c05_%s_rhist%d' % (r, k)
            s = 'let p = %s; let mut x = BytesMut::with_capacity(1024); p.serialize(&mut x);\n' % g.mk('rec:' + r, sa, True)
            s += 'let q = %s; let mut y = BytesMut::with_capacity(1024); q.serialize(&mut y); let mut z = BytesMut::with_capacity(1024); p.serialize(&mut z);\n' % g.mk('rec:' + r, sb, True)
            s += 'chk(x.len() == z.len(), %d); assume(x.len() == z.len()); chk(eqs(&x, &z), %d);\n' % (
                g.id('%s: encoding another record in between changes nothing in size' % r), g.id('%s: encoding another record in between changes nothing' % r))
            s += 'cover(%d); forget(p); forget(q); forget(x); forget(y); forget(z);' % g.id('reached')
            g.add(h, s, record=r, shape=str(sa))
        for vi, sh in enumerate((rec_variants(r, deep) if not opaque else [Shape(nbytes=k) for k in (1, 9, 33)])):
            if (r, sh.grid) in GREEDY or r == 'EntityMarking' and vi:
                continue
            sets, end = g.sets('rec:' + r, 0, sh)
            if end > (700 if deep else 300):
                continue
            g.cur = h = 'c05_%s_rec%d' % (r, vi)
            s = 'let mut b: [u8; %d] = any();\n' % (end + 2)
            for o, bs in sets:
                for i, x in enumerate(bs):
                    s += 'b[%d] = %d; ' % (o + i, x)
            if r == 'EntityMarking':
                s += 'let mut i = 1; while i < 12 { assume(b[i] < 0x80); i += 1; }\n'
            if r == 'GridAxisDescriptor':
                s += 'b[19] = %d; ' % sh.grid
                if sh.grid:
                    s += 'b[20] = %d; b[21] = %d; ' % divmod(sh.n, 256)
            if r == 'GridDataRecord':
                s += 'b[2] = 0; b[3] = %d; ' % sh.grid
                at = 12 if sh.grid == 1 else 4
                s += 'b[%d] = %d; b[%d] = %d; ' % (at, sh.n >> 8, at + 1, sh.n & 255)
            if opaque:
                call = 'match %s::deserialize(&mut %%s, %d) { Some(v) => v, None => { chk(false, %d); return; } }' % (T, sh.nbytes, g.id('%s: decoded' % r))
            else:
                call = T + '::deserialize(&mut %s)'
            s += 'let b = &b[..]; let mut s = b;\nlet v = %s; let mut x = BytesMut::with_capacity(1024); v.serialize(&mut x);\n' % (call % 's')
            ks = [k for k in (1, 2, 3, 5, 8, 13) if k < end]
            cuts = list(range(1, end))
            if len(cuts) > (40 if deep else 12):
                cuts = sorted(set([1, 2, end - 1, end - 2] + cuts[::len(cuts) // (36 if deep else 9) + 1]))
            for var, vals, mk in (('k', ks, 'let mut c = Pieces { d: b, at: 0, k };'), ('m', cuts, 'let mut c = (&b[..m]).chain(&b[m..]);')):
                if not vals:
                    continue
                s += 'for %s in [%s] { %s let w = %s; let mut y = BytesMut::with_capacity(1024); w.serialize(&mut y);\n' % (
                    var, ', '.join('%dusize' % k for k in vals), mk, call % 'c')
                s += 'chk(eqs(&x, &y), %d); chk(c.remaining() == s.len(), %d); forget(w); forget(y); }\n' % (
                    g.id('%s: a record in pieces decodes as in one (shape: %s)' % (r, sh)), g.id('%s: a record in pieces is consumed as in one (shape: %s)' % (r, sh)))
            s += 'cover(%d); forget(v); forget(x);' % g.id('reached')
            g.add(h, s, record=r, shape=str(sh))


def c05(g, deep=False):
    c05_records(g, deep)
    for n in PDUS:
        for vi, sh in enumerate(variants(n, deep)):
            g.cur = h = 'c05_%s_enc%d' % (n, vi)
            s = build_pdu(g, n, sh, True)
            s += 'let pre = any::<7>(); let mut buf = BytesMut::with_capacity(16896); buf.put_slice(&pre);\n'
            s += 'let r1 = p.serialize(&mut buf); let n1 = buf.len(); assume(n1 >= 19); let L = n1 - 7;\n'
            s += 'let r2 = p.serialize(&mut buf); let n2 = buf.len();\n'
            tight = vi == 1 or len(variants(n)) == 1
            s += 'let mut fresh = BytesMut::%s; let r3 = p.serialize(&mut fresh);\n' % ('new()' if tight else 'with_capacity(8448)')
            if tight:
                # a used buffer that has to grow on the way
                s += 'let mut full = BytesMut::with_capacity(21); full.put_slice(&pre); let r4 = p.serialize(&mut full);\n'
                s += 'chk(r4.is_ok() && full.len() == n1, %d); assume(full.len() == n1);\n' % g.id('%s: encoding into a buffer that has to grow appends the same number of octets' % n)
                s += 'chk(eqs(&full[..7], &pre), %d);\n' % g.id('%s: octets already in a buffer that has to grow are kept' % n)
                s += 'chk(eqs(&full[7..], &buf[7..n1]), %d); forget(full); forget(r4);\n' % g.id('%s: encoding does not depend on the room in the buffer' % n)
            s += 'chk(r1.is_ok() && r2.is_ok() && r3.is_ok(), %d);\n' % g.id('%s: encoding succeeds' % n)
            s += 'chk(n2 == n1 + L && fresh.len() == L, %d);\n' % g.id('%s: encoding appends the same number of octets every time' % n)
            s += 'assume(n2 == n1 + L && fresh.len() == L);\n'
            s += 'chk(eqs(&buf[..7], &pre), %d);\n' % g.id('%s: octets already in the buffer are kept' % n)
            s += 'chk(eqs(&buf[7..n1], &buf[n1..n2]), %d);\n' % g.id('%s: encoding again gives the same octets' % n)
            s += 'chk(eqs(&buf[7..n1], &fresh), %d);\n' % g.id('%s: encoding does not depend on what the buffer holds' % n)
            s += 'cover(%d); forget(buf); forget(fresh); forget(p); forget(r1); forget(r2); forget(r3);' % g.id('reached')
            g.add(h, s, pdu=n, shape=str(sh))
        # encoding and decoding other PDUs of the type in between changes nothing
        vs = variants(n)
        for k, (sa, sb) in enumerate(((vs[0], vs[-1]), (vs[-1], vs[0])) if len(vs) > 1 else ((vs[0], vs[0]),)):
            g.cur = h = 'c05_%s_hist%d' % (n, k)
            s = build_pdu(g, n, sa, True) + 'let mut x = BytesMut::with_capacity(8448); let r1 = p.serialize(&mut x);\n'
            s += 'let mut q = { %s p };\n' % build_pdu(g, n, sb, True)
            s += 'let mut y = BytesMut::with_capacity(8448); let r2 = q.serialize(&mut y); let mut z = BytesMut::with_capacity(8448); let r3 = p.serialize(&mut z);\n'
            s += 'chk(r1.is_ok() && r2.is_ok() && r3.is_ok(), %d);\n' % g.id('%s: encoding succeeds' % n)
            s += 'chk(x.len() == z.len(), %d); assume(x.len() == z.len()); chk(eqs(&x, &z), %d);\n' % (
                g.id('%s: encoding another PDU in between changes nothing in size' % n), g.id('%s: encoding another PDU in between changes nothing' % n))
            s += 'cover(%d); forget(p); forget(q); forget(x); forget(y); forget(z); forget(r1); forget(r2); forget(r3);' % g.id('reached')
            g.add(h, s, pdu=n, shape=str(sa))
        vs = dec_variants(n, False)
        for k, (sa, sb) in enumerate(((vs[0], vs[-1]), (vs[-1], vs[0])) if len(vs) > 1 else ((vs[0], vs[0]),)):
            g.cur = h = 'c05_%s_dhist%d' % (n, k)
            s = 'let bb = {\n' + dec_buf(n, *dec_layout(g, n, sb), 2) + 'let mut o = [0u8; %d]; o.copy_from_slice(b); o };\n' % (dec_layout(g, n, sb)[2] + 2)
            s += dec_buf(n, *dec_layout(g, n, sa), 2)
            D = 'match %s::deserialize(&mut %%s) { Ok(v) => v, Err(e) => { forget(e); return; } }' % pdu_path(n)
            s += 'let mut u = %s; let mut t = &bb[..]; let o = %s; let mut t = b; let mut v = %s;\n' % (D % 's', D % 't', D % 't')
            s += 'chk(t.len() == s.len(), %d);\n' % g.id('%s: decoding another PDU in between changes nothing in what is consumed' % n)
            s += 'let mut x = BytesMut::with_capacity(8448); let mut y = BytesMut::with_capacity(8448); let r1 = u.serialize(&mut x); let r2 = v.serialize(&mut y);\n'
            s += 'chk(r1.is_ok() == r2.is_ok() && x.len() == y.len(), %d); assume(x.len() == y.len()); chk(eqs(&x, &y), %d);\n' % (
                g.id('%s: decoding another PDU in between changes nothing in size' % n), g.id('%s: decoding another PDU in between changes nothing' % n))
            s += 'cover(%d); forget(u); forget(v); forget(o); forget(x); forget(y); forget(r1); forget(r2);' % g.id('reached')
            g.add(h, s, pdu=n, shape=str(sa))
        for vi, sh in enumerate(dec_variants(n, deep)):
            lay, sets, end = dec_layout(g, n, sh)
            g.cur = h = 'c05_%s_dec%d' % (n, vi)
            s = dec_buf(n, lay, sets, end, 9)
            s += 'match %s::deserialize(&mut s) { Ok(v) => {\n' % pdu_path(n)
            s += 'chk(s.len() == 9, %d);\n' % g.id('%s: decoding consumes exactly the octets of the PDU' % n)
            s += 'let again = { let mut t = b; match %s::deserialize(&mut t) { Ok(w) => { let mut x = BytesMut::with_capacity(8448); let mut y = BytesMut::with_capacity(8448); let mut v = v; let mut w = w; let e = v.serialize(&mut x).is_ok() && w.serialize(&mut y).is_ok() && eqs(&x, &y); forget(x); forget(y); forget(v); forget(w); e } Err(e) => { forget(e); false } } };\n' % pdu_path(n)
            s += 'chk(again, %d);\n' % g.id('%s: decoding the same octets again gives the same PDU' % n)
            s += 'cover(%d); } Err(e) => { forget(e); } }' % g.id('reached')
            g.add(h, s, pdu=n, shape=str(sh))
            # fragmented input: the PDU arrives in two pieces
            fs = [o for _, _, o in lay if o is not None]
            mid = sorted(set([1, 5, 11, 12, 13] + [o + 1 for o in fs if o + 1 < end] + ([o for o in range(1, end)] if deep else [])))
            mid = mid[:: max(1, len(mid) // (40 if deep else 16))]
            g.cur = h = 'c05_%s_frag%d' % (n, vi)
            s = dec_buf(n, lay, sets, end, 0)
            s += 'let a = match %s::deserialize(&mut s) { Ok(v) => v, Err(e) => { forget(e); return; } };\nlet mut a = a; let mut x = BytesMut::with_capacity(8448); let _ = a.serialize(&mut x);\n' % pdu_path(n)
            s += 'for k in [%s] {\nlet mut c = Either { p: k < 1000, a: (&b[..if k < 1000 { k } else { 0 }]).chain(&b[if k < 1000 { k } else { 0 }..]), b: Pieces { d: b, at: 0, k: if k < 1000 { 1 } else { k - 1000 } } };\n' % ', '.join(
                ['%dusize' % (1000 + k) for k in (1, 3, 8)] + ['%dusize' % k for k in mid])
            s += 'match %s::deserialize(&mut c) { Ok(w) => { let mut w = w; let mut y = BytesMut::with_capacity(8448); let _ = w.serialize(&mut y);\n' % pdu_path(n)
            s += 'chk(eqs(&x, &y), %d);\n' % g.id('%s: a PDU in two pieces decodes as in one' % n)
            s += 'chk(!c.has_remaining(), %d);\nforget(y); forget(w); }\n' % g.id('%s: a PDU in two pieces is consumed exactly' % n)
            s += 'Err(e) => { forget(e); chk(false, %d); } } }\n' % g.id('%s: a PDU in two pieces decodes' % n)
            s += 'cover(%d); forget(a); forget(x);' % g.id('reached')
            g.add(h, s, pdu=n, shape=str(sh), cost=5)


# ------------------------------------------------------------------------------------ C06
def c06(g, deep=False):
    g.codes('PduType')
    for n in PDUS:
        code = PDUS[n]['type_code']
        end = fixed_end(n)
        for wh in (0, 1):
            g.cur = h = 'c06_%s%s' % (n, '_nohdr' if wh else '')
            s = 'let mut b: [u8; %d] = any();\n' % (end + 2)
            lay, sets, e2 = dec_layout(g, n, Shape(0, 0, 0, 5, 0))
            for o, bs in sets:
                for i, x in enumerate(bs):
                    s += 'b[%d] = %d; ' % (o + i, x)
            s += ascii_assume(n, lay) + 'let b = &b[..]; let ty = b[2]; let mut s = b;\n'
            if wh:
                s += 'let hd = <PduHeader as FieldDeserialize>::deserialize_field(&mut s);\nlet r = %s::deserialize_without_header(&mut s, hd);\n' % pdu_path(n)
            else:
                s += 'let r = %s::deserialize(&mut s);\n' % pdu_path(n)
            s += 'let good = exp_PduType(ty as u32) == %d;\n' % code
            s += 'match r { Ok(v) => { chk(good, %d);\n' % g.id('%s: a PDU of another type is rejected' % n)
            s += 'chk(v.header().pdu_type() as u8 == %d && v.header().pdu_type == v.header().pdu_type(), %d);\n' % (code, g.id('%s: type of the decoded PDU' % n))
            s += 'chk(PduHeader::get_pdu_type(b).map(|t| t as u32) == Some(%d), %d);\n' % (code, g.id('%s: peeking at the type agrees with decoding' % n))
            s += 'chk(v.as_any().is::<%s>(), %d);\n' % (pdu_path(n), g.id('%s: as_any gives the concrete type' % n))
            s += 'cover(%d); forget(v); }\nErr(e) => {' % g.id('reached Ok')
            s += 'chk(!good, %d);\n' % g.id('%s: a PDU of this type is accepted' % n)
            s += 'chk(matches!(e, DISError::InvalidHeader { .. }), %d);\n' % g.id('%s: another type is reported as an invalid header' % n)
            s += 'cover(%d); forget(e); } }' % g.id('reached Err')
            g.add(h, s, pdu=n)
    g.cur = h = 'c06_peek'
    s = 'let b: [u8; 40] = any(); let l = ru8() as usize; assume(l <= 40);\nlet r = PduHeader::get_pdu_type(&b[..l]);\n'
    s += 'chk(r.is_some() == (l >= 12), %d);\n' % g.id('peeking needs a complete header, and only that')
    s += 'if let Some(t) = r { chk(t as u32 == exp_PduType(b[2] as u32), %d); cover(%d); }' % (g.id('peeked type'), g.id('reached'))
    g.add(h, s)
    # the type codes of the PDU types are distinct: at most one PDU type decodes any given buffer
    codes = [P['type_code'] for P in PDUS.values()]
    assert len(set(codes)) == len(codes), 'table: duplicate PDU type codes'


# ------------------------------------------------------------------------------------ C07
def c07(g, deep=False):
    for e in ('ProtocolVersion', 'PduType', 'ProtocolFamily', 'DISLiveEntitySubprotocolNumber'):
        g.codes(e)
    for H, last in (('PduHeader', 'status_record'), ('LiveEntityPduHeader', 'subprotocol_number')):
        g.cur = h = 'c07_%s_dec' % H
        s = 'let b: [u8; 15] = any(); let b = &b[..]; let mut s = b;\nlet v = <%s as GenericHeader>::deserialize(&mut s);\n' % H
        for lab, e in (('protocol version', 'v.protocol_version as u32 == exp_ProtocolVersion(b[0] as u32)'),
                       ('exercise', 'v.exercise_id == b[1]'),
                       ('PDU type', 'v.pdu_type as u32 == exp_PduType(b[2] as u32) && v.pdu_type() == v.pdu_type'),
                       ('family', 'v.protocol_family as u32 == exp_ProtocolFamily(b[3] as u32) && v.protocol_family() == v.protocol_family'),
                       ('timestamp', 'v.timestamp == u32::from_be_bytes(g(b, &mut 4))'),
                       ('length', 'v.length == u16::from_be_bytes(g(b, &mut 8)) && v.length() == v.length'),
                       ('last octet', 'v.status_record.to_u8() == b[10]' if H == 'PduHeader' else
                        'v.subprotocol_number as u32 == exp_DISLiveEntitySubprotocolNumber(b[10] as u32)'),
                       ('12 octets consumed', 's.len() == 3')):
            s += 'chk(%s, %d);\n' % (e, g.id('%s: %s decoded' % (H, lab)))
        s += 'let mut buf = BytesMut::with_capacity(64); buf.put_slice(&b[..2]); v.serialize(&mut buf);\n'
        s += 'chk(buf.len() == 14 && eqs(&buf[..2], &b[..2]), %d);\nassume(buf.len() == 14);\n' % g.id('%s: 12 octets appended' % H)
        s += 'chk(buf[2] as u32 == exp_ProtocolVersion(b[0] as u32) && buf[3] == b[1] && buf[4] as u32 == exp_PduType(b[2] as u32) && buf[5] as u32 == exp_ProtocolFamily(b[3] as u32), %d);\n' % g.id('%s: version, exercise, type and family encoded' % H)
        s += 'chk(eqs(&buf[6..12], &b[4..10]), %d);\n' % g.id('%s: timestamp and length encoded' % H)
        if H == 'PduHeader':
            s += 'chk(buf[12] == b[10], %d);\n' % g.id('PduHeader: status encoded')
        else:
            s += 'chk(buf[12] as u32 == exp_DISLiveEntitySubprotocolNumber(b[10] as u32), %d);\n' % g.id('LiveEntityPduHeader: subprotocol encoded')
        s += 'chk(buf[13] == b[11], %d);\n' % g.id('%s: padding octet kept' % H)
        s += 'let w = <%s as GenericHeader>::deserialize(&mut &buf[2..]);\nchk(w == v, %d);\n' % (H, g.id('%s: round trip' % H))
        s += 'cover(%d); forget(buf);' % g.id('reached')
        g.add(h, s)
        g.cur = h = 'c07_%s_set' % H
        s = 'let b: [u8; 12] = any(); let v0 = <%s as GenericHeader>::deserialize(&mut &b[..]);\nlet mut v = v0;\n' % H
        s += 'let t = PduType::deserialize(&mut &any::<1>()[..]); let f = ProtocolFamily::deserialize(&mut &any::<1>()[..]); let l = ru16();\n'
        s += 'v.set_pdu_type(t); chk(v.pdu_type == t && v.pdu_type() == t, %d);\n' % g.id('%s: set_pdu_type' % H)
        s += 'v.set_protocol_family(f); chk(v.protocol_family == f && v.protocol_family() == f, %d);\n' % g.id('%s: set_protocol_family' % H)
        s += 'v.set_length(l); chk(v.length == l && v.length() == l, %d);\n' % g.id('%s: set_length' % H)
        s += 'v.set_pdu_type(v0.pdu_type); v.set_protocol_family(v0.protocol_family); v.set_length(v0.length); chk(v == v0, %d);\n' % g.id('%s: setters change nothing else' % H)
        s += 'let e = ru8(); let n = %s::new(t, f, e, l);\n' % H
        s += 'chk(n.pdu_type == t && n.protocol_family == f && n.exercise_id == e && n.length == l, %d);\n' % g.id('%s: new keeps its arguments' % H)
        s += 'chk(n.protocol_version as u8 == 7 && %s, %d);\n' % ('n.status_record.to_u8() == 0' if H == 'PduHeader' else 'n.subprotocol_number as u8 == 0', g.id('%s: new is version 7 without flags' % H))
        s += 'let d = %s::default(); chk(d.protocol_version as u8 == 7 && d.exercise_id == 1 && d.pdu_type as u8 == 0 && d.protocol_family as u8 == 0 && d.length == 0, %d);\n' % (H, g.id('%s: default' % H))
        s += 'cover(%d);' % g.id('reached')
        g.add(h, s)
    g.cur = h = 'c07_field_traits'
    s = 'let b: [u8; 15] = any(); let mut s1 = &b[..]; let mut s2 = &b[..];\n'
    s += 'let v = <PduHeader as FieldDeserialize>::deserialize_field(&mut s1); let w = <PduHeader as GenericHeader>::deserialize(&mut s2);\n'
    s += 'chk(v == w && s1.len() == s2.len(), %d);\n' % g.id('field decoding of a header is header decoding')
    s += 'let mut x = BytesMut::with_capacity(64); let mut y = BytesMut::with_capacity(64); v.serialize_field(&mut x); <PduHeader as GenericHeader>::serialize(&w, &mut y);\n'
    s += 'chk(eqs(&x, &y), %d);\nchk(v.field_len() == 12 && x.len() == 12, %d);\ncover(%d); forget(x); forget(y);' % (
        g.id('field encoding of a header is header encoding'), g.id('header field length'), g.id('reached'))
    g.add(h, s)


# ------------------------------------------------------------------------------------ C08
def c08(g, deep=False):
    one = [('tei', 'en::TransferredEntityIndicator', 0, 1), ('lvc', 'en::LVCIndicator', 1, 2), ('cei', 'en::CoupledExtensionIndicator', 3, 1)]
    two = [('dti', 'en::DetonationTypeIndicator', 4, 2), ('rai', 'en::RadioAttachedIndicator', 4, 2), ('iai', 'en::IntercomAttachedIndicator', 4, 2),
           ('fti', 'en::FireTypeIndicator', 4, 1), ('ism', 'en::PduStatusIFFSimulationMode', 4, 1), ('aii', 'en::ActiveInterrogationIndicator', 5, 1)]
    g.cur = h = 'c08_byte'
    s = 'let b = ru8(); let v = PduStatusRecord::from_u8(b);\nchk(v.to_u8() == b, %d);\nchk(PduStatusRecord::new_zero().to_u8() == 0 && PduStatusRecord::default().to_u8() == 0, %d);\ncover(%d);' % (
        g.id('octet to record and back'), g.id('empty record'), g.id('reached'))
    s += 'chk(v.bit4_5() == (b >> 4) & 3, %d);' % g.id('union bits read')
    g.add(h, s)
    for f, t, sh_, w in one + two:
        get = f if (f, t, sh_, w) in one else 'get_' + f
        g.cur = h = 'c08_' + f
        m = ((1 << w) - 1) << sh_
        s = 'let b = ru8(); let c = ru8(); let v = PduStatusRecord::from_u8(b); let src = PduStatusRecord::from_u8(c);\n'
        lvc3 = f == 'lvc'
        # three of the two-bit indicators have no code 3: it reads as their default, 0
        und = f in ('dti', 'rai', 'iai')
        if und:
            s += 'let c = if c & 0x30 == 0x30 { c & !0x30 } else { c };\n'
        s += 'let x = v.%s(); let e = (b >> %d) & %d; chk(x as u8 == %s, %d);\n' % (
            get, sh_, (1 << w) - 1, 'if e == 3 { 0 } else { e }' if und else 'e', g.id('%s read from its bits' % f))
        s += 'let y = src.%s(); let mut w = v; w.set_%s(y);\n' % (get, f)
        s += 'chk(w.to_u8() == (b & !%d) | (c & %d), %d);\n' % (m, m, g.id('setting %s changes exactly its bits' % f))
        s += 'chk(w.%s() as u8 == y as u8, %d);\ncover(%d);' % (get, g.id('%s reads back as set' % f), g.id('reached'))
        g.add(h, s)
    # history: any sequence of K set operations acts like the same operations on an octet
    K = 6 if deep else 3
    g.cur = h = 'c08_history'
    s = 'let mut b = ru8(); let mut v = PduStatusRecord::from_u8(b); let mut i = 0;\nwhile i < %d { let op = ru8(); let c = ru8(); let src = PduStatusRecord::from_u8(c);\nmatch op {\n' % K
    for k, (f, t, sh_, w) in enumerate(one + two):
        get = f if (f, t, sh_, w) in one else 'get_' + f
        m = ((1 << w) - 1) << sh_
        c = 'if c & 0x30 == 0x30 { 0 } else { c & 0x30 }' if f in ('dti', 'rai', 'iai') else 'c & %d' % m
        s += '%d => { v.set_%s(src.%s()); b = (b & !%d) | (%s); }\n' % (k, f, get, m, c)
    s += '_ => {} } i += 1; }\nchk(v.to_u8() == b, %d); cover(%d);' % (g.id('any sequence of settings'), g.id('reached'))
    g.add(h, s)


# ------------------------------------------------------------------------------------ C09
INT_FNS = {'AntennaPattern': 'u16', 'ModulationParameters': 'u8'}
GREEDY = {('GridAxisDescriptor', 1), ('GridDataRecord', 0), ('GridDataRecord', 1)}


def rec_variants(r, deep=False):
    if is_fixed('rec:' + r):
        return [Shape()]
    if r == 'EntityMarking':
        return [Shape(strlen=k) for k in ((0, 5, 10, 11, 12, 15) if not deep else range(0, 17))]
    if r == 'GridAxisDescriptor':
        return [Shape(0, 0, grid=0), Shape(0, 0, grid=1), Shape(2, 4, grid=1), Shape(3, 2, grid=1)] + ([Shape(9, 6, grid=1)] if deep else []) + [Shape(11, 3, grid=1), Shape(300, 0, grid=1)]
    if r == 'GridDataRecord':
        o = []
        for gr in (0, 1, 2):
            o += [Shape(0, 0, grid=gr), Shape(3, 3 if gr < 2 else 0, grid=gr)] + ([Shape(8, 6 if gr < 2 else 0, grid=gr)] if deep else []) + [Shape(11, 0, grid=gr), Shape(300, 0, grid=gr)]
        return o
    if r == 'VariableDatumRecord':
        return rec_big(r, deep) + [Shape(bits=b) for b in ((0, 1, 8, 20, 63, 64, 65) if not deep else (0, 1, 7, 8, 9, 16, 20, 32, 56, 57, 63, 64, 65, 72, 127, 128, 129, 192, 200))]
    out = [Shape(0, 0, 0, 5, 0), Shape(1, 3, 20, 5, 1), Shape(2, 5, 64, 5, 2)]
    if deep:
        out += [Shape(3, 8, 65, 5, 3), Shape(4, 1, 128, 5, 1), Shape(1, 33, 7, 5, 1), Shape(6, 2, 1, 5, 2)]
    return out + rec_big(r, deep)


def rec_big(r, deep):
    bs = big_shapes(['rec:' + r], deep)
    if r == 'ModulationParameters':
        bs = [Shape(nbytes=k) for k in (33, 128, 255)]
    if any(s.startswith('list:') and not is_fixed(':'.join(s.split(':')[2:])) for _, s in RECS[r]['fields']):
        bs.append(Shape(3, 2, 20, 9, 1, grid=1, n2=2, het=True))
    return bs


def has(r, tr):
    """does the table say the record implements the field traits"""
    return r in FIELD_RECS


LENGTHS = {'AngularVelocity': 12, 'ApaData': 4, 'BeamData': 20, 'DeadReckoningParameters': 40, 'EmitterSystem': 4, 'EntityCoordinateVector': 12,
           'EntityId': 6, 'EntityMarking': 12, 'EntityType': 8, 'EulerAngles': 12, 'EventId': 6, 'FundamentalOperationalData': 16,
           'IFFFundamentalParameterData': 24, 'LayerHeader': 4, 'LinearAcceleration': 12, 'LinearVelocity': 12, 'PropulsionSystemData': 8,
           'SecondaryOperationalData': 4, 'ShaftRPMs': 8, 'SimulationAddress': 4, 'SimulationIdentifier': 6, 'SystemId': 6,
           'VariableParameter': 16, 'Vector3Double': 24, 'VectoringNozzleSystemData': 8, 'WorldCoordinate': 24}


def c09(g, deep=False):
    for r in RECS:
        sp = 'rec:' + r
        T = rpath(r)
        fld = r in FIELD_RECS
        opaque = r in INT_FNS
        for vi, sh in enumerate(rec_variants(r, deep)):
            if opaque and sh.nbytes == 0 and vi:
                continue
            # encoding
            g.cur = h = 'c09_%s_enc%d' % (r, vi)
            if opaque:
                nb = sh.nbytes
                if nb == 0:
                    s = 'let v = %s::new();\nlet raw: [u8; 0] = [];\n' % T
                    s += 'chk(%s::deserialize(&mut &[1u8, 2][..], 0).is_none(), %d);\n' % (T, g.id('%s: nothing is read for length 0' % r))
                else:
                    s = 'let raw: [u8; %d] = any(); let mut c = &raw[..]; let v = match %s::deserialize(&mut c, %d) { Some(v) => v, None => { chk(false, %d); return; } };\n' % (
                        nb + 2, T, nb, g.id('%s: decoded' % r))
                    s += 'chk(c.len() == 2, %d);\nlet raw = &raw[..%d];\n' % (g.id('%s: octets consumed' % r), nb)
                    s += 'let mut c2 = raw; let w = <%s as FieldDeserializeWithLen>::deserialize_with_len(&mut c2, %d); chk(c2.is_empty() && w.field_len() == %d, %d); forget(w);\n' % (
                        T, nb, nb, g.id('%s: length-driven decoding' % r))
                s += 'let mut w = Out::new(); let o = &mut w; let mut i = 0; while i < raw.len() { o.p(raw[i]); i += 1; }\n'
            else:
                s = 'let v = %s;\nlet mut w = Out::new(); let o = &mut w;\n%s\n' % (g.mk(sp, sh, True), g.enc(sp, 'v', sh))
            s += 'let pre = any::<2>(); let mut buf = BytesMut::with_capacity(8448); buf.put_slice(&pre);\nv.serialize(&mut buf);\n'
            s += 'chk(buf.len() == o.n + 2, %d);\nassume(buf.len() == o.n + 2);\n' % g.id('%s: encoded size (shape: %s)' % (r, sh))
            s += 'chk(eqs(&buf[..2], &pre), %d);\n' % g.id('%s: octets already in the buffer are kept' % r)
            s += 'chk(same(&buf, 2, o, 0, o.n), %d);\n' % g.id('%s: encoded octets (shape: %s)' % (r, sh))
            if fld:
                s += 'chk(<%s as FieldLen>::field_len(&v) == o.n, %d);\n' % (T, g.id('%s: reported length (shape: %s)' % (r, sh)))
                s += 'let mut b2 = BytesMut::with_capacity(8448); <%s as FieldSerialize>::serialize_field(&v, &mut b2);\n' % T
                s += 'chk(eqs(&b2, &buf[2..]), %d); forget(b2);\n' % g.id('%s: field encoding is record encoding (shape: %s)' % (r, sh))
            if r in LENGTHS:
                s += 'chk(<%s as open_dis_rust::common::SerializedLength>::LENGTH == o.n, %d);\n' % (T, g.id('%s: LENGTH constant' % r))
            s += 'cover(%d); forget(v); forget(buf);' % g.id('reached')
            g.add(h, s, record=r, shape=str(sh))
            if opaque:
                continue
            # decoding
            trail = [0, 3] if (r, sh.grid) in GREEDY else [3]
            for tr in trail:
                g.cur = h = 'c09_%s_dec%d%s' % (r, vi, '_t' if tr and len(trail) > 1 else '')
                sets, end = g.sets(sp, 0, sh)
                s = 'let mut b: [u8; %d] = any();\n' % (end + tr)
                for o, bs in sets:
                    for i, x in enumerate(bs):
                        s += 'b[%d] = %d; ' % (o + i, x)
                if r == 'EntityMarking':
                    if vi:
                        continue
                    s += 'let mut i = 1; while i < 12 { assume(b[i] < 0x80); i += 1; }\n'
                if r == 'GridAxisDescriptor':
                    s += 'b[19] = %d; ' % sh.grid
                    if sh.grid:
                        s += 'b[20] = %d; b[21] = %d; ' % divmod(sh.n, 256)
                if r == 'GridDataRecord':
                    s += 'b[2] = 0; b[3] = %d; ' % sh.grid
                    at = 12 if sh.grid == 1 else 4
                    s += 'b[%d] = %d; b[%d] = %d; ' % (at, sh.n >> 8, at + 1, sh.n & 255)
                s += 'let b = &b[..]; let mut s = b;\nlet v = %s::deserialize(&mut s);\n' % T
                s += 'chk(s.len() == %d, %d);\n' % (tr, g.id('%s: exactly its octets are consumed (shape: %s)' % (r, sh)))
                if not (tr and len(trail) > 1):
                    s += '{ let mut q = 0usize; let p = &mut q; chk(%s, %d); }\n' % (g.dec(sp, 'v', sh), g.id('%s: decoded value (shape: %s)' % (r, sh)))
                    if fld:
                        s += 'let mut s2 = b; let v2 = <%s as FieldDeserialize>::deserialize_field(&mut s2);\n' % T
                        s += 'chk(s2.len() == %d, %d);\n' % (tr, g.id('%s: field decoding consumes the same octets (shape: %s)' % (r, sh)))
                        s += '{ let mut q = 0usize; let p = &mut q; chk(%s, %d); }\nforget(v2);\n' % (g.dec(sp, 'v2', sh), g.id('%s: field decoding gives the same value (shape: %s)' % (r, sh)))
                s += 'cover(%d); forget(v);' % g.id('reached')
                g.add(h, s, record=r, shape=str(sh))


# ------------------------------------------------------------------------------------ C10
def c10(g, deep=False):
    for e, E in ENUMS.items():
        w = E['width']
        if w is None:
            continue
        g.codes(e)
        g.cur = h = 'c10_' + e
        T = epath(e)
        s = 'let b: [u8; %d] = any(); let mut s = &b[..];\nlet v = %s::deserialize(&mut s);\nlet x = u%d::from_be_bytes(g(&b, &mut 0)) as u32;\n' % (w + 2, T, 8 * w)
        s += 'chk(s.len() == 2, %d);\n' % g.id('%s: octets consumed' % e)
        s += 'chk(v as u32 == exp_%s(x), %d);\n' % (e, g.id('%s: known code decodes to its value, unknown code to the default' % e))
        if E['field'] is not None:
            s += 'let mut s2 = &b[..]; let v2 = <%s as FieldDeserialize>::deserialize_field(&mut s2);\n' % T
            s += 'chk(v2 as u32 == exp_%s(x) && s2.len() == %d, %d);\n' % (e, w + 2 - E['field'], g.id('%s: field decoding' % e))
            s += 'let mut o = BytesMut::with_capacity(16); v2.serialize_field(&mut o);\n'
            s += 'chk(o.len() == %d && v2.field_len() == %d, %d);\nassume(o.len() == %d);\n' % (E['field'], E['field'], g.id('%s: encoded size' % e), E['field'])
            s += 'chk(u%d::from_be_bytes(g(&o, &mut 0)) as u32 == exp_%s(x), %d); forget(o);\n' % (8 * E['field'], e, g.id('%s: known codes encode to themselves' % e))
        vs = E['variants']
        for k in range(0, len(vs), 400):
            s += 'chk(%s, %d);\n' % (' && '.join('(%s::%s as u32) == %d' % (T, v, c) for v, c in vs[k:k + 400]), g.id('%s: code of each value' % e))
        s += 'cover(%d);' % g.id('reached')
        g.add(h, s, enum=e)
    # conversions of the status indicators
    for t in ('DetonationTypeIndicator', 'RadioAttachedIndicator', 'IntercomAttachedIndicator'):
        g.cur = h = 'c10_from_' + t
        s = 'let x = ru8(); let v = en::%s::from(x); let e = if x & 3 == 3 { 0 } else { x & 3 };\n' % t
        s += 'chk(v as u8 == e, %d); chk(u8::from(v) == e, %d); cover(%d);' % (g.id(t + ': from an octet'), g.id(t + ': to an octet'), g.id('reached'))
        g.add(h, s, enum=t)


# ------------------------------------------------------------------------------------ C11
def c11(g, deep=False):
    """size limit, list lengths symbolic"""
    for n in PDUS:
        P = PDUS[n]
        fx = fixed_end(n)
        for f, sp, _ in P['fields']:
            if not sp.startswith('vec:') or not is_fixed(sp[4:]) or f == 'padding':
                continue
            es = fsize(sp[4:])
            g.cur = h = 'c11_%s_%s' % (n, f)
            s = 'let mut p = %s::default();\nlet n = ru32() as usize; assume(n <= 0xfff_ffff);\np.%s = vec_of_len(n);\n' % (pdu_path(n), f)
            s += 'let want = %d + %d * n;\nlet fits = want <= 8192;\n' % (fx, es)
            s += 'let c = p.calculate_length();\n'
            s += 'chk(c.is_ok() == fits, %d);\n' % g.id('%s.%s: a length is calculated exactly for PDUs of at most 8192 octets' % (n, f))
            s += 'p.finalize();\nmatch &c { Ok(l) => { chk(*l as usize == want, %d); chk(p.header().length == *l, %d); cover(%d); }\n' % (
                g.id('%s.%s: calculated length' % (n, f)), g.id('%s.%s: finalize sets the calculated length' % (n, f)), g.id('reached fits'))
            s += 'Err(e) => { chk(matches!(e, DISError::PduSizeExceeded { size, max_size: 8192 } if *size == want), %d); chk(p.header().length == 0, %d);\n' % (
                g.id('%s.%s: the error names the size and the limit' % (n, f)), g.id('%s.%s: finalize leaves no bogus length' % (n, f)))
            s += 'let pre = any::<3>(); let mut buf = BytesMut::with_capacity(64); buf.put_slice(&pre);\nlet r = p.serialize(&mut buf);\n'
            s += 'chk(r.is_err(), %d);\n' % g.id('%s.%s: an oversized PDU is not encoded' % (n, f))
            s += 'chk(eqs(&buf, &pre), %d);\ncover(%d); forget(buf); forget(r); } }\nforget(p); forget(c);' % (
                g.id('%s.%s: nothing is written for an oversized PDU' % (n, f)), g.id('reached oversized'))
            g.add(h, s, pdu=n, opts=dict(max_steps=3_000_000))
    # the largest PDU there can be, and one octet more, really encoded
    for k, ok in ((8192 - 32, True), (8192 - 31, False)):
        g.cur = h = 'c11_boundary_%d' % k
        s = 'let mut p = open_dis_rust::radio_communications::SignalPdu::default(); let x = ru8(); let mut v = Vec::with_capacity(%d); let mut i = 0; while i < %d { v.push(x); i += 1; } p.data = v;\n' % (k, k)
        s += 'let mut buf = BytesMut::with_capacity(9000); let r = p.serialize(&mut buf);\n'
        if ok:
            s += 'chk(r.is_ok() && buf.len() == 8192 && p.header().length == 8192 && buf[8] == 0x20 && buf[9] == 0 && buf[8191] == x && buf[32] == x, %d);\n' % g.id('SignalPdu: 8192 octets are encoded')
        else:
            s += 'chk(r.is_err() && buf.is_empty(), %d);\n' % g.id('SignalPdu: 8193 octets are not')
        s += 'cover(%d); forget(p); forget(buf); forget(r);' % g.id('reached')
        g.add(h, s, cost=20)
    g.cur = h = 'c11_constants'
    s = 'let n = ru64() as usize; chk(validate_pdu_size(n) == (n <= 8192), %d);\n' % g.id('validate_pdu_size')
    s += 'assume(n < usize::MAX - 12); chk(total_pdu_size(n) == n + 12, %d);\n' % g.id('total_pdu_size')
    s += 'chk(validate_marking_length(n) == (n <= 32), %d);\n' % g.id('validate_marking_length')
    s += 'chk(MAX_PDU_SIZE_OCTETS == 8192 && MAX_PDU_SIZE_BITS == 65536 && PDU_HEADER_SIZE == 12 && MAX_ENTITY_MARKING_LENGTH == 32, %d); cover(%d);' % (g.id('limits'), g.id('reached'))
    g.add(h, s)


C11_PRELUDE = """
/// a list reporting `n` elements; only its length is ever looked at
#[cfg(not(feature = "replay"))]
fn vec_of_len<T>(n: usize) -> Vec<T> {
    unsafe { Vec::from_raw_parts(std::ptr::NonNull::dangling().as_ptr(), n, n) }
}
#[cfg(feature = "replay")]
fn vec_of_len<T>(n: usize) -> Vec<T> {
    unsafe extern "C" {
        fn mmap(at: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    }
    // private, anonymous, no reserve: pages only exist once they are written
    let p = unsafe { mmap(std::ptr::null_mut(), std::mem::size_of::<T>() * n.max(1), 3, 0x4022, -1, 0) };
    if p as isize == -1 {
        println!("UNTESTED: no room for {} elements", n);
        std::process::exit(0);
    }
    unsafe { Vec::from_raw_parts(p as *mut T, n, n) }
}
"""


# ------------------------------------------------------------------------------------ C12
FLAGS = {
    'FrozenBehavior': ('u8', {'RunSimulationClock': 0, 'TransmitUpdates': 1, 'ProcessUpdates': 2}),
    'ObjectStateAppearanceGeneral': ('u16', {'PercentComplete': 0, 'Damage': 8, 'Predistributed': 10, 'State': 11, 'IsSmoking': 12, 'IsFlaming': 13, 'IEDPresent': 14}),
    'LandPlatformAppearance': ('u32', {'PaintScheme': 0, 'MobilityKilled': 1, 'FirePowerKilled': 2, 'Damage': 3, 'IsSmokeEmanating': 5, 'IsEngineEmittingSmoke': 6,
                                       'TrailingDustCloud': 7, 'PrimaryHatch': 9, 'HeadLightsOn': 12, 'TailLightsOn': 13, 'BrakeLightsOn': 14, 'IsFlaming': 15,
                                       'LauncherOperational': 16, 'CamouflageType': 17, 'ConcealedPosition': 19, 'IsFrozen': 21, 'PowerPlantOn': 22, 'State': 23,
                                       'TentExtended': 24, 'RampExtended': 25, 'BlackoutLightsOn': 26, 'BlackoutBrakeLightsOn': 27, 'SpotSearchLight1On': 28,
                                       'InteriorLightsOn': 29, 'OccupantsSurrendered': 30, 'MaskedCloaked': 31}),
}


def c12(g, deep=False):
    for t, (u, fl) in FLAGS.items():
        T = 'en::' + t
        mask = sum(1 << b for b in fl.values())
        g.cur = h = 'c12_' + t
        s = 'let x = r%s(); let v = %s::from_bits_retain(x);\n' % (u, T)
        s += 'chk(v.bits() == x && v.as_%s() == x, %d);\n' % (u, g.id('%s: bits kept' % t))
        s += 'let f = %s::from_%s(x); chk(f.is_some() == (x & !%d == 0), %d);\n' % (T, u, mask, g.id('%s: checked conversion accepts exactly the defined bits' % t))
        s += 'if let Some(f) = f { chk(f.as_%s() == x, %d); }\n' % (u, g.id('%s: checked conversion keeps the bits' % t))
        s += 'chk(%s::default().bits() == 0, %d);\n' % (T, g.id('%s: default is empty' % t))
        for k, b in fl.items():
            s += 'chk(%s::%s.bits() == 1 << %d && v.contains(%s::%s) == ((x >> %d) & 1 == 1), %d);\n' % (T, k, b, T, k, b, g.id('%s::%s is bit %d' % (t, k, b)))
        s += 'let y = r%s(); let w = %s::from_bits_retain(y); let mut z = v; z.insert(w); chk(z.bits() == x | y, %d); let mut z = v; z.remove(w); chk(z.bits() == x & !y, %d);\n' % (
            u, T, g.id('%s: insert' % t), g.id('%s: remove' % t))
        if t != 'LandPlatformAppearance':
            n = W[u]
            s += 'let b: [u8; %d] = any(); let mut s = &b[..]; let d = <%s as FieldDeserialize>::deserialize_field(&mut s);\n' % (n + 1, T)
            s += 'chk(s.len() == 1 && d.bits() == %s::from_be_bytes(g(&b, &mut 0)), %d);\n' % (u, g.id('%s: every bit is decoded' % t))
            s += 'let mut o = BytesMut::with_capacity(16); d.serialize_field(&mut o); chk(d.field_len() == %d && eqs(&o, &b[..%d]), %d); forget(o);\n' % (n, n, g.id('%s: every bit is encoded' % t))
        s += 'cover(%d);' % g.id('reached')
        g.add(h, s)


# ------------------------------------------------------------------------------------ C14
def c14(g, deep=False):
    bits = 10 if deep else 8
    V = 'vector3_float::Vector3Float'

    def iv(nm, k=bits):
        return ('let [%sx, %sy, %sz] = [ri(%d), ri(%d), ri(%d)]; let %s = %s::new(%sx as f32, %sy as f32, %sz as f32);\n'
                % (nm, nm, nm, k, k, k, nm, V, nm, nm, nm))
    eq = lambda v, a, b, c: '%s.x == (%s) as f32 && %s.y == (%s) as f32 && %s.z == (%s) as f32' % (v, a, v, b, v, c)
    for fr in (0, 2) + ((5, 9) if deep else ()):
        # the components are multiples of 2^-fr: the exact results are representable
        one = '%.20ff32' % 2.0 ** -fr
        two = '%.20ff32' % 4.0 ** -fr
        sc = lambda v: 'let %s = %s::new(%s.x * %s, %s.y * %s, %s.z * %s);\n' % (v, V, v, one, v, one, v, one) if fr else ''
        tag = '_q%d' % fr if fr else ''
        on = ' on integers' if not fr else ' on multiples of 1/%d' % (1 << fr)
        for nm, e, ref, u in (('add', 'a + b', ('ax + bx', 'ay + by', 'az + bz'), one), ('sub', 'a - b', ('ax - bx', 'ay - by', 'az - bz'), one),
                              ('cross', 'a.cross(&b)', ('ay * bz - az * by', 'az * bx - ax * bz', 'ax * by - ay * bx'), two)):
            for ci, comp in enumerate('xyz'):
                g.cur = h = 'c14_%s_%s%s' % (nm, comp, tag)
                s = iv('a') + iv('b') + sc('a') + sc('b') + 'let c = %s;\n' % e
                s += 'chk(c.%s == (%s) as f32 * %s, %d);\n' % (comp, ref[ci], u, g.id('%s: exact%s' % (nm, on)))
                s += 'cover(%d);' % g.id('reached')
                g.add(h, s)
        g.cur = h = 'c14_dot' + tag
        g.add(h, iv('a') + iv('b') + sc('a') + sc('b') + 'chk(a.dot(&b) == (ax * bx + ay * by + az * bz) as f32 * %s, %d); cover(%d);' % (two, g.id('dot: exact' + on), g.id('reached')))
        g.cur = h = 'c14_mul' + tag
        g.add(h, iv('a') + sc('a') + 'let k = ri(%d); let c = a * (k as f32 * %s); chk(c.x == (ax * k) as f32 * %s && c.y == (ay * k) as f32 * %s && c.z == (az * k) as f32 * %s, %d); cover(%d);' % (
            bits, one, two, two, two, g.id('scalar product: exact' + on), g.id('reached')))
    for k in (1, -1, 3, 5, -7, 10, 101):
        g.cur = h = 'c14_div_%s' % str(k).replace('-', 'm')
        g.add(h, iv('a') + 'let c = %s::new((ax * %d) as f32, (ay * %d) as f32, (az * %d) as f32) / (%d as f32); chk(%s, %d); cover(%d);' % (
            V, k, k, k, k, eq('c', 'ax', 'ay', 'az'), g.id('quotient: exact on multiples'), g.id('reached')))
    g.cur = h = 'c14_consts'
    s = 'let z = %s::zero(); let o = %s::one(); let (i, j, k) = (%s::unit_x(), %s::unit_y(), %s::unit_z());\n' % (V, V, V, V, V)
    s += 'chk(%s && %s, %d); chk(%s && %s && %s, %d);\n' % (eq('z', '0', '0', '0'), eq('o', '1', '1', '1'), g.id('zero and one'),
                                                         eq('i', '1', '0', '0'), eq('j', '0', '1', '0'), eq('k', '0', '0', '1'), g.id('unit vectors'))
    s += 'let [x, y, w] = [rf32(), rf32(), rf32()]; let v = %s::new(x, y, w); chk(v.x.to_bits() == x.to_bits() && v.y.to_bits() == y.to_bits() && v.z.to_bits() == w.to_bits(), %d); cover(%d);' % (V, g.id('new'), g.id('reached'))
    g.add(h, s)
    for ax in 'xyz':
        # magnitude and direction along an axis, for every float whose square neither overflows nor underflows
        g.cur = h = 'c14_axis_' + ax
        s = 'let e = ru8(); assume(e >= 64 && e <= 190); let m = ru32() & 0x%x; let sg = ru8() & 1; let x = f32::from_bits((sg as u32) << 31 | (e as u32) << 23 | m << 13);\n' % (0x3ff if deep else 0x3f)
        s += 'let mut v = %s::zero(); v.%s = x; let mag = v.magnitude(); chk(mag == x.abs(), %d);\n' % (V, ax, g.id('magnitude along an axis'))
        s += 'match v.normalize() { Some(u) => { chk((u.%s - if sg == 1 { -1.0 } else { 1.0 }).abs() <= 0.0000005, %d); cover(%d); } None => { chk(false, %d); } }' % (
            ax, g.id('direction along an axis'), g.id('reached'), g.id('a non-zero vector has a direction'))
        g.add(h, s)
    g.cur = h = 'c14_pythagoras'
    s = 'let k = ri(%d); let which = ru8() %% 3; let (p, q) = ((3 * k) as f32, (4 * k) as f32);\n' % (6 if deep else 4)
    s += 'let v = if which == 0 { %s::new(p, q, 0.0) } else if which == 1 { %s::new(0.0, p, q) } else { %s::new(q, 0.0, p) };\n' % (V, V, V)
    s += 'chk(v.magnitude() == (5 * k).abs() as f32, %d); chk(v.normalize().is_none() == (k == 0), %d); cover(%d);' % (g.id('magnitude of 3-4-5 vectors'), g.id('only the zero vector has no direction'), g.id('reached'))
    g.add(h, s)
    # fixed directions, orientations and scales (a symbolic selector; the floating-point values are constants on every path)
    dirs = ((1, 2, 2), (2, 3, 6), (4, 4, 7), (1, 4, 8), (0, 3, 4), (3, 0, 4), (5, 12, 0), (6, 6, 7), (9, 2, 6))
    for i, d in enumerate(dirs if deep else dirs[:6]):
        n = round(sum(x * x for x in d) ** 0.5)
        g.cur = h = 'c14_direction_%d' % i
        ids = [g.id('magnitude of an integer vector with integer magnitude'), g.id('normalized components'), g.id('a non-zero vector has a direction')]
        s = 'let sel = ru8();\nmatch sel {\n'
        k = 0
        for sc in (1.0, 0.25, 1024.0):
            for sg in range(8):
                c = ['%.9ff32' % (x * sc * (-1 if sg >> j & 1 else 1)) for j, x in enumerate(d)]
                u = ['%.9ff32' % (x / n * (-1 if sg >> j & 1 else 1)) for j, x in enumerate(d)]
                s += '%d => direction(%s, %.3ff32, %s, %d, %d, %d),\n' % (k, ', '.join(c), n * sc, ', '.join(u), *ids)
                k += 1
        s += '_ => {} }\ncover(%d);' % g.id('reached')
        g.add(h, s)


C14_PRELUDE = """
/// an integer in -2^bits .. 2^bits - 1
#[inline(never)]
fn direction(x: f32, y: f32, z: f32, m: f32, a: f32, b: f32, c: f32, i0: u32, i1: u32, i2: u32) {
    let v = vector3_float::Vector3Float::new(x, y, z);
    chk(v.magnitude() == m, i0);
    match v.normalize() {
        Some(u) => chk((u.x - a).abs() <= 0.0000005 && (u.y - b).abs() <= 0.0000005 && (u.z - c).abs() <= 0.0000005, i1),
        None => chk(false, i2),
    }
}
fn ri(bits: u32) -> i32 { (ru16() & ((2u16 << bits) - 1)) as i32 - (1 << bits) }
"""

# ------------------------------------------------------------------------------------ C13
def c13(g, deep=False):
    for H in ('PduHeader', 'LiveEntityPduHeader'):
        for k, call in enumerate(('%s::calculate_dis_timestamp()' % H, '%s::new(PduType::Fire, ProtocolFamily::Warfare, 1, 0).timestamp' % H, '%s::default().timestamp' % H)):
            for later in (0, 1):
                # later: another timestamp was made any time before
                g.cur = h = 'c13_%s_%d%s' % (H, k, '_later' if later else '')
                s = 'let _ = %s; pause();\n' % call if later else ''
                s += 'let (s0, u0) = clock(); let t = %s as u64; let (s1, u1) = clock();\n' % call
                s += 'let a = (s0 % 3600) * 1_000_000 + u0; let b = (s1 % 3600) * 1_000_000 + u1;\n'
                s += 'let lo = t * 168 + 168 * 300 >= a * 100 - a / 2; let hi = t * 168 <= b * 100 + b / 2 + 168 * 300;\n'
                s += 'if s0 / 3600 == s1 / 3600 { chk(lo, %d); chk(hi, %d); cover(%d); } else { chk(lo || hi, %d); cover(%d); }' % (
                    g.id('%s: the timestamp is not before the start of the call' % H), g.id('%s: the timestamp is not after the end of the call' % H), g.id('reached same hour'),
                    g.id('%s: the timestamp belongs to the call even across the hour' % H), g.id('reached hour change'))
                g.add(h, s)
    for H in ('PduHeader', 'LiveEntityPduHeader'):
        g.cur = h = 'c13_%s_order' % H
        s = 'let (s0, u0) = clock(); let t0 = %s::calculate_dis_timestamp(); let t1 = %s::calculate_dis_timestamp(); let (s1, u1) = clock();\n' % (H, H)
        s += 'if s0 / 3600 == s1 / 3600 { chk(t0 <= t1, %d); cover(%d); }' % (g.id('%s: timestamps never go back within an hour' % H), g.id('reached'))
        g.add(h, s)


C13_PRELUDE = """
/// what the system clock shows: seconds and microseconds
fn clock() -> (u64, u64) {
    match std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH) {
        Ok(d) => (d.as_secs(), d.subsec_micros() as u64),
        Err(_) => { assume(false); (0, 0) }
    }
}
"""

# ------------------------------------------------------------------------------------ C16
C16_PRELUDE = r"""
use open_dis_rust::common::SerializedLength;
use open_dis_rust::define_pdu;
use open_dis_rust::pdu_macro::{check_remaining, checked_field_len};
/// a field of user-defined content whose size is kept in another field
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Blob { pub d: Vec<u8> }
impl FieldSerialize for Blob { fn serialize_field(&self, buf: &mut BytesMut) { buf.put_slice(&self.d); } }
impl FieldLen for Blob { fn field_len(&self) -> usize { self.d.len() } }
impl FieldDeserializeWithLen for Blob {
    fn deserialize_with_len<B: Buf>(buf: &mut B, len: usize) -> Self {
        let mut d = Vec::with_capacity(len);
        let mut i = 0;
        while i < len { d.push(buf.get_u8()); i += 1; }
        Blob { d }
    }
}
/// a field that reports any size (its content is never looked at)
#[derive(Default, Clone, Debug, PartialEq)]
pub struct Huge { pub n: usize }
impl FieldSerialize for Huge { fn serialize_field(&self, buf: &mut BytesMut) { buf.put_u8(0x5a); } }
impl FieldLen for Huge { fn field_len(&self) -> usize { self.n } }
impl FieldDeserializeWithLen for Huge { fn deserialize_with_len<B: Buf>(buf: &mut B, len: usize) -> Self { buf.advance(len); Huge { n: len } } }
/// a buffer of any length; the octets beyond the first ones are never looked at
pub struct Far { b: [u8; 24], pos: usize, len: usize }
impl Buf for Far {
    fn remaining(&self) -> usize { self.len - self.pos }
    fn chunk(&self) -> &[u8] { if self.pos > 23 { &self.b[23..] } else { &self.b[self.pos..] } }
    fn advance(&mut self, cnt: usize) { assert!(cnt <= self.len - self.pos); self.pos += cnt; }
}
/// a header of the user's own
#[derive(Default, Copy, Clone, Debug, PartialEq)]
pub struct MyHeader { pub t: PduType, pub f: ProtocolFamily, pub l: u16, pub x: u64 }
impl GenericHeader for MyHeader {
    fn pdu_type(&self) -> PduType { self.t }
    fn set_pdu_type(&mut self, v: PduType) { self.t = v; }
    fn protocol_family(&self) -> ProtocolFamily { self.f }
    fn set_protocol_family(&mut self, v: ProtocolFamily) { self.f = v; }
    fn length(&self) -> u16 { self.l }
    fn set_length(&mut self, v: u16) { self.l = v; }
    fn serialize(&self, buf: &mut BytesMut) { buf.put_u64(self.x); buf.put_u8(self.t as u8); buf.put_u8(self.f as u8); buf.put_u16(self.l); }
    fn deserialize<B: Buf>(buf: &mut B) -> Self { let x = buf.get_u64(); let t = PduType::deserialize(buf); let f = ProtocolFamily::deserialize(buf); MyHeader { x, t, f, l: buf.get_u16() } }
}
impl SerializedLength for MyHeader { const LENGTH: usize = 12; }
impl FieldDeserialize for MyHeader { fn deserialize_field<B: Buf>(buf: &mut B) -> Self { <MyHeader as GenericHeader>::deserialize(buf) } }
define_pdu! { #[derive(Debug)] pub struct Plain8 { header: PduHeader, pdu_type: PduType::Fire, protocol_family: ProtocolFamily::Warfare,
    fields: { pub tag: u16, pub len: u8, #[len = len] pub data: Blob, pub tail: u32, } } }
define_pdu! { #[derive(Debug)] pub struct Opt16 { header: PduHeader, pdu_type: PduType::Signal, protocol_family: ProtocolFamily::RadioCommunications,
    fields: { pub len: u16, #[len = len] pub data: Option<Blob>, pub tail: u16, } } }
define_pdu! { #[derive(Debug)] pub struct Two { header: PduHeader, pdu_type: PduType::Receiver, protocol_family: ProtocolFamily::RadioCommunications,
    fields: { pub a_len: u32, pub b_len: u8, #[len = a_len] pub a: Option<Blob>, pub mid: i16, #[len = b_len] pub b: Blob, } } }
define_pdu! { #[derive(Debug)] pub struct Own { header: MyHeader, pdu_type: PduType::Collision, protocol_family: ProtocolFamily::EntityInformation,
    fields: { pub v: u32, } } }
define_pdu! { #[derive(Debug)] pub struct Prim { header: PduHeader, pdu_type: PduType::Comment, protocol_family: ProtocolFamily::SimulationManagement,
    fields: { pub a: u8, pub b: i8, pub c: u16, pub d: i16, pub e: u32, pub f: i32, pub g: u64, pub h: i64, pub i: f32, pub j: f64, } } }
define_pdu! { #[derive(Debug)] pub struct Lists { header: PduHeader, pdu_type: PduType::Data, protocol_family: ProtocolFamily::SimulationManagement,
    fields: { pub s: String, pub v: Vec<u16>, pub w: Vec<Option<u32>>, pub o: Option<u64>, pub z: u8, } } }
define_pdu! { #[derive(Debug)] pub struct Huge8 { header: PduHeader, pdu_type: PduType::Fire, protocol_family: ProtocolFamily::Warfare,
    fields: { pub len: u8, #[len = len] pub data: Huge, } } }
define_pdu! { #[derive(Debug)] pub struct Huge8o { header: PduHeader, pdu_type: PduType::Fire, protocol_family: ProtocolFamily::Warfare,
    fields: { pub len: u8, #[len = len] pub data: Option<Huge>, } } }
define_pdu! { #[derive(Debug)] pub struct Huge16 { header: PduHeader, pdu_type: PduType::Fire, protocol_family: ProtocolFamily::Warfare,
    fields: { pub len: u16, #[len = len] pub data: Huge, } } }
define_pdu! { #[derive(Debug)] pub struct Huge16o { header: PduHeader, pdu_type: PduType::Fire, protocol_family: ProtocolFamily::Warfare,
    fields: { pub len: u16, #[len = len] pub data: Option<Huge>, } } }
define_pdu! { #[derive(Debug)] pub struct Huge32 { header: PduHeader, pdu_type: PduType::Fire, protocol_family: ProtocolFamily::Warfare,
    fields: { pub len: u32, #[len = len] pub data: Huge, } } }
define_pdu! { #[derive(Debug)] pub struct Huge64 { header: PduHeader, pdu_type: PduType::Fire, protocol_family: ProtocolFamily::Warfare,
    fields: { pub len: u64, #[len = len] pub data: Option<Huge>, } } }
"""


def c16(g, deep=False):
    # any length, every width of the length field
    for T, w, opt in (('Huge8', 1, 0), ('Huge8o', 1, 1), ('Huge16', 2, 0), ('Huge16o', 2, 1), ('Huge32', 4, 0), ('Huge64', 8, 1)):
        g.cur = h = 'c16_%s' % T
        lim = min((1 << 8 * w) - 1, 8192 - 12 - w)
        s = 'let n = ru64() as usize; assume(n <= usize::MAX - 100); let l0 = r%s(); let mut p = %s::default(); p.len = l0; p.data = %s;\n' % (
            'u%d' % (8 * w), T, 'Some(Huge { n })' if opt else 'Huge { n }')
        s += 'let pre = any::<3>(); let mut buf = BytesMut::with_capacity(128); buf.put_slice(&pre);\nlet r = p.serialize(&mut buf);\n'
        s += 'chk(r.is_ok() == (n <= %d), %d);\n' % (lim, g.id('%s: encoded exactly when length field and size limit allow' % T))
        s += 'match &r { Ok(()) => { chk(p.len as usize == n, %d);\n' % g.id('%s: the length field is set to the length' % T)
        s += 'chk(buf.len() == 3 + 12 + %d + 1, %d); assume(buf.len() == 3 + 12 + %d + 1);\n' % (w, g.id('%s: everything is encoded once' % T), w)
        s += 'chk(u%d::from_be_bytes(g(&buf, &mut 15)) as usize == n, %d);\n' % (8 * w, g.id('%s: the length is on the wire' % T))
        s += 'chk(p.header().length as usize == 12 + %d + n && u16::from_be_bytes(g(&buf, &mut 11)) as usize == 12 + %d + n, %d);\ncover(%d); }\n' % (
            w, w, g.id('%s: PDU length counts the field' % T), g.id('reached Ok'))
        s += 'Err(e) => { chk(eqs(&buf, &pre), %d);\n' % g.id('%s: nothing is written on error' % T)
        fit = '(n as u128) < (1u128 << %d)' % (8 * w)
        s += 'chk(if %s { matches!(e, DISError::PduSizeExceeded { size, max_size: 8192 } if *size == 12 + %d + n) } else { matches!(e, DISError::InvalidFieldValue { .. }) }, %d);\n' % (
            fit, w, g.id('%s: the error tells an unrepresentable length from an oversized PDU' % T))
        s += 'cover(%d); } }\nforget(r); forget(buf);\n' % g.id('reached Err')
        g.add(h, s)
        # decoding hands the wire's length to the field, whatever it is and however long the buffer is
        g.cur = h = 'c16_%s_wire' % T
        s = 'let mut b: [u8; 24] = any(); b[2] = 2; let n = u%d::from_be_bytes(g(&b, &mut 12)); let total = ru64(); assume(total >= 24 && total <= 1u64 << 62);\n' % (8 * w)
        s += 'let mut c = Far { b, pos: 0, len: total as usize }; match %s::deserialize(&mut c) { Ok(q) => {\n' % T
        s += 'chk(n as u64 <= total - %d, %d);\n' % (12 + w, g.id('%s: decoded only when all of it is there' % T))
        s += 'chk(q.len == n, %d); chk(c.pos as u64 == %d + n as u64, %d);\n' % (g.id('%s: the decoded length' % T), 12 + w, g.id('%s: exactly its octets are consumed' % T))
        if opt:
            s += 'chk(match &q.data { Some(x) => n > 0 && x.n as u64 == n as u64, None => n == 0 }, %d);\n' % g.id('%s: the length on the wire is handed to the field' % T)
        else:
            s += 'chk(q.data.n as u64 == n as u64, %d);\n' % g.id('%s: the length on the wire is handed to the field' % T)
        s += 'cover(%d); forget(q); }\n' % g.id('reached Ok')
        s += 'Err(e) => { chk(n as u64 > total - %d && matches!(e, DISError::BufferUnderflow { .. }), %d);%s forget(e); } }' % (
            12 + w, g.id('%s: an error only for missing octets' % T), ' cover(%d);' % g.id('reached Err') if w > 1 else '')
        g.add(h, s)
    sizes = (0, 1, 2, 5, 16) if deep else (0, 1, 5)
    for k in sizes:
        g.cur = h = 'c16_plain8_%d' % k
        s = 'let mut p = Plain8::default(); p.tag = ru16(); p.len = ru8(); p.tail = ru32(); p.data = Blob { d: rbytes(%d) };\n' % k
        s += 'let mut buf = BytesMut::with_capacity(128); let r = p.serialize(&mut buf);\nchk(r.is_ok() && buf.len() == %d && p.header().length == %d, %d); assume(buf.len() == %d);\n' % (
            19 + k, 19 + k, g.id('field with a length: encoded size'), 19 + k)
        s += 'chk(buf[2] == 2 && buf[3] == 2 && buf[8] == 0 && buf[9] == %d && buf[0] == p.header().protocol_version as u8, %d);\n' % (19 + k, g.id('type, family and length are stamped'))
        s += 'chk(buf[12..14] == p.tag.to_be_bytes() && buf[14] == %d && eqs(&buf[15..%d], &p.data.d) && buf[%d..] == p.tail.to_be_bytes(), %d);\n' % (k, 15 + k, 15 + k, g.id('fields in declaration order, the length updated'))
        s += 'let mut c = &buf[..]; match Plain8::deserialize(&mut c) { Ok(q) => { chk(c.is_empty() && q.tag == p.tag && q.len == %d && q.data == p.data && q.tail == p.tail && q.header() == p.header(), %d); cover(%d); forget(q); } Err(e) => { forget(e); chk(false, %d); } }\nforget(buf); forget(p); forget(r);' % (
            k, g.id('field with a length: decoded as encoded'), g.id('reached'), g.id('field with a length: decodes'))
        g.add(h, s)
        g.cur = h = 'c16_opt16_%d' % k
        s = 'let some = ru8() & 1 == 1; let mut p = Opt16::default(); p.len = ru16(); p.tail = ru16(); p.data = if some { Some(Blob { d: rbytes(%d) }) } else { None };\nlet n = if some { %d } else { 0usize };\n' % (k, k)
        s += 'let mut buf = BytesMut::with_capacity(128); let r = p.serialize(&mut buf);\nchk(r.is_ok() && buf.len() == 16 + n && p.header().length as usize == 16 + n && p.len as usize == n, %d); assume(buf.len() == 16 + n);\n' % g.id('optional field with a length: encoded size')
        s += 'chk(buf[12] == 0 && buf[13] as usize == n && buf[14 + n..] == p.tail.to_be_bytes(), %d);\n' % g.id('optional field with a length: its length and what follows it')
        s += 'let mut c = &buf[..]; match Opt16::deserialize(&mut c) { Ok(q) => { chk(c.is_empty() && q.len as usize == n && q.tail == p.tail && q.data.is_none() == (n == 0), %d);\n' % g.id('optional field with a length: absent exactly when the length is 0')
        s += 'if let (Some(x), Some(y)) = (&q.data, &p.data) { chk(x == y, %d); }\ncover(%d); forget(q); } Err(e) => { forget(e); chk(false, %d); } }\nforget(buf); forget(p); forget(r);' % (
            g.id('optional field with a length: decoded as encoded'), g.id('reached'), g.id('optional field with a length: decodes'))
        g.add(h, s)
        for j in sizes:
            g.cur = h = 'c16_two_%d_%d' % (k, j)
            s = 'let mut p = Two::default(); p.a_len = ru32(); p.b_len = ru8(); p.mid = ri16(); p.a = %s; p.b = Blob { d: rbytes(%d) };\n' % ('Some(Blob { d: rbytes(%d) })' % k if k else 'None', j)
            s += 'let mut buf = BytesMut::with_capacity(128); let r = p.serialize(&mut buf);\nchk(r.is_ok() && buf.len() == %d && p.a_len == %d && p.b_len == %d, %d); assume(buf.len() == %d);\n' % (
                19 + k + j, k, j, g.id('two fields with lengths: each has its own'), 19 + k + j)
            s += 'let mut c = &buf[..]; match Two::deserialize(&mut c) { Ok(q) => { chk(c.is_empty() && q.a == p.a && q.b == p.b && q.mid == p.mid && q.a_len == %d && q.b_len == %d, %d); cover(%d); forget(q); } Err(e) => { forget(e); chk(false, %d); } }\nforget(buf); forget(p); forget(r);' % (
                k, j, g.id('two fields with lengths: decoded as encoded'), g.id('reached'), g.id('two fields with lengths: decodes'))
            g.add(h, s)
    # arbitrary octets, arbitrary length on the wire
    N = 40 if deep else 28
    for T, ty, lw in (('Plain8', 2, 1), ('Opt16', 26, 2)):
        g.cur = h = 'c16_%s_wire' % T
        fx = 19 if T == 'Plain8' else 16
        at = 14 if T == 'Plain8' else 12
        s = 'let mut b: [u8; %d] = any(); b[2] = %d; let l = ru8() as usize; assume(l <= %d); let b = &b[..l]; let mut c = b; let r = %s::deserialize(&mut c);\n' % (N, ty, N, T)
        s += 'let n = if l >= %d { u%d::from_be_bytes(g(b, &mut %d)) as usize } else { 0 };\n' % (fx, 8 * lw, at)
        s += 'match r { Ok(q) => { chk(l >= %d + n, %d); assume(l >= %d + n);\n' % (fx, g.id('%s: decoded only when all of it is there' % T), fx)
        s += 'chk(c.len() == l - %d - n && q.len as usize == n, %d);\n' % (fx, g.id('%s: exactly its octets are consumed' % T))
        d = 'q.data.d' if T == 'Plain8' else 'x.d'
        st = at + lw
        body = 'let mut ok = %s.len() == n; let mut i = 0; while i < %s.len() { ok &= %s[i] == b[%d + i]; i += 1; } chk(ok, %d);' % (d, d, d, st, g.id('%s: the field is what follows' % T))
        if T == 'Opt16':
            body = 'match &q.data { Some(x) => { chk(n > 0, %d); %s } None => chk(n == 0, %d) }' % (g.id('Opt16: present only for a positive length'), body, g.id('Opt16: absent only for length 0'))
        s += body + '\nlet mut t = %d + n; chk(q.tail == u%d::from_be_bytes(g(b, &mut t)), %d);\ncover(%d); forget(q); }\n' % (st, 32 if T == 'Plain8' else 16, g.id('%s: the field after it' % T), g.id('reached Ok'))
        s += 'Err(e) => { chk(l < %d + n, %d); chk(matches!(e, DISError::BufferUnderflow { .. }), %d); cover(%d); forget(e); } }' % (
            fx, g.id('%s: complete octets decode' % T), g.id('%s: missing octets are an underflow' % T), g.id('reached Err'))
        if T == 'Opt16':
            # the wire's tail may be cut by the variable part
            pass
        g.add(h, s, cost=30)
    g.cur = h = 'c16_prim'
    s = 'let mut p = Prim::default(); p.a = ru8(); p.b = ri8(); p.c = ru16(); p.d = ri16(); p.e = ru32(); p.f = ri32(); p.g = ru64(); p.h = ri64(); p.i = rf32(); p.j = rf64();\n'
    s += 'let mut buf = BytesMut::with_capacity(128); let r = p.serialize(&mut buf); let mut w = Out::new(); let o = &mut w;\n'
    s += 'o.p(p.a); o.p(p.b as u8); o.put(p.c.to_be_bytes()); o.put(p.d.to_be_bytes()); o.put(p.e.to_be_bytes()); o.put(p.f.to_be_bytes()); o.put(p.g.to_be_bytes()); o.put(p.h.to_be_bytes()); o.put(p.i.to_bits().to_be_bytes()); o.put(p.j.to_bits().to_be_bytes());\n'
    s += 'chk(r.is_ok() && buf.len() == 54 && o.n == 42 && p.header().length == 54, %d); assume(buf.len() == 54); chk(same(&buf, 12, o, 0, 42), %d);\n' % (g.id('numbers: encoded size'), g.id('numbers: big-endian octets'))
    s += 'let mut c = &buf[..]; match Prim::deserialize(&mut c) { Ok(q) => { chk(q.a == p.a && q.b == p.b && q.c == p.c && q.d == p.d && q.e == p.e && q.f == p.f && q.g == p.g && q.h == p.h && q.i.to_bits() == p.i.to_bits() && q.j.to_bits() == p.j.to_bits(), %d); cover(%d); } Err(e) => { forget(e); chk(false, %d); } }\nforget(buf); forget(r);' % (
        g.id('numbers: decoded as encoded'), g.id('reached'), g.id('numbers: decode'))
    g.add(h, s)
    for k, (ns, nv, nw, so, st) in enumerate(((0, 0, 0, 0, 'rascii'), (3, 2, 2, 1, 'rascii'), (1, 0, 3, 0, 'rtext'), (4, 1, 0, 0, 'rtext')) + (((7, 5, 4, 1, 'rascii'), (40, 0, 0, 0, 'rtext')) if deep else ())):
        g.cur = h = 'c16_lists_%d' % k
        s = 'let mut p = Lists::default(); p.s = %s(%d); p.v = %s; p.w = %s; p.o = %s; p.z = ru8();\n' % (
            st, ns, g.mk_vec('u16', nv, None), g.mk_vec('opt:u32', nw, None), 'Some(ru64())' if so else 'None')
        s += 'let mut w = Out::new(); let o = &mut w; let sb = p.s.as_bytes(); let mut i = 0; while i < sb.len() { o.p(sb[i]); i += 1; } for e in p.v.iter() { o.put(e.to_be_bytes()); } for e in p.w.iter() { if let Some(e) = e { o.put(e.to_be_bytes()); } } if let Some(e) = &p.o { o.put(e.to_be_bytes()); } o.p(p.z);\n'
        s += 'let mut buf = BytesMut::with_capacity(256); let r = p.serialize(&mut buf);\n'
        s += 'chk(r.is_ok() && buf.len() == 12 + o.n && p.header().length as usize == 12 + o.n, %d); assume(buf.len() == 12 + o.n); chk(same(&buf, 12, o, 0, o.n), %d);\n' % (g.id('strings, lists and options: encoded size'), g.id('strings, lists and options: encoded octets'))
        s += 'cover(%d); forget(buf); forget(p); forget(r);' % g.id('reached')
        g.add(h, s)
    g.cur = h = 'c16_own_header'
    s = 'let mut p = Own::default(); p.v = ru32(); p.header_mut().x = ru64(); let x = p.header().x; let mut buf = BytesMut::with_capacity(64); let r = p.serialize(&mut buf);\n'
    s += 'chk(r.is_ok() && buf.len() == 16, %d); assume(buf.len() == 16);\n' % g.id('header of the user: encoded size')
    s += 'chk(buf[..8] == x.to_be_bytes() && buf[8] == 4 && buf[9] == 1 && buf[10] == 0 && buf[11] == 16 && buf[12..] == p.v.to_be_bytes(), %d);\n' % g.id('header of the user: stamped and encoded first')
    s += 'let mut c = &buf[..]; match Own::deserialize(&mut c) { Ok(q) => { chk(q.header() == p.header() && q.v == p.v, %d); cover(%d); } Err(e) => { forget(e); chk(false, %d); } }\n' % (g.id('header of the user: decoded as encoded'), g.id('reached'), g.id('header of the user: decodes'))
    s += 'let n = Own::new(); chk(n.header().t == PduType::Collision && n.header().f == ProtocolFamily::EntityInformation && n.header().l == 16, %d);\nforget(buf); forget(r);' % g.id('header of the user: a new PDU is stamped')
    g.add(h, s)
    g.cur = h = 'c16_helpers'
    s = 'let n = ru64() as usize;\n'
    for t in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32'):
        s += '{ let r = checked_field_len::<%s>("f", n); chk(r.is_ok() == (n <= %s::MAX as usize), %d); match r { Ok(v) => chk(v as usize == n, %d), Err(e) => { chk(matches!(e, DISError::InvalidFieldValue { .. }), %d); forget(e); } } }\n' % (
            t, t, g.id('length conversion to %s' % t), g.id('length conversion to %s keeps the value' % t), g.id('length conversion to %s: kind of error' % t))
    s += 'let b = [0u8; 9]; let l = ru8() as usize; assume(l <= 9); let r = check_remaining(&&b[..l], n); chk(r.is_ok() == (l >= n), %d); if let Err(e) = r { chk(matches!(e, DISError::BufferUnderflow { attempted, available } if attempted == n && available == l), %d); forget(e); }\ncover(%d);' % (
        g.id('remaining octets are checked'), g.id('the underflow names what was asked and what is left'), g.id('reached'))
    g.add(h, s)


# ------------------------------------------------------------------------------------ C17
def c17(g, deep=False):
    for n in PDUS:
        fs = PDUS[n]['fields']
        lists = [f for f, sp, _ in fs if sp.startswith('vec:') and f != 'padding']
        vs = [sh for sh in variants(n, deep) if sh.strlen <= 11] + opt_shapes(n)
        if any(sp == 'rec:EntityMarking' for _, sp, _ in fs) and len(vs) < 3:
            vs.append(Shape(1, 3, 20, 8, 1, [1] * len([1 for _, sp, _ in fs if sp.startswith('vec:')])))
        for vi, sh in enumerate(vs):
            g.cur = h = 'c17_%s_v%d' % (n, vi)
            # a list written before other fields shifts what follows: the prefix up to the first non-empty list is what must survive
            off, first, full, li = 12, None, [], 0
            for f, sp, lf in fs:
                if sp.startswith('vec:'):
                    if f != 'padding' and sh.lists[li]:
                        full.append(f)
                        first = off if first is None else first
                    li += 1
                    continue
                off += (osize(n, f, sh) if sp.startswith('opt:') else enc_size(sp, sh))
            s = build_pdu(g, n, sh, False)
            s += 'let mut buf = BytesMut::with_capacity(8448);\nlet r = p.serialize(&mut buf);\nassume(r.is_ok() && buf.len() >= %d);\n' % (off if first is None else first)
            s += 'let mut c = &buf[..];\nmatch %s::deserialize(&mut c) { Ok(w) => { let mut w = w;\n' % pdu_path(n)
            s += 'let mut again = BytesMut::with_capacity(8448); let r2 = w.serialize(&mut again);\n'
            s += 'chk(r2.is_ok() && again.len() >= %d, %d); assume(again.len() >= %d);\n' % (
                off if first is None else first, g.id('%s: what was decoded can be encoded' % n), off if first is None else first)
            if first is None:
                s += 'chk(c.is_empty(), %d);\n' % g.id('%s: the encoding is consumed entirely' % n)
                s += 'chk(eqs(&buf, &again), %d);\n' % g.id('%s: a round trip gives the same octets' % n)
                for f in lists:
                    s += 'chk(w.%s.is_empty(), %d);\n' % (f, g.id('%s.%s: an empty list stays empty' % (n, f)))
            else:
                s += 'chk(eqs(&buf[..8], &again[..8]) && eqs(&buf[10..%d], &again[10..%d]), %d);\n' % (first, first, g.id('%s: what precedes its lists survives a round trip' % n))
                for f in full:
                    s += 'chk(w.%s.len() == p.%s.len(), %d);\n' % (f, f, g.id('%s.%s: elements survive a round trip' % (n, f)))
                s += 'chk(%s || eqs(&buf, &again), %d);\n' % (' || '.join('w.%s.len() != p.%s.len()' % (f, f) for f in full), g.id('%s: with its lists, a round trip gives the same octets' % n))
            s += 'cover(%d);\nforget(w); forget(again); forget(r2); }\nErr(e) => { forget(e); chk(false, %d); } }\n' % (g.id('reached'), g.id('%s: what was encoded decodes' % n))
            s += 'forget(buf); forget(p); forget(r);'
            g.add(h, s, pdu=n, shape=str(sh))


# ------------------------------------------------------------------------------------ C18
CTORS = json.load(open(ROOT + '/spec/ctors.json'))
XYZ = {'x': 'first_vector_component', 'y': 'second_vector_component', 'z': 'third_vector_component'}
CTOR_MAP = {'ClockTime': {'h': 'hour', 'p': 'time_past_hour'}, 'EmitterSystem': {'name': 'emitter_name', 'id': 'emitter_id_number'},
            'EntityCoordinateVector': {'x': 'x_coordinate', 'y': 'y_coordinate', 'z': 'z_coordinate'},
            'EntityId': {'site_id': 'simulation_address.site_id', 'application_id': 'simulation_address.application_id'},
            'EventId': {'site_identifier': 'simulation_address.site_id', 'application_identifier': 'simulation_address.application_id'},
            'LinearAcceleration': XYZ, 'LinearVelocity': XYZ, 'VelocityVector': XYZ}


def fspec(r, path):
    """the table's spec of a (dotted) field"""
    sp = 'rec:' + r
    for p in path.split('.'):
        sp = dict(map(tuple, RECS[sp[4:]]['fields']))[p]
    return sp


def c18(g, deep=False):
    shapes = [Shape(0, 0, 0, 5, 0), Shape(2, 3, 20, 11, 1, grid=1), Shape(1, 2, 8, 3, 2, grid=2)] + ([Shape(5, 9, 64, 0, 3, grid=0)] if deep else [])
    for r, args in CTORS.items():
        if not args:
            continue
        m = CTOR_MAP.get(r, {})
        fixed = is_fixed('rec:' + r)
        for vi, sh in enumerate(shapes):
            if fixed and vi or r == 'GridAxisDescriptor' and sh.grid > 1:
                continue
            g.cur = h = 'c18_%s_%d' % (r, vi)
            s, names = '', []
            for i, (a, t) in enumerate(args):
                sp = fspec(r, m.get(a, a))
                s += 'let a%d = %s;\n' % (i, g.mk(sp, sh, True))
                s += 'let mut w%d = Out::new(); { let o = &mut w%d; %s }\n' % (i, i, g.enc(sp, 'a%d' % i, sh))
                names.append('a%d' % i)
            s += 'let v = %s::new(%s);\n' % (rpath(r), ', '.join(names))
            seen = set()
            for i, (a, t) in enumerate(args):
                path = m.get(a, a)
                seen.add(path.split('.')[0])
                sp = fspec(r, path)
                s += '{ let mut w = Out::new(); let o = &mut w; %s chk(w.n == w%d.n && eqs(&w.b[..w.n], &w%d.b[..w%d.n]), %d); }\n' % (
                    g.enc(sp, 'v.' + path, sh), i, i, i, g.id('%s: argument %s is kept' % (r, a)))
            for f, sp in RECS[r]['fields']:
                if f not in seen and not sp.startswith('pad:'):
                    assert is_fixed(sp), (r, f)
                    s += '{ let mut w = Out::new(); let o = &mut w; %s let mut z = true; let mut i = 0; while i < w.n { z &= w.b[i] == 0; i += 1; } chk(z, %d); }\n' % (
                        g.enc(sp, 'v.' + f, sh), g.id('%s.%s: what is not given is zero' % (r, f)))
            s += 'cover(%d); forget(v);' % g.id('reached')
            g.add(h, s, record=r)
    # new and default PDUs
    for n, P in PDUS.items():
        lists = [f for f, sp, _ in P['fields'] if sp.startswith('vec:') and f != 'padding']
        g.cur = h = 'c18_%s_new' % n
        s = 'let p = %s::new(); let d = %s::default();\n' % (pdu_path(n), pdu_path(n))
        s += 'let hd = *p.header();\n'
        s += 'chk(hd.pdu_type as u32 == %d && hd.protocol_family as u32 == %d, %d);\n' % (P['type_code'], P['family_code'], g.id('%s: a new PDU carries its type and family' % n))
        s += 'chk(hd.protocol_version as u8 == 7 && hd.exercise_id == 1 && hd.status_record.to_u8() == 0, %d);\n' % g.id('%s: a new PDU is version 7, exercise 1, without status' % n)
        s += 'let c = p.calculate_length(); chk(matches!(&c, Ok(x) if *x == hd.length), %d);\n' % g.id('%s: a new PDU states its length' % n)
        for f in lists:
            s += 'chk(p.%s.is_empty() && d.%s.is_empty(), %d);\n' % (f, f, g.id('%s.%s: lists start empty' % (n, f)))
        s += 'let mut p = p; let mut d = d; let t = ru32(); p.header_mut().timestamp = t; d.header_mut().timestamp = t;\n'
        s += 'let mut x = BytesMut::with_capacity(8448); let mut y = BytesMut::with_capacity(8448); let r = p.serialize(&mut x); let q = d.serialize(&mut y);\n'
        s += 'chk(r.is_ok() && q.is_ok() && x.len() == hd.length as usize, %d);\n' % g.id('%s: a new PDU encodes to its stated length' % n)
        s += 'chk(eqs(&x, &y), %d);\n' % g.id('%s: new and default encode alike' % n)
        s += 'chk(x.len() > 7 && x[4..8] == t.to_be_bytes() && x[2] == %d && x[3] == %d, %d);\n' % (P['type_code'], P['family_code'], g.id('%s: type, family and timestamp of a new PDU on the wire' % n))
        s += 'chk(p.as_any().is::<%s>(), %d);\n' % (pdu_path(n), g.id('%s: a new PDU is of its type' % n))
        s += 'cover(%d); forget(p); forget(d); forget(x); forget(y); forget(r); forget(q); forget(c);' % g.id('reached')
        g.add(h, s, pdu=n)
    g.cur = h = 'c18_errors'
    s = 'let a = ru64() as usize; let b = ru64() as usize;\n'
    s += 'let e = DISError::buffer_underflow(a, b); chk(matches!(&e, DISError::BufferUnderflow { attempted, available } if *attempted == a && *available == b), %d); forget(e);\n' % g.id('underflow error keeps its numbers')
    s += 'let e = DISError::pdu_size_exceeded(a, b); chk(matches!(&e, DISError::PduSizeExceeded { size, max_size } if *size == a && *max_size == b), %d); forget(e);\n' % g.id('size error keeps its numbers')
    for f, k, fld in (('invalid_header', 'InvalidHeader', 'reason'), ('deserialization_error', 'DeserializationError', 'msg'), ('serialization_error', 'SerializationError', 'msg')):
        s += 'let t = rascii(4); let u = t.clone(); let e = DISError::%s(t, None); chk(matches!(&e, DISError::%s { %s: m, source: None } if eqs(m.as_bytes(), u.as_bytes())), %d); forget(e); forget(u);\n' % (
            f, k, fld, g.id('%s keeps its message' % f))
    s += 'let f = rascii(3); let v = rascii(5); let w = rascii(2); let (f2, v2, w2) = (f.clone(), v.clone(), w.clone()); let e = DISError::invalid_field(f, v, w); chk(matches!(&e, DISError::InvalidFieldValue { field, value, reason } if eqs(field.as_bytes(), f2.as_bytes()) && eqs(value.as_bytes(), v2.as_bytes()) && eqs(reason.as_bytes(), w2.as_bytes())), %d); forget(e);\n' % g.id('field error keeps field, value and reason')
    s += 'cover(%d); forget(f2); forget(v2); forget(w2);' % g.id('reached')
    g.add(h, s)


PROPS = {}
COMMON = ['the compiled crate behaves as the LLVM IR rustc emits for it (optimised IR, overflow checks on, panic=abort); a reached panic is a violation',
          'memory allocation succeeds; text formatting of messages (alloc::fmt::format) is replaced by an empty string',
          'reference layouts in /verif/spec (written from the pinned tree, reviewed against IEEE 1278.1-2012 where its text is known, and corrected with the fix: commits) are what is right']
METHOD = ('Every harness calls the public API of /repo (compiled now, from its working tree, together with the harness) with symbolic arguments; the LLVM IR of both is executed '
          'symbolically by /verif/engine, every assertion, panic and out-of-bounds access becomes a query, and z3 (over an exact translation to linear integers, or cvc5, for the clock arithmetic) shows that no input within the bounds '
          'violates it. Counterexamples are replayed in debug and release builds before they are reported; the witness of every reachability query is executed natively too '
          '(traces_validated_against_impl), which checks the symbolic execution against the compiled code. states = symbolic states created (paths, forks, merges), transitions = IR '
          'instructions executed on them. ')


# ------------------------------------------------------------------------------------ C19
def c19(g, deep=False):
    for n in PDUS:
        end = fixed_end(n)
        cs = content_sized(n)
        x = (26 if deep else 14) if cs else 4
        for wh in (0, 1):
            g.cur = h = 'c19_%s%s' % (n, '_nohdr' if wh else '')
            N = end + x
            s = 'let mut b: [u8; %d] = any();\nb[2] = %d;\n' % (N, PDUS[n]['type_code'])
            s += ascii_assume(n, dec_layout(g, n, Shape())[0])
            s += 'let l = ru16() as usize; assume(l >= 12 && l <= %d);\n' % N
            s += 'heap(65536 + 64 * l, %d);\n' % g.id('%s: memory asked for while decoding' % n)
            if wh:
                s += 'let hd = <PduHeader as FieldDeserialize>::deserialize_field(&mut &b[..12]);\nlet mut s = &b[12..l];\n'
                s += 'let r = %s::deserialize_without_header(&mut s, hd);\n' % pdu_path(n)
            else:
                s += 'let mut s = &b[..l];\nlet r = %s::deserialize(&mut s);\n' % pdu_path(n)
            s += 'match r { Ok(v) => { cover(%d); forget(v); } Err(e) => { cover(%d); forget(e); } }' % (g.id('reached Ok'), g.id('reached Err'))
            g.add(h, s, pdu=n, cost=10 if cs else 0)

# ------------------------------------------------------------------------------------ C20
EQ_RECS = ['EntityId', 'EntityType', 'SimulationAddress']
# default contents other than zero (and the default value of enumerations)
DEFAULTS = {('SimulationAddress', 'site_id'): 1, ('SimulationAddress', 'application_id'): 1}
NO_DEFAULT = ('RecordSpecificationElement', 'GridAxisDescriptor', 'GridDataRecord', 'FixedDatumRecord', 'VariableDatumRecord')


def default_octets(sp, key=None):
    k = sp.split(':')
    if k[0] == 'rec':
        return [x for f, s2 in RECS[k[1]]['fields'] for x in default_octets(s2, (k[1], f))]
    if k[0] == 'enum':
        c = dict(ENUMS[k[1]]['variants'])[ENUMS[k[1]]['default']]
        return list(c.to_bytes(fsize(sp), 'big'))
    if k[0] in ('list', 'vec', 'bytes', 'bits', 'raw', 'opt'):
        return []
    if k[0] == 'str':
        return [0] * int(k[1])
    return list(DEFAULTS.get(key, 0).to_bytes(fsize(sp), 'big'))


def c20(g, deep=False):
    # equality
    for e, E in ENUMS.items():
        w = E['width']
        if w is None:
            continue
        T = epath(e)
        g.cur = h = 'c20_eq_' + e
        s = 'let v = %s::deserialize(&mut &any::<%d>()[..]); let w = %s::deserialize(&mut &any::<%d>()[..]); let c = v.clone();\n' % (T, w, T, w)
        s += 'let same = v as u32 == w as u32; chk((v == w) == same && (w == v) == same && (v != w) == !same, %d);\n' % g.id('%s: equal exactly when the codes are' % e)
        s += 'chk(c as u32 == v as u32 && c == v, %d);\n' % g.id('%s: a copy has the code of the original' % e)
        s += 'chk(%s::default() as u32 == %d, %d);\ncover(%d);' % (T, dict(E['variants'])[E['default']], g.id('%s: default' % e), g.id('reached'))
        g.add(h, s, enum=e)
    for t, (u, fl) in FLAGS.items():
        T = 'en::' + t
        g.cur = h = 'c20_eq_' + t
        s = 'let x = r%s(); let y = r%s(); let v = %s::from_bits_retain(x); let w = %s::from_bits_retain(y); let c = v.clone();\n' % (u, u, T, T)
        s += 'chk((v == w) == (x == y) && (v != w) == (x != y), %d); chk(c.bits() == x && c == v, %d); cover(%d);' % (
            g.id('%s: equal exactly when the bits are' % t), g.id('%s: a copy has the bits of the original' % t), g.id('reached'))
        g.add(h, s)

    def eqv(nm, mk, ser):
        g.cur = h = 'c20_eq_' + nm
        s = 'let v = %s; let w = %s; let c = v.clone();\n' % (mk, mk)
        s += 'let mut a = BytesMut::with_capacity(64); let mut b = BytesMut::with_capacity(64); let mut d = BytesMut::with_capacity(64); %s %s %s\n' % (ser('v', 'a'), ser('w', 'b'), ser('c', 'd'))
        s += 'let same = eqs(&a, &b); chk((v == w) == same && (w == v) == same && (v != w) == !same, %d);\n' % g.id('%s: equal exactly when the octets are' % nm)
        s += 'chk(eqs(&a, &d) && c == v, %d);\ncover(%d); forget(a); forget(b); forget(d);' % (g.id('%s: a copy is equal to the original' % nm), g.id('reached'))
        g.add(h, s)
    for r in EQ_RECS:
        eqv(r, g.mk('rec:' + r, Shape(), True), lambda v, b: '%s.serialize(&mut %s);' % (v, b))
    for H in ('PduHeader', 'LiveEntityPduHeader'):
        eqv(H, '<%s as GenericHeader>::deserialize(&mut &any::<12>()[..])' % H, lambda v, b: '%s.serialize(&mut %s);' % (v, b))
    eqv('PduStatusRecord', 'PduStatusRecord::from_u8(ru8())', lambda v, b: '%s.put_u8(%s.to_u8());' % (b, v))
    g.cur = h = 'c20_eq_Vector3Float'
    s = 'let v = Vector3Float { first_vector_component: rf32(), second_vector_component: rf32(), third_vector_component: rf32() };\n'
    s += 'let w = Vector3Float { first_vector_component: rf32(), second_vector_component: rf32(), third_vector_component: rf32() };\n'
    s = s.replace('Vector3Float {', '%s {' % rpath('Vector3Float'))
    fs = [f for f, _ in RECS['Vector3Float']['fields']]
    s = s.replace('first_vector_component', fs[0]).replace('second_vector_component', fs[1]).replace('third_vector_component', fs[2])
    s += 'let same = %s; chk((v == w) == same && (v != w) == !same, %d);\ncover(%d);' % (' && '.join('v.%s == w.%s' % (f, f) for f in fs), g.id('Vector3Float: equal exactly when the components are'), g.id('reached'))
    g.add(h, s)
    # grid contents
    GA = rpath('GridAxisDescriptor').rsplit('::', 1)[0] + '::GridAxisType'
    GD = rpath('GridDataRecord').rsplit('::', 1)[0] + '::DataRepresentationType'
    for nm, sp, T, kinds in (('GridAxisType', 'gridaxis', GA, (0, 1)), ('DataRepresentationType', 'griddata', GD, (0, 1, 2))):
        for k1 in kinds:
            for k2 in kinds:
                for (n1, m1), (n2, m2) in (((2, 2), (2, 2)), ((2, 1), (3, 1)), ((2, 1), (2, 2)), ((0, 0), (0, 0))):
                    if k1 != k2 and (n1, m1, n2, m2) != (2, 2, 2, 2) or (nm, k1) == ('GridAxisType', 0) and (n1, m1, n2, m2) != (2, 2, 2, 2):
                        continue
                    if (nm, k1, n1, n2) == ('DataRepresentationType', 2, 2, 2) and m1 != m2:
                        continue
                    a, b = Shape(n1, m1, grid=k1), Shape(n2, m2, grid=k2)
                    g.cur = h = 'c20_eq_%s_%d%d_%d%d%d%d' % (nm, k1, k2, n1, m1, n2, m2)
                    s = 'let v = %s; let w = %s;\n' % (g.mk(sp, a, True), g.mk(sp, b, True))
                    s += 'let same = match (&v, &w) {\n'
                    if k1 == k2:
                        if nm == 'GridAxisType':
                            F = [('FixedSpacing', ['number_of_points_on_x_axis', 'initial_index'], []),
                                 ('VariableSpacing', ['number_of_points_on_x_axis', 'initial_index', 'coordinate_scale_x', 'coordinate_offset_x'], ['x_values', 'padding'])][k1]
                        else:
                            F = [('Type0', ['number_of_octets'], ['data_values', 'padding']),
                                 ('Type1', ['field_scale', 'field_offset', 'number_of_values'], ['data_values', 'padding']),
                                 ('Type2', ['number_of_values', 'padding'], ['data_values'])][k1]
                        al = F[1] + F[2]
                        s += '(%s::%s { %s }, %s::%s { %s }) => {\n' % (T, F[0], ', '.join('%s: a%d' % (f, i) for i, f in enumerate(al)), T, F[0], ', '.join('%s: b%d' % (f, i) for i, f in enumerate(al)))
                        s += 'let mut k = true; ' + ' '.join('k &= *a%d == *b%d;' % (i, i) for i in range(len(F[1])))
                        for i in range(len(F[1]), len(al)):
                            s += ' k &= a%d.len() == b%d.len(); let mut i = 0; while i < a%d.len() && i < b%d.len() { k &= a%d[i] == b%d[i]; i += 1; }' % ((i,) * 6)
                        s += ' k }\n'
                    s += '_ => false };\nchk((v == w) == same && (v != w) == !same, %d);\ncover(%d); forget(v); forget(w);' % (
                        g.id('%s: equal exactly when kind and contents are' % nm), g.id('reached'))
                    g.add(h, s)
    # copies and defaults of records
    for r in RECS:
        sp = 'rec:' + r
        T = rpath(r)
        for vi, sh in enumerate(rec_variants(r, deep)):
            if r in INT_FNS and sh.nbytes == 0 and vi:
                continue
            g.cur = h = 'c20_%s_copy%d' % (r, vi)
            s = 'let v = %s;\n' % g.mk(sp, sh, True)
            s += 'let c = v.clone();\nlet mut x = Out::new(); { let o = &mut x; %s }\n' % g.enc(sp, 'v', sh)
            s += 'let mut y = Out::new(); { forget(v); let o = &mut y; %s }\n' % g.enc(sp, 'c', sh)
            s += 'chk(x.n == y.n, %d);\nassume(x.n == y.n); chk(eqs(&x.b[..x.n], &y.b[..x.n]), %d);\ncover(%d); forget(c);' % (
                g.id('%s: a copy has the size of the original (shape: %s)' % (r, sh)), g.id('%s: a copy has the contents of the original (shape: %s)' % (r, sh)), g.id('reached'))
            g.add(h, s, record=r, shape=str(sh))
        if r in NO_DEFAULT:
            continue
        g.cur = h = 'c20_%s_default' % r
        d = default_octets(sp)
        s = 'let v = %s::default(); let mut b = BytesMut::with_capacity(512); v.serialize(&mut b); let e: [u8; %d] = [%s];\n' % (T, len(d), ', '.join(map(str, d)))
        s += 'chk(b.len() == %d && eqs(&b, &e), %d);\n' % (len(d), g.id('%s: default contents' % r))
        if r in CTORS and not CTORS[r]:
            s += 'let n = %s::new(); let mut q = BytesMut::with_capacity(512); n.serialize(&mut q); chk(eqs(&q, &e), %d); forget(n); forget(q);\n' % (T, g.id('%s: contents of a new one' % r))
        s += 'cover(%d); forget(v); forget(b);' % g.id('reached')
        g.add(h, s, record=r)


def of_pdus(*ms):
    return lambda g: ['%s::%s' % (m['pdu'], x) for _, _, m in g.harness if 'pdu' in m for x in ms]


def prop(pid, gen, **kw):
    d = dict(gen=gen, level='model_checking', assumptions=[], explain='', bounds='', targets=lambda g: [])
    d.update(kw)
    d['assumptions'] = COMMON + d['assumptions']
    d['explain'] = METHOD + d['explain']
    PROPS[pid] = d


SHAPES = 'Sizes of variable parts are concrete per harness (shapes in samples/meta): lists of 0-5 elements (quick) or 0-7 (thorough), one shape whose elements all differ in size, and for C01-C04 large ones (lists of 258-300 elements once per element type, in the thorough tier for every list; nested lists of 11, 17 and up to 255 elements; byte strings of 33, 257 and 300 octets, thorough 4096; data of 2056 and 4160 bits, thorough 32767) as far as the 8192 octets of a PDU allow; otherwise byte strings of 0-5 (0-17) octets, variable datums of 0-64 (0-128) bits; all field contents, header fields and (for encoding) count fields are symbolic. '
prop('C01', c01, targets=of_pdus('deserialize', 'deserialize_without_header'),
     explain='Decoding is compared field by field with a reference decoder generated from the layout tables.',
     bounds=SHAPES + 'Every octet of the buffer is symbolic except PDU type and the counts fixed by the shape; 3 octets follow the PDU. Marking characters ASCII. Lists of PDUs are not decoded by the library (see C17), so they are outside.')
prop('C02', c02, targets=of_pdus('serialize'),
     explain='The encoding is compared octet by octet with a reference encoder generated from the layout tables.', bounds=SHAPES)
prop('C03', c03, targets=of_pdus('serialize', 'calculate_length', 'finalize'), bounds=SHAPES,
     explain='The length written, the header length, calculate_length before and after, and finalize are compared with the octets written.')
prop('C04', c04, targets=of_pdus('deserialize', 'deserialize_without_header'),
     explain='Decoding arbitrary octets of arbitrary number: no panic, no read past the end, an error exactly when something is missing or the type differs.',
     bounds='Buffers from 0 octets to the smallest complete PDU plus 4 octets (plus 14, thorough 26, where records sized by their content follow), every octet and the length symbolic; marking characters ASCII except a window of 3 (thorough 4) octets that slides over the string. Where record bodies are sized by their content, also the long shapes of C01, cut at up to 14 places: before, within and 1, 2, 9, 255, 256, 257 octets before the end.')
prop('C05', c05, prelude=C05_PRELUDE, targets=of_pdus('serialize', 'deserialize'),
     explain='Encoding twice, into a fresh and into a used buffer; decoding twice, consumption, and decoding from a buffer split in two pieces.',
     bounds=SHAPES + 'Split points: about 16 per PDU and 12 per record (thorough: about 40) for two pieces, and pieces of 1, 3, 8 (records: 1, 2, 3, 5, 8, 13) octets throughout; records up to 300 (thorough 700) octets.')
prop('C06', c06, targets=of_pdus('deserialize', 'deserialize_without_header', 'as_any'),
     explain='Type octet symbolic: accepted exactly when it is the code of the PDU; peeking agrees.', bounds='Smallest complete PDU plus 2 octets, all octets symbolic.')
prop('C07', c07, targets=lambda g: ['PduHeader::*', 'LiveEntityPduHeader::*', 'GenericHeader'], explain='Headers against a reference codec.', bounds='None: all 2^96 headers.')
prop('C08', c08, targets=lambda g: ['PduStatusRecord::*'], explain='The status octet against bit masks; histories of settings against the same operations on an octet.',
     bounds='All octets; histories of 3 (thorough 6) settings, each of any kind and value.')
prop('C09', c09, targets=lambda g: sorted('%s::{serialize,deserialize,field_len,serialize_field,deserialize_field}' % r for r in RECS),
     explain='Every record type against reference encoder and decoder.',
     bounds='Shapes as in meta (0-3 nested elements of equal and of different size, 11, 17, 255 or 300 where the count field and 7900 octets allow; byte strings 0-5, 33, 257, 300, thorough 4096 octets; data up to 4160, thorough 32767 bits). Buffers hold a complete record: decoding a record on its own from fewer octets is a precondition of the record-level API (C04 covers whole PDUs).')
prop('C10', c10, targets=lambda g: sorted('%s::deserialize' % e for e in ENUMS), explain='Every code of every enumeration, known and unknown.', bounds='None: all codes of the width read.')
prop('C11', c11, as_limit=64, prelude=C11_PRELUDE, targets=of_pdus('calculate_length', 'finalize', 'serialize'),
     explain='One list of a PDU at a time has a symbolic number of elements.',
     bounds='0 to 2^28-1 elements for lists of fixed-size elements; the other lists empty. Byte-exact encoding at the limit for one PDU (8192 and 8193 octets).')
prop('C12', c12, targets=lambda g: sorted(FLAGS), explain='Flag sets against bit masks.', bounds='None: all bit patterns.')
prop('C13', c13, prelude=C13_PRELUDE, opts=dict(clock='symbolic', bvint=True), query_ms=60000,
     targets=lambda g: ['%s::%s' % (h, f) for h in ('PduHeader', 'LiveEntityPduHeader') for f in ('calculate_dis_timestamp', 'new', 'default')],
     explain='The system clock is a symbolic sequence of readings.', assumptions=['the system clock does not go back during the call and successive readings are at most 2 s apart'],
     bounds='Times from the epoch to 2^32 s; the timestamp may deviate by 0.5% + 300 units (0.5 ms) from microseconds past the hour / 1.68, the scale the library uses (IEEE 1278.1 prescribes 3600 s/2^31 = 1.676 us).')
prop('C14', c14, prelude=C14_PRELUDE, query_ms=60000, time_limit=240, targets=lambda g: ['Vector3Float::{add,sub,mul,div,dot,cross,magnitude,normalize,zero,one,unit_*,new}'],
     explain='Vector operations against integer arithmetic where floating point is exact.',
     bounds='Integers in -2^8..2^8 (thorough 2^10) and such integers divided by 4 (thorough also 32, 512); division by 1, -1, 3, 5, -7, 10, 101; axis vectors with exponents 2^-63..2^63 and 6-bit (10-bit) mantissas; multiples of 3-4-5; 6 (9) directions x 24 orientations and scales.')
prop('C16', c16, prelude=C16_PRELUDE, targets=lambda g: ['define_pdu!', '__pdu_deserialize_field!', '__pdu_prep_serialize_field!', 'checked_field_len', 'check_remaining'],
     explain='PDUs defined by the harness with the exported macro.', bounds='Reported lengths: all of usize; contents of 0-5 (thorough 0-16) octets; wire buffers of up to 28 (40) octets, all symbolic; lengths on the wire: all values of 8, 16, 32 and 64 bits, in a buffer of any length up to 2^62.')
prop('C17', c17, targets=of_pdus('serialize', 'deserialize'), explain='Encode, decode, encode again.', bounds=SHAPES + 'Counts match the lists.')
prop('C18', c18, targets=lambda g: sorted('%s::new' % r for r in CTORS if CTORS[r]) + of_pdus('new', 'default')(g) + ['DISError::*'],
     explain='Constructors keep their arguments; new PDUs are stamped.', bounds='All argument values; variable-size arguments of the shapes 0-2 (5) elements, 0-3 (9) octets.')
prop('C19', c19, targets=of_pdus('deserialize', 'deserialize_without_header'),
     explain='Every request for memory made while decoding arbitrary octets is compared with the number of octets there are.',
     bounds='Buffers from a header to the smallest complete PDU plus 4 octets (plus 14, thorough 26, where records sized by their content follow), every octet and the length symbolic; marking characters ASCII. The limit is 64 KiB plus 64 octets per octet of the buffer for a single request.')
prop('C20', c20, targets=lambda g: sorted('%s::clone' % r for r in RECS) + ['%s::eq' % r for r in EQ_RECS + ['Vector3Float', 'PduHeader', 'LiveEntityPduHeader', 'PduStatusRecord']],
     explain='Equality against the contents (codes, bits, octets, components), copies and defaults against the reference encoder.',
     bounds='Equality: every pair of values of each enumeration, flag set, header, identifier and type; grid contents with 0-3 values. Copies: the record shapes of C09.')
