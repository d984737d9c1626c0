"""Reader for the textual LLVM IR that rustc emits (post fat-LTO, whole program).

Only what rustc/LLVM print is supported; anything else raises IRError, which the
runner reports as an error of the check (never as "property holds").
Functions and globals are indexed once and parsed lazily.
"""
import re
import struct


class IRError(Exception):
    pass


TOK = re.compile(r'''
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<name>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<float>-?\d+\.\d*(?:[eE][+-]?\d+)?)
  | (?P<hex>(?:f?0x[KMLHR]?)[0-9A-Fa-f]+)
  | (?P<int>-?\d+)
  | (?P<meta>![-a-zA-Z0-9_.]*)
  | (?P<attr>\#\d+)
  | (?P<word>[a-zA-Z_$][-\w.$]*)
  | (?P<punct>\.\.\.|[\[\]{}<>(),=*:|])
  | (?P<ws>\s+)
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        if s[pos] == ';':
            break
        m = TOK.match(s, pos)
        if not m:
            raise IRError('cannot tokenize: %r' % s[pos:pos + 60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        pos = m.end()
    return out


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'els', 'packed', 'key', '_sz', '_al', '_offs')

    def __init__(self, k, w=0, n=0, el=None, els=None, packed=False):
        self.k = k
        self.w = w
        self.n = n
        self.el = el
        self.els = els
        self.packed = packed
        self._sz = None
        self._al = None
        self._offs = None

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.w
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'vec':
            return '<%d x %r>' % (self.n, self.el)
        if self.k == 'struct':
            return '{%s}' % ', '.join(map(repr, self.els))
        return self.k


_INT = {}


def IntTy(w):
    t = _INT.get(w)
    if t is None:
        t = _INT[w] = Ty('int', w)
    return t


PTR = Ty('ptr', 64)
VOID = Ty('void')
F32 = Ty('f32', 32)
F64 = Ty('f64', 64)
LABEL = Ty('label')
META = Ty('metadata')


def align_of(t):
    if t._al is not None:
        return t._al
    k = t.k
    if k == 'int':
        b = (t.w + 7) // 8
        a = 1
        while a < b and a < 16:
            a *= 2
    elif k == 'ptr' or k == 'f64':
        a = 8
    elif k == 'f32':
        a = 4
    elif k == 'arr':
        a = align_of(t.el)
    elif k == 'vec':
        a = size_of(t)
    elif k == 'struct':
        a = 1 if t.packed else max([align_of(e) for e in t.els] or [1])
    else:
        raise IRError('align of ' + k)
    t._al = a
    return a


def store_size(t):
    """bytes actually written by a store of t"""
    if t.k == 'int':
        return (t.w + 7) // 8
    if t.k == 'vec':
        return (t.n * bits_of(t.el) + 7) // 8
    return size_of(t)


def bits_of(t):
    if t.k in ('int', 'ptr', 'f32', 'f64'):
        return t.w
    raise IRError('bits of ' + t.k)


def size_of(t):
    if t._sz is not None:
        return t._sz
    k = t.k
    if k == 'int':
        b = (t.w + 7) // 8
        a = align_of(t)
        s = (b + a - 1) // a * a
    elif k in ('ptr', 'f64'):
        s = 8
    elif k == 'f32':
        s = 4
    elif k == 'arr':
        s = t.n * size_of(t.el)
    elif k == 'vec':
        s = (t.n * bits_of(t.el) + 7) // 8
        a = 1
        while a < s:
            a *= 2
        s = a
    elif k == 'struct':
        offs(t)
        s = t._sz
    else:
        raise IRError('size of ' + k)
    t._sz = s
    return s


def offs(t):
    if t._offs is None:
        o = 0
        r = []
        for e in t.els:
            if not t.packed:
                a = align_of(e)
                o = (o + a - 1) // a * a
            r.append(o)
            o += size_of(e)
        a = align_of(t)
        if not t.packed:
            o = (o + a - 1) // a * a
        t._offs = r
        t._sz = o
    return t._offs


# operands: ('c', int) | ('r', name) | ('g', name) | ('undef',) | ('null',)
#           ('agg', [(ty, op)...]) | ('zero',) | ('ce', opname, ...)
CONSTWORDS = {'true', 'false', 'null', 'undef', 'poison', 'zeroinitializer', 'getelementptr',
              'inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'add', 'sub', 'xor', 'none', 'splat',
              'ptrtoaddr', 'blockaddress'}
FLAGS = {'inbounds', 'nuw', 'nsw', 'nusw', 'exact', 'disjoint', 'nneg', 'fast', 'nnan', 'ninf', 'nsz',
         'arcp', 'contract', 'afn', 'reassoc', 'tail', 'musttail', 'notail', 'samesign', 'volatile', 'atomic', 'inrange'}


def f64bits(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def f32bits(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i][1]
        self.i += 1
        return x

    def expect(self, s):
        x = self.next()
        if x != s:
            raise IRError('expected %r got %r in %r' % (s, x, ' '.join(y for _, y in self.t)))

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def skip_flags(self):
        while True:
            if self.peek() in FLAGS and self.kind() == 'word':
                w = self.next()
                if w == 'inrange' and self.peek() == '(':
                    self.skip_parens()
            elif self.peek() in ('nofpclass', 'captures', 'range') and self.peek(1) == '(':
                self.next()
                self.skip_parens()
            else:
                break

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def type(self):
        k = self.kind()
        x = self.next()
        if k == 'word':
            if x[0] == 'i' and x[1:].isdigit():
                return IntTy(int(x[1:]))
            if x == 'ptr':
                if self.peek() == 'addrspace':
                    self.next()
                    self.skip_parens()
                return PTR
            if x == 'void':
                return VOID
            if x == 'float':
                return F32
            if x == 'double':
                return F64
            if x == 'label':
                return LABEL
            if x == 'metadata':
                return META
            if x == 'token':
                return Ty('token')
            raise IRError('type ' + x)
        if x == '[':
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect(']')
            return Ty('arr', n=n, el=el)
        if x == '<':
            if self.peek() == '{':
                t = self.type()
                self.expect('>')
                return Ty('struct', els=t.els, packed=True)
            n = int(self.next())
            self.expect('x')
            el = self.type()
            self.expect('>')
            return Ty('vec', n=n, el=el)
        if x == '{':
            els = []
            if not self.accept('}'):
                while True:
                    els.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            return Ty('struct', els=els)
        if k == 'name' and x[0] == '%':
            return self.mod.named_type(x)
        raise IRError('type tok %r' % x)

    def value(self, ty):
        k = self.kind()
        x = self.next()
        if k == 'name':
            return ('r', x) if x[0] == '%' else ('g', x)
        if k == 'int':
            if ty.k == 'int':
                return ('c', int(x) & ((1 << ty.w) - 1))
            raise IRError('int const of type %r' % ty)
        if k == 'float':
            v = float(x)
            return ('c', f32bits(v) if ty.k == 'f32' else f64bits(v))
        if k == 'hex':
            if x.startswith('f0x'):
                return ('c', int(x[3:], 16))
            h = int(x[2:], 16)
            if ty.k == 'f32':
                d = struct.unpack('<d', struct.pack('<Q', h))[0]
                try:
                    return ('c', f32bits(d))
                except OverflowError:
                    raise IRError('f32 const')
            return ('c', h)
        if k == 'str':
            return ('agg', [(IntTy(8), ('c', b)) for b in cstr(x)])
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x in ('null', 'none'):
            return ('null',)
        if x in ('undef', 'poison'):
            return ('undef',)
        if x == 'zeroinitializer':
            return ('zero',)
        if x == 'splat':
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect(')')
            return ('agg', [(ty.el, v)] * ty.n)
        if x in ('{', '[', '<'):
            if x == '<' and self.peek() == '{':
                self.next()
                r = self.aggbody('}')
                self.expect('>')
                return ('agg', r)
            return ('agg', self.aggbody({'{': '}', '[': ']', '<': '>'}[x]))
        if x == 'getelementptr':
            self.skip_flags()
            self.expect('(')
            t = self.type()
            ops = []
            while self.accept(','):
                self.skip_flags()
                ot = self.type()
                ops.append((ot, self.value(ot)))
            self.expect(')')
            return ('ce', 'gep', t, ops)
        if x in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'ptrtoaddr'):
            self.expect('(')
            st = self.type()
            v = self.value(st)
            self.expect('to')
            dt = self.type()
            self.expect(')')
            return ('ce', x, st, v, dt)
        if x in ('add', 'sub', 'xor'):
            self.skip_flags()
            self.expect('(')
            t1 = self.type()
            a = self.value(t1)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('ce', x, t1, a, b)
        raise IRError('value tok %r (%r)' % (x, ty))

    def aggbody(self, end):
        r = []
        if self.accept(end):
            return r
        while True:
            t = self.type()
            r.append((t, self.value(t)))
            if self.accept(end):
                return r
            self.expect(',')

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)

    def skip_attrs(self):
        while self.kind() == 'word' and self.peek() not in CONSTWORDS:
            w = self.next()
            if w == 'align' and self.kind() == 'int':
                self.next()
            elif self.peek() == '(':
                self.skip_parens()
        # 'align' also contains CONSTWORDS-free names only


def cstr(x):
    """c"..." -> bytes"""
    s = x[2:-1]
    out = bytearray()
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(c))
            i += 1
    return bytes(out)


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext', 'uitofp', 'sitofp',
        'fptoui', 'fptosi', 'ptrtoaddr', 'addrspacecast'}


class Func:
    __slots__ = ('name', 'params', 'blocks', 'entry', 'order', 'rank', 'livein', 'demangled', 'ret', 'trivial', 'ninst', 'heads')


class Block:
    __slots__ = ('name', 'phis', 'insts', 'term', 'succs')


class Module:
    def __init__(self, path):
        with open(path, encoding='utf-8', errors='surrogateescape') as f:
            self.text = f.read()
        self.fidx = {}
        self.gidx = {}
        self.aliases = {}
        self.decls = set()
        self.types = {}
        self.demangled = {}
        self.cache = {}
        self.gcache = {}
        self._index()

    def _index(self):
        text = self.text
        for m in re.finditer(r'^define [^@\n]*(@(?:"[^"\n]*"|[-a-zA-Z$._0-9]+))\(', text, re.M):
            self.fidx[m.group(1)] = m.start()
        for m in re.finditer(r'^(@(?:"[^"\n]*"|[-a-zA-Z$._0-9]+)) = (.*)$', text, re.M):
            self.gidx[m.group(1)] = m.group(2)
        for m in re.finditer(r'^declare [^@\n]*(@(?:"[^"\n]*"|[-a-zA-Z$._0-9]+))\(', text, re.M):
            self.decls.add(m.group(1))
        for m in re.finditer(r'^(%(?:"[^"\n]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', text, re.M):
            self.types[m.group(1)] = m.group(2)
        for m in re.finditer(r'^; (.*)\n(?:; Function Attrs:.*\n)?define [^@\n]*(@(?:"[^"\n]*"|[-a-zA-Z$._0-9]+))\(', text, re.M):
            self.demangled[m.group(2)] = m.group(1)

    def named_type(self, n):
        s = self.types[n]
        if not isinstance(s, Ty):
            s = P(tokenize(s), self).type()
            self.types[n] = s
        return s

    # ------------------------------------------------------------ globals
    def glob(self, name):
        g = self.gcache.get(name)
        if g is not None:
            return g
        s = self.gidx.get(name)
        if s is None:
            raise IRError('unknown global ' + name)
        p = P(tokenize(s), self)
        is_const = False
        while True:
            w = p.peek()
            if w in ('global', 'constant'):
                is_const = w == 'constant'
                p.next()
                break
            if w == 'alias':
                p.next()
                p.type()
                p.expect(',')
                t = p.type()
                v = p.value(t)
                g = ('alias', v)
                self.gcache[name] = g
                return g
            p.next()
            if p.peek() == '(':
                p.skip_parens()
        ext = ' external ' in ' ' + s.split('"')[0] or s.startswith('extern')
        t = p.type()
        v = None
        if p.peek() is not None and p.peek() != ',' and not ext:
            v = p.value(t)
        g = ('var', is_const, t, v)
        self.gcache[name] = g
        return g

    # ------------------------------------------------------------ functions
    def func(self, name):
        f = self.cache.get(name)
        if f is not None:
            return f
        pos = self.fidx[name]
        end = self.text.index('\n}', pos)
        lines = self.text[pos:end].split('\n')
        f = self._parse_func(name, lines)
        self.cache[name] = f
        return f

    def _parse_func(self, name, lines):
        f = Func()
        f.name = name
        f.demangled = self.demangled.get(name, name)
        hdr = lines[0]
        p = P(tokenize(hdr), self)
        while p.peek() != name:
            p.next()
        p.next()
        p.expect('(')
        params = []
        if not p.accept(')'):
            while True:
                if p.peek() == '...':
                    p.next()
                    p.expect(')')
                    break
                t = p.type()
                while not (p.kind() == 'name' or p.peek() in (',', ')')):
                    w = p.next()
                    if p.peek() == '(':
                        p.skip_parens()
                if p.kind() == 'name':
                    params.append((t, p.next()))
                else:
                    params.append((t, '%' + str(len(params))))
                if p.accept(')'):
                    break
                p.expect(',')
        f.params = params
        f.blocks = {}
        cur = None
        f.ninst = 0
        i = 1
        n = len(lines)
        # unnamed entry block number: params unnamed take numbers; only used as phi pred
        while i < n:
            ln = lines[i]
            i += 1
            if not ln or ln[0] == ';':
                continue
            if ln[0] != ' ':
                lab = ln.split(';')[0].strip()
                if not lab.endswith(':'):
                    if ';' in ln and ln.split(':')[0]:
                        lab = ln[:ln.index(':') + 1]
                    else:
                        raise IRError('label? ' + ln)
                b = Block()
                b.name = '%' + lab[:-1]
                b.phis = []
                b.insts = []
                b.term = None
                f.blocks[b.name] = b
                if cur is None:
                    f.entry = b.name
                cur = b
                continue
            s = ln.strip()
            if s.startswith(';'):
                continue
            if cur is None:
                cur = Block()
                cur.name = '%' + str(sum(1 for _, nm in params if nm[1:].isdigit()))
                cur.phis = []
                cur.insts = []
                cur.term = None
                f.blocks[cur.name] = cur
                f.entry = cur.name
            # multi-line switch / landingpad / invoke
            if s.startswith('switch ') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ]'
                i += 1
            elif ('invoke ' in s and s.lstrip().split(' = ')[-1].startswith('invoke')) and ' unwind label' not in s:
                s += ' ' + lines[i].strip()
                i += 1
            elif s.endswith('landingpad { ptr, i32 }') or ' landingpad ' in s:
                while i < n and lines[i].startswith('          '):
                    i += 1
            self._inst(cur, s)
            f.ninst += 1
        self._cfg(f)
        return f

    def _inst(self, b, s):
        # drop trailing metadata
        j = s.find(', !')
        if j >= 0 and 'metadata' not in s[:j]:
            s = s[:j]
        elif j >= 0 and not s.lstrip().startswith(('call', 'tail')):
            s = s[:j]
        try:
            self._inst2(b, s)
        except (IRError, IndexError, ValueError, TypeError) as e:
            # keep it; it is an error only if executed
            b.insts.append(('bad', s, str(e)))
            if re.match(r'^(br|ret|switch|unreachable|resume|indirectbr|cleanupret)\b', s):
                b.term = ('bad', s)

    def _inst2(self, b, s):
        p = P(tokenize(s), self)
        dest = None
        if p.kind() == 'name' and p.peek(1) == '=':
            dest = p.next()
            p.next()
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        A = b.insts.append
        if op == 'call' or op == 'invoke':
            p.skip_flags()
            # fast-math flags / cc / ret attrs
            while True:
                w = p.peek()
                if p.kind() == 'word' and not (re.fullmatch(r'i\d+', w) or w in ('ptr', 'void', 'float', 'double', 'token')):
                    p.next()
                    if w == 'align' and p.kind() == 'int':
                        p.next()
                    elif p.peek() == '(':
                        p.skip_parens()
                    continue
                break
            rt = p.type()
            if p.peek() == '(' :  # function type for varargs
                p.skip_parens()
            if p.kind() == 'word' and p.peek() == 'asm':
                A(('asm', dest, rt, s))
                return
            callee = p.value(PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    t = p.type()
                    if t is META:
                        d = 0
                        while not (d == 0 and p.peek() in (',', ')')):
                            x = p.next()
                            if x in '({[':
                                d += 1
                            if x in ')}]':
                                d -= 1
                        args.append((t, None))
                    else:
                        p.skip_attrs()
                        args.append((t, p.value(t)))
                    if p.accept(')'):
                        break
                    p.expect(',')
            if op == 'call':
                A(('call', dest, rt, callee, args))
            else:
                while p.peek() != 'to':
                    p.next()
                p.next()
                p.expect('label')
                nl = p.next()
                A(('call', dest, rt, callee, args))
                b.term = ('br', nl)
            return
        if op == 'load':
            p.skip_flags()
            t = p.type()
            p.expect(',')
            p.type()
            A(('load', dest, t, p.value(PTR)))
        elif op == 'store':
            p.skip_flags()
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.type()
            A(('store', None, t, v, p.value(PTR)))
        elif op == 'getelementptr':
            p.skip_flags()
            t = p.type()
            p.expect(',')
            bt = p.type()
            base = p.value(bt)
            idx = []
            while p.accept(','):
                it = p.type()
                idx.append((it, p.value(it)))
            A(('gep', dest, t, base, idx))
        elif op in BIN:
            disj = False
            while p.peek() in FLAGS:
                if p.next() == 'disjoint':
                    disj = True
            t = p.type()
            a = p.value(t)
            p.expect(',')
            A((op, dest, t, a, p.value(t)))
        elif op in ('icmp', 'fcmp'):
            p.skip_flags()
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            A((op, dest, pred, t, a, p.value(t)))
        elif op in CAST:
            p.skip_flags()
            t = p.type()
            v = p.value(t)
            p.expect('to')
            A(('cast', dest, op, t, v, p.type()))
        elif op == 'select':
            p.skip_flags()
            ct, c = p.tv()
            p.expect(',')
            t, x = p.tv()
            p.expect(',')
            t2, y = p.tv()
            A(('select', dest, ct, c, t, x, y))
        elif op == 'phi':
            p.skip_flags()
            t = p.type()
            inc = []
            while True:
                p.expect('[')
                v = p.value(t)
                p.expect(',')
                lab = p.next()
                p.expect(']')
                inc.append((lab, v))
                if not p.accept(','):
                    break
            b.phis.append((dest, t, dict(inc)))
        elif op == 'alloca':
            p.skip_flags()
            t = p.type()
            cnt = None
            if p.accept(','):
                if p.peek() != 'align':
                    ct = p.type()
                    cnt = p.value(ct)
            A(('alloca', dest, t, cnt))
        elif op == 'freeze':
            t = p.type()
            A(('freeze', dest, t, p.value(t)))
        elif op == 'fneg':
            p.skip_flags()
            t = p.type()
            A(('fneg', dest, t, p.value(t)))
        elif op == 'extractvalue':
            t = p.type()
            v = p.value(t)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            A(('extractvalue', dest, t, v, idx))
        elif op == 'insertvalue':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            ev = p.value(et)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            A(('insertvalue', dest, t, v, et, ev, idx))
        elif op == 'extractelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            it = p.type()
            A(('extractelement', dest, t, v, p.value(it)))
        elif op == 'insertelement':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            et = p.type()
            ev = p.value(et)
            p.expect(',')
            it = p.type()
            A(('insertelement', dest, t, v, ev, p.value(it)))
        elif op == 'shufflevector':
            t = p.type()
            a = p.value(t)
            p.expect(',')
            p.type()
            c = p.value(t)
            p.expect(',')
            mt = p.type()
            m = p.value(mt)
            A(('shufflevector', dest, t, a, c, mt, m))
        elif op == 'atomicrmw':
            p.skip_flags()
            aop = p.next()
            p.type()
            ptr = p.value(PTR)
            p.expect(',')
            t = p.type()
            A(('atomicrmw', dest, aop, t, ptr, p.value(t)))
        elif op == 'cmpxchg':
            p.skip_flags()
            if p.peek() == 'weak':
                p.next()
            p.type()
            ptr = p.value(PTR)
            p.expect(',')
            t = p.type()
            c = p.value(t)
            p.expect(',')
            p.type()
            A(('cmpxchg', dest, t, ptr, c, p.value(t)))
        elif op == 'fence':
            pass
        elif op == 'landingpad':
            A(('bad', s, 'landingpad'))
        elif op == 'br':
            if p.peek() == 'label':
                p.next()
                b.term = ('br', p.next())
            else:
                t = p.type()
                c = p.value(t)
                p.expect(',')
                p.expect('label')
                x = p.next()
                p.expect(',')
                p.expect('label')
                b.term = ('cbr', c, x, p.next())
        elif op == 'switch':
            t = p.type()
            v = p.value(t)
            p.expect(',')
            p.expect('label')
            d = p.next()
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                cv = p.value(ct)
                p.expect(',')
                p.expect('label')
                cases.append((cv[1], p.next()))
            b.term = ('switch', t, v, d, cases)
        elif op == 'ret':
            t = p.type()
            b.term = ('ret', t, None if t is VOID else p.value(t))
        elif op == 'unreachable':
            b.term = ('unreachable',)
        elif op == 'resume':
            b.term = ('bad', s)
        else:
            raise IRError('opcode ' + op)

    def _cfg(self, f):
        for b in f.blocks.values():
            t = b.term
            if t is None:
                raise IRError('block without terminator in ' + f.name)
            if t[0] == 'br':
                b.succs = [t[1]]
            elif t[0] == 'cbr':
                b.succs = [t[2], t[3]]
            elif t[0] == 'switch':
                b.succs = list(dict.fromkeys([t[3]] + [l for _, l in t[4]]))
            else:
                b.succs = []
        f.trivial = {n: b.term[1] for n, b in f.blocks.items()
                     if not b.phis and not b.insts and b.term[0] == 'br'}
        self._rank(f)
        self._live(f)

    def _rank(self, f):
        """Weak topological order (Bourdoncle): loop bodies are contiguous, so every block of a
        loop is processed before the blocks after the loop."""
        blocks = f.blocks
        heads = set()
        order = []

        # iterative: nested SCC decomposition
        def sccs(nodes, roots):
            index = {}
            low = {}
            onst = set()
            st = []
            res = []
            cnt = [0]
            for r in roots:
                if r in index or r not in nodes:
                    continue
                work = [(r, iter(blocks[r].succs))]
                index[r] = low[r] = cnt[0]
                cnt[0] += 1
                st.append(r)
                onst.add(r)
                while work:
                    v, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in nodes:
                            continue
                        if w not in index:
                            index[w] = low[w] = cnt[0]
                            cnt[0] += 1
                            st.append(w)
                            onst.add(w)
                            work.append((w, iter(blocks[w].succs)))
                            adv = True
                            break
                        elif w in onst:
                            low[v] = min(low[v], index[w])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        u = work[-1][0]
                        low[u] = min(low[u], low[v])
                    if low[v] == index[v]:
                        c = []
                        while True:
                            w = st.pop()
                            onst.discard(w)
                            c.append(w)
                            if w == v:
                                break
                        res.append(c)
            res.reverse()
            return res

        def comp(nodes, entries):
            for c in sccs(nodes, list(entries) + sorted(nodes)):
                cs = set(c)
                if len(c) == 1 and c[0] not in blocks[c[0]].succs:
                    order.append(c[0])
                    continue
                h = None
                for e in entries:
                    if e in cs:
                        h = e
                        break
                if h is None:
                    for v in sorted(nodes):
                        if v in cs:
                            continue
                        for w in blocks[v].succs:
                            if w in cs:
                                h = w
                                break
                        if h:
                            break
                h = h or c[-1]
                heads.add(h)
                order.append(h)
                rest = cs - {h}
                if rest:
                    comp(rest, [x for x in blocks[h].succs if x in rest])

        reach = set()
        st = [f.entry]
        while st:
            x = st.pop()
            if x in reach:
                continue
            reach.add(x)
            st.extend(blocks[x].succs)
        comp(reach, [f.entry])
        f.order = order
        f.heads = heads
        f.rank = {n: i for i, n in enumerate(order)}
        if len(f.rank) != len(reach):
            raise IRError('wto lost blocks in ' + f.name)

    def _live(self, f):
        use = {}
        dfn = {}
        phiuse = {}
        for n in f.order:
            b = f.blocks[n]
            u = set()
            d = set()
            for dest, t, inc in b.phis:
                d.add(dest)
                for lab, v in inc.items():
                    s = set()
                    regs(v, s)
                    phiuse.setdefault(lab, set()).update(s)
            for ins in b.insts:
                s = set()
                iregs(ins, s)
                u |= s - d
                if ins[1] is not None and ins[0] != 'bad':
                    d.add(ins[1])
            s = set()
            t = b.term
            if t[0] == 'cbr':
                regs(t[1], s)
            elif t[0] == 'switch':
                regs(t[2], s)
            elif t[0] == 'ret' and t[2] is not None:
                regs(t[2], s)
            u |= s - d
            use[n] = u
            dfn[n] = d
        livein = {n: set() for n in f.order}
        ch = True
        rev = list(reversed(f.order))
        while ch:
            ch = False
            for n in rev:
                out = set(phiuse.get(n, ()))
                for s in f.blocks[n].succs:
                    out |= livein[s]
                li = use[n] | (out - dfn[n])
                if li != livein[n]:
                    livein[n] = li
                    ch = True
        # regs needed after phis: livein + phi dests handled by executor
        f.livein = livein


def regs(v, s):
    if v is None:
        return
    k = v[0]
    if k == 'r':
        s.add(v[1])
    elif k == 'agg':
        for _, x in v[1]:
            regs(x, s)
    elif k == 'ce':
        pass


def iregs(ins, s):
    op = ins[0]
    if op == 'call':
        regs(ins[3], s)
        for t, a in ins[4]:
            if a is not None:
                regs(a, s)
    elif op == 'gep':
        regs(ins[3], s)
        for _, v in ins[4]:
            regs(v, s)
    elif op in ('bad', 'asm'):
        pass
    else:
        for x in ins[2:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('r', 'agg', 'g', 'c'):
                regs(x, s)
