"""Symbolic executor for the LLVM IR of compiled Rust, deciding assertions with Z3.

* ints are Python ints (concrete) or z3 terms (i1 -> Bool, iN -> BitVec N); floats are their bits
* pointers are (object, offset); memory is a set of byte-addressed objects
* branches on symbolic conditions explore both feasible sides (feasibility decided by Z3);
  states meeting at the same block are merged with if-then-else terms where possible
* every loop is executed until its exit condition is decided; nothing is truncated silently:
  exceeding a step, path or time budget raises Inconclusive
"""
import heapq
import os
import random
import subprocess
import re
import struct
import time
import traceback
import z3
import lia
from ir import (Module, IRError, Ty, IntTy, PTR, VOID, F32, F64, size_of, store_size, align_of, offs, bits_of)


class Inconclusive(Exception):
    pass


class PathEnd(Exception):
    pass


UNDEF = type('Undef', (), {'__repr__': lambda s: 'UNDEF'})()
M64 = (1 << 64) - 1


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%r,%r)' % (self.obj, self.off)


def peq(a, b):
    if a is b:
        return True
    if a.obj != b.obj:
        return False
    if isinstance(a.off, int) and isinstance(b.off, int):
        return a.off == b.off
    if isinstance(a.off, int) or isinstance(b.off, int):
        return False
    return a.off.eq(b.off)


class Obj:
    __slots__ = ('size', 'data', 'const', 'owner', 'fill', 'name')

    def __init__(self, size, owner, fill=None, const=False, name=''):
        self.size = size
        self.data = {}
        self.const = const
        self.owner = owner
        self.fill = fill
        self.name = name

    def copy(self, owner):
        o = Obj(self.size, owner, self.fill, self.const, self.name)
        o.data = dict(self.data)
        return o


class Pc:
    __slots__ = ('parent', 'cond', 'depth')

    def __init__(self, parent, cond):
        self.parent = parent
        self.cond = cond
        self.depth = 0 if parent is None else parent.depth + 1


class State:
    __slots__ = ('mem', 'pc', 'tok', 'inputs', 'model', 'trace', 'clock')

    def __init__(self):
        self.mem = {}
        self.pc = None
        self.tok = object()
        self.inputs = ()
        self.model = None
        self.trace = ()
        self.clock = ()

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        self.tok = object()
        s.tok = object()
        s.inputs = self.inputs
        s.model = self.model
        s.trace = self.trace
        s.clock = self.clock
        return s


def is_c(v):
    return isinstance(v, int)


def bv(v, w):
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def bl(v):
    if isinstance(v, int):
        return z3.BoolVal(bool(v & 1))
    return v


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def cells_eq(a, b):
    if a is b:
        return True
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    if a is None or b is None:
        return False
    ta = isinstance(a, tuple)
    tb = isinstance(b, tuple)
    if ta != tb:
        return False
    if ta:
        if a[0] != b[0] or a[2] != b[2]:
            return False
        if a[0] == 'p':
            return peq(a[1], b[1])
        return a[1].eq(b[1])
    return a.eq(b)


class Engine:
    def __init__(self, module, opts=None):
        self.m = module
        o = opts or {}
        self.time_limit = o.get('time_limit', 300)
        self.partial = None     # reason why the result is not a verdict
        self.max_steps = o.get('max_steps', 30_000_000)
        self.max_paths = o.get('max_paths', 20000)
        self.query_ms = o.get('query_ms', 60000)
        self.concrete = o.get('concrete')      # list of bytes for concrete execution
        self.clock_mode = o.get('clock', 'fixed')
        self.stubs = o.get('stubs', ())
        self.gmem = {}
        self.gids = {}
        self.fobj = {}
        self.fname_of = {}
        self.nid = 1
        self.nfresh = 0
        self.decomp = {}
        self.keep = []
        self.obligations = []
        self.covers = {}
        self.witness = []
        self.opts = o
        self.funcs = set()
        self.stats = dict(steps=0, forks=0, merges=0, branch_queries=0, queries=0, solver_s=0.0, paths=0, rewritten=0,
                          obligations=0, panics=0, infeasible=0)
        self.solver = z3.Solver()
        self.solver.set('timeout', self.query_ms)
        self.solver_stack = []
        self.solver_pc = None
        self.out = []
        self.intr_cache = {}
        self.stub_hits = {}
        self.symclock = {}
        self.bvint = o.get('bvint')
        self.fints = {}
        self.freal = {}
        self.lemmas = []
        self.fpof = {}
        self.approx = []
        self.heap = None

    # ------------------------------------------------------------- solver
    def pc_list(self, pc):
        r = []
        while pc is not None:
            r.append(pc.cond)
            pc = pc.parent
        r.reverse()
        return r

    def sync(self, pc):
        """make the incremental solver hold exactly the conjuncts of pc"""
        chain = []
        p = pc
        while p is not None:
            chain.append(p)
            p = p.parent
        chain.reverse()
        st = self.solver_stack
        i = 0
        while i < len(st) and i < len(chain) and st[i] is chain[i]:
            i += 1
        if len(st) > i:
            self.solver.pop(len(st) - i)
            del st[i:]
        for c in chain[i:]:
            self.solver.push()
            self.solver.add(c.cond)
            st.append(c)

    def check(self, pc, *conds):
        t = time.time()
        if t - self.t0 > self.time_limit:
            raise Inconclusive('time limit')
        self.sync(pc)
        self.solver.push()
        for c in conds:
            self.solver.add(c)
        r = self.decide_lia(self.solver) if self.bvint else None
        mdl = self.last_model if r == z3.sat else None
        if r is None:
            r = self.solver.check()
            mdl = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        self.stats['branch_queries'] += 1
        self.stats['solver_s'] += time.time() - t
        if r == z3.unknown:
            raise Inconclusive('solver unknown: ' + self.solver.reason_unknown())
        return mdl

    def feasible(self, st, cond):
        """model or None for pc & cond, using the cached model first"""
        if st.model is not None:
            try:
                if z3.is_true(st.model.eval(cond, model_completion=True)):
                    return st.model
            except z3.Z3Exception:
                pass
        return self.check(st.pc, cond)

    def assume(self, st, cond, model=None):
        st.pc = Pc(st.pc, cond)
        st.model = model

    # ------------------------------------------------------------- cells
    def fresh(self, w):
        self.nfresh += 1
        return z3.BitVec('u!%d' % self.nfresh, w)

    def cz(self, c):
        """cell -> z3 BV8"""
        if isinstance(c, int):
            return z3.BitVecVal(c, 8)
        if isinstance(c, tuple):
            if c[0] == 'x':
                return z3.Extract(8 * c[2] + 7, 8 * c[2], c[1])
            # pointer byte
            a = self.addr(c[1])
            if isinstance(a, int):
                return z3.BitVecVal(a >> (8 * c[2]) & 255, 8)
            return z3.Extract(8 * c[2] + 7, 8 * c[2], a)
        return c

    def to_cells(self, v, w):
        n = (w + 7) // 8
        if isinstance(v, int):
            return [(v >> (8 * k)) & 255 for k in range(n)]
        if isinstance(v, Ptr):
            return [('p', v, k) for k in range(8)]
        if v is UNDEF:
            return [None] * n
        if z3.is_bool(v):
            v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            w = 8
        if w % 8:
            v = z3.ZeroExt(8 - w % 8, v)
            w += 8 - w % 8
        if w == 8:
            return [v]
        d = self.decomp.get(v.get_id())
        if d is not None:
            return list(d[1])
        self.keep.append(v)
        return [('x', v, k) for k in range(n)]

    def from_cells(self, cells, w):
        """-> value of width w (w may be not a multiple of 8)"""
        n = len(cells)
        allint = True
        und = 0
        anyp = False
        for c in cells:
            if not isinstance(c, int):
                allint = False
                if c is None:
                    und += 1
                elif isinstance(c, tuple) and c[0] == 'p':
                    anyp = True
        if allint:
            r = 0
            for k, c in enumerate(cells):
                r |= c << (8 * k)
            return r & ((1 << w) - 1)
        if und == n:
            return UNDEF
        if und:
            cells = [self.fresh(8) if c is None else c for c in cells]
        if anyp:
            if n == 8 and all(isinstance(c, tuple) and c[0] == 'p' and c[2] == k for k, c in enumerate(cells)) \
                    and all(peq(c[1], cells[0][1]) for c in cells):
                a = self.addr(cells[0][1])
                return a
            nc = []
            for c in cells:
                if isinstance(c, tuple) and c[0] == 'p':
                    a = self.addr(c[1])
                    nc.append(a >> (8 * c[2]) & 255 if isinstance(a, int) else ('x', a, c[2]))
                else:
                    nc.append(c)
            return self.from_cells(nc, w)
        c0 = cells[0]
        if n == 1:
            r = self.cz(c0)
            if w < 8:
                return self.trunc(r, 8, w)
            return r
        # same expression?
        if isinstance(c0, tuple) and c0[0] == 'x' and c0[2] == 0 and c0[1].size() == 8 * n:
            e = c0[1]
            if all(isinstance(c, tuple) and c[0] == 'x' and c[2] == k and c[1].eq(e) for k, c in enumerate(cells)):
                return self.trunc(e, 8 * n, w) if w != 8 * n else e
        parts = []
        i = 0
        while i < n:
            c = cells[i]
            if isinstance(c, int):
                j = i
                v = 0
                while j < n and isinstance(cells[j], int):
                    v |= cells[j] << (8 * (j - i))
                    j += 1
                parts.append(z3.BitVecVal(v, 8 * (j - i)))
                i = j
            elif isinstance(c, tuple):
                j = i + 1
                while j < n and isinstance(cells[j], tuple) and cells[j][0] == 'x' and cells[j][2] == c[2] + (j - i) \
                        and cells[j][1].eq(c[1]):
                    j += 1
                lo, hi = 8 * c[2], 8 * (c[2] + j - i) - 1
                parts.append(c[1] if lo == 0 and hi == c[1].size() - 1 else z3.Extract(hi, lo, c[1]))
                i = j
            else:
                parts.append(c)
                i += 1
        parts.reverse()
        r = parts[0] if len(parts) == 1 else z3.Concat(*parts)
        self.decomp[r.get_id()] = (r, list(cells))
        if w != 8 * n:
            return self.trunc(r, 8 * n, w)
        return r

    def trunc(self, v, w, nw):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, int):
            return v & ((1 << nw) - 1)
        if isinstance(v, Ptr):
            v = self.addr(v)
            return self.trunc(v, 64, nw)
        if nw == 1:
            e = v
            if z3.is_app_of(e, z3.Z3_OP_ITE) and z3.is_bv_value(e.arg(1)) and z3.is_bv_value(e.arg(2)):
                a = e.arg(1).as_long() & 1
                b = e.arg(2).as_long() & 1
                if a == b:
                    return a
                return e.arg(0) if a else z3.Not(e.arg(0))
            return z3.Extract(0, 0, v) == z3.BitVecVal(1, 1)
        if nw % 8 == 0 and w % 8 == 0:
            return self.from_cells(self.to_cells(v, w)[:nw // 8], nw)
        return z3.Extract(nw - 1, 0, v)

    def zext(self, v, w, nw):
        if v is UNDEF:
            return UNDEF
        if isinstance(v, int):
            return v
        if w == 1:
            return z3.If(v, z3.BitVecVal(1, nw), z3.BitVecVal(0, nw))
        if w % 8 == 0 and nw % 8 == 0:
            return self.from_cells(self.to_cells(v, w) + [0] * ((nw - w) // 8), nw)
        return z3.ZeroExt(nw - w, v)

    # ------------------------------------------------------------- memory
    def new_obj(self, st, size, fill=None, name=''):
        if self.heap and name == 'heap':
            lim, k = self.heap
            if is_c(size) and is_c(lim):
                if size > lim:
                    self.obligations.append(dict(kind='assert', id=k, pc=st.pc, cond=None, inputs=st.inputs, clock=st.clock))
                else:
                    self.stats['rewritten'] += 1
            elif size is not UNDEF:
                self.obligations.append(dict(kind='assert', id=k, pc=st.pc, cond=z3.ULE(bv(size, 64), bv(lim, 64)), inputs=st.inputs, clock=st.clock))
        self.nid += 1
        i = self.nid
        st.mem[i] = Obj(size, st.tok, fill, name=name)
        return i

    def addr(self, p):
        """address of a pointer as int / BV64"""
        if p.obj == 0:
            return p.off
        base = p.obj << 24
        if isinstance(p.off, int):
            return (base + p.off) & M64
        return z3.BitVecVal(base, 64) + p.off

    def int_to_ptr(self, v):
        if isinstance(v, Ptr):
            return v
        if v is UNDEF:
            return UNDEF
        if isinstance(v, int):
            o = v >> 24
            if 0 < o <= self.nid:
                return Ptr(o, v & 0xffffff)
            return Ptr(0, v)
        return Ptr(0, v)        # data in a pointer register: any access through it is an error

    def obj(self, st, oid):
        o = st.mem.get(oid)
        if o is not None:
            return o
        if oid in st.mem:
            raise IRError('access to dead object')
        o = self.gmem.get(oid)
        if o is None:
            if oid == 0:
                raise IRError('null/dangling dereference')
            raise IRError('access to unknown object %d' % oid)
        return o

    def wobj(self, st, oid):
        o = self.obj(st, oid)
        if o.owner is not st.tok:
            if o.const:
                raise IRError('write to constant')
            o = o.copy(st.tok)
            st.mem[oid] = o
        return o

    def glob_ptr(self, name):
        oid = self.gids.get(name)
        if oid is not None:
            return Ptr(oid, 0)
        if name in self.m.fidx or name in self.m.decls:
            self.nid += 1
            self.gids[name] = self.nid
            self.fname_of[self.nid] = name
            return Ptr(self.nid, 0)
        g = self.m.glob(name)
        if g[0] == 'alias':
            return self.const(None, PTR, g[1])
        _, is_const, t, v = g
        self.nid += 1
        oid = self.nid
        self.gids[name] = oid
        o = Obj(size_of(t), None, const=is_const, name=name)
        self.gmem[oid] = o
        if v is not None:
            self.init_const(o, 0, t, v)
        else:
            o.fill = 'fresh'
        return Ptr(oid, 0)

    def init_const(self, o, off, t, v):
        k = v[0]
        if k == 'undef':
            return
        if k == 'zero' or (k == 'null'):
            for i in range(size_of(t)):
                o.data[off + i] = 0
            return
        if k == 'agg':
            if t.k in ('arr', 'vec'):
                s = size_of(t.el)
                for i, (et, ev) in enumerate(v[1]):
                    self.init_const(o, off + i * s, et, ev)
            else:
                for of, (et, ev) in zip(offs(t), v[1]):
                    self.init_const(o, off + of, et, ev)
            return
        val = self.const(None, t, v)
        for i, c in enumerate(self.to_cells(val, bits_of(t))):
            o.data[off + i] = c

    def cell(self, o, k):
        c = o.data.get(k, o)
        if c is o:
            return 0 if o.fill == 0 else None
        return c

    def load(self, st, t, p):
        if t.k in ('struct', 'arr', 'vec'):
            if t.k == 'struct':
                return tuple(self.load(st, e, self.padd(p, of)) for e, of in zip(t.els, offs(t)))
            s = size_of(t.el)
            if t.k == 'vec' and bits_of(t.el) % 8:
                raise IRError('sub-byte vector load')
            return tuple(self.load(st, t.el, self.padd(p, i * s)) for i in range(t.n))
        if p is UNDEF or not isinstance(p, Ptr):
            raise IRError('load through %r' % (p,))
        o = self.obj(st, p.obj)
        n = store_size(t)
        w = bits_of(t)
        off = p.off
        if isinstance(off, int):
            self.bounds(st, o, off, n)
            data = o.data
            if o.fill == 0:
                cells = [data.get(off + k, 0) for k in range(n)]
            else:
                cells = [data.get(off + k) for k in range(n)]
            return self.mkval(cells, t, w, st)
        return self.load_sym(st, o, off, n, t, w)

    def mkval(self, cells, t, w, st=None):
        if t.k == 'ptr':
            c0 = cells[0]
            if isinstance(c0, tuple) and c0[0] == 'p':
                if all(isinstance(c, tuple) and c[0] == 'p' and c[2] == k and peq(c[1], c0[1]) for k, c in enumerate(cells)):
                    return c0[1]
            v = self.from_cells(cells, 64)
            if st is not None and z3.is_expr(v):
                # merged states: the path condition may leave only one of the pointers
                try:
                    vals = self.enum_values(st, v, 64, 1)
                except Inconclusive:
                    vals = ()
                if len(vals) != 1:
                    return Ptr(0, v)        # data, not a pointer: any access through it is an error
                v = vals[0]
            return self.int_to_ptr(v)
        return self.from_cells(cells, w)

    def bounds(self, st, o, off, n):
        if isinstance(o.size, int):
            if off < 0 or off + n > o.size:
                raise IRError('out-of-bounds access [%d,+%d) of object %s size %d' % (off, n, o.name, o.size))

    def load_sym(self, st, o, off, n, t, w):
        if t.k == 'ptr':
            vals = self.enum_values(st, off, 64, 64)
            if len(vals) != 1:
                raise Inconclusive('pointer load at symbolic offset')
            return self.load(st, t, Ptr(self._oid(st, o), vals[0]))
        if not isinstance(o.size, int):
            cands = sorted(self.enum_values(st, off, 64, 64))
            stride = 1
            if len(cands) == 1:
                return self.load(st, t, Ptr(self._oid(st, o), cands[0]))
        else:
            # candidate offsets: those congruent with the term's known low zero bits
            stride, base = self.stride(off)
            cands = [k for k in range(base % stride, o.size - n + 1, stride)]
        if len(cands) > 4096:
            raise Inconclusive('symbolic load over %d candidates' % len(cands))
        # group equal values
        groups = {}
        vals = []
        for k in cands:
            v = self.from_cells([self.cell(o, k + j) for j in range(n)], w)
            if v is UNDEF:
                continue
            vals.append((k, v))
        if not vals:
            return UNDEF
        # affine compression for concrete tables
        res = None
        runs = []
        for k, v in vals:
            if isinstance(v, int):
                if runs and runs[-1][0] == 'c' and runs[-1][3] == v and k == runs[-1][2] + stride:
                    runs[-1][2] = k
                    continue
                runs.append(['c', k, k, v])
            else:
                runs.append(['s', k, k, v])
        isb = (w == 1)
        for r in reversed(runs):
            v = bl(r[3]) if isb else bv(r[3], w)
            if res is None:
                res = v
            else:
                if r[1] == r[2]:
                    cond = off == z3.BitVecVal(r[1], 64)
                else:
                    cond = z3.And(z3.UGE(off, z3.BitVecVal(r[1], 64)), z3.ULE(off, z3.BitVecVal(r[2], 64)))
                res = z3.If(cond, v, res)
        return res

    def _oid(self, st, o):
        for k, v in st.mem.items():
            if v is o:
                return k
        for k, v in self.gmem.items():
            if v is o:
                return k

    def stride(self, e):
        """(stride, base) such that e = base mod stride"""
        s = self._tz(e)
        base, rest = self._split(e)
        s = 1 << min(self._tz(rest) if rest is not None else 12, 12)
        return s, base

    def _split(self, e):
        base = 0
        rest = []
        st = [e]
        while st:
            x = st.pop()
            if z3.is_app_of(x, z3.Z3_OP_BADD):
                st.extend(x.children())
            elif z3.is_bv_value(x):
                base += x.as_long()
            else:
                rest.append(x)
        if not rest:
            return base, None
        return base & M64, rest if len(rest) > 1 else rest[0]

    def _tz(self, e):
        if isinstance(e, list):
            return min(self._tz(x) for x in e)
        if z3.is_bv_value(e):
            v = e.as_long()
            return 12 if v == 0 else (v & -v).bit_length() - 1
        if z3.is_app_of(e, z3.Z3_OP_BMUL):
            return min(12, sum(self._tz(c) for c in e.children()))
        if z3.is_app_of(e, z3.Z3_OP_BSHL) and z3.is_bv_value(e.arg(1)):
            return min(12, e.arg(1).as_long() + self._tz(e.arg(0)))
        if z3.is_app_of(e, z3.Z3_OP_BADD):
            return min(self._tz(c) for c in e.children())
        if z3.is_app_of(e, z3.Z3_OP_CONCAT):
            t = 0
            for c in reversed(e.children()):
                if z3.is_bv_value(c) and c.as_long() == 0:
                    t += c.size()
                else:
                    return t + self._tz(c)
            return t
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            return min(self._tz(e.arg(1)), self._tz(e.arg(2)))
        if z3.is_app_of(e, z3.Z3_OP_ZERO_EXT) or z3.is_app_of(e, z3.Z3_OP_SIGN_EXT):
            return self._tz(e.arg(0))
        return 0

    def padd(self, p, k):
        if k == 0:
            return p
        if isinstance(p.off, int):
            return Ptr(p.obj, (p.off + k) & M64 if p.obj == 0 else p.off + k)
        return Ptr(p.obj, p.off + z3.BitVecVal(k & M64, 64))

    def store(self, st, t, v, p):
        if t.k == 'struct':
            if v is UNDEF:
                v = (UNDEF,) * len(t.els)
            for e, of, x in zip(t.els, offs(t), v):
                self.store(st, e, x, self.padd(p, of))
            return
        if t.k in ('arr', 'vec'):
            if v is UNDEF:
                v = (UNDEF,) * t.n
            s = size_of(t.el)
            if t.k == 'vec' and bits_of(t.el) % 8:
                raise IRError('sub-byte vector store')
            for i, x in enumerate(v):
                self.store(st, t.el, x, self.padd(p, i * s))
            return
        if not isinstance(p, Ptr):
            raise IRError('store through %r' % (p,))
        w = bits_of(t)
        cells = self.to_cells(v, w)
        self.write(st, p, cells)

    def write(self, st, p, cells):
        o = self.wobj(st, p.obj)
        off = p.off
        if isinstance(off, int):
            self.bounds(st, o, off, len(cells))
            d = o.data
            for k, c in enumerate(cells):
                d[off + k] = c
            return
        if not isinstance(o.size, int):
            # few places, as the path condition has it
            cands = self.enum_values(st, off, 64, 16)
            if len(cands) == 1:
                return self.write(st, Ptr(p.obj, cands[0]), cells)
        else:
            stride, base = self.stride(off)
            cands = range(base % stride, o.size - len(cells) + 1, stride)
        for k in cands:
            cond = off == z3.BitVecVal(k, 64)
            for j, c in enumerate(cells):
                old = self.cell(o, k + j)
                if old is None:
                    old = self.fresh(8)
                o.data[k + j] = z3.If(cond, self.cz(c if c is not None else self.fresh(8)), self.cz(old))

    def copy(self, st, dst, src, n):
        if n == 0:
            return
        so = self.obj(st, src.obj)
        if isinstance(src.off, int):
            self.bounds(st, so, src.off, n)
            cells = [self.cell(so, src.off + k) for k in range(n)]
        else:
            cells = []
            for k in range(n):
                v = self.load(st, IntTy(8), self.padd(src, k))
                cells.append(None if v is UNDEF else v)
        if isinstance(dst.off, int):
            o = self.wobj(st, dst.obj)
            self.bounds(st, o, dst.off, n)
            d = o.data
            for k, c in enumerate(cells):
                if c is None:
                    if o.fill is None:
                        d.pop(dst.off + k, None)
                    else:
                        d[dst.off + k] = None
                else:
                    d[dst.off + k] = c
        else:
            self.write(st, dst, cells)

    # ------------------------------------------------------------- constants / operands
    def const(self, st, t, v):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'g':
            return self.glob_ptr(v[1])
        if k == 'null':
            return Ptr(0, 0)
        if k == 'undef':
            return self.undef_of(t)
        if k == 'zero':
            return self.zero_of(t)
        if k == 'agg':
            return tuple(self.const(st, et, ev) for et, ev in v[1])
        if k == 'ce':
            op = v[1]
            if op == 'gep':
                ops = v[3]
                base = self.const(st, ops[0][0], ops[0][1])
                return self.gep(v[2], base, [(it, self.const(st, it, iv)) for it, iv in ops[1:]])
            if op == 'inttoptr':
                return self.int_to_ptr(self.const(st, v[2], v[3]))
            if op in ('ptrtoint', 'ptrtoaddr'):
                a = self.addr(self.const(st, v[2], v[3]))
                return a & ((1 << v[4].w) - 1)
            if op == 'bitcast':
                return self.const(st, v[2], v[3])
            if op == 'trunc':
                return self.const(st, v[2], v[3]) & ((1 << v[4].w) - 1)
            if op == 'zext':
                return self.const(st, v[2], v[3])
            if op in ('add', 'sub', 'xor'):
                a = self.const(st, v[2], v[3])
                b = self.const(st, v[2], v[4])
                m = (1 << v[2].w) - 1
                return {'add': a + b, 'sub': a - b, 'xor': a ^ b}[op] & m
        raise IRError('constant %r' % (v,))

    def undef_of(self, t):
        if t.k == 'struct':
            return tuple(self.undef_of(e) for e in t.els)
        if t.k in ('arr', 'vec'):
            return tuple(self.undef_of(t.el) for _ in range(t.n))
        return UNDEF

    def zero_of(self, t):
        if t.k == 'struct':
            return tuple(self.zero_of(e) for e in t.els)
        if t.k in ('arr', 'vec'):
            return tuple(self.zero_of(t.el) for _ in range(t.n))
        if t.k == 'ptr':
            return Ptr(0, 0)
        return 0

    def val(self, regs, t, v):
        k = v[0]
        if k == 'r':
            return regs[v[1]]
        if k == 'c':
            return v[1]
        if k == 'agg':
            return tuple(self.val(regs, et, ev) for et, ev in v[1])
        return self.const(None, t, v)

    def gep(self, t, base, idx):
        off = 0
        sym = None
        cur = t
        first = True
        for it, iv in idx:
            if first:
                s = size_of(cur)
                first = False
            elif cur.k == 'struct':
                off += offs(cur)[iv]
                cur = cur.els[iv]
                continue
            else:
                cur = cur.el
                s = size_of(cur)
            if isinstance(iv, int):
                off += s * sx(iv, it.w)
            else:
                if iv is UNDEF:
                    return UNDEF
                e = iv if it.w == 64 else z3.SignExt(64 - it.w, iv)
                if s != 1:
                    e = e * z3.BitVecVal(s, 64)
                sym = e if sym is None else sym + e
        if base is UNDEF:
            return UNDEF
        if not isinstance(base, Ptr):
            base = self.int_to_ptr(base)
        if sym is None:
            return self.padd(base, off)
        o = base.off
        if isinstance(o, int):
            c = (o + off) & M64
            return Ptr(base.obj, sym if c == 0 else sym + z3.BitVecVal(c, 64))
        return Ptr(base.obj, o + sym if off == 0 else o + sym + z3.BitVecVal(off & M64, 64))

    # ------------------------------------------------------------- enumeration of values
    def enum_values(self, st, e, w, limit):
        if isinstance(e, int):
            return [e]
        vals = []
        conds = []
        while True:
            mdl = self.check(st.pc, *conds)
            if mdl is None:
                return vals
            v = mdl.eval(e, model_completion=True).as_long()
            vals.append(v)
            if len(vals) > limit:
                raise Inconclusive('more than %d values for a symbolic size/offset' % limit)
            conds.append(e != z3.BitVecVal(v, w))

    def concretize(self, st, e, w, limit=300):
        """list of (state, int)"""
        if isinstance(e, int):
            return [(st, e)]
        if e is UNDEF:
            raise IRError('undef size')
        vals = self.enum_values(st, e, w, limit)
        if len(vals) == 1:
            return [(st, vals[0])]
        res = []
        self.stats['forks'] += len(vals) - 1
        for v in vals:
            s = st.fork()
            self.assume(s, e == z3.BitVecVal(v, w))
            res.append((s, v))
        return res

    # ------------------------------------------------------------- arithmetic
    def binop(self, op, w, a, b):
        if a is UNDEF or b is UNDEF:
            if op in ('and', 'mul') and (a == 0 if is_c(a) else b == 0 if is_c(b) else False):
                return 0
            if w > 1 and a is not b and op in ('and', 'or'):
                # a value assembled from parts, some of them undefined: any choice is allowed for those bits; 0 is taken
                return 0 if op == 'and' else b if a is UNDEF else a
            return UNDEF
        if isinstance(a, Ptr):
            a = self.addr(a)
        if isinstance(b, Ptr):
            b = self.addr(b)
        if isinstance(a, int) and isinstance(b, int):
            return self.binop_c(op, w, a, b)
        if w == 1:
            if op == 'and':
                if is_c(a):
                    return b if a else 0
                if is_c(b):
                    return a if b else 0
                return a if a.eq(b) else z3.And(a, b)
            if op == 'or':
                if is_c(a):
                    return 1 if a else b
                if is_c(b):
                    return 1 if b else a
                return a if a.eq(b) else z3.Or(a, b)
            if op in ('xor', 'add', 'sub'):
                if is_c(a):
                    return self.lnot(b) if a else b
                if is_c(b):
                    return self.lnot(a) if b else a
                return z3.Xor(a, b)
            if op == 'mul':
                return z3.And(bl(a), bl(b))
            raise IRError('i1 ' + op)
        if op == 'add':
            if b == 0 if is_c(b) else False:
                return a
            if a == 0 if is_c(a) else False:
                return b
            # fold (x + c1) + c2
            if is_c(b) and z3.is_app_of(a, z3.Z3_OP_BADD) and a.num_args() == 2 and z3.is_bv_value(a.arg(1)):
                c = (a.arg(1).as_long() + b) & ((1 << w) - 1)
                return a.arg(0) if c == 0 else a.arg(0) + z3.BitVecVal(c, w)
            return bv(a, w) + bv(b, w)
        if op == 'sub':
            if is_c(b):
                return self.binop('add', w, a, (-b) & ((1 << w) - 1))
            if not is_c(a) and a.eq(b):
                return 0
            return bv(a, w) - bv(b, w)
        if op in ('and', 'or', 'xor'):
            if not is_c(a) and not is_c(b) and a.eq(b):
                return 0 if op == 'xor' else a
            if w % 8 == 0 and (is_c(a) or is_c(b) or op == 'or'):
                r = self.bytewise(op, w, a, b)
                if r is not None:
                    return r
            A, B = bv(a, w), bv(b, w)
            return A & B if op == 'and' else A | B if op == 'or' else A ^ B
        if op in ('shl', 'lshr'):
            if is_c(b):
                if b == 0:
                    return a
                if b >= w:
                    return UNDEF
                if not is_c(a) and w % 8 == 0 and b % 8 == 0:
                    cells = self.to_cells(a, w)
                    k = b // 8
                    cells = [0] * k + cells[:len(cells) - k] if op == 'shl' else cells[k:] + [0] * k
                    return self.from_cells(cells, w)
            A, B = bv(a, w), bv(b, w)
            return A << B if op == 'shl' else z3.LShR(A, B)
        A, B = bv(a, w), bv(b, w)
        if op == 'mul':
            if is_c(a) and a == 1:
                return b
            if is_c(b) and b == 1:
                return a
            if (is_c(a) and a == 0) or (is_c(b) and b == 0):
                return 0
            return A * B
        if op == 'ashr':
            return A >> B
        if op == 'udiv':
            if is_c(b) and b and b & (b - 1) == 0:
                return self.binop('lshr', w, a, b.bit_length() - 1)
            return z3.UDiv(A, B)
        if op == 'urem':
            if is_c(b) and b and b & (b - 1) == 0:
                return self.binop('and', w, a, b - 1)
            return z3.URem(A, B)
        if op == 'sdiv':
            return A / B
        if op == 'srem':
            return z3.SRem(A, B)
        raise IRError('binop ' + op)

    def lnot(self, b):
        if is_c(b):
            return b ^ 1
        if z3.is_not(b):
            return b.arg(0)
        return z3.Not(b)

    def bytewise(self, op, w, a, b):
        ca = self.to_cells(a, w)
        cb = self.to_cells(b, w)
        out = []
        for x, y in zip(ca, cb):
            xi = isinstance(x, int)
            yi = isinstance(y, int)
            if xi and yi:
                out.append(x & y if op == 'and' else x | y if op == 'or' else x ^ y)
            elif xi or yi:
                k, o = (x, y) if xi else (y, x)
                if op == 'and':
                    if k == 255:
                        out.append(o)
                    elif k == 0:
                        out.append(0)
                    else:
                        out.append(self.cz(o) & z3.BitVecVal(k, 8))
                else:
                    if k == 0:
                        out.append(o)
                    elif k == 255 and op == 'or':
                        out.append(255)
                    else:
                        e = self.cz(o)
                        out.append(e | z3.BitVecVal(k, 8) if op == 'or' else e ^ z3.BitVecVal(k, 8))
            elif cells_eq(x, y) and op != 'xor':
                out.append(x)
            else:
                return None
        return self.from_cells(out, w)

    def binop_c(self, op, w, a, b):
        m = (1 << w) - 1
        if op == 'add':
            return (a + b) & m
        if op == 'sub':
            return (a - b) & m
        if op == 'mul':
            return (a * b) & m
        if op == 'and':
            return a & b
        if op == 'or':
            return a | b
        if op == 'xor':
            return a ^ b
        if op == 'shl':
            return UNDEF if b >= w else (a << b) & m
        if op == 'lshr':
            return UNDEF if b >= w else a >> b
        if op == 'ashr':
            return UNDEF if b >= w else (sx(a, w) >> b) & m
        if b == 0:
            raise IRError('division by zero reached')
        if op == 'udiv':
            return a // b
        if op == 'urem':
            return a % b
        x, y = sx(a, w), sx(b, w)
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        if op == 'sdiv':
            return q & m
        if op == 'srem':
            return (x - q * y) & m
        raise IRError('binop ' + op)

    def icmp(self, pred, t, a, b):
        if t.k == 'vec':
            return tuple(self.icmp(pred, t.el, x, y) for x, y in zip(a, b))
        if a is UNDEF or b is UNDEF:
            return UNDEF
        w = bits_of(t)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if not isinstance(a, Ptr):
                a = self.int_to_ptr(a)
            if not isinstance(b, Ptr):
                b = self.int_to_ptr(b)
            if a.obj == b.obj:
                a, b = a.off, b.off
                if pred in ('slt', 'sgt', 'sle', 'sge'):
                    pass
            else:
                # plain data moved through a pointer register has object 0 and a symbolic value
                data = (a.obj == 0 and not is_c(a.off)) or (b.obj == 0 and not is_c(b.off))
                if pred == 'eq' and not data:
                    return 0
                if pred == 'ne' and not data:
                    return 1
                a, b = self.addr(a), self.addr(b)
            w = 64
            if is_c(a):
                a &= M64
            if is_c(b):
                b &= M64
        if is_c(a) and is_c(b):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                a, b = sx(a, w), sx(b, w)
            return int({'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred[1:]])
        if w == 1:
            A, B = bl(a), bl(b)
            if pred == 'eq':
                return (a if b else self.lnot(a)) if is_c(b) else (b if a else self.lnot(b)) if is_c(a) else A == B
            if pred == 'ne':
                return (self.lnot(a) if b else a) if is_c(b) else (self.lnot(b) if a else b) if is_c(a) else z3.Xor(A, B)
            if pred == 'ult':
                return z3.And(z3.Not(A), B)
            if pred == 'ugt':
                return z3.And(A, z3.Not(B))
            raise IRError('icmp i1 ' + pred)
        if pred in ('eq', 'ne'):
            r = self.eq(a, b, w)
            return r if pred == 'eq' else self.lnot(r)
        if not is_c(a) and not is_c(b) and a.eq(b):
            return int(pred[1:] in ('ge', 'le'))
        # quick unsigned range facts for zero-extended values
        if is_c(b) and pred[0] == 'u':
            mx = self.umax(a, w)
            if pred == 'ult' and mx < b or pred == 'ule' and mx <= b:
                return 1
            if pred == 'ugt' and mx <= b or pred == 'uge' and mx < b:
                return 0
            if pred == 'ult' and b == 0:
                return 0
            if pred == 'uge' and b == 0:
                return 1
        if is_c(a) and pred[0] == 'u':
            mx = self.umax(b, w)
            if pred == 'ugt' and mx < a or pred == 'uge' and mx <= a:
                return 1
            if pred == 'ult' and mx <= a or pred == 'ule' and mx < a:
                return 0
        A, B = bv(a, w), bv(b, w)
        return {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
                'slt': lambda x, y: x < y, 'sle': lambda x, y: x <= y,
                'sgt': lambda x, y: x > y, 'sge': lambda x, y: x >= y}[pred](A, B)

    def umax(self, e, w):
        d = self.decomp.get(e.get_id())
        if d:
            r = 0
            for k, c in enumerate(d[1]):
                r |= (c if isinstance(c, int) else 255) << (8 * k)
            return r
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            a, b = e.arg(1), e.arg(2)
            if z3.is_bv_value(a) and z3.is_bv_value(b):
                return max(a.as_long(), b.as_long())
        if z3.is_app_of(e, z3.Z3_OP_ZERO_EXT):
            return (1 << e.arg(0).size()) - 1
        return (1 << w) - 1

    def eq(self, a, b, w):
        """-> int or Bool"""
        if is_c(a) and is_c(b):
            return int(a == b)
        if not is_c(a) and not is_c(b):
            if a.eq(b):
                return 1
            if w % 8 == 0 and w > 8:
                ca, cb = self.to_cells(a, w), self.to_cells(b, w)
                if all(cells_eq(x, y) for x, y in zip(ca, cb)):
                    return 1
        else:
            if is_c(a):
                a, b = b, a
            # ite(c, k1, k2) == k
            if z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_bv_value(a.arg(1)) and z3.is_bv_value(a.arg(2)):
                k1, k2 = a.arg(1).as_long(), a.arg(2).as_long()
                if k1 == b and k2 == b:
                    return 1
                if k1 == b:
                    return a.arg(0)
                if k2 == b:
                    return self.lnot(a.arg(0))
                return 0
            if b > self.umax(a, w):
                return 0
        return bv(a, w) == bv(b, w)

    # ------------------------------------------------------------- floats
    def fsort(self, w):
        return z3.Float32() if w == 32 else z3.Float64()

    def fp(self, v, w):
        if not is_c(v):
            x = self.fpof.get(v.get_id())
            if x:
                return x[1]
        return z3.fpBVToFP(bv(v, w), self.fsort(w))

    def fbits(self, e, w, nan=None):
        """the bits of a float; nan: the bits of the result should it be no number"""
        r = z3.fpToIEEEBV(e)
        if nan is None:
            return r
        r = z3.If(z3.fpIsNaN(e), nan, r)
        self.fpof[r.get_id()] = (r, e)
        return r

    def fcast_nan(self, v, w, nw):
        """x86: the payload as far as it fits, quiet"""
        v = bv(v, w)
        m, nm = (23 if w == 32 else 52), (23 if nw == 32 else 52)
        sg, pl = z3.Extract(w - 1, w - 1, v), z3.Extract(m - 1, 0, v)
        pl = z3.Concat(pl, z3.BitVecVal(0, nm - m)) if nm > m else z3.Extract(m - 1, m - nm, pl) if nm < m else pl
        return z3.Concat(sg, z3.BitVecVal(-1, nw - 1 - nm), pl | (1 << (nm - 1)))

    def fc(self, v, w):
        return struct.unpack('<f' if w == 32 else '<d', struct.pack('<I' if w == 32 else '<Q', v))[0]

    def cf(self, x, w):
        if w == 64:
            return struct.unpack('<Q', struct.pack('<d', x))[0]
        import numpy as np
        with np.errstate(all='ignore'):
            return int(np.float32(x).view(np.uint32))

    # floats known to be n * 2^e with an integer n small enough that +, - and * on them are exact:
    # id -> (expr, n as an integer of the float's width, bound of |n|, e)
    def fi(self, v, w):
        if is_c(v):
            x = self.fc(v, w)
            if x != x or abs(x) >= 1 << 23:
                return None
            if x == 0:
                return z3.BitVecVal(0, w), 0, 0
            n, d = x.as_integer_ratio()
            e = (n & -n).bit_length() - 1 if d == 1 else 1 - d.bit_length()
            n >>= max(e, 0)
            return (z3.BitVecVal(n, w), abs(n), e) if abs(n) < 1 << 24 and e >= -30 else None
        r = self.fints.get(v.get_id())
        return r and r[1:]

    def fi_set(self, v, n, m, w, e=0):
        if not is_c(v) and m < (1 << (24 if w == 32 else 53)) and -60 <= e <= 60:
            self.fints[v.get_id()] = (v, n, m, e)
        return v

    def fi_align(self, x, y, w):
        """(n, bound) of both, and their common exponent; None when they get too large"""
        e = min(x[2], y[2])
        out = []
        for n, m, k in (x, y):
            if m << (k - e) >= 1 << (w - 2):
                return None
            out.append((n << (k - e) if k > e else n, m << (k - e)))
        return out[0], out[1], e

    def fi_round(self, i, kind, w):
        """(n, bound, exponent) of i rounded to an integral value"""
        n, m, e = i
        if e >= 0:
            return i
        k = -e
        if k >= w - 1 or m + (1 << k) >= 1 << (w - 1):
            return None
        one = z3.BitVecVal(1, w)
        half = z3.BitVecVal(1 << (k - 1), w)
        neg = n < 0
        fl = n >> k
        ce = -((-n) >> k)
        if kind == 'floor':
            q = fl
        elif kind == 'ceil':
            q = ce
        elif kind == 'trunc':
            q = z3.If(neg, ce, fl)
        elif kind == 'round':
            q = z3.If(neg, -((half - n) >> k), (n + half) >> k)
        else:
            fr = n & z3.BitVecVal((1 << k) - 1, w)
            q = z3.If(z3.Or(z3.UGT(fr, half), z3.And(fr == half, fl & one == one)), fl + one, fl)
        return q, (m >> k) + 1, 0

    # non-negative floats that are sums of (integer < 2^32) * scale, computed by a chain of rounded monotone operations, are
    # converted to integers through bounds on the exact result instead of through the floating-point circuit;
    # a model is refined (query) until it agrees with the exact conversion.
    # id -> (expr, ((N, scale lower bound, upper bound), ...), constant lower bound, upper bound, condition for all this, description,
    #        exact function on the list of integers)
    def fr_set(self, r, terms, lo, hi, valid, key, f):
        if not is_c(r) and len(terms) <= 6:
            self.freal[r.get_id()] = (r, terms, lo, hi, valid, key, f)
        return r

    def fr_get(self, v, w):
        from fractions import Fraction
        if is_c(v):
            x = self.fc(v, w)
            if 0 <= x < 1e12:
                return (), Fraction(x), Fraction(x), (), ('c', w, v), lambda i: v
            return None
        r = self.freal.get(v.get_id())
        return r and r[1:]

    def fr_bin(self, r, op, w, a, b):
        from fractions import Fraction
        if is_c(r) or op not in ('fmul', 'fdiv', 'fadd'):
            return r
        x, y = self.fr_get(a, w), self.fr_get(b, w)
        if x is None or y is None:
            return r
        u = Fraction(1, 1 << (24 if w == 32 else 53))
        na = len(x[0])
        f = lambda i: self.fbin(op, w, x[5](i[:na]), y[5](i[na:]))
        key = (op, w, x[4], y[4])
        if op == 'fadd':
            ts = tuple((n, lo * (1 - u), hi * (1 + u)) for n, lo, hi in x[0] + y[0])
            return self.fr_set(r, ts, (x[1] + y[1]) * (1 - u), (x[2] + y[2]) * (1 + u), x[3] + y[3], key, f)
        if x[0] and y[0] or op == 'fdiv' and y[0]:
            return r
        if not x[0]:
            x, y = y, x
        if not (Fraction(1, 10 ** 12) < y[1] < 10 ** 12):
            return r
        k = y[1] if op == 'fmul' else 1 / y[1]
        ts = tuple((n, lo * k * (1 - u), hi * k * (1 + u)) for n, lo, hi in x[0])
        return self.fr_set(r, ts, x[1] * k * (1 - u), x[2] * k * (1 + u), x[3], key, f)

    def fr_cast(self, r, v, w, nw):
        from fractions import Fraction
        if not is_c(r) and not is_c(v) and v.get_id() in self.freal:
            _, ts, lo, hi, valid, key, f = self.freal[v.get_id()]
            u = Fraction(1, 1 << 24) if nw < w else 0
            self.fr_set(r, tuple((n, a * (1 - u), b * (1 + u)) for n, a, b in ts), lo * (1 - u), hi * (1 + u), valid, ('cast', nw, key),
                        lambda i: self.cf(self.fc(f(i), w), nw))
        return r

    def fr_to_int(self, v, w, nw, signed):
        """an integer variable constrained to be the saturating conversion of v, or None"""
        import math
        if is_c(v) or v.get_id() not in self.freal or nw > 64:
            return None
        _, ts, clo, chi, valid, key, f = self.freal[v.get_id()]
        top = max([hi for _, _, hi in ts] + [chi / (1 << 32)])
        if top >= 1 << 20 or any(lo <= 0 for _, lo, _ in ts):
            return None
        t = z3.BitVec('fti!%d' % len(self.approx), 64)
        # N < 2^32: with scale S / 2^k, the sum of N * S stays below 2^64
        k = 31 - max(0, math.ceil(top).bit_length()) - (len(ts) + 1).bit_length() + 1
        top = (1 << (nw - 1 if signed else nw)) - 1
        K = lambda x: z3.BitVecVal(x, 64)
        ns = [n for n, _, _ in ts]
        small = z3.And(*[z3.ULT(n, K(1 << 32)) for n in ns], *valid)
        up = K(math.ceil(chi * (1 << k)))
        down = K(math.floor(clo * (1 << k)))
        for n, lo, hi in ts:
            up = up + n * K(math.ceil(hi * (1 << k)))
            down = down + n * K(math.floor(lo * (1 << k)))
        up = z3.LShR(up, K(k)) + 1
        down = z3.LShR(down, K(k))
        c = [z3.ULE(t, up), z3.ULE(down, t + 1)]
        if top < (1 << 63):
            c = [z3.ULE(t, K(top)), z3.ULE(t, up), z3.Or(t == K(top), z3.ULE(down, t + 1))]
        self.lemmas.append(z3.Or(z3.Not(small), z3.And(*c)))
        key = (nw, signed, key)
        if top < 1 << 63:
            self.lemmas.append(z3.ULE(t, K(top)))
        for t2, ns2, valid2, key2, e2 in self.approx:
            if key2 == key:
                # the same chain of monotone operations
                self.lemmas.append(z3.Implies(z3.And(*[z3.ULE(n, n2) for n, n2 in zip(ns, ns2)], *valid, *valid2), z3.ULE(t, t2)))
                self.lemmas.append(z3.Implies(z3.And(*[z3.ULE(n2, n) for n, n2 in zip(ns, ns2)], *valid, *valid2), z3.ULE(t2, t)))
        m = (1 << nw) - 1

        def exact(i):
            x = self.fpto_sat(f(i), w, nw, signed)
            return x if x is UNDEF else x & m
        self.approx.append((t, ns, valid, key, exact))
        self.keep.append(v)
        return t if nw == 64 else z3.Extract(nw - 1, 0, t)

    def fneg(self, v, w):
        r = self.binop('xor', w, v, 1 << (w - 1))
        if v is not UNDEF and not is_c(r):
            i = self.fi(v, w)
            if i:
                self.fi_set(r, -i[0], i[1], w, i[2])
        return r

    def fi_of_int(self, r, v, w, signed, nw):
        """r = v converted to float: remember the integer if it is small"""
        if w > nw:
            return
        n = v if w == nw else z3.SignExt(nw - w, v) if signed else z3.ZeroExt(nw - w, v)
        for b in (6, 9, 12, 15, 18, 22):
            k = z3.BitVecVal(1 << b, nw)
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(z3.Not(z3.And(n <= k, n >= -k)))
            if s.check() == z3.unsat:
                self.fi_set(r, n, 1 << b, nw)
                return

    def fi_bin(self, r, op, w, a, b):
        x, y = self.fi(a, w), self.fi(b, w)
        if not x or not y:
            return r
        if op == 'fmul':
            return self.fi_set(r, x[0] * y[0], x[1] * y[1], w, x[2] + y[2])
        if op == 'fdiv':
            if not z3.is_bv_value(y[0]) or abs(y[0].as_signed_long()) != 1:
                s = z3.Solver()
                s.set('timeout', 5000)
                s.add(z3.Or(y[0] == 0, z3.SRem(x[0], y[0]) != 0))
                if s.check() != z3.unsat:
                    return r
            return self.fi_set(r, x[0] / y[0], x[1], w, x[2] - y[2])
        al = self.fi_align(x, y, w)
        if al is None:
            return r
        (n, m), (k, l), e = al
        if op == 'frem':
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add(k == 0)
            return self.fi_set(r, z3.SRem(n, k), m, w, e) if s.check() == z3.unsat else r
        return self.fi_set(r, n + k if op == 'fadd' else n - k, m + l, w, e)

    def fmod(self, w, a, b):
        """the truncated remainder: bounds on it, and its exact value for the operands of a model (query)"""
        A, B = self.fp(a, w), self.fp(b, w)
        t = z3.BitVec('fmod!%d' % len(self.approx), w)
        T = self.fp(t, w)
        nan = z3.Or(z3.fpIsNaN(A), z3.fpIsInf(A), z3.fpIsNaN(B), z3.fpIsZero(B))
        sg = z3.Extract(w - 1, w - 1, t) == z3.Extract(w - 1, w - 1, bv(a, w))
        self.lemmas += [z3.Implies(nan, z3.fpIsNaN(T)),
                        z3.Implies(z3.And(z3.Not(nan), z3.fpLT(z3.fpAbs(A), z3.fpAbs(B))), t == bv(a, w)),
                        z3.Implies(z3.Not(nan), z3.And(z3.fpLT(z3.fpAbs(T), z3.fpAbs(B)), z3.fpLEQ(z3.fpAbs(T), z3.fpAbs(A)), sg))]
        self.approx.append((t, [bv(a, w), bv(b, w)], (), ('fmod', w), lambda i: self.fbin('frem', w, i[0], i[1])))
        self.keep.append((a, b))
        return t

    def fbin(self, op, w, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if is_c(a) and is_c(b):
            import numpy as np
            T = np.float32 if w == 32 else np.float64
            U = np.uint32 if w == 32 else np.uint64
            with np.errstate(all='ignore'):
                x = np.array([a], dtype=U).view(T)
                y = np.array([b], dtype=U).view(T)
                r = {'fadd': np.add, 'fsub': np.subtract, 'fmul': np.multiply, 'fdiv': np.divide, 'frem': np.fmod}[op](x, y)
                if np.isnan(r[0]):
                    # x86: quiet the first NaN operand, or the default NaN
                    q = 1 << (22 if w == 32 else 51)
                    if np.isnan(x[0]):
                        return a | q
                    if np.isnan(y[0]):
                        return b | q
                    return 0xffc00000 if w == 32 else 0xfff8000000000000
                return int(r.view(U)[0])
        A, B = self.fp(a, w), self.fp(b, w)
        rm = z3.RNE()
        if op == 'frem':
            return self.fi_bin(self.fmod(w, a, b), op, w, a, b)
        r = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op](rm, A, B)
        # x86: quiet the first operand that is no number, or the default one
        q = z3.BitVecVal(1 << (22 if w == 32 else 51), w)
        r = self.fbits(r, w, z3.If(z3.fpIsNaN(A), bv(a, w) | q, z3.If(z3.fpIsNaN(B), bv(b, w) | q,
                       z3.BitVecVal(0xffc00000 if w == 32 else 0xfff8000000000000, w))))
        self.fr_bin(r, op, w, a, b)
        return self.fi_bin(r, op, w, a, b)

    def fcmp(self, pred, w, a, b):
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if is_c(a) and is_c(b):
            x, y = self.fc(a, w), self.fc(b, w)
            uno = x != x or y != y
            if pred == 'ord':
                return int(not uno)
            if pred == 'uno':
                return int(uno)
            if pred in ('true', 'false'):
                return int(pred == 'true')
            r = {'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[pred[1:]]
            if pred == 'one':
                return int(not uno and x != y)
            return int(r and not uno) if pred[0] == 'o' else int(uno or r)
        ia, ib = self.fi(a, w), self.fi(b, w)
        al = self.fi_align(ia, ib, w) if ia and ib else None
        if al:
            x, y = al[0][0], al[1][0]
            if pred in ('ord', 'true', 'uno', 'false'):
                return int(pred in ('ord', 'true'))
            return {'eq': x == y, 'ne': x != y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y}[pred[1:]]
        A, B = self.fp(a, w), self.fp(b, w)
        uno = z3.Or(z3.fpIsNaN(A), z3.fpIsNaN(B))
        if pred == 'ord':
            return z3.Not(uno)
        if pred == 'uno':
            return uno
        f = {'eq': z3.fpEQ, 'ne': z3.fpNEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ}[pred[1:]]
        r = f(A, B)
        if pred == 'one':
            return z3.And(z3.Not(uno), r)
        if pred == 'une':
            return z3.Or(uno, r)
        return r if pred[0] == 'o' else z3.Or(uno, r)

    def cast(self, op, st_, v, dt):
        if v is UNDEF:
            return self.undef_of(dt)
        if st_.k == 'vec' and op == 'bitcast' or dt.k == 'vec' and op == 'bitcast':
            cells = []
            if st_.k == 'vec':
                for x in v:
                    cells += self.to_cells(x, bits_of(st_.el))
            else:
                cells = self.to_cells(v, bits_of(st_))
            if dt.k == 'vec':
                n = bits_of(dt.el) // 8
                if n == 0:
                    raise IRError('sub-byte vector bitcast')
                return tuple(self.from_cells(cells[i * n:(i + 1) * n], bits_of(dt.el)) for i in range(dt.n))
            return self.from_cells(cells, bits_of(dt))
        if st_.k == 'vec':
            return tuple(self.cast(op, st_.el, x, dt.el) for x in v)
        w, nw = bits_of(st_), bits_of(dt)
        if op == 'trunc':
            return self.trunc(v, w, nw)
        if op == 'zext':
            return self.zext(v, w, nw)
        if op == 'sext':
            if is_c(v):
                return sx(v, w) & ((1 << nw) - 1)
            if w == 1:
                return z3.If(v, z3.BitVecVal((1 << nw) - 1, nw), z3.BitVecVal(0, nw))
            return z3.SignExt(nw - w, v)
        if op in ('ptrtoint', 'ptrtoaddr'):
            a = self.addr(v)
            return self.trunc(a, 64, nw) if nw < 64 else self.zext(a, 64, nw) if nw > 64 else a
        if op == 'inttoptr':
            if not is_c(v) and w < 64:
                v = self.zext(v, w, 64)
            return self.int_to_ptr(v)
        if op in ('bitcast', 'addrspacecast'):
            return v
        if op == 'fpext':
            if is_c(v):
                x = self.fc(v, w)
                if x != x:
                    return (v >> 31) << 63 | 0x7ff << 52 | ((v & 0x7fffff) << 29) | 1 << 51
                return self.cf(x, nw)
            return self.fr_cast(self.fbits(z3.fpFPToFP(z3.RNE(), self.fp(v, w), self.fsort(nw)), nw, self.fcast_nan(v, w, nw)), v, w, nw)
        if op == 'fptrunc':
            if is_c(v):
                return self.cf(self.fc(v, w), nw)
            return self.fr_cast(self.fbits(z3.fpFPToFP(z3.RNE(), self.fp(v, w), self.fsort(nw)), nw, self.fcast_nan(v, w, nw)), v, w, nw)
        if op in ('uitofp', 'sitofp'):
            if is_c(v):
                x = v if op == 'uitofp' else sx(v, w)
                if nw == 64:
                    return self.cf(float(x), 64)
                import numpy as np
                return int(np.float32(np.int64(x) if -2**63 <= x < 2**63 else np.uint64(x)).view(np.uint32))
            if w == 1:
                v = z3.If(v, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))
            f = z3.fpUnsignedToFP if op == 'uitofp' else z3.fpSignedToFP
            r = self.fbits(f(z3.RNE(), v, self.fsort(nw)), nw)
            self.fi_of_int(r, v, max(w, 8), op == 'sitofp', nw)
            if 1 < w <= 64:
                # as sitofp the value is non-negative whenever it is below 2^32 (the only case bounded)
                from fractions import Fraction
                u = Fraction(1, 1 << (24 if nw == 32 else 53))
                self.fr_set(r, ((self.zext(v, w, 64) if w < 64 else v, 1 - u, 1 + u),), Fraction(0), Fraction(0),
                            (v >= 0,) if op == 'sitofp' and w < 64 else (), (op, w, nw), lambda i: self.cast(op, st_, i[0] & ((1 << w) - 1), dt))
            return r
        if op in ('fptoui', 'fptosi'):
            if is_c(v):
                x = self.fc(v, w)
                if x != x or x in (float('inf'), float('-inf')):
                    return UNDEF
                return int(x) & ((1 << nw) - 1)
            r = self.fi_to_int(v, w, nw, op == 'fptosi')
            if r is None:
                r = self.fr_to_int(v, w, nw, op == 'fptosi')
            if r is not None:
                return r
            f = z3.fpToUBV if op == 'fptoui' else z3.fpToSBV
            return f(z3.RTZ(), self.fp(v, w), z3.BitVecSort(nw))
        raise IRError('cast ' + op)

    def fi_to_int(self, v, w, nw, signed):
        """conversion of a float known to be an integer (times a power of two) within the range; None otherwise"""
        i = self.fi(v, w)
        i = i and self.fi_round(i, 'trunc', w)
        if not i or not signed:
            return None
        n, m, e = i
        if (m << e) >= 1 << (min(w, nw) - 1):
            return None
        n = n << e if e else n
        return z3.Extract(nw - 1, 0, n) if nw < w else z3.SignExt(nw - w, n) if nw > w else n

    def fpto_sat(self, v, w, nw, signed):
        lo = -(1 << (nw - 1)) if signed else 0
        hi = (1 << (nw - 1)) - 1 if signed else (1 << nw) - 1
        if is_c(v):
            x = self.fc(v, w)
            if x != x:
                return 0
            if x <= lo:
                return lo & ((1 << nw) - 1)
            if x >= hi:
                return hi & ((1 << nw) - 1)
            return int(x) & ((1 << nw) - 1)
        r = self.fi_to_int(v, w, nw, signed)
        if r is None:
            r = self.fr_to_int(v, w, nw, signed)
        if r is not None:
            return r
        A = self.fp(v, w)
        fs = self.fsort(w)
        f = z3.fpToSBV if signed else z3.fpToUBV
        lof = z3.FPVal(float(lo), fs)
        # first float strictly above the range
        hif = z3.FPVal(float(hi + 1), fs)
        return z3.If(z3.fpIsNaN(A), z3.BitVecVal(0, nw),
                     z3.If(z3.fpLEQ(A, lof), z3.BitVecVal(lo & ((1 << nw) - 1), nw),
                           z3.If(z3.fpGEQ(A, hif), z3.BitVecVal(hi & ((1 << nw) - 1), nw),
                                 f(z3.RTZ(), A, z3.BitVecSort(nw)))))

    # ------------------------------------------------------------- running functions
    def ite(self, c, a, b, t=None):
        """c: z3 Bool"""
        if a is b:
            return a
        if isinstance(a, tuple):
            if not isinstance(b, tuple):
                raise IRError('ite agg')
            r = tuple(self.ite(c, x, y) for x, y in zip(a, b))
            if any(x is None for x in r):
                return None
            return r
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and peq(a, b):
                return a
            return None
        if is_c(a) and is_c(b):
            if a == b:
                return a
            return (a, b)     # caller must supply width
        if not is_c(a) and not is_c(b) and a.eq(b):
            return a
        e = b if is_c(a) else a
        if z3.is_bool(e):
            return self.bite(c, a, b)
        w = e.size()
        return z3.If(c, bv(a, w), bv(b, w))

    def bite(self, c, a, b):
        if is_c(a) and is_c(b):
            return a if a == b else (c if a else self.lnot(c))
        if is_c(a):
            return z3.Or(c, b) if a else z3.And(self.lnot(c), b)
        if is_c(b):
            return z3.Or(self.lnot(c), a) if b else z3.And(c, a)
        return z3.If(c, a, b)

    def itev(self, c, a, b, t):
        """typed ite; None when it needs a fork"""
        if t.k == 'struct':
            if a is UNDEF:
                a = self.undef_of(t)
            if b is UNDEF:
                b = self.undef_of(t)
            r = tuple(self.itev(c, x, y, et) for x, y, et in zip(a, b, t.els))
            return None if any(x is None for x in r) else r
        if t.k in ('arr', 'vec'):
            r = tuple(self.itev(c, x, y, t.el) for x, y in zip(a, b))
            return None if any(x is None for x in r) else r
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if t.k == 'ptr':
            a = a if isinstance(a, Ptr) else self.int_to_ptr(a)
            b = b if isinstance(b, Ptr) else self.int_to_ptr(b)
            return a if peq(a, b) else None
        if isinstance(a, Ptr):
            a = self.addr(a)
        if isinstance(b, Ptr):
            b = self.addr(b)
        w = bits_of(t)
        if is_c(a) and is_c(b) and a == b:
            return a
        if w == 1:
            return self.bite(c, a, b)
        if not is_c(a) and not is_c(b) and a.eq(b):
            return a
        return z3.If(c, bv(a, w), bv(b, w))

    def merge_regs(self, c, ra, rb, live):
        out = {}
        for n in live:
            a = ra.get(n, UNDEF)
            b = rb.get(n, UNDEF)
            if a is b:
                out[n] = a
                continue
            v = self.merge_val(c, a, b)
            if v is None:
                return None
            out[n] = v
        return out

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, tuple):
            if not isinstance(b, tuple) or len(a) != len(b):
                return None
            r = []
            for x, y in zip(a, b):
                v = self.merge_val(c, x, y)
                if v is None:
                    return None
                r.append(v)
            return tuple(r)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and peq(a, b):
                return a
            return None
        if is_c(a) and is_c(b):
            if a == b:
                return a
            return None     # distinct concrete values of unknown width: keep the paths apart
        if not is_c(a) and not is_c(b):
            if a.eq(b):
                return a
            if z3.is_bool(a):
                return z3.If(c, a, b)
            if a.size() != b.size():
                return None
            return z3.If(c, a, b)
        e = b if is_c(a) else a
        if z3.is_bool(e):
            return self.bite(c, a, b)
        w = e.size()
        return z3.If(c, bv(a, w), bv(b, w))

    def try_merge(self, A, B, live, widths):
        sa, ra = A
        sb, rb = B
        if sa.inputs != sb.inputs or sa.clock != sb.clock or sa.trace != sb.trace:
            return None
        # registers first (cheap)
        for n in live:
            a = ra.get(n, UNDEF)
            b = rb.get(n, UNDEF)
            if a is b or a is UNDEF or b is UNDEF:
                continue
            if isinstance(a, Ptr) or isinstance(b, Ptr):
                if not (isinstance(a, Ptr) and isinstance(b, Ptr) and peq(a, b)):
                    return None
            elif is_c(a) and is_c(b) and a != b and widths.get(n, 64) >= 64:
                return None
        # memory diff
        diffs = []
        ma, mb = sa.mem, sb.mem
        for k in ma.keys() | mb.keys():
            oa = ma.get(k, self)
            ob = mb.get(k, self)
            if oa is ob or oa is self or ob is self:
                continue
            if oa is None or ob is None:
                continue        # dead on one side
            if oa.size is not ob.size and not (isinstance(oa.size, int) and isinstance(ob.size, int) and oa.size == ob.size):
                return None
            if oa.fill != ob.fill:
                return None
            da, db = oa.data, ob.data
            d = []
            for off in da.keys() | db.keys():
                x = da.get(off, 0 if oa.fill == 0 else None)
                y = db.get(off, 0 if oa.fill == 0 else None)
                if x is y or cells_eq(x, y):
                    continue
                if x is None or y is None:
                    d.append(off)
                    continue
                if isinstance(x, tuple) and x[0] == 'p' or isinstance(y, tuple) and y[0] == 'p':
                    return None
                if isinstance(x, int) and isinstance(y, int):
                    # looks like a machine word (length, capacity, cursor): keep apart
                    b0 = off & ~7
                    if o_word(da, b0) and o_word(db, b0):
                        return None
                d.append(off)
            if d:
                diffs.append((k, oa, ob, d))
        # guard
        ca = []
        cb = []
        pa, pb = sa.pc, sb.pc
        while pa is not pb:
            da_ = pa.depth if pa is not None else -1
            db_ = pb.depth if pb is not None else -1
            if da_ >= db_:
                ca.append(pa.cond)
                pa = pa.parent
            else:
                cb.append(pb.cond)
                pb = pb.parent
        ga = z3.And(*reversed(ca)) if len(ca) > 1 else ca[0] if ca else z3.BoolVal(True)
        gb = z3.And(*reversed(cb)) if len(cb) > 1 else cb[0] if cb else z3.BoolVal(True)
        regs = {}
        for n in live:
            a = ra.get(n, UNDEF)
            b = rb.get(n, UNDEF)
            if a is b:
                regs[n] = a
                continue
            if is_c(a) and is_c(b):
                if a == b:
                    regs[n] = a
                else:
                    w = widths[n]
                    regs[n] = self.bite(ga, a, b) if w == 1 else z3.If(ga, z3.BitVecVal(a, w), z3.BitVecVal(b, w))
                continue
            v = self.merge_val(ga, a, b)
            if v is None:
                return None
            regs[n] = v
        st = State()
        st.inputs = sa.inputs
        st.clock = sa.clock
        st.trace = sa.trace
        st.mem = dict(ma)
        for k, v in mb.items():
            if k not in st.mem:
                st.mem[k] = v
            elif v is None:
                st.mem[k] = None
        for k, oa, ob, d in diffs:
            o = oa.copy(st.tok)
            for off in d:
                x = oa.data.get(off, 0 if oa.fill == 0 else None)
                y = ob.data.get(off, 0 if oa.fill == 0 else None)
                if x is None:
                    o.data[off] = y
                elif y is None:
                    o.data[off] = x
                else:
                    o.data[off] = z3.If(ga, self.cz(x), self.cz(y))
            st.mem[k] = o
        if (len(ca) == 1 and len(cb) == 1 and
                (z3.is_not(ga) and ga.arg(0).eq(gb) or z3.is_not(gb) and gb.arg(0).eq(ga))):
            st.pc = pa
        else:
            st.pc = Pc(pa, z3.Or(ga, gb))
        st.model = sa.model or sb.model
        self.stats['merges'] += 1
        return st, regs

    def merge_items(self, items, live, widths):
        if len(items) == 1:
            return items
        out = []
        for it in items:
            done = False
            for i in range(len(out)):
                m = self.try_merge(out[i], it, live, widths)
                if m is not None:
                    out[i] = m
                    done = True
                    break
            if not done:
                out.append(it)
        return out

    def widths_of(self, fn):
        w = getattr(self, '_widths', None)
        if w is None:
            w = self._widths = {}
        r = w.get(fn.name)
        if r is None:
            r = {}
            for t, n in fn.params:
                if t.k in ('int', 'ptr', 'f32', 'f64'):
                    r[n] = t.w
            for b in fn.blocks.values():
                for d, t, _ in b.phis:
                    if t.k in ('int', 'ptr', 'f32', 'f64'):
                        r[d] = t.w
                for ins in b.insts:
                    d = ins[1]
                    if d is None or ins[0] == 'bad':
                        continue
                    op = ins[0]
                    t = None
                    if op in ('icmp', 'fcmp'):
                        r[d] = 1
                        continue
                    if op == 'cast':
                        t = ins[5]
                    elif op == 'select':
                        t = ins[4]
                    elif op in ('load', 'call', 'freeze', 'fneg') or op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
                        t = ins[2]
                    elif op == 'extractvalue':
                        t = ins[2]
                        for k in ins[4]:
                            t = t.els[k] if t.k == 'struct' else t.el
                    elif op in ('gep', 'alloca'):
                        r[d] = 64
                        continue
                    if t is not None and t.k in ('int', 'ptr', 'f32', 'f64'):
                        r[d] = t.w
            w[fn.name] = r
        return r

    def call_fn(self, st, name, args):
        """-> list of (state, retval)"""
        fn = self.m.func(name)
        self.funcs.add(name)
        self.depth += 1
        if self.depth > 200:
            raise Inconclusive('call depth')
        regs = {}
        for (t, n), a in zip(fn.params, args):
            regs[n] = a
        widths = self.widths_of(fn)
        pending = {fn.entry: [(st, regs)]}
        heap = [fn.rank[fn.entry]]
        rets = []
        order = fn.order
        allocas = []
        while heap:
            r = heapq.heappop(heap)
            bn = order[r]
            items = pending.pop(bn, None)
            if not items:
                continue
            b = fn.blocks[bn]
            live = fn.livein[bn] | {d for d, _, _ in b.phis}
            items = self.merge_items(items, live, widths)
            for s, rg in items:
                self.run_block(fn, b, s, rg, pending, heap, rets)
            if len(pending) and sum(map(len, pending.values())) > self.max_paths:
                raise Inconclusive('path limit')
        self.depth -= 1
        # drop this frame's allocas, merge returns
        out = []
        for s, rv, al in rets:
            for a in al:
                s.mem[a] = None
            out.append((s, rv))
        if len(out) > 1:
            out = self.merge_rets(out, widths)
        return out

    def merge_rets(self, rets, widths):
        out = []
        items = [(s, {'%ret': rv}) for s, rv in rets]
        m = self.merge_items(items, ['%ret'], {'%ret': 64})
        return [(s, r['%ret']) for s, r in m]

    def goto(self, fn, s, regs, frm, to, pending, heap):
        """follow edge frm->to, computing phis"""
        b = fn.blocks[to]
        live = fn.livein[to]
        nr = {n: regs[n] for n in live if n in regs}
        if b.phis:
            for d, t, inc in b.phis:
                nr[d] = self.val(regs, t, inc[frm])
        al = regs.get('%allocas')
        if al:
            nr['%allocas'] = al
        lst = pending.get(to)
        if lst is None:
            pending[to] = [(s, nr)]
            heapq.heappush(heap, fn.rank[to])
        else:
            lst.append((s, nr))

    def run_block(self, fn, b, s, regs, pending, heap, rets):
        work = [(s, dict(regs), 0)]
        insts = b.insts
        n = len(insts)
        while work:
            s, regs, i = work.pop()
            ended = False
            while i < n:
                ins = insts[i]
                i += 1
                self.stats['steps'] += 1
                r = self.step(fn, b, s, regs, ins, i)
                if r is None:
                    continue
                if not r:
                    ended = True
                    break
                # several continuations
                s, v = r[0]
                base = regs
                if len(r) > 1:
                    for s2, v2 in r[1:]:
                        rg = dict(base)
                        if ins[1] is not None:
                            rg[ins[1]] = v2
                        work.append((s2, rg, i))
                if ins[1] is not None:
                    regs[ins[1]] = v
            if ended:
                continue
            self.term(fn, b, s, regs, pending, heap, rets)
        if self.stats['steps'] > self.max_steps:
            raise Inconclusive('step limit')
        if time.time() - self.t0 > self.time_limit:
            raise Inconclusive('time limit')

    def term(self, fn, b, s, regs, pending, heap, rets):
        t = b.term
        k = t[0]
        if k == 'br':
            self.goto(fn, s, regs, b.name, t[1], pending, heap)
        elif k == 'cbr':
            c = self.val(regs, IntTy(1), t[1])
            if c is UNDEF:
                raise IRError('branch on undef in ' + fn.demangled)
            if t[2] == t[3]:
                self.goto(fn, s, regs, b.name, t[2], pending, heap)
                return
            if is_c(c):
                self.goto(fn, s, regs, b.name, t[2] if c else t[3], pending, heap)
                return
            nc = self.lnot(c)
            mt = self.feasible(s, c)
            mf = self.feasible(s, nc)
            if mt is not None and mf is not None:
                self.stats['forks'] += 1
                s2 = s.fork()
                self.assume(s, c, mt)
                self.assume(s2, nc, mf)
                self.goto(fn, s, regs, b.name, t[2], pending, heap)
                self.goto(fn, s2, regs, b.name, t[3], pending, heap)
            elif mt is not None:
                self.goto(fn, s, regs, b.name, t[2], pending, heap)
            elif mf is not None:
                self.goto(fn, s, regs, b.name, t[3], pending, heap)
            else:
                self.stats['infeasible'] += 1
        elif k == 'switch':
            ty, v, d, cases = t[1], self.val(regs, t[1], t[2]), t[3], t[4]
            if v is UNDEF:
                raise IRError('switch on undef')
            if is_c(v):
                for cv, lab in cases:
                    if cv == v:
                        self.goto(fn, s, regs, b.name, lab, pending, heap)
                        return
                self.goto(fn, s, regs, b.name, d, pending, heap)
                return
            self.sym_switch(fn, b, s, regs, v, ty.w, d, cases, pending, heap)
        elif k == 'ret':
            self.stats['paths'] += 0
            rets.append((s, None if t[2] is None else self.val(regs, t[1], t[2]), regs.get('%allocas', ())))
        elif k == 'unreachable':
            raise IRError('unreachable executed in ' + fn.demangled)
        else:
            raise IRError('terminator %r' % (t,))

    def sym_switch(self, fn, b, s, regs, v, w, d, cases, pending, heap):
        # group the cases by (final target, phi inputs are merged as ite): blocks that only
        # forward to a common successor are folded without forking
        def final(lab):
            pred = b.name
            seen = 0
            while lab in fn.trivial and seen < 8:
                pred, lab = lab, fn.trivial[lab]
                seen += 1
            return pred, lab
        groups = {}
        order = []
        for cv, lab in cases:
            p, f = final(lab)
            if f not in groups:
                groups[f] = []
                order.append(f)
            groups[f].append((cv, p))
        dp, df = final(d)
        if df not in groups:
            groups[df] = []
            order.append(df)
        first = True
        sts = []
        for f in order:
            g = groups[f]
            isd = (f == df)
            if isd:
                others = [cv for ff in order if ff != f for cv, _ in groups[ff]]
                cond = z3.Not(self.in_set(v, w, others)) if others else None
            else:
                cond = self.in_set(v, w, [cv for cv, _ in g])
            if cond is None:
                sts.append((f, None, s.model, g, isd))
                continue
            m = self.feasible(s, cond)
            if m is not None:
                sts.append((f, cond, m, g, isd))
        for j, (f, cond, m, g, isd) in enumerate(sts):
            s2 = s if j == len(sts) - 1 else s.fork()
            if j:
                self.stats['forks'] += 1
            if cond is not None and len(sts) > 1:
                self.assume(s2, cond, m)
            fb = fn.blocks[f]
            live = fn.livein[f]
            nr = {n: regs[n] for n in live if n in regs}
            ok = True
            for dst, t, inc in fb.phis:
                # default value
                vals = [(cv, self.val(regs, t, inc[p])) for cv, p in g]
                dv = self.val(regs, t, inc[dp]) if isd else None
                r = self.case_value(v, w, vals, dv, t)
                if r is None:
                    ok = False
                    break
                nr[dst] = r
            al = regs.get('%allocas')
            if al:
                nr['%allocas'] = al
            if ok:
                lst = pending.get(f)
                if lst is None:
                    pending[f] = [(s2, nr)]
                    heapq.heappush(heap, fn.rank[f])
                else:
                    lst.append((s2, nr))
            else:
                # pointers etc.: fork per predecessor
                byp = {}
                for cv, p in g:
                    byp.setdefault(p, []).append(cv)
                alts = [(p, self.in_set(v, w, cvs)) for p, cvs in byp.items()]
                if isd:
                    allc = [cv for cv, _ in cases]
                    if dp in byp:
                        oth = [cv for cv, p in g if p != dp] + [cv for ff in order if ff != f for cv, _ in groups[ff]]
                        alts = [(p, c) for p, c in alts if p != dp] + [(dp, z3.Not(self.in_set(v, w, oth)) if oth else z3.BoolVal(True))]
                    else:
                        alts.append((dp, z3.Not(self.in_set(v, w, allc))))
                for p, c in alts:
                    mm = self.feasible(s2, c)
                    if mm is None:
                        continue
                    s3 = s2.fork()
                    self.assume(s3, c, mm)
                    self.goto(fn, s3, regs, p, f, pending, heap)

    def in_set(self, v, w, vals):
        vals = sorted(set(vals))
        parts = []
        i = 0
        while i < len(vals):
            j = i
            while j + 1 < len(vals) and vals[j + 1] == vals[j] + 1:
                j += 1
            if i == j:
                parts.append(v == z3.BitVecVal(vals[i], w))
            elif vals[i] == 0:
                parts.append(z3.ULE(v, z3.BitVecVal(vals[j], w)))
            else:
                parts.append(z3.And(z3.UGE(v, z3.BitVecVal(vals[i], w)), z3.ULE(v, z3.BitVecVal(vals[j], w))))
            i = j + 1
        return z3.Or(*parts) if len(parts) > 1 else parts[0] if parts else z3.BoolVal(False)

    def case_value(self, v, w, vals, dv, t):
        """value chosen by v among vals [(case, value)], dv for the rest (None: no default)"""
        if t.k not in ('int', 'f32', 'f64', 'ptr'):
            x0 = vals[0][1] if vals else dv
            if all(x == x0 for _, x in vals) and (dv is None or dv == x0):
                return x0
            return None
        allv = [x for _, x in vals] + ([dv] if dv is not None else [])
        x0 = allv[0]
        if all(x is x0 or (is_c(x) and is_c(x0) and x == x0) for x in allv):
            return x0
        if t.k == 'ptr' or any(isinstance(x, Ptr) for x in allv):
            if all(isinstance(x, Ptr) and isinstance(x0, Ptr) and peq(x, x0) for x in allv):
                return x0
            return None
        ow = bits_of(t)
        runs = []
        for cv, x in sorted(vals, key=lambda z: z[0]):
            if x is UNDEF:
                continue
            if runs:
                lo, hi, kind, val = runs[-1]
                if cv == hi + 1 and is_c(x):
                    if kind == 'k' and x == val:
                        runs[-1] = (lo, cv, 'k', val)
                        continue
                    if (kind == 'a' or lo == hi) and is_c(val) and ow > 1:
                        d = (val - lo) if kind != 'a' else val
                        if x - cv == d:
                            runs[-1] = (lo, cv, 'a', d)
                            continue
            runs.append((cv, cv, 'k', x))
        res = dv
        if res is UNDEF:
            res = None
        for lo, hi, kind, val in runs:
            if kind == 'k':
                e = bl(val) if ow == 1 else bv(val, ow)
            else:
                e = self.resize(v, w, ow)
                if val:
                    e = e + z3.BitVecVal(val & ((1 << ow) - 1), ow)
            if res is None:
                res = e
                continue
            r0 = bl(res) if ow == 1 else bv(res, ow)
            if lo == hi:
                c = v == z3.BitVecVal(lo, w)
            elif lo == 0:
                c = z3.ULE(v, z3.BitVecVal(hi, w))
            else:
                c = z3.And(z3.UGE(v, z3.BitVecVal(lo, w)), z3.ULE(v, z3.BitVecVal(hi, w)))
            res = z3.If(c, e, r0)
        return UNDEF if res is None else res

    def resize(self, v, w, ow):
        if w == ow:
            return v
        return z3.Extract(ow - 1, 0, v) if ow < w else z3.ZeroExt(ow - w, v)

    # ------------------------------------------------------------- instructions
    def step(self, fn, b, s, regs, ins, idx):
        op = ins[0]
        if op == 'call':
            return self.do_call(fn, b, s, regs, ins, idx)
        d = ins[1]
        if op == 'load':
            p = self.val(regs, PTR, ins[3])
            regs[d] = self.load(s, ins[2], p)
        elif op == 'store':
            self.store(s, ins[2], self.val(regs, ins[2], ins[3]), self.val(regs, PTR, ins[4]))
        elif op == 'gep':
            regs[d] = self.gep(ins[2], self.val(regs, PTR, ins[3]), [(it, self.val(regs, it, iv)) for it, iv in ins[4]])
        elif op == 'icmp':
            regs[d] = self.icmp(ins[2], ins[3], self.val(regs, ins[3], ins[4]), self.val(regs, ins[3], ins[5]))
        elif op == 'cast':
            regs[d] = self.cast(ins[2], ins[3], self.val(regs, ins[3], ins[4]), ins[5])
        elif op == 'select':
            ct, t = ins[2], ins[4]
            c = self.val(regs, ct, ins[3])
            x = self.val(regs, t, ins[5])
            y = self.val(regs, t, ins[6])
            if ct.k == 'vec':
                regs[d] = tuple((xx if cc else yy) if is_c(cc) else self.itev(cc, xx, yy, t.el) for cc, xx, yy in zip(c, x, y))
                return None
            if c is UNDEF:
                regs[d] = x
                return None
            if is_c(c):
                regs[d] = x if c else y
                return None
            v = self.itev(c, x, y, t)
            if v is not None:
                regs[d] = v
                return None
            return self.fork_on(s, c, x, y)
        elif op == 'alloca':
            n = 1
            if ins[3] is not None:
                n = self.val(regs, IntTy(64), ins[3])
            o = self.new_obj(s, size_of(ins[2]) * n, name='alloca ' + d)
            regs[d] = Ptr(o, 0)
            regs['%allocas'] = regs.get('%allocas', ()) + (o,)
        elif op in FOPS:
            t = ins[2]
            a, c = self.val(regs, t, ins[3]), self.val(regs, t, ins[4])
            if t.k == 'vec':
                regs[d] = tuple(self.fbin(op, t.el.w, x, y) for x, y in zip(a, c))
            else:
                regs[d] = self.fbin(op, t.w, a, c)
        elif op == 'fcmp':
            regs[d] = self.fcmp(ins[2], ins[3].w, self.val(regs, ins[3], ins[4]), self.val(regs, ins[3], ins[5]))
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            t = ins[2]
            a, c = self.val(regs, t, ins[3]), self.val(regs, t, ins[4])
            if t.k == 'vec':
                regs[d] = tuple(self.binop(op, t.el.w, x, y) for x, y in zip(a, c))
            else:
                regs[d] = self.binop(op, t.w, a, c)
        elif op == 'extractvalue':
            v = self.val(regs, ins[2], ins[3])
            for k in ins[4]:
                if v is UNDEF:
                    break
                v = v[k]
            regs[d] = v
        elif op == 'insertvalue':
            v = self.val(regs, ins[2], ins[3])
            regs[d] = self.insval(ins[2], v, ins[6], self.val(regs, ins[4], ins[5]))
        elif op == 'freeze':
            v = self.val(regs, ins[2], ins[3])
            if v is UNDEF:
                if ins[2].k == 'ptr':
                    v = Ptr(0, 0)
                else:
                    w = bits_of(ins[2])
                    v = self.fresh(w) if w > 1 else z3.Bool('ub!%d' % self.nfresh)
            regs[d] = v
        elif op == 'fneg':
            t = ins[2]
            v = self.val(regs, t, ins[3])
            regs[d] = self.fneg(v, t.w)
        elif op == 'extractelement':
            v = self.val(regs, ins[2], ins[3])
            i = self.val(regs, IntTy(64), ins[4])
            regs[d] = v[i]
        elif op == 'insertelement':
            v = list(self.val(regs, ins[2], ins[3]))
            v[self.val(regs, IntTy(64), ins[5])] = self.val(regs, ins[2].el, ins[4])
            regs[d] = tuple(v)
        elif op == 'shufflevector':
            a = self.val(regs, ins[2], ins[3])
            c = self.val(regs, ins[2], ins[4])
            mk = self.val(regs, ins[5], ins[6])
            al = list(a) + list(c)
            regs[d] = tuple(UNDEF if x is UNDEF else al[x] for x in mk)
        elif op == 'atomicrmw':
            p = self.val(regs, PTR, ins[4])
            t = ins[3]
            old = self.load(s, t, p)
            v = self.val(regs, t, ins[5])
            a = ins[2]
            if a == 'xchg':
                nv = v
            elif a in ('add', 'sub', 'and', 'or', 'xor'):
                nv = self.binop(a, t.w, old, v)
            elif a == 'nand':
                nv = self.binop('xor', t.w, self.binop('and', t.w, old, v), (1 << t.w) - 1)
            elif a in ('umax', 'umin', 'max', 'min'):
                c = self.icmp({'umax': 'ugt', 'umin': 'ult', 'max': 'sgt', 'min': 'slt'}[a], t, old, v)
                nv = (old if c else v) if is_c(c) else z3.If(c, bv(old, t.w), bv(v, t.w))
            else:
                raise IRError('atomicrmw ' + a)
            self.store(s, t, nv, p)
            regs[d] = old
        elif op == 'cmpxchg':
            t = ins[2]
            p = self.val(regs, PTR, ins[3])
            old = self.load(s, t, p)
            e = self.icmp('eq', t, old, self.val(regs, t, ins[4]))
            nv = self.val(regs, t, ins[5])
            if not is_c(e):
                if not isinstance(t, IntTy) or old is UNDEF or nv is UNDEF:
                    raise Inconclusive('symbolic cmpxchg')
                self.store(s, t, z3.If(e, bv(nv, t.w), bv(old, t.w)), p)
            elif e:
                self.store(s, t, nv, p)
            regs[d] = (old, e)
        else:
            raise IRError('instruction %r' % (ins[:3],))
        return None

    def insval(self, t, v, idx, x):
        if v is UNDEF:
            v = self.undef_of(t)
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = x
        else:
            v[idx[0]] = self.insval(t.els[idx[0]] if t.k == 'struct' else t.el, v[idx[0]], idx[1:], x)
        return tuple(v)

    def fork_on(self, s, c, x, y):
        mt = self.feasible(s, c)
        nc = self.lnot(c)
        mf = self.feasible(s, nc)
        if mt is not None and mf is not None:
            self.stats['forks'] += 1
            s2 = s.fork()
            self.assume(s, c, mt)
            self.assume(s2, nc, mf)
            return [(s, x), (s2, y)]
        if mt is not None:
            return [(s, x)]
        if mf is not None:
            return [(s, y)]
        return []

    # ------------------------------------------------------------- calls
    def do_call(self, fn, b, s, regs, ins, idx):
        _, d, rt, callee, args = ins
        if callee[0] == 'g':
            name = callee[1]
        else:
            p = self.val(regs, PTR, callee)
            if not isinstance(p, Ptr) or p.obj not in self.fname_of:
                raise IRError('indirect call through %r' % (p,))
            name = self.fname_of[p.obj]
        if name.startswith('@llvm.'):
            h = self.intr_cache.get(name)
            if h is None:
                h = self.find_intrinsic(name)
                self.intr_cache[name] = h
            if h is SKIP:
                return None
            av = [(t, None if a is None else self.val(regs, t, a)) for t, a in args]
            return h(self, s, regs, d, rt, av, name)
        if b.term[0] == 'unreachable' and idx == len(b.insts):
            # diverging call: panic / abort
            self.panic(s, name)
            return []
        av = [self.val(regs, t, a) for t, a in args]
        h = EXTERNS.get(name)
        if h is not None:
            return h(self, s, regs, d, rt, av, name)
        for rx, h in self.intercepts():
            if rx.search(name):
                self.stub_hits[name] = self.stub_hits.get(name, 0) + 1
                return h(self, s, regs, d, rt, av, name)
        if name in self.m.fidx:
            return self.call_fn(s, name, av)
        if name in self.m.gidx:
            g = self.m.glob(name)
            if g[0] == 'alias' and g[1][0] == 'g':
                return self.call_fn(s, g[1][1], av)
        raise IRError('call to unmodelled external ' + name)

    def intercepts(self):
        return self._icepts

    def panic(self, s, name):
        self.stats['panics'] += 1
        dn = self.m.demangled.get(name, name)
        if dn == name and name.startswith('@_R'):
            dn = '::'.join(re.findall(r'\d+([A-Za-z_]\w*?)(?=\d|$|[A-Z])', name)[-3:]) or name
        self.obligations.append(dict(kind='panic', id='panic:' + dn, pc=s.pc, cond=None, inputs=s.inputs, clock=s.clock))

    def find_intrinsic(self, name):
        for rx, h in INTRIN:
            if rx.match(name):
                return h
        raise IRError('intrinsic ' + name)

    # ------------------------------------------------------------- harness entry
    def run(self, harness):
        self.t0 = time.time()
        self.depth = 0
        self._icepts = [(re.compile(p), h) for p, h in BASE_INTERCEPTS]
        if self.clock_mode == 'fixed':
            pass
        st = State()
        try:
            rets = self.call_fn(st, '@' + harness, [])
        except (Inconclusive, IRError, AttributeError, TypeError, RecursionError) as x:
            if os.environ.get('VERIF_DEBUG'):
                traceback.print_exc()
            # no verdict, but what was collected on the way may already contain a counterexample
            self.partial = 'execution: %s: %s' % (type(x).__name__, str(x)[:300])
            rets = []
            self.query_ms = min(self.query_ms, 20000)
        self.stats['paths'] += len(rets)
        self.final = rets
        return self.discharge()

    def discharge(self):
        """decide all collected obligations"""
        viol = []
        obl = self.obligations
        self.stats['obligations'] = len(obl) + self.stats['rewritten']
        bad = []
        for o in obl:
            conds = self.pc_list(o['pc'])
            if o['cond'] is not None:
                conds = conds + [z3.Not(o['cond'])]
            o['z'] = z3.And(*conds) if conds else z3.BoolVal(True)
        groups = {}
        for o in obl:
            groups.setdefault(o['id'], []).append(o)
        # one query for everything; only when sat go per id
        if obl:
            r, _ = self.query(z3.Or(*[o['z'] for o in obl]) if len(obl) > 1 else obl[0]['z'])
            if r == z3.sat:
                for i, g in groups.items():
                    r, m = self.query(z3.Or(*[o['z'] for o in g]) if len(g) > 1 else g[0]['z'])
                    if r == z3.sat:
                        for o in g:
                            if z3.is_true(m.eval(o['z'], model_completion=True)):
                                viol.append(dict(id=i, kind=o['kind'], inputs=self.inputs_of(o, m), clock=self.clock_of(o, m)))
                                break
                        else:
                            self.partial = 'model does not identify the failing path'
                    elif r != z3.unsat:
                        self.partial = 'solver unknown on obligation %s' % i
            elif r != z3.unsat:
                # try one by one
                for i, g in groups.items():
                    f = z3.Or(*[o['z'] for o in g]) if len(g) > 1 else g[0]['z']
                    r, m = self.query(f)
                    if r == z3.unknown:
                        r, m = self.pinned(f, g[0])
                    if r == z3.sat:
                        for o in g:
                            if z3.is_true(m.eval(o['z'], model_completion=True)):
                                viol.append(dict(id=i, kind=o['kind'], inputs=self.inputs_of(o, m), clock=self.clock_of(o, m)))
                                break
                    elif r != z3.unsat:
                        self.partial = 'solver unknown on obligation %s' % i
        cov = {}
        if self.partial:
            return viol, cov
        for cid, pcs in self.covers.items():
            conds = [z3.And(*self.pc_list(p['pc'])) if p['pc'] is not None else z3.BoolVal(True) for p in pcs]
            f = z3.Or(*conds) if len(conds) > 1 else conds[0]
            r, m = self.query(f)
            cov[cid] = r == z3.sat
            if r == z3.sat:
                m = self.diversify(f, pcs[0]['inputs'], m)
                for p, c in zip(pcs, conds):
                    if z3.is_true(m.eval(c, model_completion=True)):
                        self.witness.append(dict(id=cid, inputs=self.inputs_of(p, m), clock=self.clock_of(p, m)))
                        break
        return viol, cov

    def diversify(self, f, inputs, m):
        """another model of f, with as many input bytes as possible taken at random (the witnesses are run natively)"""
        if self.approx or self.bvint:
            return m
        rnd = random.Random(self.opts.get('seed', 1))
        sv = z3.Solver()
        sv.set('timeout', 1500)
        sv.add(f)
        sv.add(*self.lemmas)
        bs = [z3.BitVec('%s_%d' % (b, k), 8) for b, n in inputs for k in range(n)]
        for p in (1.0, 0.5, 0.2):
            sv.push()
            sv.add(*[b == rnd.randrange(1, 0x80) for b in bs if rnd.random() < p])
            if sv.check() == z3.sat:
                return sv.model()
            sv.pop()
        return m

    def pinned(self, f, o):
        """the solver gave up: look for a model with most inputs fixed at random (finds counterexamples only)"""
        rnd = random.Random(self.opts.get('seed', 1))
        bs = [z3.BitVec('%s_%d' % (b, k), 8) for b, n in o['inputs'] if isinstance(n, int) for k in range(n)]
        keep = self.query_ms
        self.query_ms = 4000
        try:
            for p in (1.0, 1.0, 0.9, 1.0, 0.9, 0.8, 0.9, 0.7):
                pins = [b == rnd.choice((0, 1, 0x7f, 0x80, 0xff, rnd.randrange(256), rnd.randrange(256))) for b in bs if rnd.random() < p]
                for c in filter(None, o['clock']):
                    pins.append(z3.BitVec(c + '_s', 64) == rnd.randrange(1 << 31))
                    pins.append(z3.BitVec(c + '_n', 64) == rnd.randrange(10 ** 9))
                r, m = self.query(z3.And(f, *pins))
                if r == z3.sat:
                    return r, m
        finally:
            self.query_ms = keep
        return z3.unknown, None

    def query(self, f):
        t = time.time()
        sv = z3.Solver()
        sv.set('timeout', self.query_ms)
        sv.add(f)
        sv.add(*self.lemmas)
        r = self.decide(sv)
        for _ in range(60):
            if r != z3.sat or not self.approx:
                break
            # make the model agree with the exact float-to-integer conversions
            m, new = self.last_model, []
            vals = [[m.eval(n, model_completion=True).as_long() for n in ns] for _, ns, _, _, _ in self.approx]
            for (tv, ns, _, _, ex), n0 in zip(self.approx, vals):
                t0 = ex(n0)
                if t0 is not UNDEF and m.eval(tv, model_completion=True).as_long() != t0:
                    new.append(z3.Implies(z3.And(*[n == x for n, x in zip(ns, n0)]), tv == t0))
            if not new:
                break
            # keep the integers of the model, take the exact conversions: if that is a model, done
            sv.push()
            for (tv, ns, _, _, ex), n0 in zip(self.approx, vals):
                t0 = ex(n0)
                sv.add(*[n == x for n, x in zip(ns, n0)])
                if t0 is not UNDEF:
                    sv.add(tv == t0)
            if sv.check() == z3.sat:
                self.last_model = sv.model()
                break
            sv.pop()
            sv.add(*new)
            r = self.decide(sv)
            self.stats['refined'] = self.stats.get('refined', 0) + 1
        else:
            r = z3.unknown
        self.stats['solver_s'] += time.time() - t
        return r, (self.last_model if r == z3.sat else None)

    def decide(self, sv):
        """one satisfiability query; the model is left in last_model"""
        self.stats['queries'] += 1
        self.last_model = None
        if self.bvint:
            r = self.decide_lia(sv)
            if r is None:
                r = self.decide_int(sv)
            if r is not None:
                return r
        r = sv.check()
        if r == z3.sat:
            self.last_model = sv.model()
        elif r == z3.unknown and not self.bvint:
            return self.decide_lia(sv) or r
        return r

    def decide_lia(self, sv):
        """the query as linear integer arithmetic; None if it is not linear or undecided (a model is rechecked)"""
        try:
            p = lia.Lia(list(sv.assertions()))
        except lia.NotLinear:
            return None
        s = z3.Solver()
        s.set('timeout', min(self.query_ms, 60000))
        s.add(*p.out)
        s.add(*p.side)
        r = s.check()
        self.stats['lia_queries'] = self.stats.get('lia_queries', 0) + 1
        if r == z3.unsat:
            return r
        if r != z3.sat:
            return None
        m = s.model()
        pins = []
        for n, (v, w) in p.vars.items():
            x = m.eval(v, model_completion=True)
            pins.append(z3.BitVec(n, w) == x.as_long() if w else z3.Bool(n) == x)
        s2 = z3.Solver()
        s2.set('timeout', self.query_ms)
        s2.add(*sv.assertions())
        s2.add(*pins)
        if s2.check() != z3.sat:
            return None
        self.last_model = s2.model()
        return z3.sat

    def decide_int(self, sv):
        """linear arithmetic with constant divisors: cvc5's integer encoding of bit-vectors (a model is rechecked by z3)"""
        txt = sv.to_smt2()
        names = re.findall(r'^\(declare-fun (\S+) \(\) \(_ BitVec (\d+)\)\)', txt, re.M)
        if '(_ FloatingPoint' in txt or 'fp.' in txt or not names:
            return None
        txt = '(set-logic ALL)\n' + txt.replace('(check-sat)', '(check-sat)\n(get-value (%s))' % ' '.join(n for n, _ in names))
        try:
            p = subprocess.run(['cvc5', '--solve-bv-as-int=sum', '--produce-models', '--tlimit=%d' % self.query_ms], input=txt.encode(),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=self.query_ms / 1000 + 10)
        except (OSError, subprocess.TimeoutExpired):
            return None
        out = p.stdout.decode('utf8', 'replace')
        self.stats['cvc5_queries'] = self.stats.get('cvc5_queries', 0) + 1
        if out.startswith('unsat'):
            return z3.unsat
        if not out.startswith('sat'):
            return None
        vals = re.findall(r'\((\S+) #b([01]+)\)', out)
        if len(vals) != len(names):
            return None
        s2 = z3.Solver()
        s2.set('timeout', self.query_ms)
        s2.add(*sv.assertions())
        s2.add(*[z3.BitVec(n.strip('|'), len(v)) == int(v, 2) for n, v in vals])
        if s2.check() != z3.sat:
            return None
        self.last_model = s2.model()
        return z3.sat

    def inputs_of(self, o, m):
        out = []
        for base, n in o['inputs']:
            bs = bytearray()
            for k in range(n):
                v = m.eval(z3.BitVec('%s_%d' % (base, k), 8), model_completion=True)
                bs.append(v.as_long())
            out.append(bytes(bs))
        return out

    def clock_of(self, o, m):
        out = []
        for sname in filter(None, o['clock']):
            a = m.eval(z3.BitVec(sname + '_s', 64), model_completion=True).as_long()
            b = m.eval(z3.BitVec(sname + '_n', 64), model_completion=True).as_long()
            out.append((a, b))
        return out


def o_word(d, b0):
    for k in range(b0, b0 + 8):
        if not isinstance(d.get(k), int):
            return False
    return True


FOPS = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
SKIP = object()


# ------------------------------------------------------------------ intrinsics
def vecmap(f):
    def h(e, s, regs, d, rt, av, name):
        if rt.k == 'vec':
            xs = [v for t, v in av]
            regs[d] = tuple(f(e, rt.el.w, [x[i] if isinstance(x, tuple) else x for x in xs]) for i in range(rt.n))
        else:
            regs[d] = f(e, rt.w, [v for _, v in av])
        return None
    return h


def i_bswap(e, w, a):
    v = a[0]
    if v is UNDEF:
        return UNDEF
    return e.from_cells(e.to_cells(v, w)[::-1], w)


def i_minmax(kind):
    def f(e, w, a):
        x, y = a
        if x is UNDEF or y is UNDEF:
            return UNDEF
        c = e.icmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[kind], IntTy(w), x, y)
        if is_c(c):
            return x if c else y
        return z3.If(c, bv(x, w), bv(y, w))
    return f


def i_ovf(op, signed):
    def h(e, s, regs, d, rt, av, name):
        t = rt.els[0]
        w = t.w
        a, b = av[0][1], av[1][1]
        if a is UNDEF or b is UNDEF:
            regs[d] = (UNDEF, UNDEF)
            return None
        if isinstance(a, Ptr):
            a = e.addr(a)
        if isinstance(b, Ptr):
            b = e.addr(b)
        if is_c(a) and is_c(b):
            x, y = (sx(a, w), sx(b, w)) if signed else (a, b)
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
            m = r & ((1 << w) - 1)
            regs[d] = (m, int((sx(m, w) if signed else m) != r))
            return None
        A, B = bv(a, w), bv(b, w)
        if op == 'add':
            r = e.binop('add', w, a, b)
            o = z3.Not(z3.BVAddNoOverflow(A, B, signed)) if not signed else z3.Or(z3.Not(z3.BVAddNoOverflow(A, B, True)), z3.Not(z3.BVAddNoUnderflow(A, B)))
        elif op == 'sub':
            r = e.binop('sub', w, a, b)
            o = z3.ULT(A, B) if not signed else z3.Or(z3.Not(z3.BVSubNoOverflow(A, B)), z3.Not(z3.BVSubNoUnderflow(A, B, True)))
        else:
            r = e.binop('mul', w, a, b)
            o = z3.Not(z3.BVMulNoOverflow(A, B, signed)) if not signed else z3.Or(z3.Not(z3.BVMulNoOverflow(A, B, True)), z3.Not(z3.BVMulNoUnderflow(A, B)))
            if not signed:
                ma = e.umax(A, w) if not is_c(a) else a
                mb = e.umax(B, w) if not is_c(b) else b
                if ma * mb < 1 << w:
                    o = 0
        if op == 'add' and not signed:
            ma = e.umax(A, w) if not is_c(a) else a
            mb = e.umax(B, w) if not is_c(b) else b
            if ma + mb < 1 << w:
                o = 0
        regs[d] = (r, o)
        return None
    return h


def i_sat(op, signed):
    def f(e, w, a):
        x, y = a
        if x is UNDEF or y is UNDEF:
            return UNDEF
        if is_c(x) and is_c(y):
            X, Y = (sx(x, w), sx(y, w)) if signed else (x, y)
            r = X + Y if op == 'add' else X - Y
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
            return max(lo, min(hi, r)) & ((1 << w) - 1)
        A, B = bv(x, w), bv(y, w)
        if signed:
            raise Inconclusive('signed saturating op')
        if op == 'sub':
            return z3.If(z3.ULT(A, B), z3.BitVecVal(0, w), A - B)
        return z3.If(z3.BVAddNoOverflow(A, B, False), A + B, z3.BitVecVal((1 << w) - 1, w))
    return f


def i_bits(kind):
    def f(e, w, a):
        v = a[0]
        if v is UNDEF:
            return UNDEF
        if is_c(v):
            if kind == 'ctpop':
                return bin(v).count('1')
            if kind == 'ctlz':
                return w - v.bit_length()
            return w if v == 0 else (v & -v).bit_length() - 1
        if kind == 'ctpop':
            r = z3.BitVecVal(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
            return r
        r = z3.BitVecVal(w, w)
        rng = range(w) if kind == 'ctlz' else range(w - 1, -1, -1)
        for i in rng:
            r = z3.If(z3.Extract(i, i, v) == z3.BitVecVal(1, 1), z3.BitVecVal(w - 1 - i if kind == 'ctlz' else i, w), r)
        return r
    return f


def i_fsh(left):
    def f(e, w, a):
        x, y, n = a
        if not is_c(n):
            raise Inconclusive('symbolic funnel shift')
        n %= w
        if not left:
            n = (w - n) % w
            if n == 0:
                return y
        elif n == 0:
            return x
        return e.binop('or', w, e.binop('shl', w, x, n), e.binop('lshr', w, y, w - n))
    return f


def i_abs(e, w, a):
    v = a[0]
    if is_c(v):
        return abs(sx(v, w)) & ((1 << w) - 1)
    return z3.If(v < 0, -v, v)


def i_cmp3(signed):
    def h(e, s, regs, d, rt, av, name):
        t = av[0][0]
        p = 's' if signed else 'u'
        a, b = av[0][1], av[1][1]
        lt = e.icmp(p + 'lt', t, a, b)
        gt = e.icmp(p + 'gt', t, a, b)
        w = rt.w
        m1 = (1 << w) - 1
        if is_c(lt) and is_c(gt):
            regs[d] = m1 if lt else 1 if gt else 0
        else:
            regs[d] = z3.If(bl(lt), z3.BitVecVal(m1, w), z3.If(bl(gt), z3.BitVecVal(1, w), z3.BitVecVal(0, w)))
        return None
    return h


def i_f1(kind):
    def f(e, w, a):
        v = a[0]
        if v is UNDEF:
            return UNDEF
        if kind == 'fabs':
            r = e.binop('and', w, v, (1 << (w - 1)) - 1)
            i = e.fi(v, w)
            return e.fi_set(r, z3.If(i[0] < 0, -i[0], i[0]), i[1], w, i[2]) if i else r
        if is_c(v):
            import numpy as np
            T, U = (np.float32, np.uint32) if w == 32 else (np.float64, np.uint64)
            with np.errstate(all='ignore'):
                x = np.array([v], dtype=U).view(T)
                away = lambda x: np.trunc(x) + np.where(np.abs(x - np.trunc(x)) >= 0.5, np.copysign(T(1), x), T(0))
                r = {'round': away, 'sqrt': np.sqrt, 'floor': np.floor, 'ceil': np.ceil, 'trunc': np.trunc, 'rint': np.rint,
                     'roundeven': np.rint}[kind](x)
                return int(r.view(U)[0])
        A = e.fp(v, w)
        if kind == 'sqrt':
            r = z3.fpSqrt(z3.RNE(), A)
        else:
            rm = {'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'rint': z3.RNE(), 'roundeven': z3.RNE(), 'round': z3.RNA()}[kind]
            r = e.fbits(z3.fpRoundToIntegral(rm, A), w)
            i = e.fi(v, w)
            i = i and e.fi_round(i, kind, w)
            return e.fi_set(r, *i[:2], w, i[2]) if i else r
        return e.fbits(r, w)
    return f


def i_fma(e, w, a):
    x, y, z = a
    if all(is_c(v) for v in a):
        from fractions import Fraction
        import math
        X, Y, Z = (e.fc(v, w) for v in a)
        if not all(map(math.isfinite, (X, Y, Z))):
            return e.cf(X * Y + Z, w)
        r = Fraction(X) * Fraction(Y) + Fraction(Z)
        if w == 64:
            return e.cf(float(r), 64) if r else e.cf(X * Y + Z, 64)
        # round the exact rational to f32
        try:
            q = r.numerator / r.denominator
        except OverflowError:
            q = math.inf if r > 0 else -math.inf
        if r == 0:
            return e.cf(X * Y + Z, 32)
        import numpy as np
        c = np.float32(q)
        best = None
        for cand in (c, np.nextafter(c, np.float32(np.inf)), np.nextafter(c, np.float32(-np.inf))):
            if not np.isfinite(cand):
                continue
            dd = abs(Fraction(float(cand)) - r)
            key = (dd, int(np.float32(cand).view(np.uint32)) & 1)
            if best is None or key < best[0]:
                best = (key, cand)
        return int(np.float32(best[1]).view(np.uint32)) if best else int(c.view(np.uint32))
    r = e.fbits(z3.fpFMA(z3.RNE(), e.fp(x, w), e.fp(y, w), e.fp(z, w)), w)
    p, q, t = e.fi(x, w), e.fi(y, w), e.fi(z, w)
    if p and q and t:
        m = p[1] * q[1]
        al = e.fi_align((p[0] * q[0], m, p[2] + q[2]), t, w)
        if al:
            e.fi_set(r, al[0][0] + al[1][0], al[0][1] + al[1][1], w, al[2])
    return r


def i_copysign(e, w, a):
    x, y = a
    if x is UNDEF or y is UNDEF:
        return UNDEF
    m = (1 << (w - 1)) - 1
    return e.binop('or', w, e.binop('and', w, x, m), e.binop('and', w, y, m + 1))


def i_fminmax(mx):
    def f(e, w, a):
        x, y = a
        A, B = e.fp(x, w), e.fp(y, w)
        r = z3.simplify(e.fbits(z3.fpMax(A, B) if mx else z3.fpMin(A, B), w))
        return r.as_long() if z3.is_bv_value(r) else r
    return f


def i_fptosat(signed):
    def h(e, s, regs, d, rt, av, name):
        v = av[0][1]
        regs[d] = UNDEF if v is UNDEF else e.fpto_sat(v, av[0][0].w, rt.w, signed)
        return None
    return h


def i_memcpy(e, s, regs, d, rt, av, name):
    dst, src, n = av[0][1], av[1][1], av[2][1]
    res = []
    for s2, k in e.concretize(s, n, 64):
        if k:
            e.copy(s2, dst, src, k)
        res.append((s2, None))
    return None if len(res) == 1 and res[0][0] is s else res


def i_memset(e, s, regs, d, rt, av, name):
    dst, v, n = av[0][1], av[1][1], av[2][1]
    res = []
    for s2, k in e.concretize(s, n, 64):
        if k:
            if k > 1 << 20:
                raise Inconclusive('huge memset')
            e.write(s2, dst, [None if v is UNDEF else v] * k)
        res.append((s2, None))
    return None if len(res) == 1 and res[0][0] is s else res


def i_assume(e, s, regs, d, rt, av, name):
    return None


def i_expect(e, s, regs, d, rt, av, name):
    regs[d] = av[0][1]
    return None


def i_isconst(e, s, regs, d, rt, av, name):
    regs[d] = 0
    return None


def i_trap(e, s, regs, d, rt, av, name):
    e.panic(s, name)
    return []


def i_lifetime_start(e, s, regs, d, rt, av, name):
    p = av[-1][1]
    if isinstance(p, Ptr) and p.obj in s.mem and s.mem[p.obj] is not None:
        o = s.mem[p.obj]
        if o.data:
            n = Obj(o.size, s.tok, None, False, o.name)
            s.mem[p.obj] = n
    return None


def i_load_relative(e, s, regs, d, rt, av, name):
    p, off = av[0][1], av[1][1]
    q = e.gep(IntTy(8), p, [(av[1][0], off)])
    rel = e.load(s, IntTy(32), q)
    regs[d] = e.int_to_ptr((e.addr(p) + sx(rel, 32)) & M64)
    return None


def i_tla(e, s, regs, d, rt, av, name):
    regs[d] = av[0][1]
    return None


def i_reduce(e, s, regs, d, rt, av, name):
    m = re.match(r'@llvm\.vector\.reduce\.(\w+)', name)
    op = m.group(1)
    v = av[-1][1]
    r = v[0]
    for x in v[1:]:
        if op in ('add', 'mul', 'and', 'or', 'xor'):
            r = e.binop(op, rt.w, r, x)
        else:
            r = i_minmax(op)(e, rt.w, [r, x])
    regs[d] = r
    return None


INTRIN = [(re.compile('^@llvm\\.' + p), h) for p, h in [
    (r'(lifetime\.end|experimental\.noalias|dbg|invariant|prefetch|sideeffect|donothing|pseudoprobe|var\.annotation|x86\.sse2\.pause)', SKIP),
    (r'lifetime\.start', i_lifetime_start),
    (r'assume', SKIP),
    (r'expect', i_expect),
    (r'is\.constant', i_isconst),
    (r'bswap', vecmap(i_bswap)),
    (r'umin', vecmap(i_minmax('umin'))), (r'umax', vecmap(i_minmax('umax'))),
    (r'smin', vecmap(i_minmax('smin'))), (r'smax', vecmap(i_minmax('smax'))),
    (r'uadd\.with', i_ovf('add', False)), (r'usub\.with', i_ovf('sub', False)), (r'umul\.with', i_ovf('mul', False)),
    (r'sadd\.with', i_ovf('add', True)), (r'ssub\.with', i_ovf('sub', True)), (r'smul\.with', i_ovf('mul', True)),
    (r'uadd\.sat', vecmap(i_sat('add', False))), (r'usub\.sat', vecmap(i_sat('sub', False))),
    (r'sadd\.sat', vecmap(i_sat('add', True))), (r'ssub\.sat', vecmap(i_sat('sub', True))),
    (r'ctpop', vecmap(i_bits('ctpop'))), (r'ctlz', vecmap(i_bits('ctlz'))), (r'cttz', vecmap(i_bits('cttz'))),
    (r'fshl', vecmap(i_fsh(True))), (r'fshr', vecmap(i_fsh(False))),
    (r'abs', vecmap(i_abs)),
    (r'ucmp', i_cmp3(False)), (r'scmp', i_cmp3(True)),
    (r'fabs', vecmap(i_f1('fabs'))), (r'sqrt', vecmap(i_f1('sqrt'))), (r'floor', vecmap(i_f1('floor'))),
    (r'ceil', vecmap(i_f1('ceil'))), (r'trunc', vecmap(i_f1('trunc'))), (r'rint', vecmap(i_f1('rint'))),
    (r'roundeven', vecmap(i_f1('roundeven'))), (r'round', vecmap(i_f1('round'))),
    (r'fma\.', vecmap(i_fma)), (r'copysign', vecmap(i_copysign)),
    (r'(minnum|minimumnum|minimum)', vecmap(i_fminmax(False))), (r'(maxnum|maximumnum|maximum)', vecmap(i_fminmax(True))),
    (r'fptoui\.sat', i_fptosat(False)), (r'fptosi\.sat', i_fptosat(True)),
    (r'memcpy|memmove', lambda *a: i_memcpy(*a)) if False else (r'mem(cpy|move)', i_memcpy),
    (r'memset', i_memset),
    (r'(trap|ubsantrap|debugtrap)', i_trap),
    (r'load\.relative', i_load_relative),
    (r'threadlocal\.address', i_tla),
    (r'vector\.reduce', i_reduce),
]]


# ------------------------------------------------------------------ externals
def x_any(e, s, regs, d, rt, av, name):
    p, n = av
    if not is_c(n):
        raise IRError('vf_any with symbolic length')
    if e.concrete is not None:
        i = len(s.inputs)
        data = e.concrete[i] if i < len(e.concrete) else bytes(n)
        data = bytes(data)[:n].ljust(n, b'\0')
        s.inputs = s.inputs + (('c', n),)
        e.write(s, p, list(data))
        return None
    base = 'in%d' % len(s.inputs)
    s.inputs = s.inputs + ((base, n),)
    e.write(s, p, [z3.BitVec('%s_%d' % (base, k), 8) for k in range(n)])
    return None


def cond_of(v):
    if is_c(v):
        return v & 1
    if v is UNDEF:
        raise Inconclusive('condition undefined')
    if z3.is_bool(v):
        return v
    return v != z3.BitVecVal(0, v.size())


def x_assume(e, s, regs, d, rt, av, name):
    c = cond_of(av[0])
    if is_c(c):
        return None if c else []
    m = e.feasible(s, c)
    if m is None:
        return []
    e.assume(s, c, m)
    return None


def x_assert(e, s, regs, d, rt, av, name):
    c = cond_of(av[0])
    i = av[1]
    if not is_c(i):
        # calls merged by the optimiser: one obligation per identifier
        for k in e.enum_values(s, i, i.size(), 64):
            if is_c(c) and c:
                e.stats['rewritten'] += 1
                continue
            ne = i != z3.BitVecVal(k, i.size())
            e.obligations.append(dict(kind='assert', id=k, pc=s.pc, cond=ne if is_c(c) else z3.Or(ne, c), inputs=s.inputs, clock=s.clock))
        return None
    e.out.append(('assert', i, c if is_c(c) else None))
    if is_c(c):
        if c:
            e.stats['rewritten'] += 1
            return None
        e.obligations.append(dict(kind='assert', id=i, pc=s.pc, cond=None, inputs=s.inputs, clock=s.clock))
        return None
    e.obligations.append(dict(kind='assert', id=i, pc=s.pc, cond=c, inputs=s.inputs, clock=s.clock))
    return None


def x_cover(e, s, regs, d, rt, av, name):
    i = av[0]
    if not is_c(i):
        for k in e.enum_values(s, i, i.size(), 64):
            e.covers.setdefault(k, []).append(dict(pc=Pc(s.pc, i == z3.BitVecVal(k, i.size())), inputs=s.inputs, clock=s.clock))
        return None
    e.covers.setdefault(i, []).append(dict(pc=s.pc, inputs=s.inputs, clock=s.clock))
    return None


def x_heap(e, s, regs, d, rt, av, name):
    """limit on single requests for memory from here on (one per harness, whatever the path)"""
    e.heap = (av[0], av[1]) if not is_c(av[0]) or av[0] else None
    return None


def x_obs(e, s, regs, d, rt, av, name):
    e.out.append(('obs', av[0]))
    return None


def x_malloc(e, s, regs, d, rt, av, name):
    regs[d] = Ptr(e.new_obj(s, av[0], name='heap'), 0)
    return None


def x_calloc(e, s, regs, d, rt, av, name):
    n = e.binop('mul', 64, av[0], av[1])
    regs[d] = Ptr(e.new_obj(s, n, 0, name='heap'), 0)
    return None


def x_rust_alloc(e, s, regs, d, rt, av, name):
    z = 'zeroed' in name
    regs[d] = Ptr(e.new_obj(s, av[0], 0 if z else None, name='heap'), 0)
    return None


def x_posix_memalign(e, s, regs, d, rt, av, name):
    p = Ptr(e.new_obj(s, av[2], name='heap'), 0)
    e.store(s, PTR, p, av[0])
    regs[d] = 0
    return None


def realloc_(e, s, p, n):
    o = e.obj(s, p.obj)
    nid = e.new_obj(s, n, name='heap')
    no = s.mem[nid]
    no.data = dict(o.data)
    if is_c(n):
        no.data = {k: v for k, v in no.data.items() if k < n}
    s.mem[p.obj] = None
    return Ptr(nid, 0)


def x_realloc(e, s, regs, d, rt, av, name):
    regs[d] = realloc_(e, s, av[0], av[1])
    return None


def x_rust_realloc(e, s, regs, d, rt, av, name):
    regs[d] = realloc_(e, s, av[0], av[3])
    return None


def x_free(e, s, regs, d, rt, av, name):
    p = av[0]
    if isinstance(p, Ptr) and p.obj:
        s.mem[p.obj] = None
    return None


def x_nop(e, s, regs, d, rt, av, name):
    if d is not None:
        regs[d] = e.zero_of(rt)
    return None


def x_memcmp(e, s, regs, d, rt, av, name):
    """bcmp/memcmp: result 0 iff equal (memcmp: sign of the first difference)"""
    a, b, n = av
    res = []
    for s2, k in e.concretize(s, n, 64):
        r = z3.BitVecVal(0, 32)
        known = 0
        conc = True
        for j in range(k - 1, -1, -1):
            x = e.load(s2, IntTy(8), e.padd(a, j))
            y = e.load(s2, IntTy(8), e.padd(b, j))
            if x is UNDEF or y is UNDEF:
                raise IRError('memcmp of undef')
            if is_c(x) and is_c(y):
                if x != y:
                    r = z3.BitVecVal(1 if x > y else M64 & 0xffffffff, 32)
                    known = 1 if x > y else 0xffffffff
                    conc = True
                continue
            if not is_c(x) and not is_c(y) and x.eq(y):
                continue
            X, Y = bv(x, 8), bv(y, 8)
            r = z3.If(X == Y, r, z3.If(z3.UGT(X, Y), z3.BitVecVal(1, 32), z3.BitVecVal(0xffffffff, 32)))
            conc = False
        res.append((s2, known if conc else r))
    if len(res) == 1 and res[0][0] is s:
        regs[d] = res[0][1]
        return None
    return res


def x_strlen(e, s, regs, d, rt, av, name):
    p = av[0]
    n = 0
    while True:
        v = e.load(s, IntTy(8), e.padd(p, n))
        if not is_c(v):
            raise Inconclusive('symbolic strlen')
        if v == 0:
            break
        n += 1
    regs[d] = n
    return None


FIXED_CLOCK = (1_700_000_000, 123_456_789)


def x_clock(e, s, regs, d, rt, av, name):
    p = av[1]
    if e.clock_mode == 'fixed' or e.concrete is not None:
        sec, ns = FIXED_CLOCK if e.clock_mode == 'fixed' or not isinstance(e.clock_mode, tuple) else e.clock_mode
        e.store(s, IntTy(64), sec, p)
        e.store(s, IntTy(64), ns, e.padd(p, 8))
        regs[d] = 0
        return None
    # an empty name stands for a pause of any length (vf_pause)
    k = len(s.clock) - s.clock.count('')
    nm = 'clk%d' % k
    sec, ns = z3.BitVec(nm + '_s', 64), z3.BitVec(nm + '_n', 64)
    # any time the chrono calendar can represent is not needed: 1970-01-01 .. 2106
    c = [z3.ULT(sec, z3.BitVecVal(1 << 32, 64)), z3.ULT(ns, z3.BitVecVal(1_000_000_000, 64))]
    if k:
        ps, pn = z3.BitVec('clk%d_s' % (k - 1), 64), z3.BitVec('clk%d_n' % (k - 1), 64)
        c.append(z3.Or(z3.UGT(sec, ps), z3.And(sec == ps, z3.UGE(ns, pn))))
        if s.clock[-1]:
            c.append(z3.ULE(sec - ps, z3.BitVecVal(2, 64)))
    cond = z3.And(*c)
    s.clock = s.clock + (nm,)
    e.assume(s, cond, None)
    e.store(s, IntTy(64), sec, p)
    e.store(s, IntTy(64), ns, e.padd(p, 8))
    regs[d] = 0
    return None


def x_pause(e, s, regs, d, rt, av, name):
    s.clock = s.clock + ('',)


def x_thread_atexit(e, s, regs, d, rt, av, name):
    """destructors of thread-local values run after the harness"""
    regs[d] = 0


EXTERNS = {
    '@vf_any': x_any, '@vf_assume': x_assume, '@vf_assert': x_assert, '@vf_cover': x_cover, '@vf_obs': x_obs, '@vf_heap': x_heap,
    '@malloc': x_malloc, '@calloc': x_calloc, '@realloc': x_realloc, '@free': x_free,
    '@posix_memalign': x_posix_memalign, '@bcmp': x_memcmp, '@memcmp': x_memcmp, '@strlen': x_strlen,
    '@clock_gettime': x_clock, '@vf_pause': x_pause, '@__cxa_thread_atexit_impl': x_thread_atexit,
}


def stub_format(e, s, regs, d, rt, av, name):
    """alloc::fmt::format / format_inner: returns an empty String (formatting is not the subject)"""
    p = av[0]
    # String { cap: 0, ptr: dangling(1), len: 0 }, field order independent
    e.store(s, IntTy(64), 0, p)
    e.store(s, PTR, Ptr(0, 1), e.padd(p, 8))
    e.store(s, IntTy(64), 0, e.padd(p, 16))
    return None


BASE_INTERCEPTS = [
    (r'_5alloc3fmt6format', stub_format),
    (r'___rust_no_alloc_shim', x_nop),
    (r'___rust_alloc', x_rust_alloc),
    (r'___rust_realloc', x_rust_realloc),
    (r'___rust_dealloc', x_free),
]
