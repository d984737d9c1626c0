"""Bit-vector queries as linear integer arithmetic.

Every bit-vector term becomes an integer term with an interval; a reduction modulo 2^w only appears where the interval says that
the operation can wrap. Division and remainder by constants become one pair (quotient, remainder) per dividend and divisor.
Terms are kept as linear forms over variables, quotients and conditional terms; a remainder is dividend - divisor * quotient, so that
dividing it by a divisor of its own divisor goes back to the original dividend (seconds of a minute of a day), and so does a quotient of
a quotient. The translation is exact: what it does not know (bitwise operations on two unknowns, products of unknowns) raises NotLinear.
"""
import z3


class Lin:
    """const + sum of coefficient * atom (an atom is the id of an integer term of z3)"""
    __slots__ = ('t', 'c')

    def __init__(self, t, c):
        self.t, self.c = t, c

    def key(self):
        return frozenset(self.t.items()), self.c

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.t, self.c + o)
        t = dict(self.t)
        for k, v in o.t.items():
            n = t.get(k, 0) + v
            if n:
                t[k] = n
            else:
                t.pop(k, None)
        return Lin(t, self.c + o.c)

    def __mul__(self, n):
        return Lin({k: v * n for k, v in self.t.items()} if n else {}, self.c * n)

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + (-o)


def K(n):
    return Lin({}, n)


class NotLinear(Exception):
    pass


class Lia:
    def __init__(self, assertions):
        self.fs = assertions
        self.side = []
        self.cache = {}
        self.divs = {}
        self.vars = {}
        self.atoms = {}
        self.quot = {}
        self.nf = 0
        self.keep = list(assertions)
        self.bounds, self.low = {}, {}
        for f in assertions:
            self.learn(f)
        self.out = [self.b(f) for f in assertions]

    # upper bounds of variables that hold in every model
    def conj(self, f):
        """ids -> conjuncts implied by f"""
        if z3.is_and(f):
            r = {}
            for c in f.children():
                r.update(self.conj(c))
            return r
        if z3.is_or(f):
            cs = [self.conj(c) for c in f.children()]
            r = {k: v for k, v in cs[0].items() if all(k in c for c in cs[1:])}
            r[f.get_id()] = f
            return r
        return {f.get_id(): f}

    def learn(self, f):
        for c in self.conj(f).values():
            neg = z3.is_not(c)
            c = c.arg(0) if neg else c
            k = c.decl().kind()
            a = c.children()
            if len(a) != 2 or not z3.is_bv(a[0]):
                continue
            var = lambda x: x.num_args() == 0 and x.decl().kind() == z3.Z3_OP_UNINTERPRETED
            num = z3.is_bv_value
            strict = {z3.Z3_OP_ULT: 1, z3.Z3_OP_ULEQ: 0}
            if k in (z3.Z3_OP_UGT, z3.Z3_OP_UGEQ):
                a = a[::-1]
                k = z3.Z3_OP_ULT if k == z3.Z3_OP_UGT else z3.Z3_OP_ULEQ
            if k not in strict:
                continue
            if not neg and num(a[0]) and var(a[1]):         # c < x
                n = a[1].decl().name()
                self.low[n] = max(a[0].as_long() + strict[k], self.low.get(n, 0))
                continue
            if neg and var(a[0]) and num(a[1]):             # not (x < c)
                n = a[0].decl().name()
                self.low[n] = max(a[1].as_long() + 1 - strict[k], self.low.get(n, 0))
                continue
            if not neg and var(a[0]) and num(a[1]):
                hi = a[1].as_long() - strict[k]
                v = a[0]
            elif neg and num(a[0]) and var(a[1]):       # not (c < x)
                hi = a[0].as_long() - (1 - strict[k])
                v = a[1]
            else:
                continue
            n = v.decl().name()
            self.bounds[n] = min(hi, self.bounds.get(n, hi))

    def atom(self, x, lo, hi):
        self.atoms[x.get_id()] = (x, lo, hi)
        return Lin({x.get_id(): 1}, 0)

    def z(self, l):
        ts = [self.atoms[k][0] * v if v != 1 else self.atoms[k][0] for k, v in sorted(l.t.items())]
        if l.c or not ts:
            ts.append(z3.IntVal(l.c))
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def span(self, l):
        lo = hi = l.c
        for k, v in l.t.items():
            _, a, b = self.atoms[k]
            lo += min(a * v, b * v)
            hi += max(a * v, b * v)
        return lo, hi

    def ite(self, c, a, b):
        """c is a z3 condition, a and b linear forms with bounds"""
        if a[0].key() == b[0].key():
            return a
        lo, hi = min(a[1], b[1]), max(a[2], b[2])
        return self.atom(z3.If(c, self.z(a[0]), self.z(b[0])), lo, hi), lo, hi

    def divmod(self, a, c):
        """(quotient, remainder) of (linear form, lower, upper bound) by the constant c, rounding down"""
        t, lo, hi = a
        if lo // c == hi // c:
            k = lo // c
            return (K(k), k, k), (t + -k * c, lo - k * c, hi - k * c)
        # multiples of c go to the quotient
        out = Lin({k: v // c for k, v in t.t.items() if v % c == 0}, t.c // c)
        x = t - out * c
        l, h = self.span(x)
        l2, h2 = self.span(out)
        l, h = max(l, lo - c * h2), min(h, hi - c * l2)
        if out.t or out.c:
            q, r = self.divmod((x, l, h), c)
            return (q[0] + out, lo // c, hi // c), r
        if len(t.t) == 1 and t.c == 0:
            (k, v), = t.t.items()
            if v == 1 and k in self.quot:
                # a quotient of a quotient
                x, xl, xh, d = self.quot[k]
                q = self.divmod((x, xl, xh), c * d)[0]
                return (q[0], lo // c, hi // c), (t - q[0] * c, 0, c - 1)
        key = (t.key(), c)
        if key not in self.divs:
            self.nf += 1
            v = z3.Int('lia!%d' % self.nf)
            q = self.atom(v, lo // c, hi // c)
            self.quot[v.get_id()] = (t, lo, hi, c)
            r = t - q * c
            e = self.z(r)
            self.side += [v >= lo // c, v <= hi // c, e >= 0, e <= c - 1]
            self.divs[key] = (q, lo // c, hi // c), (r, 0, c - 1)
        return self.divs[key]

    def wrap(self, t, lo, hi, w):
        m = 1 << w
        if 0 <= lo and hi < m:
            return t, lo, hi
        return self.divmod((t, lo, hi), m)[1]

    def signed(self, a, w):
        t, lo, hi = a
        h = 1 << (w - 1)
        if hi < h:
            return a
        if lo >= h:
            return t + -2 * h, lo - 2 * h, hi - 2 * h
        return self.ite(self.z(t) >= h, (t + -2 * h, -h, hi - 2 * h), (t, lo, h - 1))

    def flat(self, e):
        """a sum as a linear form modulo 2^w, without reductions of the partial sums"""
        k, m = e.decl().kind(), 1 << e.size()
        if k not in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB) or e.get_id() in self.cache:
            t, lo, hi = self.v(e)
            return (t + -m, lo - m, hi - m) if lo == hi and lo > m // 2 else (t, lo, hi)
        r = None
        for x in e.children():
            a = self.flat(x)
            if r is None:
                r = a
            elif k == z3.Z3_OP_BADD:
                r = r[0] + a[0], r[1] + a[1], r[2] + a[2]
            else:
                r = r[0] - a[0], r[1] - a[2], r[2] - a[1]
        return r

    def holds(self, f, *given):
        """the fact follows from the definitions"""
        s = z3.Solver()
        s.set('timeout', 3000)
        s.add(*self.side)
        s.add(*given)
        s.add(z3.Not(f))
        return s.check() == z3.unsat

    def arm(self, e, c):
        """an alternative: its value only matters where the condition holds, which may rule out that it wraps"""
        m = 1 << e.size()
        if e.decl().kind() in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB) and e.get_id() not in self.cache:
            t, lo, hi = self.flat(e)
            if (lo < 0 or hi >= m) and hi - lo < m:
                x = self.z(t)
                if self.holds(z3.And(x >= 0, x < m), c):
                    return t, max(lo, 0), min(hi, m - 1)
        return self.v(e)

    def v(self, e):
        k = e.get_id()
        if k not in self.cache:
            self.cache[k] = self.v1(e)
            self.keep.append(e)
        return self.cache[k]

    def v1(self, e):
        w = e.size()
        m = 1 << w
        if z3.is_bv_value(e):
            n = e.as_long()
            return K(n), n, n
        k = e.decl().kind()
        if e.num_args() == 0:
            n = e.decl().name()
            hi = min(m - 1, self.bounds.get(n, m - 1))
            lo = min(hi, self.low.get(n, 0))
            v = z3.Int('v!' + n)
            self.vars[n] = (v, w)
            self.side += [v >= lo, v <= hi]
            return self.atom(v, lo, hi), lo, hi
        if k == z3.Z3_OP_ITE:
            c = self.b(e.arg(0))
            a, b = self.arm(e.arg(1), c), self.arm(e.arg(2), z3.Not(c))
            return self.ite(c, a, b)
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB):
            return self.wrap(*self.flat(e), w)
        A = [self.v(x) for x in e.children()]
        const = lambda a: a[1] == a[2]
        if k == z3.Z3_OP_BNEG:
            return self.wrap(-A[0][0], -A[0][2], -A[0][1], w)
        if k == z3.Z3_OP_BMUL:
            r = A[0]
            for b in A[1:]:
                if const(r):
                    r, b = b, r
                if not const(b):
                    raise NotLinear('product')
                c = b[1]
                if c > m // 2 and r[2] * (m - c) < m * m:       # a negative constant
                    c -= m
                lo, hi = sorted((r[1] * c, r[2] * c))
                r = self.wrap(r[0] * c, lo, hi, w)
            return r
        if k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I):
            a, b = A
            if not const(b) or b[1] == 0:
                raise NotLinear('division')
            quo = k in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I)
            if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSREM, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM_I):
                if b[1] >= m // 2:
                    raise NotLinear('negative divisor')
                if a[2] >= m // 2:
                    # round towards zero: by the magnitude
                    s = self.signed(a, w)
                    neg = self.z(s[0]) < 0
                    mag = self.ite(neg, (-s[0], 0, -s[1]), (s[0], 0, max(0, s[2])))
                    x = self.divmod(mag, b[1])[0 if quo else 1]
                    return self.wrap(*self.ite(neg, (-x[0], -x[2], 0), x), w)
            return self.divmod(a, b[1])[0 if quo else 1]
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            return self.bits(A[0], lo, hi - lo + 1)
        if k == z3.Z3_OP_CONCAT:
            r = A[0]
            for x, b in zip(e.children()[1:], A[1:]):
                s = 1 << x.size()
                r = (r[0] * s + b[0], r[1] * s + b[1], r[2] * s + b[2])
            return r
        if k == z3.Z3_OP_ZERO_EXT:
            return A[0]
        if k == z3.Z3_OP_SIGN_EXT:
            return self.wrap(*self.signed(A[0], e.arg(0).size()), w)
        if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR, z3.Z3_OP_BASHR):
            a, b = A
            if not const(b):
                raise NotLinear('shift')
            if k == z3.Z3_OP_BSHL:
                return self.wrap(a[0] * (1 << b[1]), a[1] << b[1], a[2] << b[1], w) if b[1] < w else (K(0), 0, 0)
            if k == z3.Z3_OP_BASHR and a[2] >= m // 2:
                raise NotLinear('ashr')
            return self.divmod(a, 1 << min(b[1], w))[0]
        if k == z3.Z3_OP_BNOT:
            a = A[0]
            return -a[0] + (m - 1), m - 1 - a[2], m - 1 - a[1]
        if k == z3.Z3_OP_BAND and len(A) == 2:
            a, b = A
            if const(a):
                a, b = b, a
            if not const(b):
                raise NotLinear('and')
            c, at, t, hi = b[1], 0, K(0), 0
            while c >> at:
                if not c >> at & 1:
                    at += 1
                    continue
                n = 0
                while c >> (at + n) & 1:
                    n += 1
                x = self.bits(a, at, n)
                t = t + x[0] * (1 << at)
                hi += x[2] << at
                at += n
            return t, 0, hi
        if k == z3.Z3_OP_BOR and len(A) == 2:
            # apart if one is below the lowest bit the other can have
            for (x, a), (y, b) in (((e.arg(0), A[0]), (e.arg(1), A[1])), ((e.arg(1), A[1]), (e.arg(0), A[0]))):
                z = 1 << self.zeros(x)
                if b[2] < z or z > 1 and self.holds(self.z(b[0]) < z):
                    return a[0] + b[0], a[1] + b[1], a[2] + min(b[2], z - 1)
        raise NotLinear(e.decl().name())

    def zeros(self, e):
        """low bits of e that are zero"""
        k = e.decl().kind()
        if z3.is_bv_value(e):
            n = e.as_long()
            return e.size() if n == 0 else (n & -n).bit_length() - 1
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(e.arg(1)):
            return e.arg(1).as_long()
        if k == z3.Z3_OP_CONCAT:
            n = 0
            for x in reversed(e.children()):
                z = self.zeros(x)
                n += z
                if z < x.size():
                    break
            return n
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BOR, z3.Z3_OP_BSUB):
            return min(self.zeros(x) for x in e.children())
        if k == z3.Z3_OP_ITE:
            return min(self.zeros(x) for x in e.children()[1:])
        return 0

    def bits(self, a, lo, n):
        q = self.divmod(a, 1 << lo)[0] if lo else a
        return self.divmod(q, 1 << n)[1]

    def b(self, e):
        k = ('b', e.get_id())
        if k not in self.cache:
            self.cache[k] = self.b1(e)
            self.keep.append(e)
        return self.cache[k]

    def b1(self, e):
        k = e.decl().kind()
        if k in (z3.Z3_OP_TRUE, z3.Z3_OP_FALSE):
            return e
        if e.num_args() == 0:
            self.vars[e.decl().name()] = (e, 0)
            return e
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.b(x) for x in e.children()])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.b(x) for x in e.children()])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.b(e.arg(0)))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(e.arg(0)), self.b(e.arg(1)))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.b(e.arg(0)), self.b(e.arg(1)))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(e.arg(0)), self.b(e.arg(1)), self.b(e.arg(2)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and e.num_args() == 2:
            if z3.is_bv(e.arg(0)):
                a, b = self.v(e.arg(0)), self.v(e.arg(1))
                r = z3.BoolVal(False) if a[2] < b[1] or b[2] < a[1] else self.z(a[0] - b[0]) == 0
            elif z3.is_bool(e.arg(0)):
                r = self.b(e.arg(0)) == self.b(e.arg(1))
            else:
                raise NotLinear('equality')
            return z3.Not(r) if k == z3.Z3_OP_DISTINCT else r
        nm = e.decl().name()
        if nm in ('bvsmul_noovfl', 'bvsmul_noudfl', 'bvumul_noovfl'):
            w = e.arg(0).size()
            a, b = self.v(e.arg(0)), self.v(e.arg(1))
            if nm[2] == 's':
                a, b = self.signed(a, w), self.signed(b, w)
            if a[1] == a[2]:
                a, b = b, a
            if b[1] != b[2]:
                raise NotLinear('product')
            lo, hi = sorted((a[1] * b[1], a[2] * b[1]))
            t = self.z(a[0] * b[1])
            if nm == 'bvsmul_noudfl':
                m = -(1 << (w - 1))
                return z3.BoolVal(True) if lo >= m else t >= m
            m = 1 << (w - 1 if nm[2] == 's' else w)
            return z3.BoolVal(True) if hi < m else t < m
        S = {z3.Z3_OP_SLT: 0, z3.Z3_OP_SLEQ: 1, z3.Z3_OP_SGT: 2, z3.Z3_OP_SGEQ: 3}
        U = {z3.Z3_OP_ULT: 0, z3.Z3_OP_ULEQ: 1, z3.Z3_OP_UGT: 2, z3.Z3_OP_UGEQ: 3}
        if k in S or k in U:
            a, b = self.v(e.arg(0)), self.v(e.arg(1))
            if k in S:
                w = e.arg(0).size()
                a, b = self.signed(a, w), self.signed(b, w)
            op = S.get(k, U.get(k))
            if op > 1:
                a, b, op = b, a, op - 2
            d = self.z(a[0] - b[0])
            if op == 0:
                return z3.BoolVal(True) if a[2] < b[1] else z3.BoolVal(False) if a[1] >= b[2] else d < 0
            return z3.BoolVal(True) if a[2] <= b[1] else z3.BoolVal(False) if a[1] > b[2] else d <= 0
        raise NotLinear(e.decl().name())
