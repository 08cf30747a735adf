"""Global value numbering over monomorphic MIR.

A forward dataflow analysis that assigns every program value a *value number*.  Float values are numbered by
random interpretation (Gulwani & Necula, POPL'04): a value number is an element of a large prime field in which the
ring operations are the field's, and every other operation (sin, exp, floor, ...) is an uninterpreted function of
its operands' numbers, so two values have the same number exactly when their data-flow graphs agree under the
axioms of a commutative field (up to an error probability below 2^-100).  Control flow is merged, not enumerated:
at every join the states are combined into gated phis, kept canonical as ordered decision diagrams over the branch
conditions (three-way in the sign of a compared difference).  Loops whose trip count folds to a constant are
peeled; anything else is reported as undecided.  Nothing of the analysed program is executed.
"""
import hashlib, json, math, re, sys
from fractions import Fraction
import struct

sys.setrecursionlimit(20000)


class Undecided(Exception):
    pass


class Retry(Exception):
    """the random field assignment made a square root non-existent: draw another one"""


class F:
    """value number of a float"""
    __slots__ = ('v', 'q', 'sp', 'ab')

    def __init__(self, v, q, sp):
        self.v = v
        self.ab = None  # formal absolute value of this leaf
        self.q = q      # exact rational when the value is a known constant
        self.sp = sp    # None | 'inf' | '-inf' | 'nan'

    def __repr__(self):
        if self.sp:
            return self.sp
        if self.q is not None:
            return str(float(self.q))
        return 'v%x' % (self.v % 0xffffff)


class Node:
    __slots__ = ('var', 'kids', 'id')

    def __init__(self, var, kids, i):
        self.var = var
        self.kids = kids
        self.id = i

    def __repr__(self):
        return '<%d?%s>' % (self.var, ','.join(map(repr, self.kids)))


UNDEF = ('U',)
UNIT = ('S', ())
NONE = object()
# -1 modulo 8, 3, 5, .., 19 and 8 modulo neither 9: small constants have square roots, cube roots are unique
PRIME = 170141183460469231731687303715722784439
TINY = Fraction(1, 10**100)
HUGE = Fraction(10**100)
# leaf operations that accept a formal absolute value as it is
ABSAFE = {'fLt', 'fLe', 'fGt', 'fGe', 'fEq', 'fNe', 'b:fmax', 'b:fmin', 'b:fabs', 'ite', 'alive', 'isfin'}


def snap(x):
    """The number a literal stands for: 44.0 / 45.0 is written as a quotient and stored as the nearest double; the rational it was rounded from is the one exact reasoning wants."""
    e = Fraction(x)
    if e.denominator <= 1 << 20:
        return e
    c = e.limit_denominator(1000)
    if float(c) == x:
        return c
    c = Fraction(repr(x))
    if len(str(c.numerator)) <= 15 and float(c) == x:
        return c
    c = e.limit_denominator(500000)
    return c if float(c) == x else e


class Dom:
    def __init__(self, seed, formal=False, prime=PRIME):
        self.P = prime
        self.cube = pow(3, -1, prime - 1)       # exponent of the unique cube root
        self.third = pow(3, -1, (prime + 1) // 3)
        self.formal = formal    # coarse mode: absolute values stay symbolic in comparisons, large maxima are havocked
        self.dead = False       # some path needed a square root this assignment does not have
        self.maxcap = 40 if formal else 300
        self.seed = seed
        self.flo = {}
        self.nodes = {}
        self.vars = []          # index -> ('sign', d) | ('bool', key)
        self.varix = {}
        self.memo = {}
        self.symv = {}          # value number of an input -> its key
        self.names = {}         # value number -> readable origin
        self.expv, self.expq, self.expm, self.lnm = [], [], {}, {}     # exponential basis
        self.ang, self.angv, self.angoff, self.scm, self.at2 = [], [], [], {}, set()
        self.ints = []          # values known to be integers
        self.sqrts = {}
        self.sqm = {}           # x*x -> x
        self.lnt = {}           # ln(x) -> x
        self.nodecap = 400000
        for q in (0, 1, -1, 2, -2, 3, 4, Fraction(1, 2), Fraction(1, 4)):
            self.const(q)

    # ---- numbers ----
    def h(self, *key):
        d = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=16).digest()
        return int.from_bytes(d, 'big') % (self.P - 3) + 2

    def fl(self, v, q=None, sp=None):
        v %= self.P
        r = self.flo.get(v)
        if r is None:
            if q is None and sp is None and v == 0:
                q = Fraction(0)
            r = self.flo[v] = F(v, q, sp)
        elif r.q is None and q is not None:
            r.q = q
        return r

    def const(self, q):
        q = Fraction(q)
        return self.fl(q.numerator * pow(q.denominator, -1, self.P), q)

    def special(self, s):
        return self.fl(self.h('special', s), None, s)

    def from_bits(self, bits, size):
        if size == 8:
            x = struct.unpack('<d', struct.pack('<Q', bits))[0]
        else:
            x = struct.unpack('<f', struct.pack('<I', bits))[0]
        if x != x:
            return self.special('nan')
        if x in (float('inf'), float('-inf')):
            return self.special('inf' if x > 0 else '-inf')
        return self.const(snap(x) if size == 8 else Fraction(x))

    def sym(self, *key):
        r = self.fl(self.h('sym', *key))
        self.names[r.v] = '.'.join(map(str, key))
        self.symv[r.v] = key
        return r

    def opaque(self, name, *args):
        if any(isinstance(a, F) and a.sp == 'dead' for a in args):
            return self.special('dead')
        r = self.fl(self.h('fn', name, *[a.v if isinstance(a, F) else a for a in args]))
        return r

    # ---- decision diagrams ----
    def mk(self, var, kids):
        k0 = kids[0]
        for k in kids:
            if not (k is k0 or (type(k) is type(k0) and not isinstance(k, (Node, F)) and k == k0)):
                break
        else:
            return k0
        key = (var,) + tuple(self.kkey(k) for k in kids)
        r = self.nodes.get(key)
        if r is None:
            if len(self.nodes) > self.nodecap:
                raise Undecided('the decision diagrams grow too large')
            r = self.nodes[key] = Node(var, tuple(kids), len(self.nodes))
        return r

    @staticmethod
    def kkey(k):
        if isinstance(k, Node):
            return ('n', k.id)
        if isinstance(k, F):
            return ('f', k.v)
        return k

    def newvar(self, key, n):
        i = self.varix.get(key)
        if i is None:
            i = self.varix[key] = len(self.vars)
            self.vars.append(key + (n,))
        return i

    def ap(self, tag, fn, *args):
        """apply a leaf operation to decision diagrams"""
        top = None
        for a in args:
            if isinstance(a, Node) and (top is None or a.var < top):
                top = a.var
        if top is None:
            if self.formal and tag not in ABSAFE and any(isinstance(x, F) and x.ab is not None for x in args):
                return self.ap(tag, fn, *[self.sign(x.ab, self.fneg(x.ab), self.const(0), x.ab) if isinstance(x, F) and x.ab is not None else x for x in args])
            return fn(*args)
        key = (tag,) + tuple(self.kkey(a) for a in args)
        r = self.memo.get(key)
        if r is not None:
            return r
        nk = self.vars[top][-1]
        kids = []
        for i in range(nk):
            kids.append(self.ap(tag, fn, *[a.kids[i] if isinstance(a, Node) and a.var == top else a for a in args]))
        # a leaf operation may itself introduce a decision (comparisons): rebuild in order
        r = self.ordered(top, kids)
        self.memo[key] = r
        return r

    def ordered(self, var, kids):
        """a node on `var` whose kids may mention earlier variables"""
        low = None
        for k in kids:
            if isinstance(k, Node) and k.var <= var and (low is None or k.var < low):
                low = k.var
        if low is None:
            return self.mk(var, kids)
        if low == var:
            return self.ordered(var, [k.kids[i] if isinstance(k, Node) and k.var == var else k for i, k in enumerate(kids)])
        nk = self.vars[low][-1]
        return self.ordered(low, [self.ordered(var, [k.kids[j] if isinstance(k, Node) and k.var == low else k for k in kids]) for j in range(nk)])

    def and_(self, a, b):
        if a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1:
            return a
        return self.ap('and', lambda x, y: x & y, a, b)

    def or_(self, a, b):
        if a == 1 or b == 1:
            return 1
        if a == 0:
            return b
        if b == 0:
            return a
        return self.ap('or', lambda x, y: x | y, a, b)

    def not_(self, a):
        if a == 0:
            return 1
        if a == 1:
            return 0
        return self.ap('not', lambda x: 1 - x, a)

    def ite(self, c, a, b):
        if c == 1:
            return a
        if c == 0:
            return b
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        return self.ap('ite', lambda c, a, b: b if a is UNDEF else a if b is UNDEF else (a if c else b), c, a, b)

    def restrict(self, f, care):
        """simplify f where care does not hold"""
        if care == 1 or not isinstance(f, Node):
            return f
        if care == 0:
            return f
        key = ('restrict', f.id, self.kkey(care))
        r = self.memo.get(key)
        if r is not None:
            return r
        if care.var < f.var:
            c = 0
            for k in care.kids:
                c = self.or_(c, k)
            r = self.restrict(f, c)
        else:
            cs = care.kids if care.var == f.var else [care] * len(f.kids)
            live = [i for i in range(len(f.kids)) if cs[i] != 0]
            if len(live) == 1:
                r = self.restrict(f.kids[live[0]], cs[live[0]])
            else:
                ks = [self.restrict(f.kids[i], cs[i]) if cs[i] != 0 else None for i in range(len(f.kids))]
                fill = next(k for k in ks if k is not None)
                r = self.mk(f.var, [fill if k is None else k for k in ks])
        self.memo[key] = r
        return r

    # ---- float operations on leaves ----
    def cst(self, a):
        """a constant as a rational: exactly, or closely for roots of constants"""
        if a.q is not None:
            return a.q
        return self.apx.get(a.v)

    def approx(self, r, a, b, f):
        if r.q is None and r.v not in self.apx and (a.v in self.apx or b.v in self.apx):
            x, y = self.cst(a), self.cst(b)
            if x is not None and y is not None:
                q = f(x, y)
                m = max(abs(x), abs(y)) if f is self.plus else abs(q)
                if abs(q) > m / 10**9:
                    self.apx[r.v] = q.limit_denominator(10**60)

    @staticmethod
    def plus(x, y):
        return x + y

    def isnum(self, *a):
        return all(x.sp is None for x in a)

    def fadd(self, a, b):
        if a.sp or b.sp:
            if 'dead' in (a.sp, b.sp):
                return self.special('dead')
            if 'nan' in (a.sp, b.sp):
                return self.special('nan')
            if a.sp and b.sp and a.sp != b.sp:
                return self.special('nan')
            return a if a.sp else b
        r = self.fl(a.v + b.v, a.q + b.q if a.q is not None and b.q is not None else None)
        if r.q is None:
            self.approx(r, a, b, self.plus)
            x, y = (a, b) if self.cst(b) is not None else (b, a)
            if r.v not in self.lin and r.v not in self.linbase:
                q = self.cst(y)
                l = self.lin.get(x.v, (x.v, 1, 0))
                if q is None:
                    o = self.lin.get(y.v, (y.v, 1, 0))
                    if o[0] == l[0] and l[1] + o[1] == 0:
                        return self.const(l[2] + o[2])
                    if o[0] == l[0]:
                        self.affine(r.v, l[0], l[1] + o[1], l[2] + o[2])
                elif q and self.cst(x) is None:
                    self.affine(r.v, l[0], l[1], l[2] + q)
            x, y = self.lower(a), self.lower(b)
            if x is not None and y is not None:
                if not (x or y):
                    self.zparts.setdefault(r.v, (a, b))
                (self.positive if x or y else self.nonneg).add(r.v)
            else:
                x, y = self.lower(a, True), self.lower(b, True)
                if x is not None and y is not None:
                    (self.positive if x or y else self.nonneg).add(self.P - r.v)
        return r

    def lower(self, a, neg=False):
        """1: known positive, 0: known nonnegative, None: unknown (of -a when neg)"""
        if a.q is not None:
            q = -a.q if neg else a.q
            return 1 if q > 0 else 0 if q == 0 else None
        v = self.P - a.v if neg else a.v
        return 1 if v in self.positive else 0 if v in self.nonneg else None

    def link(self, v, a, flip):
        """v has the sign of a (or its opposite)"""
        if v in self.signof or v == 0:
            return
        while True:
            s = self.signof.get(a.v)
            if s is None:
                break
            a, f = s
            flip = flip != f
        if a.v == v or a.v == self.P - v:
            return
        if v in self.groups or self.P - v in self.groups:       # v was compared before this was known
            if a.v in self.groups or self.P - a.v in self.groups:
                return
            v, a = a.v, self.fl(v)
        self.signof[v] = (a, flip)

    def prodsign(self, r, a, b):
        if r.q is not None or r.v in self.positive or r.v in self.nonneg or self.P - r.v in self.positive or self.P - r.v in self.nonneg:
            return
        for x, y in ((a, b), (b, a)):
            p = self.lower(x)
            n = self.lower(x, True)
            if p == 1 or n == 1:
                l, m = self.lower(y), self.lower(y, True)
                if l is not None:
                    (self.positive if l else self.nonneg).add(r.v if p == 1 else self.P - r.v)
                elif m is not None:
                    (self.positive if m else self.nonneg).add(self.P - r.v if p == 1 else r.v)
                else:
                    self.link(r.v, y, n == 1)
                return
        for x, y in ((a, b),):
            i, j = self.lower(x), self.lower(y)
            if i is not None and j is not None:
                self.nonneg.add(r.v)

    def fneg(self, a):
        if a.sp:
            return self.special({'inf': '-inf', '-inf': 'inf', 'nan': 'nan', 'dead': 'dead'}[a.sp])
        r = self.fl(-a.v, -a.q if a.q is not None else None)
        if a.v in self.apx:
            self.apx[r.v] = -self.apx[a.v]
        elif r.q is None:
            l = self.lin.get(a.v, (a.v, 1, 0))
            self.affine(r.v, l[0], -l[1], -l[2])
        return r

    def mod(self, q):
        q = Fraction(q)
        return q.numerator * pow(q.denominator, -1, self.P)

    def affine(self, v, x, k, c):
        """v = k x + c"""
        if v in self.lin or v in self.linbase or v == x or not k:
            return
        if k.denominator.bit_length() > 4000 or Fraction(c).denominator.bit_length() > 4000:
            return
        k, c = Fraction(k), Fraction(c)
        if v != self.P - x and (v in self.groups or self.P - v in self.groups):       # v was compared before this was known
            if x in self.groups or self.P - x in self.groups or x in self.lin or x in self.linbase:
                return
            v, x, k, c = x, v, 1 / k, -c / k
        self.lin[v] = (x, k, c)
        self.linbase.add(x)

    def common(self, a, b):
        """two values as multiples of others, when at least one is a proper multiple"""
        if a.q is not None or b.q is not None or a.v not in self.lin and b.v not in self.lin:
            return None
        x = self.lin.get(a.v, (a.v, Fraction(1), Fraction(0)))
        y = self.lin.get(b.v, (b.v, Fraction(1), Fraction(0)))
        return None if x[2] or y[2] or x[0] in self.lin or y[0] in self.lin else (x[0], x[1], y[0], y[1])

    def fsub(self, a, b):
        return self.fadd(a, self.fneg(b))

    def fmul(self, a, b):
        if a.sp or b.sp:
            if 'dead' in (a.sp, b.sp):
                return self.special('dead')
            if 'nan' in (a.sp, b.sp):
                return self.special('nan')
            s = 1
            for x in (a, b):
                if x.sp:
                    s *= 1 if x.sp == 'inf' else -1
                elif x.q is not None and x.q != 0:
                    s *= 1 if x.q > 0 else -1
                else:
                    return self.opaque('mulinf', a, b)
            return self.special('inf' if s > 0 else '-inf')
        if a.v == b.v and a.q is None:
            self.sqm.setdefault(a.v * a.v % self.P, a)
        r = self.fl(a.v * b.v, a.q * b.q if a.q is not None and b.q is not None else None)
        self.approx(r, a, b, lambda x, y: x * y)
        for x, y in ((a, b), (b, a)):
            q = self.cst(y)
            if q and q != 1 and self.cst(x) is None:
                l = self.lin.get(x.v, (x.v, 1, 0))
                self.affine(r.v, l[0], l[1] * q, l[2] * q)
        c = self.common(a, b)
        if c:                                   # (k x)(m y) is a multiple of x y
            self.fmul(self.fl(c[0]), self.fl(c[2]))
            self.affine(r.v, c[0] * c[2] % self.P, Fraction(c[1]) * c[3], Fraction(0))
        if a.v == b.v and r.q is None and r.v not in self.positive:
            (self.positive if self.lower(a) == 1 or self.lower(a, True) == 1 else self.nonneg).add(r.v)
        else:
            self.prodsign(r, a, b)
        return r

    def fdiv(self, a, b):
        if b.sp in ('inf', '-inf') and not a.sp:
            return self.const(0)
        if 'dead' in (a.sp, b.sp):
            return self.special('dead')
        if 'nan' in (a.sp, b.sp) or a.sp and b.sp:
            return self.special('nan')
        if a.sp:
            k = self.cst(b)
            if b.v in self.positive or k is not None and k > 0:
                return a
            if (-b.v) % self.P in self.positive or k is not None and k < 0:
                return self.special('-inf' if a.sp == 'inf' else 'inf')
            return self.opaque('divinf', a, b)
        if b.v == 0:
            return self.opaque('div0', a)
        c = self.common(a, b)
        if c and c[0] == c[2]:
            return self.const(Fraction(c[1]) / c[3])
        r = self.fl(a.v * pow(b.v, -1, self.P), a.q / b.q if a.q is not None and b.q is not None else None)
        self.approx(r, a, b, lambda x, y: x / y)
        q = self.cst(b)
        if q and q != 1 and self.cst(a) is None:
            l = self.lin.get(a.v, (a.v, 1, 0))
            self.affine(r.v, l[0], l[1] / q, l[2] / q)
        if c:                                   # (k x) / (m y) is a multiple of x / y
            o = self.fdiv(self.fl(c[0]), self.fl(c[2]))
            self.affine(r.v, o.v, Fraction(c[1]) / c[3], Fraction(0))
        self.prodsign(r, a, b)
        return r

    def frem(self, a, b):
        if a.q is not None and b.q is not None and b.q != 0:
            n = int(a.q / b.q)
            return self.const(a.q - n * b.q)
        return self.opaque('rem', a, b)

    # ---- comparisons: one three-way variable per compared difference (up to sign and scale by a constant) ----
    def sign(self, d, neg, zero, pos):
        """decision on the sign of leaf d"""
        if d.sp:
            return {'inf': pos, '-inf': neg, 'nan': 0, 'dead': zero}[d.sp]
        if d.q is not None:
            return neg if d.q < 0 else zero if d.q == 0 else pos
        q = self.apx.get(d.v)
        if q is not None:
            return neg if q < 0 else pos
        s = self.signof.get(d.v)
        if s is not None and d.v not in self.chasing:
            self.chasing.add(d.v)
            try:
                return self.sign(s[0], pos, zero, neg) if s[1] else self.sign(s[0], neg, zero, pos)
            finally:
                self.chasing.discard(d.v)
        if d.v in self.positive:
            return pos
        m = (-d.v) % self.P
        if m in self.positive:
            return neg
        if d.v in self.nonneg:
            neg = pos
        elif m in self.nonneg:
            pos = neg
        l = self.lin.get(d.v)
        b = self.relink(l[0] if l else d.v)
        if b is None and l and l[0] not in self.groups and self.P - l[0] not in self.groups:
            b = self.relink(d.v)                # the value itself may be recognised where its base is not
            if b is not None:
                b = (b[0], b[1] / l[1], (b[2] - l[2]) / l[1])
                self.linked[l[0]] = b
        if b is not None:
            k, c = (l[1], l[2]) if l else (1, 0)
            if b[0] is None:
                q = k * b[2] + c
                return neg if q < 0 else zero if q == 0 else pos
            l = (b[0], k * b[1], k * b[2] + c)
        if l is None:
            x, c = d.v, Fraction(0)
        else:                                   # d = k (x - c)
            x, k, c = l
            if k < 0:
                neg, pos = pos, neg
            c = -c / k
            o = (x - self.mod(c)) % self.P if c else x
            if o != d.v and o in self.following:      # links that lead back here say nothing
                x, c = d.v, Fraction(0)
                if k < 0:
                    neg, pos = pos, neg
            elif o != d.v:
                if c:
                    self.affine(o, x, Fraction(1), -c)
                self.following.append(d.v)
                try:
                    return self.sign(self.fl(o), neg, zero, pos)
                finally:
                    self.following.pop()
        if c and x in self.root2:               # a square root against a constant
            if c < 0:
                return pos
            return self.sign(self.fadd(self.root2[x], self.const(-c * c)), neg, zero, pos)
        if c:
            for y, k, n, p in ((x, c, neg, pos), ((-x) % self.P, -c, pos, neg)):
                lim = self.range.get(y)
                if lim is not None:
                    if k > lim[1]:
                        return n
                    if k < lim[0]:
                        return p
            b = self.lower(self.fl(x))
            if b is not None and c < 0:
                return pos
            b = self.lower(self.fl(x), True)
            if b is not None and c > 0:
                return neg
        w = min(x, (-x) % self.P)
        key = min(d.v, m)
        flip = key != d.v
        # the same difference scaled by a small constant is the same condition
        for k in self.signscale:
            o = key * k % self.P
            if ('sign', o) in self.varix:
                key = o
                break
            o = self.P - o
            if ('sign', o) in self.varix:
                key = o
                flip = not flip
                break
        var = self.newvar(('sign', key), 3)
        kids = [pos, zero, neg] if flip else [neg, zero, pos]
        # orders against several constants are kept consistent: x < 1 settles x < 2
        if w != x:
            c = -c
        near = self.near.get((w, c))
        if near is None:
            grp = self.groups.setdefault(w, {})
            lo = max((k for k in grp if k < c), default=None)
            hi = min((k for k in grp if k > c), default=None)
            grp[c] = d if w == x else self.fneg(d)
            near = self.near[(w, c)] = (grp.get(lo), grp.get(hi))
        r = self.ordered(var, kids)
        if near[0] is not None or near[1] is not None:
            n, p = (neg, pos) if w == x else (pos, neg)
            if near[0] is not None:
                r = self.sign(near[0], n, n, r)
            if near[1] is not None:
                r = self.sign(near[1], r, p, p)
        return r

    def recon(self, v):
        """the small rational this value is, if it is one: two such among 2^127 values cannot be confused by chance"""
        r0, r1, t0, t1 = self.P, v, 0, 1
        while r1 >> 28:
            k = r0 // r1
            r0, r1, t0, t1 = r1, r0 - k * r1, t1, t0 - k * t1
        if t1 == 0 or abs(t1) >> 28:
            return None
        return Fraction(r1 if t1 > 0 else -r1, abs(t1))

    def relink(self, x):
        """a value reached by other operations may still be a constant, or affine in one compared before"""
        if x in self.groups or self.P - x in self.groups:
            return None
        if x in self.linked:
            return self.linked[x]
        self.linked[x] = None
        q = self.recon(x)
        if q is not None:
            self.linked[x] = (None, 0, q)
            return self.linked[x]
        if len(self.groups) > 60 or len(self.linked) > 400 or x in self.root2:
            return None
        for w in list(self.groups):
            if w in self.signof or self.P - w in self.signof:
                continue
            for k, m in zip(self.scales, self.signscale):
                for s in (1, -1):
                    c = self.recon((x - s * m * w) % self.P)
                    if c is not None:
                        self.linked[x] = (w, Fraction(s * k), c)
                        return self.linked[x]
        for w in list(self.groups):
            if w not in self.symv and self.P - w not in self.symv:
                continue
            r = self.lattice(x, w)
            if r is not None:
                self.linked[x] = (w,) + r
                return self.linked[x]
        return None

    def lattice(self, x, w):
        """(k, c) with x = k w + c over small rationals, if there are such: the shortest relation D x = K w + C modulo P"""
        P = self.P
        b = [(1, 0, x), (0, 1, P - w), (0, 0, P)]
        dot = lambda u, v: u[0] * v[0] + u[1] * v[1] + u[2] * v[2]
        sub = lambda u, v, n: (u[0] - n * v[0], u[1] - n * v[1], u[2] - n * v[2])
        near = lambda a, n: (2 * a + n) // (2 * n)
        while 1:
            b.sort(key=lambda v: dot(v, v))
            while 1:                            # Gauss's reduction of the two shortest
                n = near(dot(b[0], b[1]), dot(b[0], b[0]))
                b[1] = sub(b[1], b[0], n)
                if dot(b[1], b[1]) >= dot(b[0], b[0]):
                    break
                b[:2] = b[1], b[0]
            g, h, k = dot(b[0], b[0]), dot(b[0], b[1]), dot(b[1], b[1])
            e, f, det = dot(b[2], b[0]), dot(b[2], b[1]), g * k - h * h
            if not det:
                return None
            m, n = near(e * k - f * h, det), near(f * g - e * h, det)
            v = min((sub(sub(b[2], b[0], m + i), b[1], n + j) for i in (0, 1, -1) for j in (0, 1, -1)), key=lambda v: dot(v, v))
            if dot(v, v) >= dot(b[2], b[2]):
                break
            b[2] = v
            if dot(v, v) >= dot(b[1], b[1]):
                break
        D, K, C = min(b, key=lambda v: dot(v, v))
        if not D or not K or max(abs(D), abs(K), abs(C)) >> 32 or abs(D * K) * max(C, 1, -C) >> 90:
            return None
        return Fraction(K, D), Fraction(C, D)

    def init_scale(self):
        self.linked = {}
        self.chasing = set()
        self.following = []
        self.signscale = []
        self.scales = (1, 2, 3, 4, Fraction(1, 2), Fraction(1, 3), Fraction(1, 4), 16, Fraction(1, 16))
        for q in self.scales:
            self.signscale.append(q.numerator * pow(q.denominator, -1, self.P) % self.P)
        self.signof = {}
        self.positive = set()
        self.nonneg = set()
        self.zparts = {}        # sums of nonnegative terms
        self.lin = {}           # value -> (x, k, c) when it is k x + c, k and c constants
        self.linbase = set()
        self.groups = {}        # x -> {c: x - c} for the constants it has been compared with
        self.near = {}
        self.angof = {}         # unit vectors met as (cos, sin) of a constant
        self.apx = {}           # approximate values of roots of constants
        self.range = {}         # x -> (low, high)
        self.root2 = {}         # square root -> radicand

    def zerosub(self, v, subs=None, depth=0):
        """what makes v zero, as a substitution of inputs: {name: 0 | (coefficient, other name)}, or None"""
        subs = {} if subs is None else subs
        P = self.P
        if depth > 12:
            return None
        if v == 0:
            return subs
        for x in (v, P - v):
            n = self.symv.get(x)
            if n is not None:
                subs[n] = 0
                return subs
            w = self.sqm.get(x)
            if w is not None:
                return self.zerosub(w.v, subs, depth + 1)
            z = self.zparts.get(x)
            if z is not None:
                for y in z:
                    if self.zerosub(y.v, subs, depth + 1) is None:
                        return None
                return subs
            s = self.signof.get(x)
            if s is not None:
                return self.zerosub(s[0].v, subs, depth + 1)
        for x, n in self.symv.items():          # n + c (a constant or another input) = 0
            for y, o in self.symv.items():
                if o == n:
                    continue
                for c in (1, -1, 2, -2):
                    if (x + c * y - v) % P == 0 or (x + c * y + v) % P == 0:
                        subs[n] = (-c, o)
                        return subs
            for d in (v - x, v + x):
                f = self.flo.get(d % P)
                if f is not None and f.q is not None:
                    subs[n] = -f.q if d == v - x else f.q
                    return subs
        return None

    def cmp(self, a, b, neg, zero, pos):
        """decision on the order of two leaves; magnitudes of unknown values are assumed to be ordinary"""
        if a.ab is not None or b.ab is not None:
            r = self.abscmp(a, b, neg, zero, pos)
            if r is not None:
                return r
            return self.ap(('cmp!', self.kkey(neg), self.kkey(zero), self.kkey(pos)), lambda x, y: self.cmp(x, y, neg, zero, pos), a, b)
        for x, y, n, p in ((a, b, neg, pos), (b, a, pos, neg)):
            if y.q is not None and x.q is None and not x.sp and y.q != 0:
                if abs(y.q) < TINY:
                    return self.sign(x, n, n, p) if y.q > 0 else self.sign(x, n, p, p)
                if abs(y.q) > HUGE:
                    return n if y.q > 0 else p
        if a.sp and b.sp and a.sp == b.sp:
            d = self.const(0)
        else:
            d = self.fsub(a, b)
        return self.sign(d, neg, zero, pos)

    def abscmp(self, a, b, neg, zero, pos):
        x = a.ab or a
        y = b.ab or b
        if a.sp or b.sp:
            return None
        if a.ab is None:
            return self.abscmp(b, a, pos, zero, neg)
        if b.ab is None:
            if b.q is not None and b.q < 0:
                return pos
            if b.q == 0:
                return self.sign(x, pos, zero, pos)
            if b.q is not None and b.q < TINY:
                return self.sign(x, pos, neg, pos)
            if b.q is not None and b.q > HUGE:
                return neg
            if self.lower(b) is None:
                return None
        return self.sign(self.fsub(self.fmul(x, x), self.fmul(y, y)), neg, zero, pos)

    def size(self, x, cap):
        if not isinstance(x, Node):
            return 0
        seen = {x.id}
        todo = [x]
        while todo:
            for k in todo.pop().kids:
                if isinstance(k, Node) and k.id not in seen:
                    seen.add(k.id)
                    if len(seen) > cap:
                        return len(seen)
                    todo.append(k)
        return len(seen)

    def fcmp(self, op, a, b):
        if a.sp == 'nan' or b.sp == 'nan':
            return 1 if op == 'Ne' else 0
        n, z, p = {'Lt': (1, 0, 0), 'Le': (1, 1, 0), 'Gt': (0, 0, 1), 'Ge': (0, 1, 1), 'Eq': (0, 1, 0), 'Ne': (1, 0, 1)}[op]
        return self.cmp(a, b, n, z, p)

    def fsel(self, c, a, b):
        """c is a decision over 0/1, a and b leaves"""
        return self.ite(c, a, b)

    def fabs(self, a):
        if a.sp:
            return self.special(a.sp if a.sp in ('nan', 'dead') else 'inf')
        if a.ab is not None:
            return a
        if self.formal and a.q is None and self.lower(a) is None and self.lower(a, True) is None:
            while a.v in self.signof:       # |c x| of a linked sign keeps its own magnitude
                break
            k = min(a.v, self.P - a.v)
            r = self.fl(self.h('abs', k))
            if r.ab is None:
                r.ab = self.fl(k)
            return r
        return self.sign(a, self.fneg(a), self.const(0), a)

    def fmax(self, a, b):
        if a.sp == 'nan':
            return b
        if b.sp == 'nan':
            return a
        return self.cmp(a, b, b, a, a)

    def fmin(self, a, b):
        if a.sp == 'nan':
            return b
        if b.sp == 'nan':
            return a
        return self.cmp(a, b, a, a, b)

    def fcopysign(self, a, s):
        m = self.fabs(a)
        return self.sign(s, self.ap('fneg', self.fneg, m), m, m)

    def fsignum(self, a):
        return self.sign(a, self.const(-1), self.const(1), self.const(1))

    def isfinite(self, a):
        return 0 if a.sp else 1

    # ---- elementary functions ----
    def fsqrt(self, a):
        if a.sp in ('inf', 'dead'):
            return a
        if a.sp:
            return self.special('nan')
        if a.q is not None:
            if a.q < 0:
                return self.special('nan')
            n = isqrt(a.q.numerator)
            d = isqrt(a.q.denominator)
            if n * n == a.q.numerator and d * d == a.q.denominator:
                return self.const(Fraction(n, d))
            if a.q > HUGE or 0 < a.q < TINY:        # the root of an extreme constant is just another extreme constant
                return self.const(Fraction(n, d) if a.q > HUGE else Fraction(n + 1, d))
        P = self.P
        if self.P - a.v in self.positive:
            return self.special('nan')
        if a.v in self.sqrts:
            return self.sqrts[a.v]
        if a.v in self.sqm:
            w = self.sqm[a.v]
            return self.sign(w, self.fneg(w), self.const(0), w)
        if pow(a.v, (P - 1) // 2, P) != 1:
            self.dead = True
            return self.special('dead')
        r = self.fl(pow(a.v, (P + 1) // 4, P))
        if P - r.v in self.positive or P - r.v in self.nonneg:
            r = self.fl(P - r.v)                # of the two roots, the one already known not to be negative
        self.sqrts[a.v] = r
        if a.q is None:
            self.root2[r.v] = a
        if a.v in self.positive or (a.q is not None and a.q > 0):
            self.positive.add(r.v)
            q = self.cst(a)
            if q is not None and r.q is None:
                self.apx[r.v] = Fraction(isqrt(int(q * 10**80)), 10**40)
        else:
            self.nonneg.add(r.v)
            self.signof[r.v] = (a, False)
        return r

    def fcbrt(self, a):
        if a.sp:
            return a
        q = self.cst(a)
        v = pow(a.v, self.cube, self.P)
        if a.q is not None:
            n, d = (round(abs(x) ** (1 / 3)) for x in (a.q.numerator, a.q.denominator))
            if Fraction(n, d) ** 3 == abs(a.q):
                return self.const(Fraction(n, d) * (1 if a.q > 0 else -1))
        r = self.fl(v)
        if q and r.q is None and r.v not in self.apx:
            self.apx[r.v] = Fraction(float(abs(q)) ** (1 / 3)) * (1 if q > 0 else -1)
        if a.v in self.positive:
            self.positive.add(r.v)
        elif a.v in self.nonneg:
            self.nonneg.add(r.v)
        else:
            self.link(a.v, r, False)
        return r

    def odd(self, name, a):
        """an uninterpreted odd function"""
        if a.sp == 'dead':
            return a
        if a.q == 0:
            return self.const(0)
        m = (-a.v) % self.P
        if a.v <= m:
            return self.fl(self.h('odd', name, a.v))
        return self.fneg(self.fl(self.h('odd', name, m)))

    # ---- angles: a rational-linear basis, so that the addition theorems hold ----
    COEF = [Fraction(x) for x in ('1', '-1', '2', '-2', '1/2', '-1/2', '3', '-3', '1/4', '-1/4', '3/2', '-3/2', '4', '-4', '1/3', '-1/3', '2/3', '-2/3')]

    def combo(self, v, basis, offs):
        """v as offset + c1*b1 (+ c2*b2 (+ c3*b3)) over basis indices, or None"""
        P = self.P
        key = (id(basis), len(basis))
        if getattr(self, '_ck', {}).get(key) is None:
            one = {}
            for k, b in enumerate(basis):
                for c in self.COEF:
                    one.setdefault(b * c.numerator * pow(c.denominator, -1, P) % P, (k, c))
            self._ck = dict(getattr(self, '_ck', {}))
            self._ck[key] = one
        one = self._ck[key]
        for o, tag in offs:
            w = (v - o) % P
            if w == 0:
                return tag, []
            if w in one:
                return tag, [one[w]]
        for o, tag in offs[:9]:
            for k, b in enumerate(basis[:40]):
                q = self.recon((v - o) * pow(b, -1, P) % P) if b else None
                if q is not None and q.denominator <= 16 and abs(q) <= 64 and not q.denominator & (q.denominator - 1):
                    return tag, [(k, q)]
        for o, tag in offs[:9] if len(one) > 200 else offs:
            w = (v - o) % P
            for x, t in one.items():
                u = one.get((w - x) % P)
                if u and u[0] != t[0]:
                    return tag, [t, u]
        small = [(x, t) for x, t in one.items() if abs(t[1]) <= 1 and t[1].denominator <= 2]
        if len(small) <= 60:
            for n, (x, t) in enumerate(small):
                for y, u in small[n + 1:]:
                    if u[0] == t[0]:
                        continue
                    w = one.get((v - x - y) % P)
                    if w and w[0] not in (t[0], u[0]):
                        return offs[0][1], [t, u, w]
        return None

    def unit(self, k, c):
        """(cos, sin) of c times basis angle k, as field elements"""
        P = self.P
        e = self.ang[k]
        while e['lev'] % c.denominator:         # divide the finest known scale
            co, si = e['u']
            if not c.denominator % 3 and e['lev'] % 3:
                if self.turn(co, si, (P + 1) // 3) != (1, 0):
                    raise Retry()
                e['u'] = self.turn(co, si, self.third)
                e['lev'] *= 3
                continue
            h = (1 + co) * pow(2, -1, P) % P
            if pow(h, (P - 1) // 2, P) != 1:
                raise Retry()
            r = pow(h, (P + 1) // 4, P)
            e['u'] = (r, si * pow(2 * r, -1, P) % P)
            e['lev'] *= 2
        n = c.numerator * (e['lev'] // c.denominator)
        co, si = e['u']
        if n < 0:
            n, si = -n, -si
        return self.turn(co, si, n)

    def turn(self, co, si, n):
        """n times the angle"""
        x, y = 1, 0
        while n:
            if n & 1:
                x, y = (x * co - y * si) % self.P, (x * si + y * co) % self.P
            co, si = (co * co - si * si) % self.P, 2 * co * si % self.P
            n >>= 1
        return x, y

    def sincos(self, a):
        if a.sp:
            return self.special('dead' if a.sp == 'dead' else 'nan'), self.special('dead' if a.sp == 'dead' else 'nan')
        if a.q == 0:
            return self.const(0), self.const(1)
        r = self.scm.get(a.v)
        if r is None:
            P = self.P
            if not self.angoff:
                q = self.halfpi()
                self.angoff = [(0, 0)] + [(q.v * k % P, 6 * k) for k in (1, -1, 2, -2, 3, -3, 4, -4)]
                t = pow(3, -1, P)
                self.angoff += [(q.v * t * k % P, 2 * k) for k in (1, -1, 2, -2, 4, -4, 5, -5, 8, -8)]
                t = pow(6, -1, P)
                self.angoff += [(q.v * t * k % P, k) for k in (1, -1, 3, -3, 5, -5, 7, -7, 9, -9, 11, -11)]
                h, r = (pow(w, (P + 1) // 4, P) * pow(4, -1, P) % P for w in (2, 6))
                self.steps = [self.turn((r + h) % P, (r - h) % P, k) for k in range(24)]
            tp = self.halfpi().v * 4
            offs = self.angoff + [(tp * k * w % P, 0) for w in self.ints for k in (1, -1)]
            f = self.combo(a.v, self.angv, offs)
            if f is None:
                t = self.odd('tanq', a).v       # tan(a/8)
                i = pow(1 + t * t, -1, P)
                self.ang.append({'u': ((1 - t * t) * i % P, 2 * t * i % P), 'lev': 4})
                self.angv.append(a.v)
                f = (0, [(len(self.ang) - 1, Fraction(1))])
            x, y = self.steps[f[0] % 24]
            for k, c in f[1]:
                try:
                    co, si = self.unit(k, c)
                except Retry:
                    self.dead = True
                    return self.special('dead'), self.special('dead')
                x, y = (x * co - y * si) % P, (x * si + y * co) % P
            r = self.scm[a.v] = (y, x)
            if a.q is not None and abs(a.q) <= 3:
                self.angof.setdefault((x, y), a.q)
                self.angof.setdefault((x, -y % P), -a.q)
            q = self.cst(a)
            if q is not None and abs(q) < 100:
                for v, w in ((y, math.sin(q)), (x, math.cos(q))):
                    if abs(w) > 1e-9 and self.fl(v).q is None:
                        self.apx.setdefault(v, Fraction(w))
        return self.fl(r[0]), self.fl(r[1])

    def fatan2(self, y, x):
        if y.q == 0 and x.q is not None and x.q > 0:
            return self.const(0)
        if 'dead' in (x.sp, y.sp):
            return self.special('dead')
        if y.sp or x.sp:
            return self.opaque('atan2', y, x)
        P = self.P
        if y.q is not None and x.q == 0 and y.q != 0:
            return self.halfpi() if y.q > 0 else self.fneg(self.halfpi())
        if y.q == 0 and x.q is not None and x.q < 0:
            return self.fadd(self.halfpi(), self.halfpi())
        if y.v > P - y.v:
            return self.fneg(self.fatan2(self.fneg(y), x))
        if self.angof:
            n = self.fsqrt_raw((x.v * x.v + y.v * y.v) % P)
            if n:
                i = pow(n, -1, P)
                q = self.angof.get((x.v * i % P, y.v * i % P))
                if q is not None:
                    return self.const(q)
        r = self.opaque('atan2', y, x)
        if r.v not in self.at2:
            n = self.fsqrt_raw((x.v * x.v + y.v * y.v) % P)
            if n is None:
                return self.special('dead')
            self.at2.add(r.v)
            self.range[r.v] = (-self.halfpi().q * 2, self.halfpi().q * 2)
            if y.q is not None and x.q is not None:
                self.apx[r.v] = Fraction(math.atan2(y.q, x.q))
            elif self.cst(y) and self.cst(x):
                self.apx[r.v] = Fraction(math.atan2(self.cst(y), self.cst(x)))
            elif x.q is not None and x.q > 0:
                self.range[r.v] = (-self.halfpi().q, self.halfpi().q)
            if y.q is None:
                self.link(r.v, y, False)
            if n:
                i = pow(n, -1, P)
                self.ang.append({'u': (x.v * i % P, y.v * i % P), 'lev': 1})
                self.angv.append(r.v)
        return r

    def fsqrt_raw(self, v):
        """the root fsqrt picks for v"""
        w = self.fsqrt(self.fl(v))
        if isinstance(w, Node):     # |w| of a known square: the positive branch stands for the radius
            w = self.sqm[v]
        return None if w.sp else w.v

    def fsin(self, a):
        return self.sincos(a)[0]

    def fcos(self, a):
        return self.sincos(a)[1]

    def ftan(self, a):
        s, c = self.sincos(a)
        return self.fdiv(s, c)

    def fexp(self, a):
        if a.sp == 'inf':
            return a
        if a.sp == '-inf':
            return self.const(0)
        if a.sp:
            return a
        if a.q == 0:
            return self.const(1)
        P = self.P
        r = self.expm.get(a.v)
        if r is None:
            offs = [(0, 1)]
            for lx, x in self.lnt.items():
                for k in (1, -1, 2, -2, 3, -3):
                    offs.append((k * lx % P, pow(x.v, k, P)))
                for k in (1, -1):
                    offs.append((k * lx * pow(2, -1, P) % P, (x, k)))
            if 2 <= len(self.lnt) <= 6:
                for lx, x in self.lnt.items():
                    for ly, y in self.lnt.items():
                        if lx != ly:
                            offs.append(((lx - ly) % P, x.v * pow(y.v, -1, P) % P))
            f = self.combo(a.v, self.expv, offs)
            if f is None:
                self.expv.append(a.v)
                self.expq.append(self.h('exp4', a.v))      # exp(a/4)
                f = (1, [(len(self.expv) - 1, Fraction(1))])
            r = f[0]
            if type(r) is tuple:
                w = self.fsqrt(r[0])
                if isinstance(w, F) and w.sp:
                    return w
                r = pow(w.v if isinstance(w, F) else self.sqm[r[0].v].v, r[1], P)
            for k, c in f[1]:
                r = r * pow(self.expq[k], int(c * 4), P) % P
            r = self.fl(r)
            q = self.cst(a)
            if q is not None and r.q is None and abs(q) < 100:
                self.apx.setdefault(r.v, Fraction(math.exp(q)))
            self.expm[a.v] = r
            self.lnm[r.v] = a
        self.positive.add(r.v)
        return r

    def fln(self, a):
        if a.sp in ('inf', 'dead'):
            return a
        if a.sp:
            return self.special('nan')
        if a.q == 1:
            return self.const(0)
        if a.v in self.lnm:
            return self.lnm[a.v]
        r = self.fl(self.h('ln', a.v))
        q = self.cst(a)
        if q is not None and q > 0 and abs(math.log(q)) > 1e-9:
            self.apx[r.v] = Fraction(math.log(q))
        self.lnt[r.v] = a
        return r

    def fpowi(self, a, n):
        if a.sp:
            return self.opaque('powi', a, n)
        if a.q is not None and (a.q != 0 or n > 0):
            return self.const(a.q ** n)
        if n < 0 and a.v == 0:
            return self.opaque('powi', a, n)
        r = self.fl(pow(a.v, n, self.P))
        if n > 1 and n % 2 == 0:
            (self.positive if self.lower(a) == 1 or self.lower(a, True) == 1 else self.nonneg).add(r.v)
        elif n > 1 and self.lower(a) is not None:
            (self.positive if self.lower(a) else self.nonneg).add(r.v)
        return r

    def fpowf(self, a, b):
        if b.q is not None and b.q.denominator == 1 and abs(b.q) <= 64:
            return self.fpowi(a, int(b.q))
        if b.q is not None and b.q.denominator == 2 and abs(b.q) <= 64:
            return self.ap('fMul', self.fmul, self.fsqrt(a), self.fpowi(a, (int(2 * b.q) - 1) // 2))
        if a.sp or b.sp or a.v == 0:
            return self.opaque('powf', a, b)
        if a.q == 1:
            return a
        return self.fexp(self.fmul(b, self.fln(a)))

    def fsinh(self, a):
        e = self.fexp(a)
        i = self.fdiv(self.const(1), e)
        return self.fmul(self.fsub(e, i), self.const(Fraction(1, 2)))

    def fcosh(self, a):
        e = self.fexp(a)
        i = self.fdiv(self.const(1), e)
        return self.fmul(self.fadd(e, i), self.const(Fraction(1, 2)))

    def ftanh(self, a):
        return self.fdiv(self.fsinh(a), self.fcosh(a))

    def fatan(self, a):
        if a.sp:
            return self.opaque('atan', a)
        return self.fatan2(a, self.const(1))

    def fasin(self, a):
        return self.ap('asin', lambda s: self.fatan2(a, s), self.fsqrt(self.fsub(self.const(1), self.fmul(a, a))))

    def facos(self, a):
        return self.ap('acos', lambda s: self.fatan2(s, a), self.fsqrt(self.fsub(self.const(1), self.fmul(a, a))))

    def halfpi(self):
        return self.const(Fraction(3.141592653589793) / 2)

    def fround(self, name, a):
        if a.sp:
            return a
        if a.q is not None:
            q = a.q
            if name == 'floor':
                r = q.numerator // q.denominator
            elif name == 'ceil':
                r = -((-q.numerator) // q.denominator)
            elif name == 'trunc':
                r = int(q)
            elif name == 'round':
                r = int(abs(q) + Fraction(1, 2)) * (1 if q >= 0 else -1)
            else:
                r = round(q)
            return self.const(r)
        q = self.apx.get(a.v)       # a root of a constant, well away from where the result jumps
        if q is not None:
            q = Fraction(q)
            w = 2 * q
            if abs(w - round(w)) > Fraction(1, 10**6):
                return self.fround(name, F(None, q, None))
        if name in ('trunc', 'round', 'rint', 'roundeven'):
            r = self.odd(name, a)
        else:
            r = self.opaque(name, a)
        if r.v not in self.ints and len(self.ints) < 8:
            self.ints.append(r.v)
        return r


def isqrt(n):
    import math
    return math.isqrt(n)


# ---------------------------------------------------------------------------------------------------------------
TRANSPARENT = ('MaybeUninit', 'ManuallyDrop', 'NonNull', 'UnsafeCell', 'Cell', 'Unique', 'MaybeDangling', 'Saturating', 'Wrapping')
CLOSURE = re.compile(r'\{closure#\d+\}$')
INTW = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}


class MonoProgram:
    def __init__(self, path):
        d = json.load(open(path))
        self.items = d['items']
        self.types = d['types']
        self.adts = {a['id']: a for a in d['adts']}
        self.roots = dict((n, i) for n, i in d['roots'])
        self.order = {}
        self._trans = {}

    def transparent(self, t):
        r = self._trans.get(t)
        if r is None:
            ty = self.types[t]
            r = ty['k'] == 'adt' and ty['d'].split('<')[0].rstrip(':').split('::')[-1] in TRANSPARENT and ty['d'].split('::')[0] in ('std', 'core')
            self._trans[t] = r
        return r

    def nfields(self, t, variant=0):
        ty = self.types[t]
        k = ty['k']
        if k == 'tuple':
            return len(ty['a'])
        if k == 'closure':
            return len(ty['u'])
        if k == 'adt':
            return len(self.adts[ty['id']]['v'][variant]['f'])
        if k == 'array':
            return ty['l']['v']
        raise Undecided('fields of %s' % ty['p'])

    def nvariants(self, t):
        return len(self.adts[self.types[t]['id']]['v'])

    def is_enum(self, t):
        ty = self.types[t]
        return ty['k'] == 'adt' and self.adts[ty['id']]['kind'] == 'enum'

    def wto(self, i):
        """weak topological order of the blocks of item i: block -> position, inner loops before their exits"""
        if i in self.order:
            return self.order[i]
        body = self.items[i]['body']
        n = len(body['bb'])
        succ = []
        for b in body['bb']:
            t = b['t']
            k = t['k']
            if k in ('goto', 'drop', 'assert'):
                s = [t['t']]
            elif k == 'switch':
                s = [x[1] for x in t['v']] + [t['o']]
            elif k == 'call':
                s = [t['t']] if t['t'] is not None else []
            else:
                s = []
            succ.append(s)
        # reachable, DFS numbering
        num = {}
        st = [0]
        while st:
            b = st.pop()
            if b in num:
                continue
            num[b] = len(num)
            st.extend(reversed(succ[b]))
        out = []

        def scc(nodes, entry_first):
            nodes = set(nodes)
            index = {}
            low = {}
            stack = []
            on = set()
            res = []
            cnt = [0]

            def strong(v0):
                work = [(v0, iter(succ[v0]))]
                index[v0] = low[v0] = cnt[0]
                cnt[0] += 1
                stack.append(v0)
                on.add(v0)
                while work:
                    v, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in nodes:
                            continue
                        if w not in index:
                            index[w] = low[w] = cnt[0]
                            cnt[0] += 1
                            stack.append(w)
                            on.add(w)
                            work.append((w, iter(succ[w])))
                            adv = True
                            break
                        elif w in on:
                            low[v] = min(low[v], index[w])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == index[v]:
                        c = []
                        while True:
                            w = stack.pop()
                            on.discard(w)
                            c.append(w)
                            if w == v:
                                break
                        res.append(c)
            for v in sorted(nodes, key=lambda x: num[x]):
                if v not in index:
                    strong(v)
            res.reverse()
            for c in res:
                if len(c) == 1:
                    out.append(c[0])
                else:
                    cs = set(c)
                    heads = [v for v in c if any(v in succ[u] for u in num if u not in cs)]
                    h = min(heads or c, key=lambda x: num[x])
                    out.append(h)
                    scc(cs - {h}, None)
        scc(set(num), 0)
        self.order[i] = {b: k for k, b in enumerate(out)}
        return self.order[i]


class State:
    __slots__ = ('g', 'mem')

    def __init__(self, g, mem):
        self.g = g
        self.mem = mem


class Machine:
    """the dataflow analysis of one root function"""

    def __init__(self, prog, seed=1, maxsteps=3000000, formal=False):
        self.p = prog
        self.d = Dom(seed, formal)
        self.d.init_scale()
        self.nobj = 0
        self.steps = 0
        self.maxsteps = maxsteps
        self.depth = 0
        self.fns = {}
        self.constcache = {}
        self.subs = {}
        self.degenerate = []    # zero sets on which the law has to be checked again
        self.constmem = {}      # memory behind constants: immutable
        self.stack = []

    # ---- values ----
    def merge(self, c, a, b):
        """value under condition c: a, otherwise b"""
        if a is b or c == 1:
            return a
        if c == 0:
            return b
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        ta = a[0] if type(a) is tuple else None
        tb = b[0] if type(b) is tuple else None
        if ta in ('S', 'A') and ta == tb:
            x, y = a[1], b[1]
            if len(x) != len(y):
                if ta == 'A':
                    n = max(len(x), len(y))
                    x = x + (UNDEF,) * (n - len(x))
                    y = y + (UNDEF,) * (n - len(y))
                else:
                    raise Undecided('merge of different shapes')
            return (ta, tuple(self.merge(c, p, q) for p, q in zip(x, y)))
        if ta == 'E' and tb == 'E':
            fs = []
            for x, y in zip(a[2], b[2]):
                if x is None:
                    fs.append(y)
                elif y is None or x is y:
                    fs.append(x)
                else:
                    fs.append(tuple(self.merge(c, p, q) for p, q in zip(x, y)))
            return ('E', self.d.ite(c, a[1], b[1]), tuple(fs))
        if ta in ('S', 'A', 'E') or tb in ('S', 'A', 'E'):
            raise Undecided('merge of different shapes %s %s' % (str(a)[:80], str(b)[:80]))
        return self.d.ite(c, a, b)

    def get(self, v, path):
        for i, s in enumerate(path):
            if v is UNDEF:
                return UNDEF
            if type(s) is int:
                if v[0] == 'A':
                    if s >= len(v[1]):
                        return UNDEF
                    v = v[1][s]
                elif s == 0:
                    continue        # pointer to a single object viewed as an array of one
                else:
                    raise Undecided('index %d into %s' % (s, str(v)[:60]))
            elif s[0] == 'v':
                if v[0] != 'E':
                    raise Undecided('downcast of %s' % str(v)[:60])
                f = v[2][s[1]]
                v = UNDEF if f is None else ('S', f)
            else:
                if v[0] not in ('S', 'A'):
                    raise Undecided('field of %s' % str(v)[:60])
                v = v[1][s[0]]
        return v

    def set(self, v, path, new):
        if not path:
            return new
        s = path[0]
        if type(s) is int:
            if v is UNDEF:
                v = ('A', (UNDEF,) * (s + 1))
            if v[0] != 'A':
                if s == 0:
                    return self.set(v, path[1:], new)
                raise Undecided('index write into %s' % str(v)[:60])
            xs = v[1]
            if s >= len(xs):
                xs = xs + (UNDEF,) * (s + 1 - len(xs))
            return ('A', xs[:s] + (self.set(xs[s], path[1:], new),) + xs[s + 1:])
        if s[0] == 'v':
            if v is UNDEF:
                v = ('E', UNDEF, (None,) * s[2])
            f = v[2][s[1]]
            inner = UNDEF if f is None else ('S', f)
            inner = self.set(inner, path[1:], new)
            fs = v[2][:s[1]] + (inner[1] if inner is not UNDEF else None,) + v[2][s[1] + 1:]
            return ('E', v[1], fs)
        if v is UNDEF:
            v = ('S', (UNDEF,) * s[1])
        xs = v[1]
        return (v[0], xs[:s[0]] + (self.set(xs[s[0]], path[1:], new),) + xs[s[0] + 1:])

    # pointers: ('P', obj, path, meta); slices point at their first element (last step an int) with meta = length
    def leaves(self, g, v):
        """(condition, leaf) pairs of a decision diagram under g"""
        if not isinstance(v, Node):
            return [(g, v)]
        seen = {}

        def walk(x):
            if isinstance(x, Node):
                for k in x.kids:
                    walk(k)
            else:
                seen.setdefault(self.d.kkey(x), x)
        walk(v)
        out = []
        for x in seen.values():
            c = self.d.and_(g, self.d.ap(('is', self.d.kkey(x)), lambda y, x=x: 1 if y is x or (not isinstance(y, F) and type(y) is type(x) and y == x) else 0, v))
            if c != 0:
                out.append((c, x))
        return out

    def read(self, st, ptr):
        ls = self.leaves(st.g, ptr)
        if not ls:
            return UNDEF
        r = None
        for c, l in ls:
            v = self.read1(st, l)
            r = v if r is None else self.merge(self.d.restrict(c, st.g), v, r)
        return r

    def read1(self, st, l):
        if type(l) is not tuple or l[0] != 'P':
            raise Undecided('read through %s' % str(l)[:80])
        if l[1] == 'dangling':
            return UNIT
        o = st.mem.get(l[1], NONE)
        if o is NONE:
            o = self.constmem.get(l[1], NONE)
            if o is NONE:
                raise Undecided('read of a dead object')
        return self.get(o, l[2])

    def write(self, st, ptr, val):
        ls = self.leaves(st.g, ptr)
        for c, l in ls:
            if type(l) is not tuple or l[0] != 'P':
                raise Undecided('write through %s' % str(l)[:80])
            if l[1] == 'dangling':
                continue
            old = st.mem.get(l[1], UNDEF)
            if len(ls) == 1:
                st.mem[l[1]] = self.set(old, l[2], val)
            else:
                cur = self.get(old, l[2])
                st.mem[l[1]] = self.set(old, l[2], self.merge(self.d.restrict(c, st.g), val, cur))

    def alloc(self, st, v=UNDEF):
        self.nobj += 1
        st.mem[self.nobj] = v
        return self.nobj

    def join(self, a, b):
        g = self.d.or_(a.g, b.g)
        c = self.d.restrict(a.g, g)
        mem = {}
        ma, mb = a.mem, b.mem
        for k, v in ma.items():
            w = mb.get(k, NONE)
            if w is NONE or w is v:
                mem[k] = v
            else:
                mem[k] = self.merge(c, v, w)
        for k, v in mb.items():
            if k not in ma:
                mem[k] = v
        return State(g, mem)

    # ---- places and operands ----
    def place(self, st, fr, pl):
        """pointer (decision diagram) to a place"""
        cur = ('P', fr[pl[0]], (), None)
        for e in pl[1:]:
            if e == '*':
                cur = self.read(st, cur)
                if cur is UNDEF:
                    raise Undecided('dereference of an undefined pointer')
                continue
            k = e[0]
            if k == 'f':
                if self.p.transparent(e[4]):
                    continue
                bt = self.p.types[e[4]]
                n = None
                if bt['k'] in ('tuple', 'closure') or (bt['k'] == 'adt' and not self.p.is_enum(e[4])):
                    n = self.p.nfields(e[4])
                elif bt['k'] == 'adt':
                    n = self._varn(cur, e[4])
                else:
                    n = e[1] + 1
                step = (e[1], n)
                cur = self.ext(cur, step)
            elif k == 'd':
                step = None
                step = ('v', e[1], 64)
                cur = self.ext(cur, step)
            elif k == 'i':
                ix = self.read(st, ('P', fr[e[1]], (), None))
                cur = self.idx(cur, ix)
            elif k == 'ci':
                if e[3]:
                    cur = self.d.ap(('ciend', e[1]), lambda p: self.extl(p, p[3] - e[1]), cur)
                else:
                    cur = self.idx(cur, e[1])
            elif k == 'ss':
                def sub(p):
                    n = p[3]
                    if n is None:
                        raise Undecided('subslice of an array')
                    to = n - e[2] if e[3] else e[2]
                    return ('P', p[1], p[2][:-1] + (p[2][-1] + e[1],), to - e[1])
                cur = self.d.ap(('ss', e[1], e[2], e[3]), sub, cur)
            else:
                raise Undecided('projection %s' % (e,))
        return cur

    def _varn(self, cur, t):
        vk = None
        for _, l in self.leaves(1, cur):
            if l[2] and type(l[2][-1]) is tuple and l[2][-1][0] == 'v':
                vk = l[2][-1][1]
        return self.p.nfields(t, vk or 0)

    def ext(self, cur, step):
        def f(p):
            if type(p[3]) is tuple and p[3][0] == 'u' and step[0] == step[1] - 1:
                return ('P', p[1], p[2] + (step, 0), p[3][1])
            return ('P', p[1], p[2] + (step,), None)
        return self.d.ap(('ext', step), f, cur)

    def extl(self, p, i):
        """element i of the array or slice p points to"""
        if p[3] is not None:
            return ('P', p[1], p[2][:-1] + (p[2][-1] + i,), None)
        return ('P', p[1], p[2] + (i,), None)

    def idx(self, cur, ix):
        return self.d.ap('idx', lambda p, i: self.extl(p, i), cur, ix)

    def operand(self, st, fr, o):
        if o[0] in ('c', 'm'):
            pl = o[1]
            if len(pl) == 1:
                return st.mem[fr[pl[0]]]
            return self.read(st, self.place(st, fr, pl))
        if o[0] == 'k':
            return self.konst(st, o[1])
        if o[0] == 'rc':
            return 0
        raise Undecided('operand %s' % (o,))

    def konst(self, st, k):
        if 'inst' in k:
            return ('fn', k['inst'])
        if 'cinst' in k:
            i = k['cinst']
            if i not in self.constcache:
                it = self.p.items[i]
                if 'body' not in it:
                    raise Undecided('constant %s' % it['d'])
                s2 = State(1, {})
                r, s2, g = self.run(i, [], s2, True)
                self.constcache[i] = r
                self.constmem.update(s2.mem)
            return self.constcache[i]
        if 'val' in k:
            return self.cval(k['val'], k['t'])
        if 'tc' in k:
            c = k['tc']
            if c.get('c') == 'val':
                return c['v']
        t = self.p.types[k['t']]
        if t['k'] == 'fndef':
            raise Undecided('unresolved function %s' % t['d'])
        if t['k'] in ('tuple', 'closure', 'adt') and (t['k'] == 'adt' or not (t.get('a') or t.get('u'))):
            if t['k'] == 'adt' and self.p.nfields(k['t']) == 0:
                return UNIT
            if t['k'] != 'adt':
                return UNIT
        raise Undecided('constant %s' % json.dumps(k)[:200])

    def cval(self, v, tid):
        t = self.p.types[tid]
        if 'fields' in v and t['k'] in ('array', 'tuple', 'adt'):
            fs = tuple(self.cval(x, x['t']) for x in v['fields'])
            if t['k'] == 'array':
                return ('A', fs)
            if self.p.transparent(tid):
                return fs[0]
            if self.p.is_enum(tid):
                n = self.p.nvariants(tid)
                return ('E', v['variant'], tuple(fs if i == v['variant'] else None for i in range(n)))
            return ('S', fs)
        if 'bits' in v:
            b = int(v['bits'])
            if t['k'] == 'float':
                return self.d.from_bits(b, v['size'])
            if t['k'] == 'int':
                w = INTW[t['n']]
                return b - (1 << w) if b >> (w - 1) & 1 else b
            if t['k'] in ('uint', 'bool', 'char'):
                return b
            if t['k'] in ('ptr', 'ref'):
                return ('P', 'dangling', (), None)
            if t['k'] == 'adt' and self.p.is_enum(tid):
                a = self.p.adts[t['id']]
                for i, x in enumerate(a['v']):
                    if x.get('disc') == b and not x['f']:
                        return ('E', i, tuple(() if j == i else None for j in range(len(a['v']))))
        if v.get('zst'):
            if t['k'] == 'adt' and self.p.is_enum(tid):
                return ('E', 0, tuple(() if j == 0 else None for j in range(self.p.nvariants(tid))))
            if t['k'] == 'array':
                return ('A', (UNIT,) * t['l']['v'])
            if t['k'] in ('adt', 'tuple', 'closure'):
                try:
                    return ('S', (UNIT,) * self.p.nfields(tid))
                except Undecided:
                    return UNIT
            return UNIT
        if 'str' in v:
            return ('str', v['str'])
        if t['k'] in ('ptr', 'ref'):
            return ('opq', t['p'])
        return ('opq', t['p'])

    # ---- one function ----
    def run(self, i, args, st, keep=False):
        """returns (value, state) of item i; the state's guard is the condition under which it returns"""
        it = self.p.items[i]
        self.depth += 1
        self.stack.append(it.get('name', it['d']))
        if self.depth > 120:
            raise Undecided('call depth')
        if it['d'].startswith(('multicalc', '<multicalc')) or 'span' in it:
            self.fns.setdefault(it['d'], (len(self.stack), it.get('span')))
        body = it['body']
        order = self.p.wto(i)
        fr = []
        base = self.nobj
        nloc = len(body['locals'])
        self.nobj += nloc
        fr = [base + 1 + k for k in range(nloc)]
        mem = dict(st.mem)
        for o in fr:
            mem[o] = UNDEF
        argc = body['argc']
        if it['k'] == 'Item' and CLOSURE.search(it['d']):
            # rust-call ABI: the arguments of a closure arrive as one tuple
            args = list(args[:-1]) + list(args[-1][1])
        if len(args) != argc:
            raise Undecided('arguments of %s' % it['d'])
        for k, a in enumerate(args):
            mem[fr[1 + k]] = a
        pend = {0: State(st.g, mem)}
        rets = None
        visits = {}
        while pend:
            b = min(pend, key=lambda x: order[x])
            s = pend.pop(b)
            if s.g == 0:
                continue
            visits[b] = visits.get(b, 0) + 1
            if visits[b] > 1500 and isinstance(s.g, Node) and s.g is not st.g:
                raise Undecided('a loop in %s does not fold' % it['d'])
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Undecided('step budget')
            blk = body['bb'][b]
            for x in blk['s']:
                self.steps += 1
                self.stmt(s, fr, x, body)
            for tgt, s2 in self.term(s, fr, blk['t'], body):
                if s2.g == 0:
                    continue
                if tgt == 'ret':
                    rets = s2 if rets is None else self.join(rets, s2)
                elif tgt in pend:
                    pend[tgt] = self.join(pend[tgt], s2)
                else:
                    pend[tgt] = s2
        self.depth -= 1
        self.stack.pop()
        if rets is None:
            return UNDEF, State(0, {}), 0
        r = rets.mem[fr[0]]
        if not keep:
            for o in fr:
                rets.mem.pop(o, None)
        return r, rets, rets.g

    def stmt(self, s, fr, x, body):
        if x[0] == '=':
            v = self.rvalue(s, fr, x[2], body)
            pl = x[1]
            if len(pl) == 1:
                s.mem[fr[pl[0]]] = v
            else:
                self.write(s, self.place(s, fr, pl), v)
        elif x[0] == 'setd':
            p = self.place(s, fr, x[1])
            v = self.read(s, p)
            if v is UNDEF:
                v = ('E', x[2], (None,) * 64)
            fs = v[2]
            if fs[x[2]] is None:
                fs = fs[:x[2]] + ((),) + fs[x[2] + 1:]
            self.write(s, p, ('E', x[2], fs))
        elif x[0] == 'intr':
            if 'assume' in x[1].lower():
                return
            raise Undecided('intrinsic statement %s' % x[1])

    def plty(self, body, pl):
        t = body['locals'][pl[0]][0]
        for e in pl[1:]:
            ty = self.p.types[t]
            if e == '*':
                t = ty['e'] if 'e' in ty else ty['a'][0]
            elif e[0] == 'f':
                t = e[2]
            elif e[0] in ('i', 'ci'):
                t = ty['e']
        return t

    def opty(self, body, o):
        if o[0] in ('c', 'm'):
            return self.plty(body, o[1])
        if o[0] == 'k':
            return o[1]['t']
        return None

    def rvalue(self, s, fr, r, body):
        k = r[0]
        d = self.d
        if k == 'use':
            return self.operand(s, fr, r[1])
        if k in ('ref', 'rawptr'):
            return self.place(s, fr, r[2])
        if k == 'bin':
            a = self.operand(s, fr, r[2])
            b = self.operand(s, fr, r[3])
            return self.binop(r[1], a, b, self.opty(body, r[2]))
        if k == 'un':
            a = self.operand(s, fr, r[2])
            return self.unop(r[1], a, self.opty(body, r[2]))
        if k == 'agg':
            ops = [self.operand(s, fr, o) for o in r[2]]
            kd = r[1]
            if kd[0] == 'array':
                return ('A', tuple(ops))
            if kd[0] in ('tuple', 'closure'):
                return ('S', tuple(ops))
            if kd[0] == 'adt':
                name = kd[1].split('<')[0].rstrip(':').split('::')[-1]
                if name in TRANSPARENT and kd[1].split('::')[0] in ('std', 'core'):
                    if kd[5] is not None:   # union field
                        return UNDEF if ops[0] == UNIT else ops[0]
                    return ops[0]
                ad = self.adt_by_path(kd[1])
                if ad['kind'] == 'enum':
                    n = len(ad['v'])
                    return ('E', kd[2], tuple(tuple(ops) if j == kd[2] else None for j in range(n)))
                return ('S', tuple(ops))
            if kd[0] == 'other' and kd[1].startswith('RawPtr'):
                p, m = ops
                return d.ap('rawagg', lambda p, m: ('P', p[1], p[2] if p[2] and type(p[2][-1]) is int else p[2] + (0,), m) if type(m) is int else p, p, m if not isinstance(m, tuple) else -1) if not (isinstance(m, tuple)) else p
            raise Undecided('aggregate %s' % (kd,))
        if k == 'discr':
            v = self.read(s, self.place(s, fr, r[1]))
            if v is UNDEF:
                return UNDEF
            if v[0] != 'E':
                raise Undecided('discriminant of %s' % str(v)[:60])
            t = self.plty(body, r[1])
            a = self.p.adts[self.p.types[t]['id']]
            sg = a['d'].endswith('cmp::Ordering')     # the only enum with a signed representation in use
            return d.ap(('disc', t), lambda i: UNDEF if i is UNDEF else (a['v'][i]['disc'] - 256 if sg and a['v'][i]['disc'] > 127 else a['v'][i]['disc']), v[1])
        if k == 'repeat':
            v = self.operand(s, fr, r[1])
            return ('A', (v,) * r[2]['v'])
        if k == 'cast':
            v = self.operand(s, fr, r[2])
            if len(r) > 4:
                return d.ap(('vt', tuple(r[4])), lambda p: ('P', p[1], p[2], ('vt', tuple(r[4]))), v)
            return self.cast(s, r[1], v, self.opty(body, r[2]), r[3])
        raise Undecided('rvalue %s' % k)

    def adt_by_path(self, path):
        m = getattr(self, '_adtp', None)
        if m is None:
            m = self._adtp = {a['d']: a for a in self.p.adts.values()}
        return m[path]

    def wrap(self, n, t):
        ty = self.p.types[t]
        if ty['k'] not in ('int', 'uint'):
            return n
        w = INTW[ty['n']]
        n &= (1 << w) - 1
        if ty['k'] == 'int' and n >> (w - 1):
            n -= 1 << w
        return n

    def binop(self, op, a, b, t):
        d = self.d
        ty = self.p.types[t] if t is not None else {'k': '?'}
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if ty['k'] == 'float':
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return d.ap('f' + op, lambda x, y: d.fcmp(op, x, y), a, b)
            f = {'Add': d.fadd, 'Sub': d.fsub, 'Mul': d.fmul, 'Div': d.fdiv, 'Rem': d.frem}.get(op)
            if f is None:
                raise Undecided('float operation %s' % op)
            return d.ap('f' + op, f, a, b)
        if ty['k'] in ('ptr', 'ref'):
            if op == 'Offset':
                return d.ap('off', lambda p, n: self.poff(p, n), a, b)

            def pc(p, q):
                if p[0] == 'P' and q[0] == 'P':
                    kp, kq = self.pkey(p), self.pkey(q)
                    if kp[0] == kq[0] and kp[1] == kq[1]:
                        x, y = kp[2], kq[2]
                        return int({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op])
                    if op == 'Eq':
                        return 0
                    if op == 'Ne':
                        return 1
                raise Undecided('pointer comparison')
            return d.ap('p' + op, pc, a, b)

        def leaf(x, y):
            if x is UNDEF or y is UNDEF:
                return UNDEF
            if type(x) is tuple or type(y) is tuple:
                raise Undecided('operation %s on %s' % (op, str(x)[:60]))
            o = op.replace('Unchecked', '')
            ov = o.endswith('WithOverflow')
            if ov:
                o = o[:-12]
            if o in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return int({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[o])
            if o == 'Add':
                n = x + y
            elif o == 'Sub':
                n = x - y
            elif o == 'Mul':
                n = x * y
            elif o == 'Div':
                n = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1) if y else 0
            elif o == 'Rem':
                n = abs(x) % abs(y) * (1 if x >= 0 else -1) if y else 0
            elif o == 'BitAnd':
                n = x & y
            elif o == 'BitOr':
                n = x | y
            elif o == 'BitXor':
                n = x ^ y
            elif o == 'Shl':
                n = x << (y % INTW.get(ty.get('n'), 64))
            elif o == 'Shr':
                n = x >> (y % INTW.get(ty.get('n'), 64))
            else:
                raise Undecided('operation %s' % op)
            w = self.wrap(n, t)
            if ov:
                return ('ov', w, int(w != n))
            return w
        r = d.ap(('i' + op, t), leaf, a, b)
        if op.endswith('WithOverflow'):
            return ('S', (d.ap('ov0', lambda x: x[1], r), d.ap('ov1', lambda x: x[2], r)))
        return r

    def pkey(self, p):
        path = p[2]
        if path and type(path[-1]) is int:
            return (p[1], path[:-1], path[-1])
        return (p[1], path, 0)

    def poff(self, p, n):
        if n == 0:
            return p
        if p[0] != 'P' or p[1] == 'dangling':
            raise Undecided('pointer arithmetic')
        if p[2] and type(p[2][-1]) is int:
            return ('P', p[1], p[2][:-1] + (p[2][-1] + n,), None)
        return ('P', p[1], p[2] + (n,), None)

    def unop(self, op, a, t):
        d = self.d
        ty = self.p.types[t]
        if op == 'Neg':
            if ty['k'] == 'float':
                return d.ap('fneg', d.fneg, a)
            return d.ap(('ineg', t), lambda x: self.wrap(-x, t), a)
        if op == 'Not':
            if ty['k'] == 'bool':
                return d.ap('not', lambda x: 1 - x, a)
            return d.ap(('inot', t), lambda x: self.wrap(~x, t), a)
        if op == 'PtrMetadata':
            return d.ap('meta', lambda p: UNIT if p[3] is None else p[3], a)
        raise Undecided('unary %s' % op)

    def cast(self, s, kind, v, src, dst):
        d = self.d
        ts, td = self.p.types[src], self.p.types[dst]
        if kind == 'IntToInt':
            if ts['k'] == 'adt':    # fieldless enum
                pass
            return d.ap(('i2i', dst), lambda x: UNDEF if x is UNDEF else self.wrap(x, dst), v)
        if kind == 'FloatToFloat':
            if td['n'] != 'f32' or ts['n'] == 'f32':
                return v

            def narrow(x):
                # a constant survives when it rounds to the same constant; anything else loses bits
                if x.sp or x.q is not None:
                    return x
                return d.opaque('narrow', x)
            return d.ap('narrow', narrow, v)
        if kind == 'IntToFloat':
            return d.ap('i2f', lambda x: d.const(x), v)
        if kind == 'FloatToInt':
            w = INTW[td['n']]
            low, high = (0, (1 << w) - 1) if td['k'] == 'uint' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)

            def f2i(x):
                if x.sp:
                    return {'inf': high, '-inf': low}.get(x.sp, 0)
                q = x.q
                if q is None and x.v in d.apx:
                    q = Fraction(d.apx[x.v])
                    if abs(q - round(q)) <= Fraction(1, 10**6):
                        q = None
                if q is None:
                    raise Undecided('conversion of a symbolic float to an integer')
                return min(max(int(q), low), high)
            return d.ap(('f2i', dst), f2i, v)
        if kind.startswith('PointerCoercion(Unsize'):
            es = self.strip(ts['e']) if ts['k'] in ('ref', 'ptr') else None
            if es is not None and self.p.types[es]['k'] == 'array':
                n = self.p.types[es]['l']['v']
                return d.ap(('unsize', n), lambda p: ('P', p[1], p[2] + (0,), n) if p[1] != 'dangling' else ('P', 'dangling', (0,), n), v)
            if es is not None and self.p.types[es]['k'] == 'dyn':
                return v
            if es is not None and self.p.types[es]['k'] == 'adt':
                last = [x for x in self.p.types[es]['a'] if type(x) is int]
                if last and self.p.types[self.strip(last[-1])]['k'] == 'array':
                    # a struct whose last field is an array: the length travels in the pointer
                    n = self.p.types[self.strip(last[-1])]['l']['v']
                    return d.ap(('unsizes', n), lambda p: ('P', p[1], p[2], ('u', n)), v)
            raise Undecided('unsizing cast %s' % ts['p'])
        if kind.startswith('PointerCoercion(ReifyFnPointer') or kind.startswith('PointerCoercion(ClosureFnPointer'):
            if kind.startswith('PointerCoercion(Closure'):
                raise Undecided('closure to function pointer')
            return v
        if kind.startswith('PointerCoercion(MutToConst') or kind.startswith('PointerCoercion(UnsafeFn'):
            return v
        if kind.startswith('PtrToPtr') or kind.startswith('PointerCoercion(ArrayToPointer') or kind == 'Transmute' or kind.startswith('Transmute'):
            if v is UNDEF:
                return v
            a, b = self.ptrto(src), self.ptrto(dst)
            if a is not None and b is not None:
                return d.ap(('pcast', src, dst), lambda p: self.pcast(p, a, b), v)
            return self.retype(v, src, dst)
        if kind == 'FnPtrToPtr':
            return v
        raise Undecided('cast %s %s -> %s' % (kind, ts['p'], td['p']))

    def strip(self, t):
        while self.p.transparent(t):
            ty = self.p.types[t]
            t = next(x for x in ty['a'] if type(x) is int)
        return t

    def ptrto(self, t):
        """pointee of a pointer-like type"""
        ty = self.p.types[t]
        if ty['k'] in ('ref', 'ptr'):
            return ty['e']
        if ty['k'] == 'adt' and ty['d'].split('::')[-1] in ('NonNull', 'Unique'):
            return ty['a'][0]
        return None

    def pcast(self, p, a, b):
        if p[0] != 'P':
            return p
        a, b = self.strip(a), self.strip(b)
        ta, tb = self.p.types[a], self.p.types[b]
        if a == b:
            return p
        if ta['k'] == 'slice' and tb['k'] == 'slice':
            return p
        if ta['k'] == 'slice':
            if tb['k'] == 'array' and self.strip(tb['e']) == self.strip(ta['e']):
                # a slice seen as an array of its elements
                if p[2] and p[2][-1] == 0:
                    return ('P', p[1], p[2][:-1], None)
                raise Undecided('slice as array')
            return ('P', p[1], p[2], None)
        if ta['k'] == 'array' and self.strip(ta['e']) == b:
            return ('P', p[1], p[2] + (0,), None)
        if tb['k'] == 'array' and self.strip(tb['e']) == a:
            if p[2] and p[2][-1] == 0:
                return ('P', p[1], p[2][:-1], None)
            raise Undecided('pointer to part of an array')
        return p

    def nonzero(self, t):
        t = self.p.types[self.strip(t)]
        return t['k'] == 'adt' and t['d'] in ('std::num::NonZero', 'core::num::NonZero')

    def retype(self, v, src, dst):
        a, b = self.strip(src), self.strip(dst)
        if a == b:
            return v
        ta, tb = self.p.types[a], self.p.types[b]
        if ta['k'] == 'array' and tb['k'] == 'array' and self.strip(ta['e']) == self.strip(tb['e']):
            return v
        if ta['k'] == tb['k'] == 'array':
            return v
        if ta['k'] == 'float' and tb['k'] in ('uint', 'int'):
            return self.d.ap('bits', lambda x: ('bits', x.v), v)
        if tb['k'] == 'float' and ta['k'] in ('uint', 'int'):
            def fb(x):
                if type(x) is tuple:
                    return self.d.fl(x[1])
                return self.d.from_bits(x, 8 if tb['n'] == 'f64' else 4)
            return self.d.ap('unbits', fb, v)
        if ta['k'] == 'adt' and tb['k'] == 'adt' and ta['d'] == tb['d']:
            return v
        if ta['k'] in ('uint', 'int') and tb['k'] in ('uint', 'int'):
            return self.d.ap(('i2i', b), lambda x: self.wrap(x, b), v)
        if tb['k'] == 'adt' and self.p.is_enum(b) and ta['k'] in ('uint', 'int'):
            ad = self.p.adts[tb['id']]['v']
            dm = {x['disc']: i for i, x in enumerate(ad)}
            n = len(ad)
            if tb['d'].endswith('option::Option') and self.nonzero(tb['a'][0]):
                # Option<NonZero<_>>: zero is None
                return ('E', self.d.ap('niche', lambda x: 0 if x == 0 else 1, v), ((), (v,)))
            return ('E', self.d.ap(('toenum', b), lambda x: dm[x], v), ((),) * n)
        if (self.nonzero(a) and tb['k'] in ('uint', 'int')) or (self.nonzero(b) and ta['k'] in ('uint', 'int')):
            return v
        raise Undecided('transmute %s -> %s' % (ta['p'], tb['p']))

    # ---- terminators ----
    def term(self, s, fr, t, body):
        k = t['k']
        d = self.d
        if k == 'goto' or k == 'drop':
            return [(t['t'], s)]
        if k == 'return':
            return [('ret', s)]
        if k in ('unreachable', 'resume'):
            return []
        if k == 'assert':
            c = self.operand(s, fr, t['c'])
            if not t['e']:
                c = d.not_(c)
            g = d.and_(s.g, c)
            return [(t['t'], State(g, s.mem))]
        if k == 'switch':
            v = self.operand(s, fr, t['d'])
            if v is UNDEF:
                raise Undecided('branch on an undefined value')
            ty = self.p.types[t['dt']]
            tgts = {}
            for x, b in t['v']:
                x = int(x)
                if ty['k'] == 'int':
                    x = self.wrap(x, t['dt'])
                tgts[x] = b
            if not isinstance(v, Node):
                if v is UNDEF or type(v) is tuple:
                    raise Undecided('branch on %s' % (v,))
                return [(tgts.get(v, t['o']), s)]
            out = []
            rest = s.g
            byb = {}
            for x, b in tgts.items():
                byb.setdefault(b, []).append(x)
            for b, xs in byb.items():
                if b == t['o']:
                    continue
                c = d.ap(('in', tuple(xs)), lambda y: int(y in xs), v)
                g = d.and_(s.g, c)
                rest = d.and_(rest, d.not_(c))
                if g != 0:
                    out.append((b, g))
            if rest != 0:
                out.append((t['o'], rest))
            return [(b, State(g, dict(s.mem) if n else s.mem)) for n, (b, g) in enumerate(reversed(out))]
        if k == 'call':
            return self.call(s, fr, t, body)
        raise Undecided('terminator %s' % k)

    def call(self, s, fr, t, body):
        args = [self.operand(s, fr, a) for a in t['a']]
        f = t['f']
        if t['t'] is None:
            return []
        if f is None:
            fv = self.operand(s, fr, t['fo'])
            tg = self.leaves(s.g, fv)
        elif 'inst' in f and 'slot' in self.p.items[f['inst']]:
            # a trait object: the pointer carries its methods
            tg = []
            for g, p in self.leaves(s.g, args[0]):
                if not (type(p) is tuple and p[0] == 'P' and type(p[3]) is tuple and p[3][0] == 'vt'):
                    raise Undecided('call through a trait object of unknown type')
                tg.append((g, ('fn', p[3][1][self.p.items[f['inst']]['slot']], ('P', p[1], p[2], None))))
        elif 'inst' in f:
            tg = [(s.g, ('fn', f['inst']))]
        else:
            raise Undecided('unresolved call of %s' % f.get('d'))
        res = None
        dst = self.place(s, fr, t['dst']) if len(t['dst']) > 1 else ('P', fr[t['dst'][0]], (), None)
        for n, (g, l) in enumerate(tg):
            if l[0] != 'fn':
                raise Undecided('call of %s' % (l,))
            s2 = State(g, s.mem if len(tg) == 1 else dict(s.mem))
            r = self.invoke(l[1], args if len(l) == 2 else [l[2]] + args[1:], s2)
            if r is None:
                continue
            v, s2 = r
            if s2.g == 0:
                continue
            self.write(s2, dst, v)
            res = s2 if res is None else self.join(res, s2)
        if res is None:
            return []
        return [(t['t'], res)]

    def invoke(self, i, args, st):
        it = self.p.items[i]
        import vnstd
        b = vnstd.builtin(self, it)
        if b is not None:
            r = b(self, st, args, it)
            if r is NotImplemented:
                b = None
        if b is not None:
            if isinstance(r, vnstd.Diverge):
                return None
            if self.d.dead:
                for x in r[1] if type(r) is tuple and r[0] == 'S' else (r,):
                    if isinstance(x, (F, Node)):
                        st.g = self.d.and_(st.g, self.d.ap('alive', lambda y: 0 if isinstance(y, F) and y.sp == 'dead' else 1, x))
                if st.g == 0:
                    return None
            return r, st
        if 'body' not in it:
            raise Undecided('no model of %s' % it.get('name', it['d']))
        v, s2, g = self.run(i, args, st)
        if g == 0:
            return None
        return v, s2

    # call a closure/function value (used by models)
    def callv(self, st, i, args):
        r = self.invoke(i, args, st)
        return r

    # ---- inputs ----
    def symbolic(self, t, name):
        ty = self.p.types[t]
        k = ty['k']
        if k == 'float':
            x = self.subs.get(name)
            if x is None:
                return self.d.sym(*name)
            if type(x) is tuple:
                y = self.d.fl(x[0] * self.d.h('sym', *x[1]))
                if x[1] in self.subs:
                    raise Undecided('chained substitution')
                return y
            return self.d.const(x)
        if k == 'array':
            return ('A', tuple(self.symbolic(ty['e'], name + (i,)) for i in range(ty['l']['v'])))
        if k == 'tuple':
            return ('S', tuple(self.symbolic(e, name + (i,)) for i, e in enumerate(ty['a'])))
        if k == 'bool':
            v = self.d.newvar(('bool',) + name, 2)
            return self.d.mk(v, [0, 1])
        raise Undecided('symbolic input of type %s' % ty['p'])

    def flat(self, v, out):
        if isinstance(v, (F, Node)) or type(v) is int:
            out.append(v)
        elif type(v) is tuple and v[0] in ('S', 'A'):
            for x in v[1]:
                self.flat(x, out)
        elif type(v) is tuple and v[0] == 'E':
            out.append(v[1])
            for f in v[2]:
                for x in f or ():
                    self.flat(x, out)
        else:
            out.append(v)
        return out

    def analyse(self, root):
        self.root = root
        i = self.p.roots[root]
        body = self.p.items[i]['body']
        args = []
        for k in range(body['argc']):
            l = body['locals'][1 + k]
            args.append(self.symbolic(l[0], (l[1] if len(l) > 1 else 'a%d' % k,)))
        r, st, g = self.run(i, args, State(1, {}))
        return r, st, g

    # ---- comparing two values under a guard ----
    def same(self, g, a, b, where=()):
        """list of mismatches (path, condition description)"""
        if a is b or g == 0:
            return []
        ta = a[0] if type(a) is tuple else None
        tb = b[0] if type(b) is tuple else None
        if ta in ('S', 'A') and ta == tb and len(a[1]) == len(b[1]):
            out = []
            for n, (x, y) in enumerate(zip(a[1], b[1])):
                out += self.same(g, x, y, where + (n,))
            return out
        if ta == 'E' and tb == 'E':
            out = self.same(g, a[1], b[1], where + ('variant',))
            if out:
                return out
            for c, k in self.leaves(g, a[1]):
                x, y = a[2][k], b[2][k]
                if x is None or y is None:
                    continue
                for n, (p, q) in enumerate(zip(x, y)):
                    out += self.same(c, p, q, where + (k, n))
            return out
        return self.same_leaf(g, a, b, where, ())

    def same_leaf(self, g, a, b, where, zeros):
        """mismatches off the zero sets of the compared quantities; zero sets that need a look go to self.degenerate"""
        d = self.d
        bad = []
        if d.formal:
            a, b = d.ap('exp', lambda x: x, a), d.ap('exp', lambda x: x, b)
        memo = set()
        support = set()

        def leaf(a, b, z):
            if isinstance(a, F) and isinstance(b, F):
                if a.v == b.v:
                    return True
                if z is not None:
                    df = (a.v - b.v) % d.P
                    return any((df - k * z) % d.P == 0 for k in (1, -1, 2, -2))
                return False
            return not isinstance(a, F) and not isinstance(b, F) and a == b

        def walk(g, a, b, zv, z, path):
            """zv: the one variable taken at zero (None: none), z: its quantity once passed"""
            if g == 0 or a is b or bad:
                return
            top = None
            for x in (g, a, b):
                if isinstance(x, Node) and (top is None or x.var < top):
                    top = x.var
            if top is None:
                if not leaf(a, b, z):
                    bad.append((where, path, a, b))
                return
            key = (d.kkey(g), d.kkey(a), d.kkey(b), z is None)
            if key in memo:
                return
            memo.add(key)
            support.add(top)
            info = d.vars[top]
            for i in range(info[-1]):
                if info[0] == 'sign' and (i == 1) != (top == zv):
                    continue
                walk(*[x.kids[i] if isinstance(x, Node) and x.var == top else x for x in (g, a, b)], zv, info[1] if top == zv else z, path + ((top, i),))
        walk(g, a, b, None, None, ())
        if bad:
            return bad
        for v in sorted(support):
            if d.vars[v][0] != 'sign':
                continue
            memo.clear()
            walk(g, a, b, v, None, ())
            if bad:
                bad.clear()
                s = d.zerosub(d.vars[v][1])
                if s is not None and s not in self.degenerate:
                    self.degenerate.append(s)
        return []
