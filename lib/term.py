"""Termination of every loop and recursion, decided from MIR by lexicographic progress:

A strongly connected region of the control-flow graph is bounded when some location in it makes progress on a
measure that (a) only ever moves one way inside the region, (b) by at least a fixed amount each time, and (c) is
compared, on every cycle through the progress location, against a bound the region does not change, with one arm
of that comparison leaving the region.  The progress locations are then removed and the rest of the region is
decided the same way."""
from view import View, pkey, overlap, prefix, const_int, leaves
from callgraph import tarjan
import mirlib

FINITE_SOURCES = {
    'core::ops::Range', 'core::ops::RangeInclusive', 'core::slice::Iter', 'core::slice::IterMut',
    'core::slice::Chunks', 'core::slice::ChunksExact', 'core::slice::ChunksMut', 'core::slice::ChunksExactMut', 'core::slice::Windows',
    'core::array::IntoIter', 'core::option::IntoIter', 'core::option::Iter', 'core::result::IntoIter', 'alloc::vec::IntoIter', 'alloc::vec::Drain',
    'core::str::SplitAsciiWhitespace', 'core::str::SplitWhitespace', 'core::str::Split', 'core::str::Lines', 'core::str::Chars', 'core::str::CharIndices', 'core::str::Bytes',
    'core::iter::Empty', 'core::iter::Once', 'core::slice::Split', 'core::slice::RChunks', 'core::slice::ArrayChunks', 'core::slice::ArrayWindows',
    'roxmltree::Descendants', 'roxmltree::Children', 'roxmltree::Attributes', 'roxmltree::AxisIter', 'roxmltree::Ancestors',
    'alloc::collections::btree_map::Iter', 'alloc::collections::btree_map::IntoIter', 'alloc::collections::btree_map::Keys', 'alloc::collections::btree_map::Values', 'alloc::collections::hash_map::Iter',
    'alloc::collections::hash_map::Keys', 'alloc::collections::hash_map::Values', 'alloc::collections::btree_set::Iter', 'alloc::collections::vec_deque::Iter', 'alloc::collections::vec_deque::IntoIter',
}
ADAPT1 = {'core::iter::' + x for x in (
    'Enumerate', 'Take', 'Skip', 'Rev', 'Map', 'Filter', 'FilterMap', 'Copied', 'Cloned', 'StepBy', 'Peekable',
    'TakeWhile', 'SkipWhile', 'MapWhile', 'Inspect', 'Fuse', 'Scan')}
INFINITE = {'core::ops::RangeFrom', 'core::iter::Repeat', 'core::iter::RepeatWith', 'core::iter::Cycle', 'core::iter::Successors', 'core::iter::FromFn'}


def finite_iter(P, ty):
    """True: finitely many items whatever the values; False: possibly endless; None: the caller's own iterator type"""
    t = P.T[ty]
    k = t['k']
    if k == 'ref':
        return finite_iter(P, t['e'])
    if k == 'param' or k in ('alias', 'opaque', 'proj'):
        return None
    if k != 'adt':
        return False
    d = t['d']
    if d in FINITE_SOURCES:
        return True
    args = [a for a in t['a'] if isinstance(a, int)]
    if d in INFINITE:
        return False
    if d == 'core::iter::Take':
        return True
    if d in ADAPT1:
        return finite_iter(P, args[0])
    if d in ('core::iter::Zip',):
        r = [finite_iter(P, a) for a in args[:2]]
        return True if True in r else (None if None in r else False)
    if d in ('core::iter::Chain',):
        r = [finite_iter(P, a) for a in args[:2]]
        return False if False in r else (None if None in r else True)
    if d in ('core::iter::Flatten', 'core::iter::FlatMap'):
        r = finite_iter(P, args[0])
        return r
    return False


ITER_STEP = {'next', 'next_back', 'nth', 'nth_back'}
ITER_OK = ITER_STEP | {'peek', 'next_if', 'next_if_eq', 'len', 'size_hint'}


class Term:
    def __init__(self, P):
        self.P = P
        self.notes = []

    # ---- one function
    def loops(self, fn):
        """yields (header line, verdict, detail) for every cyclic region of fn"""
        self.fn = fn
        self.v = View(fn)
        cfg = fn.cfg
        edges = {b: [s for s in cfg.succ[b] if s in cfg.reach] for b in cfg.reach}
        out = []
        self._regions(edges, set(cfg.reach), out, ())
        return out

    def _regions(self, edges, nodes, out, trail):
        sub = {b: [s for s in edges[b] if s in nodes] for b in nodes}
        for comp in tarjan(sub):
            S = set(comp)
            if len(S) == 1 and comp[0] not in sub[comp[0]]:
                continue
            r = self._measure(S, sub)
            if r is None:
                # not a shape known here: let the abstract interpreter rank the loop
                hs = [b for b in S if b in self.fn.cfg.loops and set(self.fn.cfg.loops[b]) >= S]
                ok = False
                for h in sorted(hs, key=lambda b: self.fn.cfg.rpoidx[b], reverse=True):
                    import rank
                    ok, desc = rank.prove(self.P, self.fn, h)
                    if ok:
                        out.append((S, 'ranked', desc))
                        self._regions(sub, S - {h}, out, trail + (desc,))
                        break
                    self.notes.append((self.fn.d, h, desc))
                if not ok:
                    out.append((S, None, trail))
                continue
            rule, blocks, desc = r
            out.append((S, rule, desc))
            self._regions(sub, S - blocks, out, trail + (desc,))

    # ---- find a measure for a strongly connected region
    def _measure(self, S, sub):
        v = self.v
        cands = []
        # iterator steps
        for b in sorted(S):
            t = v.bbs[b]['t']
            if t['k'] == 'call' and t['f'] and t['f'].get('m') in ITER_STEP and t['f'].get('trait') in ('core::iter::Iterator', 'core::iter::DoubleEndedIterator', 'core::iter::ExactSizeIterator'):
                r = self._iterator(S, sub, b, t)
                if r:
                    return r
            if t['k'] == 'call' and t['f'] and t['f']['d'].startswith('alloc::vec::Vec') and t['f'].get('m') == 'pop':
                r = self._pop(S, sub, b, t)
                if r:
                    return r
        # counters
        seen = set()
        for (b, i, pk, how) in v.writes:
            if b in S and pk not in seen and how != 'setd':
                seen.add(pk)
                r = self._counter(S, sub, pk)
                if r:
                    return r
        for b in sorted(S):
            t = v.bbs[b]['t']
            if t['k'] == 'call' and t['f'] and t['f'].get('m') in ('add_assign', 'sub_assign', 'mul_assign', 'div_assign'):
                e = v.expand(t['a'][0])
                if e[0] == 'ref' and e[1] not in seen:
                    seen.add(e[1])
                    r = self._counter(S, sub, e[1])
                    if r:
                        return r
        for b in sorted(S):
            t = v.bbs[b]['t']
            if t['k'] == 'call' and t['f'] and t['f'].get('trait', '').endswith('::RandomSource'):
                r = self._rejection(S, sub, b, t)
                if r:
                    return r
        return self._parent_chain(S, sub)

    def _exits(self, S, b):
        return [s for s in self.fn.cfg.succ[b] if s not in S and not self._panics(s)]

    def _panics(self, b):
        # a block that can only end in a panic is no loop exit we rely on, but leaving is leaving
        return False

    def _cut(self, S, sub, prog, guard):
        """no cycle of S goes through a block of prog without going through guard"""
        rest = S - {guard}
        g = {b: [s for s in sub[b] if s in rest] for b in rest}
        for comp in tarjan(g):
            if len(comp) > 1 or comp[0] in g[comp[0]]:
                if any(p in comp for p in prog):
                    return False
        return True

    def _switches(self, S):
        for b in S:
            t = self.v.bbs[b]['t']
            if t['k'] == 'switch' and self._exits(S, b):
                yield b, t

    def _written(self, S, pk, allow=()):
        """places overlapping pk written, or mutably borrowed, inside S (besides blocks in allow)"""
        v = self.v
        for (b, i, w, how) in v.writes:
            if b in S and b not in allow and overlap(w, pk) and (b, i) not in allow:
                return True
        for b in S:
            if b in allow:
                continue
            bb = v.bbs[b]
            for i, st in enumerate(bb['s']):
                if st[0] == '=' and st[2][0] == 'ref' and st[2][1] == 'mut' and overlap(pkey(v.canon(st[2][2])), pk) and (b, i) not in allow:
                    # reborrowing the very reference the place goes through counts as well
                    return True
            # a reference held in a local of the place and moved into a call
            t = bb['t']
            if t['k'] == 'call':
                for a in t['a']:
                    if a[0] in 'cm' and len(pk) > 1 and '*' in pk:
                        q = pkey(a[1])
                        d = pk.index('*')
                        ty = self.P.T[v.body['locals'][a[1][0]][0]] if len(a[1]) == 1 else None
                        if q == pk[:d] and (ty is None or ty.get('m')):
                            return True
        return False

    def _invariant(self, S, e):
        """expression whose value S does not change"""
        k = e[0]
        if k == 'const':
            return True
        if k == 'var' or k == 'ref':
            return not self._written(S, e[1])
        if k == 'call':
            # computed before the region was entered: a fixed value
            if self.v.block_of_call.get(id(e[1])) not in S:
                return True
            return self._pure_call(e) and all(self._invariant(S, a) for a in e[2])
        if k == 'bin':
            return self._invariant(S, e[2]) and self._invariant(S, e[3])
        if k == 'un':
            return self._invariant(S, e[2])
        if k in ('cast', 'deref', 'fieldof', 'refto', 'discr', 'variant'):
            return self._invariant(S, e[1])
        if k == 'agg':
            return all(self._invariant(S, a) for a in e[2])
        return False

    PURE = {'len', 'max', 'min', 'columns', 'rows', 'degree', 'saturating_sub', 'saturating_add', 'into', 'from', 'unsigned_abs',
            'count', 'pow', 'from_usize', 'from_f64', 'is_empty', 'capacity', 'add', 'sub', 'mul', 'div', 'abs', 'clone'}

    def _pure_call(self, e):
        f = e[1]['f']
        return bool(f) and f.get('m', f['d'].rsplit('::', 1)[-1]) in self.PURE

    # ---- measure 1: a finite iterator only ever advanced
    def _iterator(self, S, sub, b, t):
        P, v = self.P, self.v
        ty = t['f']['a'][0]
        fin = finite_iter(P, ty)
        arg = v.expand(t['a'][0])
        pk = arg[1] if arg[0] == 'ref' else (arg[1] + ('*',) if arg[0] == 'var' else None)
        if pk is None or fin is False:
            return None
        # every other use of the iterator inside S must be an advancing call too
        allow = set()
        for c in S:
            tc = v.bbs[c]['t']
            if tc['k'] == 'call' and tc['f'] and tc['f'].get('m') in ITER_OK and tc['a']:
                e = v.expand(tc['a'][0])
                q = e[1] if e[0] == 'ref' else (e[1] + ('*',) if e[0] == 'var' else None)
                if q is not None and overlap(q, pk):
                    # the borrow statement feeding this call
                    allow |= self._borrow_sites(tc['a'][0])
                    allow.add((c, len(v.bbs[c]['s'])))
        if self._written(S, pk, allow):
            return None
        # a switch on the result with an arm that leaves
        dst = pkey(t['dst'])
        for g, sw in self._switches(S):
            e = v.expand(sw['d'])
            if self._mentions_call(e, t) and self._cut(S, sub, {b}, g):
                kind = 'finite-iterator' if fin else 'caller-iterator'
                return kind, {b}, 'items of %s' % P.tstr(ty).split('<')[0]
        return None

    def _borrow_sites(self, o):
        v = self.v
        out = set()
        while o[0] in 'cm' and len(o[1]) == 1:
            d = v.single(o[1][0])
            if d is None:
                break
            b, i, rv = d
            if rv[0] == 'ref':
                out.add((b, i))
                p = rv[2]
                if len(p) == 2 and p[1] == '*':
                    o = ['c', [p[0]]]
                    continue
                break
            if rv[0] == 'use':
                o = rv[1]
                continue
            break
        return out

    def _mentions_call(self, e, t):
        k = e[0]
        if k == 'call':
            return e[1] is t or any(self._mentions_call(a, t) for a in e[2])
        if k == 'var':
            l = e[1][0]
            return any(d[2][0] == 'call' and d[2][1] is t for d in self.v.defs[l])
        if k == 'bin':
            return self._mentions_call(e[2], t) or self._mentions_call(e[3], t)
        if k == 'un':
            return self._mentions_call(e[2], t)
        if k in ('cast', 'deref', 'fieldof', 'variant', 'discr', 'refto', 'idx'):
            return self._mentions_call(e[1], t)
        if k == 'ref':
            l = e[1][0]
            return any(d[2][0] == 'call' and d[2][1] is t for d in self.v.defs[l])
        if k == 'agg':
            return any(self._mentions_call(a, t) for a in e[2])
        return False

    def _pop(self, S, sub, b, t):
        v = self.v
        arg = v.expand(t['a'][0])
        if arg[0] != 'ref':
            return None
        allow = self._borrow_sites(t['a'][0]) | {(b, len(v.bbs[b]['s']))}
        if self._written(S, arg[1], allow):
            return None
        for g, sw in self._switches(S):
            if self._mentions_call(v.expand(sw['d']), t) and self._cut(S, sub, {b}, g):
                return 'draining-vec', {b}, 'elements of the vector'
        return None

    # ---- measure 2: a counter
    def _counter(self, S, sub, pk):
        v = self.v
        blocks = set()
        dirs = set()
        step = None
        allow = set()
        for (b, i, w, how) in v.writes:
            if b not in S or not overlap(w, pk):
                continue
            if w != pk or how == 'setd':
                return None
            s = self._step(S, how, pk)
            if s is None:
                return None
            dirs.add(s[0])
            step = s[1] if step is None or step == s[1] else 'var'
            blocks.add(b)
            allow.add((b, i))
        # writes through a `&mut` handed to += on a generic scalar
        for b in S:
            t = v.bbs[b]['t']
            if t['k'] == 'call' and t['f'] and t['f'].get('m') in ('add_assign', 'sub_assign', 'mul_assign', 'div_assign') and t['a']:
                e = v.expand(t['a'][0])
                q = e[1] if e[0] == 'ref' else None
                if q == pk:
                    s = self._float_step(S, t)
                    if s is None:
                        return None
                    dirs.add(s[0])
                    step = s[1]
                    blocks.add(b)
                    allow |= self._borrow_sites(t['a'][0])
        if len(dirs) != 1 or not blocks:
            return None
        if self._written(S, pk, allow):
            return None
        d = dirs.pop()
        lone = pk[0]
        if len(pk) == 1 and lone <= self.fn.argc:
            pass
        if d == 'either':
            return self._two_sided(S, sub, pk, blocks, step)
        done = set()
        gs = [g for g, sw in self._switches(S) if self._guards(S, sw, g, pk, d, step)]
        for b in blocks:
            if any(self._cut(S, sub, {b}, g) for g in gs):
                done.add(b)
        if done:
            nm = self.fn.lname(pk[0]) or 'place'
            return ('counter-' + d), done, '%s by %s' % (nm, step)
        return None

    def _step(self, S, how, pk):
        """direction and size of an assignment v := how"""
        v, P = self.v, self.P
        if how[0] == 'call':
            e = ('call', how[1], [v.expand(a) for a in how[1]['a']])
        else:
            e = v.expand_rv(how, 30)
        return self._step_e(S, e, pk)

    def _step_e(self, S, e, pk):
        P = self.P
        me = ('var', pk)
        if e[0] == 'bin':
            op, a, b = e[1], e[2], e[3]
            op = op.replace('Unchecked', '')
            if op == 'Add' and (a == me or b == me):
                o = b if a == me else a
                c = const_int(P, o)
                if c is not None and c >= 1:
                    return self._signed(o, 'up', c)
                if self._invariant(S, o):
                    return ('either', o)
            if op == 'Sub' and a == me:
                c = const_int(P, b)
                if c is not None and c >= 1:
                    return self._signed(b, 'down', c)
            if op == 'Shr' and a == me:
                c = const_int(P, b)
                if c is not None and c >= 1:
                    return ('halve', c)
            if op == 'Div' and a == me:
                c = const_int(P, b)
                if c is not None and c >= 2:
                    return ('halve', c)
            if op == 'Shl' and a == me:
                return None
        if e[0] == 'call' and e[1]['f']:
            m = e[1]['f'].get('m')
            d = e[1]['f']['d']
            if e[2] and e[2][0] == me and d.startswith('core::num::'):
                c = const_int(P, e[2][1]) if len(e[2]) > 1 else None
                if m in ('saturating_sub',) and c and c >= 1:
                    return ('down', c)
                if m in ('saturating_add',) and c and c >= 1:
                    return ('up', c)
            # the same step written as an assignment of a generic scalar: x = x + step, x = x * factor
            tr = e[1]['f'].get('trait') or ''
            if m in ('add', 'mul', 'div') and tr.startswith('core::ops::') and len(e[2]) == 2:
                a, b = e[2]
                if a != me and m in ('add', 'mul'):
                    a, b = b, a
                if a == me:
                    return self._float_by(S, m, b)
        return None

    def _signed(self, o, d, c):
        ty = self.P.T[o[1]['t']]
        if ty['k'] == 'int':
            bits = o[1]['val'].get('size', 8) * 8
            if c >= 1 << (bits - 1):
                c -= 1 << bits
                d = 'down' if d == 'up' else 'up'
                c = -c
        return (d, c)

    def _float_step(self, S, t):
        """x *= HALF and the like (a factor strictly between 0 and 1), or x += a step bounded below by a positive constant"""
        return self._float_by(S, t['f']['m'][:-7], self.v.expand(t['a'][1]))

    def _float_by(self, S, m, e):
        c = self._fconst(e)
        if m == 'mul' and c is not None and 0 < c <= 0.75:
            return ('decay', c)
        if m == 'div' and c is not None and c >= 1.25:
            return ('decay', 1 / c)
        if m == 'add':
            lo = self._fmin(e)
            if lo is not None and lo > 0 and self._invariant(S, e):
                return ('fup', lo)
        return None

    CONSTS = {'HALF': 0.5, 'ONE': 1.0, 'TWO': 2.0, 'TEN': 10.0, 'THREE': 3.0, 'ZERO': 0.0, 'PI': 3.14159265, 'TWO_PI': 6.2831853, 'EPSILON': 1e-16}

    def _fconst(self, e):
        if e[0] == 'const':
            k = e[1]
            if 'def' in k and k['def'].startswith('multicalc::scalar::numeric::Numeric::'):
                return self.CONSTS.get(k['def'].rsplit('::', 1)[1])
            val = k.get('val')
            if val and 'bits' in val:
                import struct
                ty = self.P.T[k['t']]
                if ty.get('n') == 'f64' or ty.get('p') == 'f64':
                    return struct.unpack('<d', struct.pack('<Q', int(val['bits'])))[0]
                if ty.get('p') == 'f32':
                    return struct.unpack('<f', struct.pack('<I', int(val['bits'])))[0]
        if e[0] == 'call' and e[1]['f'] and e[1]['f'].get('m') == 'from_f64':
            return self._fconst(e[2][0])
        return None

    def _fmin(self, e):
        """a lower bound of the value whatever its operands are, NaN included"""
        c = self._fconst(e)
        if c is not None:
            return c
        if e[0] == 'call' and e[1]['f'] and e[1]['f'].get('m') == 'max' and e[1]['f'].get('trait', '').endswith('Numeric'):
            # Numeric::max(a, b) = if a > b {a} else {b}: at least b, also when a is NaN
            return self._fmin(e[2][1])
        return None

    def _cmp(self, e):
        """comparison inside a switch operand, through negations: (op, lhs, rhs)"""
        while e[0] == 'un' and e[1] == 'Not':
            e = e[2]
        if e[0] == 'bin' and e[1] in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            return e[1], e[2], e[3]
        if e[0] == 'call' and e[1]['f'] and e[1]['f'].get('m') in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and len(e[2]) == 2:
            def un(x):
                return ('var', x[1]) if x[0] == 'ref' else (x[1] if x[0] == 'refto' else x)
            m = e[1]['f']['m']
            return m.capitalize(), un(e[2][0]), un(e[2][1])
        return None

    def _lin_of(self, e, pk):
        """e = v + const ?"""
        if e == ('var', pk):
            return True
        if e[0] == 'bin' and e[1].replace('Unchecked', '') in ('Add', 'Sub'):
            if e[2] == ('var', pk) and e[3][0] == 'const':
                return True
            if e[1] == 'Add' and e[3] == ('var', pk) and e[2][0] == 'const':
                return True
        if e[0] == 'cast':
            return self._lin_of(e[1], pk)
        # the payload of a checked conversion
        if e[0] == 'fieldof' and e[1][0] == 'variant':
            c = self._conversion(e[1][1])
            return c is not None and self._lin_of(c, pk)
        return False

    def _conversion(self, e):
        """the operand of an integer `try_from`, through `?` and `ok()`"""
        while e[0] == 'call' and e[1]['f'] and e[1]['f'].get('m') in ('branch', 'ok') and e[2]:
            e = e[2][0]
        if e[0] == 'call' and e[1]['f'] and e[1]['f'].get('trait') in ('core::convert::TryFrom', 'core::convert::TryInto') and 'core::convert::num' in e[1]['f'].get('r', 'core::convert::num') and len(e[2]) == 1:
            return e[2][0]
        return None

    def _guards(self, S, sw, g, pk, d, step):
        v, P = self.v, self.P
        e = v.expand(sw['d'])
        # a switch directly on the counter: `match n { 0 => leave, .. }`
        if e == ('var', pk) and d in ('down', 'halve'):
            for val, tgt in sw['v']:
                if val == '0' and tgt not in S and (d == 'halve' or step == 1):
                    return True
        # a checked conversion to an unsigned integer fails for a negative value: leaving then is a lower limit
        if e[0] == 'discr' and d == 'down':
            x = self._conversion(e[1])
            if x is not None and x == ('var', pk):
                return any(tgt not in S for _, tgt in sw['v']) or sw['o'] not in S
        if e[0] == 'var' and len(e[1]) == 1:
            # a flag assembled by && / || : look at the comparison blocks themselves instead
            return False
        c = self._cmp(e)
        if c is None:
            return False
        op, a, b = c
        if self._lin_of(a, pk):
            lim, flip = b, False
        elif self._lin_of(b, pk):
            lim, flip = a, True
        else:
            return False
        if not self._invariant(S, lim):
            return False
        if flip:
            op = {'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}.get(op, op)
        neg = 0
        x = e
        while x[0] == 'un' and x[1] == 'Not':
            neg ^= 1
            x = x[2]
        # truth value(s) of the comparison on which control leaves S
        leave = set()
        cov = set()
        for val, tgt in sw['v']:
            tv = (int(val) != 0) ^ bool(neg)
            cov.add(int(val))
            if tgt not in S:
                leave.add(tv)
        if sw['o'] not in S:
            other = [q for q in (0, 1) if q not in cov]
            for q in other:
                leave.add(bool(q) ^ bool(neg))
        c0 = const_int(P, lim)
        for tv in leave:
            o = op if tv else {'Lt': 'Ge', 'Le': 'Gt', 'Gt': 'Le', 'Ge': 'Lt', 'Eq': 'Ne', 'Ne': 'Eq'}[op]
            # control leaves once `v o lim`
            if d in ('up',) and o in ('Gt', 'Ge'):
                return True
            if d == 'fup' and o in ('Gt', 'Ge') and self._fconst(lim) is not None:
                return True
            if d in ('down', 'halve') and o in ('Lt', 'Le'):
                # leaving when v < 0 is impossible for unsigned: the limit must be reachable
                return True
            if d in ('down', 'halve') and o == 'Eq' and c0 == 0 and (step == 1 or d == 'halve'):
                return True
            if d == 'up' and o == 'Eq' and step == 1 and self._starts_below(S, pk, lim):
                return True
            if d == 'decay' and o in ('Lt', 'Le'):
                f = self._fconst(lim)
                if f is not None and f > 0 and self._entry_finite(S, pk):
                    return True
        return False

    def _starts_below(self, S, pk, lim):
        """the counter enters the loop as the constant 0 (any unsigned limit is at least that)"""
        v = self.v
        if len(pk) != 1:
            return False
        ds = [d for d in v.defs[pk[0]] if d[0] not in S]
        return bool(ds) and all(const_int(self.P, v.expand_rv(d[2], 5)) == 0 if d[2][0] != 'call' else False for d in ds)

    def _entry_finite(self, S, pk):
        """on entry to S the float has passed an is_finite test: a call is_finite(x) whose false arm does not reach S,
        where x is the variable or the value it was copied from, and dominates the loop"""
        head = min(S, key=lambda b: self.fn.cfg.rpoidx[b])
        return self._finite_at(S, head, pk)

    def _finite_at(self, S, head, pk, depth=0):
        v = self.v
        cfg = self.fn.cfg
        roots = {pk}
        todo = [pk]
        while todo:
            q = todo.pop()
            if len(q) != 1:
                continue
            for d in v.defs[q[0]]:
                if d[0] in S or d[2][0] != 'use' or d[2][1][0] not in 'cm':
                    continue
                w = pkey(d[2][1][1])
                if w not in roots:
                    roots.add(w); todo.append(w)
        for b in cfg.reach:
            t = v.bbs[b]['t']
            if t['k'] != 'switch' or b in S or not cfg.dominates(b, head):
                continue
            e = v.expand(t['d'])
            neg = False
            while e[0] == 'un' and e[1] == 'Not':
                neg = not neg
                e = e[2]
            if e[0] == 'call' and e[1]['f'] and e[1]['f'].get('m') == 'is_finite' and e[2] and e[2][0][0] == 'var' and e[2][0][1] in roots:
                # arm taken when not finite must not reach S
                bad = None
                for val, tgt in t['v']:
                    if int(val) == (1 if neg else 0):
                        bad = tgt
                if bad is None:
                    bad = t['o']
                if not self._reaches(bad, head, b):
                    return True
        # an argument of a private helper: every caller has made the test
        ps = [q[0] for q in roots if len(q) == 1 and 1 <= q[0] <= self.fn.argc]
        if len(ps) == 1 and not self.fn.j.get('reach') and depth < 3:
            sites = []
            for g in self.P.fns.values():
                if not g.body:
                    continue
                for b in g.cfg.reach:
                    t = g.bbs[b]['t']
                    if t['k'] == 'call' and t['f'] and self.fn.id in self.P.callee(t)[1]:
                        sites.append((g, b, t))
            for g, b, t in sites:
                sub = Term(self.P)
                sub.fn, sub.v = g, View(g)
                e = sub.v.expand(t['a'][ps[0] - 1])
                if e[0] != 'var' or not sub._finite_at(frozenset(), b, e[1], depth + 1):
                    return False
            return bool(sites)
        return False

    def _reaches(self, a, target, avoid):
        seen = {a}
        st = [a]
        while st:
            x = st.pop()
            if x == target:
                return True
            for s in self.fn.cfg.succ[x]:
                if s not in seen and s != avoid:
                    seen.add(s); st.append(s)
        return False

    def _two_sided(self, S, sub, pk, blocks, step):
        """v += s with s fixed over the region and never zero, and both ends tested"""
        v = self.v
        if step == 'var' or not self._nonzero(step):
            return None
        lo = hi = False
        for g, sw in self._switches(S):
            if not self._cut(S, sub, blocks, g):
                continue
            if not lo and self._guards(S, sw, g, pk, 'down', 1):
                lo = True
            elif not hi and self._guards(S, sw, g, pk, 'up', 1):
                hi = True
        if lo and hi:
            return 'counter-two-sided', blocks, '%s by a fixed nonzero step' % (self.fn.lname(pk[0]) or 'place')
        return None

    def _nonzero(self, e):
        """every value of the expression is a nonzero integer"""
        P = self.P
        if e[0] == 'const':
            c = const_int(P, e)
            return c is not None and c != 0
        if e[0] == 'var' and len(e[1]) == 1:
            ds = self.v.defs[e[1][0]]
            if 1 <= e[1][0] <= self.fn.argc or not ds:
                return False
            return all(self._nonzero(('call', d[2][1], []) if d[2][0] == 'call' else self.v.expand_rv(d[2], 10)) for d in ds)
        if e[0] == 'call':
            _, loc = P.callee(e[1])
            if len(loc) == 1 and P.fns[loc[0]].body:
                sub = Term(P)
                sub.fn = P.fns[loc[0]]
                sub.v = View(sub.fn)
                return sub._nonzero(('var', (0,))) if sub.v.defs[0] else False
        return False

    # ---- measure 3: rejection sampling from the caller's random source
    def _rejection(self, S, sub, b, t):
        v = self.v
        tests = {g for g in S if v.bbs[g]['t']['k'] == 'switch' and self._depends(v.expand(v.bbs[g]['t']['d']), t, 12)}
        if not any(self._exits(S, g) for g in tests):
            return None
        rest = S - tests
        sub2 = {x: [y for y in sub[x] if y in rest] for x in rest}
        for comp in tarjan(sub2):
            if b in comp and (len(comp) > 1 or b in sub2[b]):
                return None
        return 'rejection-sampling', {b}, 'draws from the caller-supplied random source until one is accepted'

    def _depends(self, e, t, n):
        if n == 0:
            return False
        if self._mentions_call(e, t):
            return True
        for x in leaves(e):
            if x[0] == 'var' and len(x[1]) >= 1:
                for d in self.v.defs[x[1][0]]:
                    y = ('call', d[2][1], [self.v.expand(a) for a in d[2][1]['a']]) if d[2][0] == 'call' else self.v.expand_rv(d[2], 20)
                    if y != e and self._depends(y, t, n - 1):
                        return True
        return False

    # ---- measure 4: walking up a parent chain whose links only point to smaller indices
    def _parent_chain(self, S, sub):
        return None


# ---------------------------------------------------------------- recursion
class Recursion:
    """every cycle of the call graph must pass a strictly shrinking argument"""

    def __init__(self, P, G):
        self.P = P
        self.G = G
        self.parents = {}
        from callgraph import closures_of
        for f in P.fns.values():
            if f.body:
                for c in closures_of(f.body):
                    for cf in P.by_d.get(c[1], []):
                        self.parents[cf.id] = f

    def outer(self, fn):
        while fn.kind == 'Closure' or '{closure#' in fn.d.rsplit('::', 1)[-1]:
            p = self.parents.get(fn.id)
            if p is None:
                break
            fn = p
        return fn

    def cycles(self):
        for comp in self.G.sccs():
            if len(comp) > 1 or comp[0] in self.G.edges.get(comp[0], ()):
                yield [self.P.fns[x] for x in comp]

    def decide(self, comp):
        """returns (ok, [descriptions or problems])"""
        P = self.P
        ids = {f.id for f in comp}
        heads = {self.outer(f).id for f in comp}
        msgs = []
        ok = True
        if len(heads) != 1:
            return False, ['mutual recursion between %s' % sorted(P.fns[h].d for h in heads)]
        head = P.fns[heads.pop()]
        for f in comp:
            v = View(f)
            for b in sorted(f.cfg.reach):
                t = v.bbs[b]['t']
                if t['k'] != 'call' or not t['f'] or t['f'].get('rid') != head.id:
                    continue
                r = self._shrinks(f, v, b, t, head)
                if r:
                    msgs.append(r)
                else:
                    ok = False
                    msgs.append('call at %s does not shrink any argument under a guard' % t['sp'].split('/')[-1])
        if not msgs:
            return False, ['no direct recursive call recognised']
        return ok, msgs

    def _resolve(self, f, v, e):
        """a captured variable in terms of the function that created the closure; returns (fn, view, expr)"""
        hops = 0
        while f.id in self.parents and hops < 4:
            parent = self.parents[f.id]
            if e[0] == 'var' and e[1][0] == 1:
                fields = [x for x in e[1][1:] if x != '*']
                if not fields or fields[0][0] != 'f':
                    return None
                k = fields[0][1]
                pv = View(parent)
                op = None
                for bb in parent.bbs:
                    for st in bb['s']:
                        if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'closure' and st[2][1][1] == f.d:
                            if k < len(st[2][2]):
                                op = st[2][2][k]
                if op is None:
                    return None
                pe = pv.expand(op)
                if pe[0] == 'ref':
                    pe = ('var', pe[1])
                f, v, e = parent, pv, pe
                hops += 1
                continue
            break
        return f, v, e

    def _shrinks(self, f, v, b, t, head):
        P = self.P
        for k, a in enumerate(t['a']):
            e = v.expand(a)
            if e[0] == 'bin' and e[1] in ('Sub', 'Add'):
                c = const_int(P, e[3])
                if c is None or c < 1:
                    continue
                r = self._resolve(f, v, e[2])
                if r is None:
                    continue
                of, ov, x = r
                if of.id != head.id or x != ('var', (k + 1,)) or any(True for _ in ov.defs[k + 1]):
                    continue
                site = b
                if of is not f:
                    site = self._creation(of, f)
                    if site is None:
                        continue
                if self._guarded(of, ov, site, k + 1, e[1]):
                    return 'argument %d (%s) %s by %d under a guard' % (k, of.lname(k + 1), 'decreases' if e[1] == 'Sub' else 'increases', c)
            ty = P.T[f.lty(a[1][0])] if a[0] in 'cm' and len(a[1]) == 1 else None
            if ty and ty.get('d') == 'roxmltree::Node' and self._from_children(f, v, a, 20):
                return 'argument %d is a child element of the node received' % k
        return None

    def _creation(self, of, f):
        while self.parents.get(f.id) is not None and self.parents[f.id].id != of.id:
            f = self.parents[f.id]
        for b in of.cfg.reach:
            for st in of.bbs[b]['s']:
                if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'closure' and st[2][1][1] == f.d:
                    return b
        return None

    def _guarded(self, of, ov, site, l, op):
        cfg = of.cfg
        for g in cfg.reach:
            t = ov.bbs[g]['t']
            if t['k'] != 'switch' or not cfg.dominates(g, site) or g == site:
                continue
            e = ov.expand(t['d'])
            x = e
            while x[0] == 'un' and x[1] == 'Not':
                x = x[2]
            hit = x == ('var', (l,))
            if x[0] == 'bin' and x[1] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                for p, q in ((x[2], x[3]), (x[3], x[2])):
                    if p == ('var', (l,)) and q[0] == 'const':
                        hit = x[1] in ('Lt', 'Le', 'Gt', 'Ge') or op == 'Sub'
            if not hit:
                continue
            # one arm never reaches the call
            for s in cfg.succ[g]:
                if not self._reach(cfg, s, site, g):
                    return True
        return False

    def _reach(self, cfg, a, target, avoid):
        seen = {a}
        st = [a]
        while st:
            x = st.pop()
            if x == target:
                return True
            for s in cfg.succ[x]:
                if s not in seen and s != avoid:
                    seen.add(s); st.append(s)
        return False

    def _from_children(self, f, v, a, n):
        """the node operand comes out of an iterator over children()/elements() of the function's own node parameter"""
        e = v.expand(a)
        txt = self._calls_in(f, v, e, n, set())
        return 'children' in txt or 'elements' in txt

    def _calls_in(self, f, v, e, n, seen):
        out = set()
        if n == 0:
            return out
        stack = [e]
        while stack:
            x = stack.pop()
            k = x[0]
            if k == 'call':
                fd = x[1]['f']
                if fd:
                    out.add(fd.get('m') or fd['d'].rsplit('::', 1)[-1])
                stack += x[2]
            elif k in ('var', 'ref'):
                l = x[1][0]
                if l not in seen:
                    seen.add(l)
                    for d in v.defs[l]:
                        y = ('call', d[2][1], [v.expand(q) for q in d[2][1]['a']]) if d[2][0] == 'call' else v.expand_rv(d[2], 20)
                        stack.append(y)
            elif k == 'bin':
                stack += [x[2], x[3]]
            elif k == 'un':
                stack.append(x[2])
            elif k in ('cast', 'deref', 'fieldof', 'variant', 'discr', 'refto', 'idx'):
                stack.append(x[1])
            elif k == 'agg':
                stack += x[2]
        return out
