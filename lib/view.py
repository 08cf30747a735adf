"""Def-use view of one MIR body: definitions of locals, expansion of single-assignment temporaries,
places as hashable keys, borrows, writes."""

import mirlib


def pkey(p):
    """hashable key of a place"""
    out = [p[0]]
    for e in p[1:]:
        out.append('*' if e == '*' else tuple(e[:2]) if e[0] in 'fd' else tuple(e))
    return tuple(out)


def strip_field_ty(k):
    return k


def prefix(a, b):
    return len(a) <= len(b) and b[:len(a)] == a


def overlap(a, b):
    return prefix(a, b) or prefix(b, a)


class View:
    def __init__(self, fn, body=None):
        self.fn = fn
        self.P = fn.p
        self.body = body or fn.body
        self.bbs = self.body['bb']
        self.argc = self.body['argc']
        n = len(self.body['locals'])
        self.defs = [[] for _ in range(n)]      # (bb, idx, rvalue|('call',t)) whole-local definitions
        self.partial = [[] for _ in range(n)]   # (bb, idx, place) writes into part of the local
        self.mutref = [[] for _ in range(n)]    # (bb, idx, place) `&mut` of the local or a part not through a deref
        self.writes = []                        # (bb, idx, placekey, how)
        self.block_of_call = {}
        live = fn.cfg.reach if body is None else range(len(self.bbs))
        for b in live:
            bb = self.bbs[b]
            if bb.get('cl'):
                continue
            for i, st in enumerate(bb['s']):
                if st[0] == '=':
                    p = st[1]
                    self._w(b, i, p, st[2])
                    r = st[2]
                    if r[0] == 'ref' and r[1] in ('mut', 'Mut', 'm', 'mut2') or r[0] == 'rawptr':
                        if '*' not in r[2][1:]:
                            self.mutref[r[2][0]].append((b, i, r[2]))
                elif st[0] == 'setd':
                    self.partial[st[1][0]].append((b, i, st[1]))
                    self.writes.append((b, i, st[1], 'setd'))
            t = bb['t']
            if t['k'] == 'call':
                self.block_of_call[id(t)] = b
                self._w(b, len(bb['s']), t['dst'], ('call', t))
        self.writes = [(b, i, pkey(self.canon(p)), how) for b, i, p, how in self.writes]

    def canon(self, p, depth=12):
        """rewrite a place reached through single-assignment references to the place they were taken from"""
        while depth > 0 and len(p) > 1:
            depth -= 1
            d = self.single(p[0])
            if d is None:
                break
            rv = d[2]
            if rv[0] == 'ref' and p[1] == '*':
                p = rv[2] + p[2:]
            elif rv[0] == 'use' and rv[1][0] in 'cm':
                p = rv[1][1] + p[1:]
            else:
                break
        return p

    def _w(self, b, i, p, rv):
        if len(p) == 1:
            self.defs[p[0]].append((b, i, rv))
        elif '*' not in p[1:]:
            self.partial[p[0]].append((b, i, p))
        self.writes.append((b, i, p, rv))

    def single(self, l):
        """the only definition of local l, or None (arguments count as having one already)"""
        if l <= self.argc and l != 0:
            return None
        if len(self.defs[l]) == 1 and not self.partial[l] and not self.mutref[l]:
            return self.defs[l][0]
        return None

    def expand(self, o, depth=30):
        """operand -> expression tree:
        ('var', placekey), ('const', k), ('bin', op, a, b), ('un', op, a), ('cast', a, ty), ('call', t, [args]),
        ('ref', placekey, mut), ('discr', placeexpr), ('agg', kind, [..]), ('fieldof', expr, idx)"""
        if depth <= 0:
            return ('?',)
        if o[0] == 'k':
            return ('const', o[1])
        if o[0] in 'cm':
            return self.expand_place(o[1], depth)
        return ('?',)

    def expand_place(self, p, depth=30):
        if depth <= 0:
            return ('?',)
        d = self.single(p[0])
        if d is None:
            return ('var', pkey(p))
        rv = d[2]
        if len(p) == 1:
            return self.expand_rv(rv, depth - 1)
        base = rv
        # (x.0) of an overflow-checked operation: the wrapped result
        if rv[0] == 'bin' and rv[1].endswith('WithOverflow') and len(p) == 2 and p[1][0] == 'f':
            if p[1][1] == 0:
                return ('bin', rv[1][:-len('WithOverflow')], self.expand(rv[2], depth - 1), self.expand(rv[3], depth - 1))
            return ('ovf',)
        # through a copied/moved place or a reference
        if rv[0] == 'use' and rv[1][0] in 'cm':
            return self.expand_place(rv[1][1] + p[1:], depth - 1)
        if rv[0] == 'ref' and p[1] == '*':
            return self.expand_place(rv[2] + p[2:], depth - 1)
        if rv[0] == 'agg' and p[1][0] == 'f' and rv[1][0] in ('tuple', 'closure'):
            i = p[1][1]
            if i < len(rv[2]):
                e = self.expand(rv[2][i], depth - 1)
                return self._proj(e, p[2:], depth)
        return self._proj(self.expand_rv(rv, depth - 1), p[1:], depth)

    def _proj(self, e, proj, depth):
        for x in proj:
            if x == '*' and e[0] == 'ref':
                e = ('var', e[1])
            elif x == '*':
                e = ('deref', e)
            elif e[0] == 'var':
                e = ('var', e[1] + pkey([0, x])[1:])
            elif x[0] == 'f':
                e = ('fieldof', e, x[1])
            elif x[0] == 'd':
                e = ('variant', e, x[1])
            else:
                e = ('idx', e)
        return e

    def expand_rv(self, rv, depth):
        k = rv[0]
        if k == 'call':
            t = rv[1]
            return ('call', t, [self.expand(a, depth - 1) for a in t['a']])
        if k == 'use':
            return self.expand(rv[1], depth)
        if k == 'bin':
            return ('bin', rv[1].replace('WithOverflow', ''), self.expand(rv[2], depth - 1), self.expand(rv[3], depth - 1))
        if k == 'un':
            return ('un', rv[1], self.expand(rv[2], depth - 1))
        if k == 'cast':
            return ('cast', self.expand(rv[2], depth - 1), rv[3])
        if k == 'ref':
            # a reborrow of a single-assignment reference
            p = rv[2]
            if len(p) == 2 and p[1] == '*':
                d = self.single(p[0])
                if d is not None:
                    return self.expand_rv(d[2], depth - 1)
                if p[0] <= self.argc and p[0] != 0:
                    return ('var', (p[0],))
            e = self.expand_place(p, depth - 1)
            if e[0] == 'var':
                return ('ref', e[1], rv[1])
            return ('refto', e)
        if k == 'discr':
            return ('discr', self.expand_place(rv[1], depth - 1))
        if k == 'agg':
            return ('agg', rv[1], [self.expand(x, depth - 1) for x in rv[2]])
        return ('?',)


def const_int(P, e):
    """integer value of a constant expression or None"""
    if e[0] != 'const':
        return None
    k = e[1]
    v = k.get('val')
    if v and 'bits' in v:
        ty = P.T[k['t']]
        n = int(v['bits'], 16) if isinstance(v['bits'], str) and v['bits'].startswith('0x') else int(v['bits'])
        return n
    return None


def leaves(e):
    """all variables an expression reads"""
    k = e[0]
    if k == 'var':
        yield e
    elif k in ('bin',):
        yield from leaves(e[2]); yield from leaves(e[3])
    elif k == 'un':
        yield from leaves(e[2])
    elif k in ('cast', 'deref', 'fieldof', 'variant', 'discr', 'refto', 'idx'):
        yield from leaves(e[1])
    elif k == 'call':
        for a in e[2]:
            yield from leaves(a)
    elif k == 'ref':
        yield ('var', e[1])
    elif k == 'agg':
        for a in e[2]:
            yield from leaves(a)
    elif k in ('?', 'ovf'):
        yield e
