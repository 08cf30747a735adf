"""Abstract interpreter over polymorphic MIR.

Domain: a store of structured symbolic values (value numbering over hash-consed terms), a
conjunction of linear integer inequalities over integer terms (polyhedra with template widening at
loop heads), and a set of boolean atoms over opaque (floating point / generic scalar) terms.
Enum values keep, per variant, the facts that hold when the value is that variant, which is what
makes `Result`/`Option`/`bool` based control flow precise without enumerating paths.

Calls to functions of the analysed crates are inlined (bounded depth) or abstracted by summaries:
the list of preconditions their panicking constructs need.  External functions have explicit models
or are in an explicit table of total functions; anything else is an obligation.
"""
import sys
import lin as L
from lin import infeasible

sys.setrecursionlimit(20000)

USIZE = ('int', 'usize')
BOOL = ('bool',)
INTMAX = {
    'u8': 2 ** 8 - 1, 'u16': 2 ** 16 - 1, 'u32': 2 ** 32 - 1, 'u64': 2 ** 64 - 1, 'u128': 2 ** 128 - 1,
    'usize': 2 ** 64 - 1, 'i8': 2 ** 7 - 1, 'i16': 2 ** 15 - 1, 'i32': 2 ** 31 - 1, 'i64': 2 ** 63 - 1,
    'i128': 2 ** 127 - 1, 'isize': 2 ** 63 - 1,
}
CG_MAX = 2 ** 20      # assumption: const-generic dimensions are at most 2^20 (they size stack arrays)
CG_MIN = 1            # assumption: const-generic dimensions are at least 1
LEN_MAX = 2 ** 62     # slice / vector lengths


def intmin(n):
    return 0 if n[0] == 'u' else -(INTMAX[n] + 1)


class Terms:
    def __init__(self):
        self.ids = {}
        self.ops = []
        self.types = []

    def mk(self, op, ty=None):
        i = self.ids.get(op)
        if i is None:
            i = len(self.ops)
            self.ids[op] = i
            self.ops.append(op)
            self.types.append(ty)
        elif self.types[i] is None and ty is not None:
            self.types[i] = ty
        return i


TM = Terms()
mk = TM.mk


def show(t, d=0):
    op = TM.ops[t]
    if d > 5:
        return '..'
    if op[0] == 'arg':
        return op[2] or 'arg%d' % op[1]
    if op[0] == 'cg':
        return op[1]
    if op[0] == 'deref':
        return '*' + show(op[1], d + 1)
    if op[0] == 'fld':
        return '%s.%s' % (show(op[3], d + 1), op[4] if len(op) > 4 else op[2])
    if op[0] == 'idx':
        return '%s[%s]' % (show(op[1], d + 1), showlin(op[2], d + 1))
    if op[0] == 'len':
        return 'len(%s)' % show(op[1], d + 1)
    if op[0] == 'op':
        return '%s(%s)' % (op[1], ', '.join(showv(x, d + 1) for x in op[2:]))
    if op[0] in ('phi', 'site'):
        return '%s#%d' % (op[0], t)
    return '%s#%d' % (op[0], t)


def showlin(l, d=0):
    parts = []
    for t, c in l[1]:
        s = show(t, d)
        parts.append(('%+d*' % c if abs(c) != 1 else ('+' if c > 0 else '-')) + s)
    if l[0] or not parts:
        parts.append('%+d' % l[0])
    r = ' '.join(parts)
    return r[1:] if r.startswith('+') else r


def showv(v, d=0):
    if isinstance(v, int):
        return show(v, d)
    if isinstance(v, tuple) and v and v[0] == 'i':
        return showlin(v[1], d)
    if isinstance(v, tuple) and v and v[0] == 't':
        return show(v[1], d)
    return str(v)[:60]


# ---------------------------------------------------------------- conditions
def cneg(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == 'ge':
        return ('ge', L.addc(L.neg(c[1]), -1))
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'a':
        return ('a', c[1], not c[2])
    if k == 'and':
        return ('or', cneg(c[1]), cneg(c[2]))
    if k == 'or':
        return ('and', cneg(c[1]), cneg(c[2]))
    if k == 'ph':
        return ('ph', c[2], c[1], c[3])
    raise AssertionError(c)


def cge(l):
    if not l[1]:
        return l[0] >= 0
    return ('ge', l)


def ceq(l):
    if not l[1]:
        return l[0] == 0
    return ('eq', l)


def cne(l):
    return cneg(ceq(l)) if l[1] else l[0] != 0


def cand(a, b):
    if a is True:
        return b
    if b is True:
        return a
    if a is False or b is False:
        return False
    return ('and', a, b)


def cor(a, b):
    return cneg(cand(cneg(a), cneg(b)))


class State:
    __slots__ = ('env', 'facts', 'tf')

    def __init__(self, env=None, facts=None, tf=None):
        self.env = env if env is not None else {}
        self.facts = facts if facts is not None else set()
        self.tf = tf if tf is not None else set()

    def copy(self):
        return State(dict(self.env), set(self.facts), set(self.tf))


class Frame:
    __slots__ = ('fn', 'subst', 'ctx', 'depth', 'parent', 'tycache', 'stack', 'body', 'promo')

    def __init__(self, fn, subst, ctx, depth, parent=None, body=None):
        self.fn = fn
        self.subst = subst
        self.ctx = ctx
        self.depth = depth
        self.parent = parent
        self.tycache = {}
        self.body = body if body is not None else fn.body
        self.promo = None
        self.stack = (parent.stack if parent else ()) + (fn.id,)


class Obl:
    """an unproved obligation"""
    __slots__ = ('fn', 'kind', 'span', 'lin', 'guards', 'tguards', 'detail', 'chain')

    def __init__(self, fn, kind, span, lin_, guards, tguards, detail, chain=()):
        self.fn = fn
        self.kind = kind
        self.span = span
        self.lin = lin_
        self.guards = guards
        self.tguards = tguards
        self.detail = detail
        self.chain = chain


class Budget(Exception):
    pass


class Interp:
    def __init__(self, P, **opt):
        self.P = P
        self.opt = opt
        self.max_depth = opt.get('max_depth', 6)
        self.size_limit = opt.get('size_limit', 400)
        self.summaries = {}
        self.in_progress = set()
        self.invs = opt.get('invs') or {}
        self.obls = []
        self.nchecked = 0
        self.sites = {}
        self.check_panics = opt.get('check_panics', True)
        self.steps = 0
        self.step_limit = opt.get('step_limit', 400000)
        self.ent_cache = {}
        self.on_construct = opt.get('on_construct')
        self.inline_all = opt.get('inline_all', False)
        self.inline_pred = opt.get('inline_pred')
        import models
        self.models = models.MODELS
        self.total = models.TOTAL
        self.is_total = models.is_total
        self.ext_total = models.ext_total
        self.iter_model = models.iter_model
        self.callback = models.callback
        self.local_adts = None
        self.atom_hook = opt.get('atom_hook')
        self.use_sites = set()
        self.cmp_consts = set()
        self.assumed_add = 0
        self.assumed_mul = 0
        self.promo_vals = {}
        self.on_field = opt.get('on_field')

    # ------------------------------------------------------------ types
    def ty(self, fr, i):
        r = fr.tycache.get(i)
        if r is None:
            r = self.ty0(self.P.T[i], fr.subst, fr)
            fr.tycache[i] = r
        return r

    def ty_s(self, i, subst):
        return self.ty0(self.P.T[i], subst, None)

    def carg(self, c, subst):
        if c['c'] == 'param':
            nm = c['name']
            v = subst.get(nm)
            if v is not None and v[0] == 'const':
                return v
            return ('const', L.var(mk(('cg', nm), USIZE)))
        if c['c'] == 'val' and 'v' in c:
            return ('const', L.const(c['v']))
        return ('const', L.var(mk(('cgx', str(c.get('s'))), USIZE)))

    def targs(self, a, subst):
        out = []
        for x in a:
            if isinstance(x, int):
                out.append(self.ty_s(x, subst))
            else:
                out.append(self.carg(x, subst))
        return tuple(out)

    def ty0(self, t, subst, fr):
        k = t['k']
        if k in ('int', 'uint'):
            return ('int', t['n'])
        if k == 'bool':
            return BOOL
        if k == 'float':
            return ('float', t['n'])
        if k == 'adt':
            return ('adt', t['d'], self.targs(t['a'], subst))
        if k == 'array':
            return ('array', self.ty_s(t['e'], subst), self.carg(t['l'], subst)[1])
        if k == 'slice':
            return ('slice', self.ty_s(t['e'], subst))
        if k == 'ref' or k == 'ptr':
            return ('ref', t['m'], self.ty_s(t['e'], subst))
        if k == 'tuple':
            return ('tuple', tuple(self.ty_s(x, subst) for x in t['a']))
        if k == 'param':
            v = subst.get(t['name'])
            if v is not None:
                return v
            return ('param', t['name'])
        if k == 'closure':
            return ('closure', t['id'], self.targs(t['a'], subst))
        if k == 'fndef':
            return ('fndef', t['d'], t['id'], self.targs(t['a'], subst))
        if k == 'alias':
            return ('alias', t.get('d'), self.targs(t['a'], subst))
        if k == 'char':
            return ('char',)
        if k == 'str':
            return ('str',)
        if k == 'never':
            return ('never',)
        return ('other', t.get('p') or t.get('s'))

    def adt_info(self, ty):
        return self.P.adts.get(ty[1])

    def fields_of(self, ty, variant=0):
        """[(name, type)] of a struct/tuple/enum variant, or None"""
        if ty[0] == 'tuple':
            return [(str(i), t) for i, t in enumerate(ty[1])]
        if ty[0] == 'adt':
            a = self.P.adts.get(ty[1])
            if a is None:
                return None
            if variant >= len(a['v']):
                return None
            sub = {}
            for g, x in zip(a['generics'], ty[2]):
                sub[g[1]] = x
            out = []
            for f in a['v'][variant]['f']:
                if f['t'] < 0:
                    return None
                out.append((f['n'], self.ty_s(f['t'], sub)))
            return out
        return None

    # ------------------------------------------------------------ values
    def of_term(self, t, ty=None):
        if ty is None:
            ty = TM.types[t]
        elif TM.types[t] is None:
            TM.types[t] = ty
        if ty is not None:
            if ty[0] == 'int':
                return ('i', L.var(t))
            if ty[0] == 'bool':
                return ('b', ('a', ('bt', t), True))
            if ty[0] == 'tuple' and len(ty[1]) == 0:
                return ('s', ty, 0, ())
            if ty[0] == 'fndef':
                return ('fn', ty)
        return ('t', t, ty)

    def to_lin(self, v):
        if v[0] == 'i':
            return v[1]
        if v[0] == 't':
            return L.var(v[1])
        if v[0] == 'b':
            if v[1] is True:
                return L.const(1)
            if v[1] is False:
                return L.const(0)
            return L.var(mk(('b2i', v[1]), ('int', 'u8')))
        if v[0] == 'dv':
            return L.var(v[3])
        return L.var(mk(('vint', v), None))

    def to_term(self, v):
        """a hashable key for a value used inside a pure term"""
        if v[0] == 't':
            return v[1]
        if v[0] == 'i':
            l = v[1]
            if l[0] == 0 and len(l[1]) == 1 and l[1][0][1] == 1:
                return l[1][0][0]
            return mk(('lin', l), USIZE)
        return mk(('val', self.freeze(v)), None)

    def freeze(self, v):
        if v[0] == 'e':
            return ('e', v[1], tuple(sorted((k, x[0]) for k, x in v[2].items())))
        return v

    def cond(self, v):
        if v[0] == 'b':
            return v[1]
        if v[0] == 'i':
            if not v[1][1]:
                return v[1][0] != 0
            return ('ne', v[1])
        if v[0] == 't':
            return ('a', ('bt', v[1]), True)
        return ('a', ('bt', self.to_term(v)), True)

    def inv_facts(self, st, t, ty, depth=0):
        """facts that hold because a value `t` of type `ty` exists (type invariants)"""
        if ty is None:
            return
        if ty[0] == 'adt':
            inv = self.invs.get(ty[1])
            if inv:
                a = self.P.adts[ty[1]]
                names = [f['n'] for f in a['v'][0]['f']]
                m = {}
                for g, x in zip(a['generics'], ty[2]):
                    if x[0] == 'const':
                        m[('cg', g[1])] = x[1]
                key = ('invdone', t)
                if key in st.tf:
                    return
                st.tf.add(key)
                for f in inv:
                    l = self.inst_inv(f, t, ty, m)
                    if l is not None:
                        st.facts.add(l)
            elif depth < 2:
                # a wrapper struct: its fields' existence invariants
                pass

    def inst_inv(self, f, t, ty, m):
        # f: (const, ((sym, coef)...)) with sym ('cg',name) | ('f',name)
        r = L.const(f[0])
        for s, c in f[1]:
            if s[0] == 'cg':
                if s in m:
                    r = L.add(r, m[s], c)
                else:
                    return None
            elif s[0] == 'f':
                v = self.fld_named(t, ty, s[1])
                if v is None:
                    return None
                r = L.add(r, v, c)
            elif s[0] == 'vl':
                v = self.fld_named(t, ty, s[1])
                if v is None:
                    return None
                r = L.add(r, L.var(mk(('len', v[1][0][0]), USIZE)), c)
            else:
                return None
        return r

    def fld_named(self, t, ty, name):
        fs = self.fields_of(ty)
        if fs is None:
            return None
        for i, (n, fty) in enumerate(fs):
            if n == name:
                return L.var(mk(('fld', 0, i, t, n), fty))
        return None

    def sub_value(self, st, v, p):
        """project value v by one projection element"""
        k = p[0]
        if v[0] == 's':
            if k == 'f':
                if v[2] != p[2] and p[2] is not None and v[2] is not None and self.is_enum(v[1]):
                    return self.unk(('dead', p), p[3])
                if p[1] < len(v[3]):
                    return v[3][p[1]]
                return self.unk(('dead', p), p[3])
            if k == 'd':
                return v
            if k == 'i':
                l = p[1]
                if not l[1] and 0 <= l[0] < len(v[3]):
                    return v[3][l[0]]
                # index unknown: join all
                if not v[3]:
                    return self.unk(('emptyarr',), self.elem_ty(v[1]))
                r = v[3][0]
                if all(x == r for x in v[3]):
                    return r
                if all(x[0] == 'i' for x in v[3]):
                    t = mk(('idxany', v[3], l), TM_int(v[1]))
                    if all(not x[1][1] for x in v[3]):
                        st.facts.add((-min(x[1][0] for x in v[3]), ((t, 1),)))
                        st.facts.add((max(x[1][0] for x in v[3]), ((t, -1),)))
                    return ('i', L.var(t))
                return self.unk(('idxany', self.to_term(v), l), self.elem_ty(v[1]))
            if k == 'ci':
                i = p[1] if not p[2] else len(v[3]) - p[1]
                if 0 <= i < len(v[3]):
                    return v[3][i]
        if v[0] == 'e':
            if k == 'd':
                x = v[2].get(p[1])
                if x is not None:
                    return ('s', v[1], p[1], x[0])
                return self.unk(('dead', p), v[1])
            if k == 'f':
                vi = p[2]
                if vi is not None and vi in v[2]:
                    return v[2][vi][0][p[1]]
                return self.unk(('dead', p, id(v)), p[3])
        if v[0] == 'cl' and k == 'f' and p[1] < len(v[3]):
            return v[3][p[1]]
        if v[0] == 'rep':
            if k in ('i', 'ci'):
                return v[3]
        if v[0] == 'arr':
            if k in ('i', 'ci'):
                return self.inst_elem(st, v, p)
        # term-like
        t = self.to_term(v)
        ty = v[2] if v[0] == 't' else (v[1] if v[0] in ('s', 'e', 'rep', 'arr') else None)
        if k == 'd':
            return v
        if k == 'f':
            if ty is not None and ty[0] == 'adt':
                self.inv_facts(st, t, ty)
            op = TM.ops[t]
            n = mk(('fld', p[2] or 0, p[1], t, p[4]), p[3])
            return self.of_term(n, p[3])
        if k == 'i':
            ety = self.elem_ty(ty)
            n = mk(('idx', t, p[1]), ety)
            self.elem_inv(st, t, n, p[1], ety)
            for e in st.tf:
                if e[0] == 'all' and e[1] == t:
                    st.facts.add(L.subst(e[2], {e[3]: L.var(n)}))
            return self.of_term(n, ety)
        if k == 'ci':
            ety = self.elem_ty(ty)
            if not p[2]:
                n = mk(('idx', t, L.const(p[1])), ety)
                self.elem_inv(st, t, n, L.const(p[1]), ety)
            else:
                n = mk(('idxe', t, p[1]), ety)
            return self.of_term(n, ety)
        if k == 'ss':
            n = mk(('subs', t, p[1], p[2]), None)
            return ('t', n, ('slice', self.elem_ty(ty)))
        return self.unk(('prj', t, p), None)

    def elem_inv(self, st, t, n, idx, ety):
        """elementwise invariants of an array stored in a field of an ADT"""
        op = TM.ops[t]
        path = []
        # walk down element struct fields handled by field reads: only direct arrays of ints here
        if op[0] != 'fld':
            return
        base = op[3]
        bty = TM.types[base]
        if bty is None or bty[0] != 'adt':
            return
        inv = self.invs.get(bty[1])
        if not inv:
            return
        a = self.P.adts[bty[1]]
        m = {}
        for g, x in zip(a['generics'], bty[2]):
            if x[0] == 'const':
                m[('cg', g[1])] = x[1]
        for f in inv:
            r = L.const(f[0])
            ok = False
            for s, c in f[1]:
                if s[0] == 'cg' and s in m:
                    r = L.add(r, m[s], c)
                elif s[0] == 'f':
                    v = self.fld_named(base, bty, s[1])
                    if v is None:
                        r = None
                        break
                    r = L.add(r, v, c)
                elif s[0] == 'e' and s[1] == op[4]:
                    ok = True
                    r = L.add(r, L.var(n), c)
                elif s[0] == 'iota' and s[1] == op[4]:
                    r = L.add(r, idx, c)
                else:
                    r = None
                    break
            if r is not None and ok:
                st.facts.add(r)

    def inst_elem(self, st, v, p):
        # v = ('arr', ty, elemval, facts)
        idx = p[1] if p[0] == 'i' else (L.const(p[1]) if not p[2] else L.var(mk(('ciend', p[1]), USIZE)))
        self.fresh_ctr = getattr(self, 'fresh_ctr', 0)
        key = ('inst', self.cur_site, idx, p[0])
        m = {}
        def ren(x):
            if x[0] == 'i':
                mm = {}
                for t, c in x[1][1]:
                    if TM.ops[t][0] == 'S':
                        n = mk(('inst', key, TM.ops[t]), TM.types[t])
                        mm[t] = L.var(n)
                        m[t] = L.var(n)
                return ('i', L.subst(x[1], mm))
            if x[0] == 's':
                return ('s', x[1], x[2], tuple(ren(y) for y in x[3]))
            if x[0] == 't' and TM.ops[x[1]][0] == 'S':
                n = mk(('inst', key, TM.ops[x[1]]), TM.types[x[1]])
                return ('t', n, x[2])
            return x
        r = ren(v[2])
        m[IOTA] = idx
        for x in list(m.values()):
            if x[1] and x[1][0][0] != IOTA and TM.ops[x[1][0][0]][0] == 'inst':
                self.kill_term(st, x[1][0][0])
        for f in v[3]:
            st.facts.add(L.subst(f, m))
        return r

    def kill_term(self, st, t):
        bad = [f for f in st.facts if any(x == t for x, _ in f[1])]
        for f in bad:
            st.facts.discard(f)

    def is_enum(self, ty):
        if ty[0] != 'adt':
            return False
        a = self.P.adts.get(ty[1])
        return a is not None and a['kind'] == 'enum'

    def elem_ty(self, ty):
        if ty is not None and ty[0] in ('array', 'slice'):
            return ty[1]
        if ty is not None and ty[0] == 'adt' and ty[1].endswith('::Vec') and ty[2]:
            return ty[2][0]
        return None

    def unk(self, key, ty):
        return self.of_term(mk(('unk',) + tuple(key), ty), ty)

    # ------------------------------------------------------------ memory
    def root_value(self, st, root):
        v = st.env.get(root)
        if v is None:
            if root[0] == 'D':
                ty = root[2] if len(root) > 2 else None
                t = mk(('deref', root[1]), ty)
                if ty is not None:
                    self.inv_facts(st, t, ty)
                v = self.of_term(t, ty)
            elif root in self.promo_vals:
                v = self.promo_vals[root]
            else:
                v = self.unk(('uninit', root), None)
        return v

    def read(self, st, loc):
        root, projs = loc
        if root[0] == 'RS':
            vals = [self.read(st, (r, pr + projs)) for r, pr in root[1]]
            if all(v == vals[0] for v in vals):
                return vals[0]
            return self.unk(('rs', root, projs), None)
        v = self.root_value(st, root)
        for p in projs:
            v = self.sub_value(st, v, p)
        return v

    def write(self, st, loc, val):
        root, projs = loc
        if root[0] == 'RS':
            for r, pr in root[1]:
                self.write(st, (r, pr + projs), self.unk(('rsw', self.cur_site, r, pr), None))
            return
        if not projs:
            st.env[root] = val
            return
        base = self.root_value(st, root)
        st.env[root] = self.update(st, base, projs, val)

    def update(self, st, base, projs, val):
        if not projs:
            return val
        p = projs[0]
        k = p[0]
        if k == 'd':
            if base[0] == 'e' and p[1] in base[2]:
                base = ('s', base[1], p[1], base[2][p[1]][0])
            return self.update(st, base, projs[1:], val)
        if k == 'f':
            vi = p[2] or 0
            if base[0] == 'cl' and p[1] < len(base[3]):
                vals = list(base[3])
                vals[p[1]] = self.update(st, vals[p[1]], projs[1:], val)
                return ('cl', base[1], base[2], tuple(vals))
            if base[0] == 'e' and vi in base[2]:
                base = ('s', base[1], vi, base[2][vi][0])
            if base[0] != 's':
                base = self.expand(st, base, vi, p)
            if base is None or base[0] != 's' or p[1] >= len(base[3]):
                return self.unk(('wr', self.cur_site, p), None)
            vals = list(base[3])
            vals[p[1]] = self.update(st, vals[p[1]], projs[1:], val)
            r = ('s', base[1], base[2], tuple(vals))
            if self.on_field is not None:
                self.on_field(self, st, r, p[1])
            return r
        if k in ('i', 'ci'):
            idx = None
            if k == 'i':
                idx = p[1]
            elif not p[2]:
                idx = L.const(p[1])
            if base[0] == 's' and idx is not None and not idx[1] and 0 <= idx[0] < len(base[3]):
                vals = list(base[3])
                vals[idx[0]] = self.update(st, vals[idx[0]], projs[1:], val)
                return ('s', base[1], base[2], tuple(vals))
            return self.weak_elem(st, base, idx, projs[1:], val, p)
        if k == 'ss':
            ty = base[2] if base[0] == 't' else base[1] if base[0] in ('s', 'rep', 'arr') else None
            return self.unk(('wr', self.cur_site, p), ty)
        return self.unk(('wr', self.cur_site, p), None)

    def arr_ty(self, base):
        if base[0] == 't':
            return base[2]
        if base[0] in ('s', 'rep', 'arr', 'e'):
            return base[1]
        return None

    def has_int(self, ty, depth=0):
        """does a value of this type carry integers an index could depend on"""
        if ty is None or depth > 6:
            return False
        k = ty[0]
        if k == 'int':
            return True
        if k in ('array', 'slice'):
            return self.has_int(ty[1], depth + 1)
        if k == 'tuple':
            return any(self.has_int(x, depth + 1) for x in ty[1])
        if k == 'ref':
            return self.has_int(ty[2], depth + 1)
        if k == 'adt':
            if ty[1].endswith('::Vec') or ty[1] in ('core::option::Option', 'core::result::Result', 'alloc::vec::Vec'):
                return True
            a = self.P.adts.get(ty[1])
            if a is None:
                return True
            if ty[1] in self.invs:
                return True
            for vi, v in enumerate(a['v']):
                fs = self.fields_of(ty, vi)
                if fs is None:
                    return True
                for _, t in fs:
                    if self.has_int(t, depth + 1):
                        return True
            return False
        if k in ('closure', 'fndef'):
            return True
        return False

    def summary_val(self, ty, path=()):
        if ty is None:
            return None
        if ty[0] == 'int':
            return ('i', L.var(mk(('S', path, ty), ty)))
        if ty[0] == 'tuple':
            xs = [self.summary_val(t, path + (i,)) for i, t in enumerate(ty[1])]
            return ('s', ty, 0, tuple(xs))
        if ty[0] == 'adt' and not self.is_enum(ty):
            fs = self.fields_of(ty)
            if fs is not None and len(fs) < 16 and len(path) < 4:
                return ('s', ty, 0, tuple(self.summary_val(t, path + (i,)) for i, (n, t) in enumerate(fs)))
        if ty[0] == 'bool':
            return ('b', ('a', ('bt', mk(('S', path, ty), ty)), True))
        return ('t', mk(('S', path, ty), ty), ty)

    def summary_ints(self, v, concrete, out):
        """pair the summary int terms in v with the linear values in `concrete`"""
        if v[0] == 'i':
            if concrete is not None and concrete[0] == 'i':
                out[v[1][1][0][0]] = concrete[1]
            elif concrete is not None and concrete[0] == 't':
                out[v[1][1][0][0]] = L.var(concrete[1])
            else:
                return False
        elif v[0] == 's':
            if concrete is not None and concrete[0] == 's' and len(concrete[3]) == len(v[3]):
                return all(self.summary_ints(x, y, out) for x, y in zip(v[3], concrete[3]))
            if concrete is not None and concrete[0] == 't':
                fs = self.fields_of(v[1])
                ok = True
                for i, x in enumerate(v[3]):
                    c = self.of_term(mk(('fld', 0, i, concrete[1], fs[i][0]), fs[i][1]), fs[i][1])
                    ok = self.summary_ints(x, c, out) and ok
                return ok
            ints = []
            self.collect_S(v, ints)
            return not ints
        return True

    def collect_S(self, v, out):
        if v[0] == 'i':
            out.append(v[1][1][0][0])
        elif v[0] == 's':
            for x in v[3]:
                self.collect_S(x, out)

    def make_arr(self, st, ty, elem, length=None):
        """summary array all of whose elements equal `elem` (may mention IOTA)"""
        ety = self.elem_ty(ty)
        if ety is None or not self.has_int(ety):
            return None
        sv = self.summary_val(ety)
        m = {}
        if sv is None or not self.summary_ints(sv, elem, m) or not m:
            return None
        if length is None:
            length = ty[2] if ty[0] == 'array' else None
        tmp = st.copy()
        tmp.facts.add(L.var(IOTA))
        if length is not None:
            tmp.facts.add(L.addc(L.sub(length, L.var(IOTA)), -1))
        facts = set()
        cands = self.arr_templates(st, list(m.keys()), length)
        for f in cands:
            if self.entails(tmp, L.subst(f, m)):
                facts.add(f)
        return ('arr', ty, sv, frozenset(facts))

    def arr_templates(self, st, svars, length):
        out = []
        bases = [L.ZERO, L.var(IOTA)]
        if length is not None:
            bases.append(length)
        for t in self.cg_terms(st):
            b = L.var(t)
            if b not in bases:
                bases.append(b)
        for s in svars:
            for b in bases:
                for c in (-1, 0, 1):
                    out.append(L.addc(L.sub(L.var(s), b), c))
                    out.append(L.addc(L.sub(b, L.var(s)), c))
        return out

    def cg_terms(self, st):
        """integer terms worth using as bounds: const generics, lengths, integer parameters"""
        out = set()
        for f in st.facts:
            for t, _ in f[1]:
                o = TM.ops[t][0]
                if o in ('cg', 'len', 'arg', 'cap'):
                    out.add(t)
                elif o == 'fld' or o == 'deref':
                    out.add(t)
        for t in self.base_terms:
            out.add(t)
        return sorted(out)

    def weak_elem(self, st, base, idx, rest, val, p):
        ty = self.arr_ty(base)
        ety = self.elem_ty(ty)
        if ety is not None and self.has_int(ety) and idx is not None:
            if base[0] == 'rep':
                base2 = self.make_arr(st, ty, base[3])
            elif base[0] == 'arr':
                base2 = base
            elif base[0] == 't':
                # unknown array: elements constrained by invariants only
                probe = mk(('idx', base[1], L.var(IOTA)), ety)
                tmp = st.copy()
                self.elem_inv(tmp, base[1], probe, L.var(IOTA), ety)
                base2 = self.make_arr(tmp, ty, self.of_term(probe, ety))
            elif base[0] == 's' and base[3]:
                base2 = self.make_arr(st, ty, base[3][0])
                for i, x in enumerate(base[3][1:]):
                    if base2 is not None:
                        base2 = self.weak_elem(st, base2, L.const(i + 1), (), x, p)
                        if base2[0] != 'arr':
                            base2 = None
            else:
                base2 = None
            if base2 is not None:
                if rest:
                    # partial element update: read generic, update, weak-merge
                    old = self.inst_elem(st, base2, ('i', idx))
                    val = self.update(st, old, rest, val)
                m = {}
                if self.summary_ints(base2[2], val, m):
                    m[IOTA] = idx
                    keep = frozenset(f for f in base2[3] if self.entails(st, L.subst(f, m)))
                    return ('arr', base2[1], base2[2], keep)
        n = mk(('wr', self.cur_site, self.to_term(base) if base[0] in ('t',) else 0), ty)
        return ('t', n, ty)

    def expand(self, st, v, variant, p=None):
        """turn a term of struct type into an explicit struct of its fields"""
        ty = v[2] if v[0] == 't' else None
        if ty is None:
            return None
        fs = self.fields_of(ty, variant)
        if fs is None:
            if ty[0] == 'closure':
                return None
            return None
        t = v[1]
        self.inv_facts(st, t, ty)
        return ('s', ty, variant, tuple(self.of_term(mk(('fld', variant, i, t, n), ft), ft) for i, (n, ft) in enumerate(fs)))

    # ------------------------------------------------------------ facts
    def intrinsic(self, t, out):
        ty = TM.types[t]
        op = TM.ops[t]
        if ty is not None and ty[0] == 'int':
            lo = intmin(ty[1])
            hi = INTMAX[ty[1]]
            if op[0] == 'cg':
                hi = CG_MAX
                lo = CG_MIN
            elif op[0] == 'cgx':
                hi = CG_MAX
            elif op[0] == 'bits':
                lo, hi = 0, op[1]
            elif op[0] == 'len':
                hi = LEN_MAX
            out.append((-lo, ((t, 1),)))
            out.append((hi, ((t, -1),)))
        elif op[0] == 'len':
            out.append((0, ((t, 1),)))
            out.append((LEN_MAX, ((t, -1),)))

    def relevant(self, st, terms, rounds):
        seen = set(terms)
        chosen = set()
        frontier = set(terms)
        index = None
        for _ in range(rounds):
            new = set()
            for f in st.facts:
                if f in chosen:
                    continue
                for t, _ in f[1]:
                    if t in frontier:
                        chosen.add(f)
                        for u, _ in f[1]:
                            if u not in seen:
                                new.add(u)
                        break
            seen |= new
            if not new:
                break
            frontier = new
        return chosen, seen

    def entails(self, st, l, plan=(1, 2, 4)):
        if not l[1]:
            return l[0] >= 0
        l = L.normalize(l)
        if l in st.facts:
            return True
        goal = L.addc(L.neg(l), -1)
        terms = [t for t, _ in l[1]]
        # cheap: intrinsic only
        base = []
        for t in terms:
            self.intrinsic(t, base)
        if infeasible(base + [goal]):
            return True
        prev = -1
        for rounds in plan:
            ch, seen = self.relevant(st, terms, rounds)
            if len(ch) == prev:
                continue
            prev = len(ch)
            key = (frozenset(ch), goal)
            r = self.ent_cache.get(key)
            if r is None:
                cons = list(ch)
                for t in seen:
                    self.intrinsic(t, cons)
                r = infeasible(cons + [goal])
                self.ent_cache[key] = r
            if r:
                return True
        return False

    def feasible(self, st):
        # quick check on whole state: contradictory constants only
        for f in st.facts:
            if not f[1] and f[0] < 0:
                return False
        return True

    def contradictory(self, st):
        cons = list(st.facts)
        seen = set(t for f in cons for t, _ in f[1])
        for t in seen:
            self.intrinsic(t, cons)
        key = (frozenset(cons), 'C')
        r = self.ent_cache.get(key)
        if r is None:
            r = infeasible(cons)
            self.ent_cache[key] = r
        return r

    def add_fact(self, st, l):
        """returns False if contradiction"""
        if not l[1]:
            return l[0] >= 0
        if self.entails(st, L.addc(L.neg(l), -1)):
            return False
        st.facts.add(L.normalize(l))
        return True

    def assume(self, st, c, own=False):
        if c is True:
            return st
        if c is False:
            return None
        if not own:
            st = st.copy()
        k = c[0]
        if k == 'ge':
            return st if self.add_fact(st, c[1]) else None
        if k == 'eq':
            if ('ne', c[1]) in st.tf or ('ne', L.neg(c[1])) in st.tf:
                return None
            if self.add_fact(st, c[1]) and self.add_fact(st, L.neg(c[1])):
                return st
            return None
        if k == 'ne':
            l = c[1]
            if not l[1]:
                return st if l[0] != 0 else None
            if self.entails(st, l):
                return st if self.add_fact(st, L.addc(l, -1)) else None
            if self.entails(st, L.neg(l)):
                return st if self.add_fact(st, L.addc(L.neg(l), -1)) else None
            st.tf.add(('ne', l))
            return st
        if k == 'and':
            s1 = self.assume(st, c[1], True)
            if s1 is None:
                return None
            return self.assume(s1, c[2], True)
        if k == 'or':
            a = self.assume(st, c[1])
            b = self.assume(st, c[2])
            if a is None:
                return b
            if b is None:
                return a
            facts = self.join_facts(a, b)
            st.facts = facts
            st.tf = a.tf & b.tf
            return st
        if k == 'a':
            return self.assume_atom(st, c[1], c[2])
        if k == 'ph':
            x = c[1]
            if x is None:
                return None
            for f in x[0]:
                if not self.add_fact(st, f):
                    return None
            for a in x[1]:
                if a[0] == 'A':
                    st2 = self.assume_atom(st, a[1], a[2])
                    if st2 is None:
                        return None
                else:
                    st.tf.add(a)
            st.tf.add(('phc', c[3], True))
            return st
        raise AssertionError(c)

    def assume_atom(self, st, atom, pol):
        r = self.decide_atom(st, atom)
        if r is not None:
            return st if r == pol else None
        st.tf.add(('A', atom, pol))
        if self.atom_hook:
            self.atom_hook(self, st, atom, pol)
        return st

    def decide_atom(self, st, atom):
        if ('A', atom, True) in st.tf:
            return True
        if ('A', atom, False) in st.tf:
            return False
        return None

    def holds(self, st, c):
        """is condition c entailed by st"""
        if c is True:
            return True
        if c is False:
            return False
        k = c[0]
        if k == 'ge':
            return self.entails(st, c[1])
        if k == 'eq':
            return self.entails(st, c[1]) and self.entails(st, L.neg(c[1]))
        if k == 'ne':
            l = c[1]
            return ('ne', l) in st.tf or ('ne', L.neg(l)) in st.tf or self.entails(st, L.addc(l, -1)) or self.entails(st, L.addc(L.neg(l), -1))
        if k == 'and':
            return self.holds(st, c[1]) and self.holds(st, c[2])
        if k == 'or':
            if self.holds(st, c[1]) or self.holds(st, c[2]):
                return True
            s = self.assume(st, cneg(c[1]))
            return s is None or self.holds(s, c[2])
        if k == 'a':
            return self.decide_atom(st, c[1]) == c[2]
        if k == 'ph':
            return c[2] is None
        return False

    def is_false(self, st, c):
        return self.holds(st, cneg(c))

    # ------------------------------------------------------------ joins
    def join_facts(self, a, b):
        common = a.facts & b.facts
        out = set(common)
        for f in a.facts - common:
            if self.entails(b, f):
                out.add(f)
        for f in b.facts - common:
            if self.entails(a, f):
                out.add(f)
        return out

    def values_equal(self, a, b):
        return a == b

    def join(self, A, B, key):
        """join two states at a merge point identified by key"""
        if A is None:
            return B
        if B is None:
            return A
        env = {}
        phis = []   # (phi term, linA, linB)
        tphis = []
        lostA = None
        stash = []
        for root in A.env:
            if root in B.env:
                va, vb = A.env[root], B.env[root]
            elif root[0] == 'D':
                va, vb = A.env[root], self.root_value(B, root)
            else:
                continue
            if va == vb:
                env[root] = va
            else:
                env[root] = self.join_val(A, B, va, vb, (key, root), phis, tphis, stash)
        for root in B.env:
            if root not in A.env and root[0] == 'D':
                va, vb = self.root_value(A, root), B.env[root]
                env[root] = va if va == vb else self.join_val(A, B, va, vb, (key, root), phis, tphis, stash)
        A2, B2 = A, B
        # a fact about a phi term must hold of each side's own value for it
        ma, mb = {}, {}
        for p, la, lb in phis:
            ma[p] = la
            mb[p] = lb
        pset = set(ma)
        if pset:
            fa = set(f for f in A.facts if not any(t in pset for t, _ in f[1]))
            fb = set(f for f in B.facts if not any(t in pset for t, _ in f[1]))
        else:
            fa, fb = A.facts, B.facts
        common = fa & fb
        facts = set(common)
        for side, S in ((fa, B), (fb, A)):
            rest = side - common
            if not rest:
                continue
            known = set(t for f in S.facts for t, _ in f[1])
            for f in rest:
                # a term the other side knows nothing about can only be bounded by its type
                if all(c > 0 or t in known for t, c in f[1]) and any(t in known for t, _ in f[1]) and self.entails(S, f, (1, 3)):
                    facts.add(f)
        tf = A.tf & B.tf
        if pset or tphis:
            dead = pset | set(p for p, _, _ in tphis)
            tf = set(x for x in tf if not any(_mentions(x, d) for d in dead))
        st = State(env, facts, tf)
        if phis:
            cand = list(self.phi_templates(A, B, phis))
            seenc = set(cand)
            for S, m in ((A, ma), (B, mb)):
                for f in S.facts:
                    ps = [t for t, _ in f[1] if t in pset]
                    if ps and f not in seenc and all(m[t] == L.var(t) for t in ps):
                        seenc.add(f)
                        cand.append(f)
                inv = {}
                for p in m:
                    l = m[p]
                    if len(l[1]) == 1 and l[1][0][1] == 1:
                        inv.setdefault(l[1][0][0], (p, l[0]))
                if inv:
                    mm = {t: L.addc(L.var(p), -c) for t, (p, c) in inv.items()}
                    for f in S.facts:
                        if len(f[1]) <= 4:
                            g = L.normalize(L.subst(f, mm))
                            if g != f and g not in seenc:
                                seenc.add(g)
                                cand.append(g)
            for f in cand:
                if f not in st.facts and self.entails(A, L.subst(f, ma), (2,)) and self.entails(B, L.subst(f, mb), (2,)):
                    st.facts.add(f)
        if tphis:
            for p, ta, tb in tphis:
                for pred in ('fin',):
                    if self.decide_atom(A, (pred, ta)) and self.decide_atom(B, (pred, tb)):
                        st.tf.add(('A', (pred, p), True))
        # per-variant stashing of lost facts
        if stash:
            lostA = [f for f in A.facts if f not in st.facts]
            lostB = [f for f in B.facts if f not in st.facts]
            tA = [f for f in A.tf if f not in st.tf and f[0] in ('A', 'ne', 'var')]
            tB = [f for f in B.tf if f not in st.tf and f[0] in ('A', 'ne', 'var')]
            for root, path in stash:
                st.env[root] = self.add_stash(st.env[root], path, lostA, tA, lostB, tB)
        return st

    def add_stash(self, v, path, fa, ta, fb, tb):
        if path:
            i = path[0]
            if v[0] == 's':
                vals = list(v[3])
                vals[i] = self.add_stash(vals[i], path[1:], fa, ta, fb, tb)
                return ('s', v[1], v[2], tuple(vals))
            return v
        if v[0] == 'e':
            d = {}
            for k, (vals, side, f, t) in v[2].items():
                if side == 'A':
                    d[k] = (vals, None, f | frozenset(fa), t | frozenset(ta))
                elif side == 'B':
                    d[k] = (vals, None, f | frozenset(fb), t | frozenset(tb))
                else:
                    d[k] = (vals, None, f, t)
            return ('e', v[1], FD(d))
        if v[0] == 'b' and isinstance(v[1], tuple) and v[1][0] == 'ph':
            _, x, y, key = v[1]
            def fix(x):
                if x is None:
                    return None
                if x[2] == 'A':
                    return (x[0] | frozenset(fa), x[1] | frozenset(ta), None)
                if x[2] == 'B':
                    return (x[0] | frozenset(fb), x[1] | frozenset(tb), None)
                return x
            return ('b', ('ph', fix(x), fix(y), key))
        return v

    def join_val(self, A, B, va, vb, key, phis, tphis, stash, path=()):
        root = key[1]
        if va == vb:
            return va
        # enums
        ea, eb = self.as_enum(A, va), self.as_enum(B, vb)
        if ea is not None and eb is not None and ea[0] == eb[0]:
            d = {}
            only = False
            for k in set(ea[1]) | set(eb[1]):
                xa, xb = ea[1].get(k), eb[1].get(k)
                if xa is None:
                    d[k] = (xb[0], 'B', xb[2], xb[3])
                    only = True
                elif xb is None:
                    d[k] = (xa[0], 'A', xa[2], xa[3])
                    only = True
                else:
                    vals = tuple(x if x == y else self.join_val(A, B, x, y, (key, 'v', k, i), phis, tphis, stash, None)
                                 for i, (x, y) in enumerate(zip(xa[0], xb[0])))
                    # facts conditional on this variant: those in both, or in one and entailed by the other state
                    f = self.cond_join(A, B, xa[2], xb[2])
                    t = frozenset(x for x in xa[3] | xb[3] if (x in xa[3] or x in A.tf) and (x in xb[3] or x in B.tf))
                    d[k] = (vals, None, f, t)
            if only and path is not None:
                stash.append((root_of(key), path))
            return ('e', ea[0], FD(d))
        if va[0] == 's' and vb[0] == 's' and va[1] == vb[1] and va[2] == vb[2] and len(va[3]) == len(vb[3]):
            return ('s', va[1], va[2], tuple(
                x if x == y else self.join_val(A, B, x, y, (key, 'f', i), phis, tphis, stash,
                                               None if path is None else path + (i,))
                for i, (x, y) in enumerate(zip(va[3], vb[3]))))
        if va[0] == 's' and vb[0] == 't' and vb[2] == va[1] and not self.is_enum(va[1]):
            vb2 = self.expand(B, vb, 0)
            if vb2 is not None and len(vb2[3]) == len(va[3]):
                return self.join_val(A, B, va, vb2, key, phis, tphis, stash, path)
        if vb[0] == 's' and va[0] == 't' and va[2] == vb[1] and not self.is_enum(vb[1]):
            va2 = self.expand(A, va, 0)
            if va2 is not None and len(vb[3]) == len(va2[3]):
                return self.join_val(A, B, va2, vb, key, phis, tphis, stash, path)
        if va[0] == 'b' and vb[0] == 'b':
            def side(c, S, tag):
                if c is True:
                    return ((frozenset(), frozenset(), tag), None)
                if c is False:
                    return (None, (frozenset(), frozenset(), tag))
                return (self.cfacts(c, tag), self.cfacts(cneg(c), tag))
            ta, fa = side(va[1], A, 'A')
            tb, fb = side(vb[1], B, 'B')
            def mrg(x, y):
                if x is None:
                    return y
                if y is None:
                    return x
                return (self.cond_join(A, B, x[0], y[0]),
                        frozenset(z for z in x[1] | y[1] if (z in x[1] or self.tf_in(A, z)) and (z in y[1] or self.tf_in(B, z))), None)
            if path is not None:
                stash.append((root_of(key), path))
            return ('b', ('ph', mrg(ta, tb), mrg(fa, fb), self.keyterm(('phb', key))))
        if va[0] == 'i' and vb[0] == 'i':
            ty = self.lin_ty(va[1]) or self.lin_ty(vb[1])
            p = mk(('phi', self.keyterm(key)), ty or USIZE)
            phis.append((p, va[1], vb[1]))
            return ('i', L.var(p))
        if va[0] in ('arr', 'rep') or vb[0] in ('arr', 'rep') or (va[0] == 's' and va[1] is not None and va[1][0] == 'array') or (vb[0] == 's' and vb[1] is not None and vb[1][0] == 'array'):
            r = self.join_arr(A, B, va, vb)
            if r is not None:
                return r
        if va[0] == 'it' and vb[0] == 'it':
            r = self.join_it(A, B, va, vb, key, phis, tphis, stash)
            if r is not None:
                return r
        if va[0] == 'r' and vb[0] == 'r':
            return ('r', ('RS', tuple(sorted({(va[1], va[2]), (vb[1], vb[2])}, key=str))), (), va[3] or vb[3])
        if va[0] == 'r' and va[1][0] == 'RS' and vb[0] == 'r':
            pass
        ty = self.arr_ty(va) or self.arr_ty(vb)
        if va[0] == 't' and vb[0] == 't':
            ty = va[2] or vb[2]
            p = mk(('phi', self.keyterm(key)), ty)
            tphis.append((p, va[1], vb[1]))
            return ('t', p, ty)
        p = mk(('phi', self.keyterm(key)), ty)
        if ty is not None:
            return self.of_term(p, ty)
        return ('t', p, ty)

    def tf_in(self, S, z):
        return z in S.tf

    def cfacts(self, c, tag):
        """facts implied by condition c as (lin facts, term facts, tag)"""
        fs, ts = set(), set()
        def go(c):
            if c is True or c is False:
                return
            if c[0] == 'ge':
                fs.add(c[1])
            elif c[0] == 'eq':
                fs.add(c[1])
                fs.add(L.neg(c[1]))
            elif c[0] == 'ne':
                ts.add(('ne', c[1]))
            elif c[0] == 'and':
                go(c[1])
                go(c[2])
            elif c[0] == 'a':
                ts.add(('A', c[1], c[2]))
            elif c[0] == 'ph' and c[1] is not None:
                fs.update(c[1][0])
                ts.update(c[1][1])
        go(c)
        return (frozenset(fs), frozenset(ts), tag)

    def cond_join(self, A, B, fa, fb):
        out = set()
        SA = SB = None
        for f in fa:
            if f in fb:
                out.add(f)
            else:
                if SB is None:
                    SB = State({}, B.facts | fb, B.tf)
                if self.entails(SB, f):
                    out.add(f)
        for f in fb:
            if f not in out:
                if SA is None:
                    SA = State({}, A.facts | fa, A.tf)
                if self.entails(SA, f):
                    out.add(f)
        return frozenset(out)

    def lin_ty(self, l):
        for t, _ in l[1]:
            if TM.types[t] is not None:
                return TM.types[t]
        return None

    def keyterm(self, key):
        return mk(('key', key), None)

    def as_enum(self, st, v):
        if v[0] == 'e':
            return (v[1], {k: (x[0], None, x[2], x[3]) for k, x in v[2].items()})
        if v[0] == 's' and v[1] is not None and self.is_enum(v[1]):
            return (v[1], {v[2]: (v[3], None, frozenset(), frozenset())})
        return None

    def join_arr(self, A, B, va, vb):
        def conv(S, v):
            ty = self.arr_ty(v)
            ety = self.elem_ty(ty)
            if ety is None or not self.has_int(ety):
                return None
            if v[0] == 'arr':
                return v
            if v[0] == 'rep':
                return self.make_arr(S, ty, v[3])
            if v[0] == 't':
                probe = mk(('idx', v[1], L.var(IOTA)), ety)
                tmp = S.copy()
                self.elem_inv(tmp, v[1], probe, L.var(IOTA), ety)
                return self.make_arr(tmp, ty, self.of_term(probe, ety))
            if v[0] == 's' and v[3]:
                b = self.make_arr(S, ty, v[3][0])
                for i, x in enumerate(v[3][1:]):
                    if b is None:
                        return None
                    b = self.weak_elem(S, b, L.const(i + 1), (), x, None)
                    if b[0] != 'arr':
                        return None
                return b
            return None
        a, b = conv(A, va), conv(B, vb)
        if a is None or b is None or a[2] != b[2]:
            return None
        ty = a[1]
        out = set()
        SA = State({}, A.facts | a[3], set())
        SB = State({}, B.facts | b[3], set())
        for f in a[3] | b[3]:
            if (f in a[3] or self.entails(SA, f)) and (f in b[3] or self.entails(SB, f)):
                out.add(f)
        return ('arr', ty, a[2], frozenset(out))

    def join_it(self, A, B, va, vb, key, phis, tphis, stash):
        # ('it', count, k, item)
        if va[3] != vb[3]:
            return None
        def jl(x, y, tag):
            if x == y:
                return x
            if x is None or y is None:
                return None
            p = mk(('phi', self.keyterm((key, tag))), USIZE)
            phis.append((p, x, y))
            return L.var(p)
        return ('it', jl(va[1], vb[1], 'c'), jl(va[2], vb[2], 'k'), va[3])

    def phi_templates(self, A, B, phis):
        out = []
        bases = [L.ZERO]
        for t in self.cg_terms(A):
            bases.append(L.var(t))
        extra = set()
        for p, la, lb in phis:
            ex = list(bases)
            for l in (la, lb):
                for t, _ in l[1]:
                    b = L.var(t)
                    if b not in ex and TM.ops[t][0] != 'S':
                        ex.append(b)
                # terms linked by a fact with this value
                ts = set(t for t, _ in l[1])
                for S in (A, B):
                    for f in S.facts:
                        if len(f[1]) <= 3 and any(t in ts for t, _ in f[1]):
                            for t, _ in f[1]:
                                b = L.var(t)
                                if b not in ex and len(ex) < 28:
                                    ex.append(b)
            for b in ex:
                if b == L.var(p):
                    continue
                for c in (-1, 0, 1):
                    out.append(L.addc(L.sub(L.var(p), b), c))
                    out.append(L.addc(L.sub(b, L.var(p)), c))
            for l in (la, lb):
                if not l[1]:
                    out.append((-l[0], ((p, 1),)))
                    out.append((l[0], ((p, -1),)))
        ks = sorted(self.cmp_consts)[:12]
        for p, la, lb in phis:
            for c in ks:
                for d in (0, -1):
                    out.append((c + d, ((p, -1),)))
        for i, (p, la, lb) in enumerate(phis):
            for q, ma, mb in phis[i + 1:]:
                for x, y in ((la, ma), (lb, mb)):
                    d = L.sub(x, y)
                    # p - q == d
                    if len(d[1]) <= 2:
                        out.append(L.add(L.sub(L.var(p), L.var(q)), d, -1))
                        out.append(L.add(L.sub(L.var(q), L.var(p)), d, 1))
                s = L.add(la, ma)
                if len(s[1]) <= 2:
                    out.append(L.add(L.add(L.var(p), L.var(q)), s, -1))
                    out.append(L.sub(s, L.add(L.var(p), L.var(q))))
                for c in (-1, 0, 1):
                    out.append((c, tuple(sorted(((p, 1), (q, -1))))))
                    out.append((c, tuple(sorted(((p, -1), (q, 1))))))
        # dedupe
        seen = set()
        res = []
        for f in out:
            f = L.normalize(f)
            if f not in seen and f[1]:
                seen.add(f)
                res.append(f)
        return res

    # ------------------------------------------------------------ execution
    def place(self, fr, st, p):
        """resolve a MIR place to a location"""
        root = ('L', fr.ctx, p[0])
        projs = ()
        cur_ty = None
        variant = None
        for e in p[1:]:
            if e == '*':
                v = self.read(st, (root, projs))
                if v[0] == 'r':
                    root, projs = v[1], v[2]
                else:
                    t = self.to_term(v)
                    ty = v[2] if v[0] == 't' else None
                    inner = ty[2] if ty is not None and ty[0] == 'ref' else (ty[2][0] if ty is not None and ty[0] == 'adt' and ty[1].endswith('::Box') and ty[2] else None)
                    root, projs = ('D', t, inner), ()
                variant = None
            elif e[0] == 'f':
                fty = self.ty(fr, e[2])
                projs = projs + (('f', e[1], variant, fty, e[3]),)
                variant = None
            elif e[0] == 'i':
                v = self.read(st, (('L', fr.ctx, e[1]), ()))
                projs = projs + (('i', self.to_lin(v)),)
            elif e[0] == 'ci':
                projs = projs + (('ci', e[1], e[3]),) if e[3] else projs + (('i', L.const(e[1])),)
            elif e[0] == 'ss':
                projs = projs + (('ss', e[1], e[2], e[3]),)
            elif e[0] == 'd':
                variant = e[1]
                projs = projs + (('d', e[1]),)
            else:
                projs = projs + (('?', str(e)),)
        return (root, projs)

    def operand(self, fr, st, o):
        k = o[0]
        if k in 'cm' and len(k) == 1:
            return self.retype(fr, self.read(st, self.place(fr, st, o[1])), o[1])
        if k == 'k':
            return self.constant(fr, st, o[1])
        return ('b', ('a', ('rc', str(o[1])), True)) if k != 'rc' else ('b', False)

    def constant(self, fr, st, k):
        ty = self.ty(fr, k['t'])
        if 'tc' in k:
            return ('i', self.carg(k['tc'], fr.subst)[1]) if ty[0] == 'int' else self.unk(('tc', str(k['tc']), tuple(sorted(fr.subst.items(), key=str))), ty)
        v = k.get('val')
        if v is not None:
            r = self.cvalue(v, ty)
            if r is not None:
                return r
        if ty[0] == 'fndef':
            return ('fn', ty)
        if ty[0] == 'tuple' and not ty[1]:
            return ('s', ty, 0, ())
        if 'promoted' in k:
            return self.promoted(fr, st, k, ty)
        if 'def' in k:
            args = self.targs(k.get('args', []), fr.subst)
            if ty[0] in ('int', 'adt', 'array', 'tuple', 'bool') and k.get('did') in self.P.fns and fr.depth < 12:
                r = self.const_body(fr, st, k, args)
                if r is not None:
                    return r
            return self.of_term(mk(('const', k['def'], args), ty), ty)
        if ty[0] == 'closure':
            return ('s', ty, 0, ())
        return self.of_term(mk(('constant', ty, str(v)), ty), ty)

    def const_body(self, fr, st, k, args):
        fn = self.P.fns[k['did']]
        if fn.body is None or len(fn.bbs) > 40:
            return None
        sub = {}
        for g, x in zip(fn.j.get('generics', []), args):
            sub[g[1]] = x
        key = self.ctxterm(('const', k['did'], args))
        f2 = Frame(fn, sub, key, fr.depth + 1, fr)
        saved = self.obls
        self.obls = []
        try:
            r = self.exec_body(f2, st.copy(), [])
        finally:
            self.obls = saved
        if r is None:
            return None
        s2, v = r
        if v[0] == 'i':
            st.facts |= s2.facts
        return v if v[0] in ('i', 's', 'b') and self.pure_val(v) else None

    def pure_val(self, v):
        if v[0] == 's':
            return all(self.pure_val(x) for x in v[3])
        return v[0] in ('i', 'b', 't', 'rep', 'fn')

    def promoted(self, fr, st, k, ty):
        did = k['did']
        fn = self.P.fns.get(did)
        if fn is None:
            return self.of_term(mk(('promo', k['def'], k['promoted']), ty), ty)
        body = fn.j['promoted'][k['promoted']]
        args = self.targs(k.get('args', []), fr.subst)
        ctx = self.ctxterm(('promo', did, k['promoted'], args, fr.ctx))
        f2 = Frame(fn, fr.subst if fn.id in (fr.fn.id,) else fr.subst, ctx, fr.depth + 1, fr, body=body)
        st2 = st
        # promoted bodies are straight line: execute in place, keep roots alive
        bb = 0
        while True:
            b = body['bb'][bb]
            for s in b['s']:
                self.statement(f2, st2, s)
            t = b['t']
            if t['k'] == 'return':
                break
            if t['k'] in ('goto', 'assert'):
                bb = t['t']
                continue
            if t['k'] == 'call':
                r = self.call(f2, st2, t, (ctx, bb))
                if r is None:
                    return self.of_term(mk(('promo', k['def'], k['promoted']), ty), ty)
                st2b, v = r
                st2.env, st2.facts, st2.tf = st2b.env, st2b.facts, st2b.tf
                self.write(st2, self.place(f2, st2, t['dst']), v)
                bb = t['t']
                continue
            return self.of_term(mk(('promo', k['def'], k['promoted']), ty), ty)
        for root, v in st2.env.items():
            if root[0] == 'L' and root[1] == ctx:
                self.promo_vals[root] = v
        return self.read(st2, (('L', ctx, 0), ()))

    def cvalue(self, v, ty):
        if 'bits' in v:
            b = int(v['bits'])
            if ty[0] == 'int':
                if ty[1][0] == 'i':
                    n = v['size'] * 8
                    if b >= 1 << (n - 1):
                        b -= 1 << n
                return ('i', L.const(b))
            if ty[0] == 'bool':
                return ('b', b == 1)
            if ty[0] == 'float':
                return ('t', mk(('flt', ty[1], b), ty), ty)
            if ty[0] == 'char':
                return ('t', mk(('chr', b), ty), ty)
            if ty[0] == 'adt' and self.is_enum(ty):
                a = self.P.adts[ty[1]]
                if 'variant' in v:
                    return ('s', ty, v['variant'], tuple(self.cfields(v, ty, v['variant'])))
                if all(not x['f'] for x in a['v']):
                    for i, x in enumerate(a['v']):
                        if x.get('disc') == b:
                            return ('s', ty, i, ())
            if ty[0] == 'adt' and 'fields' in v:
                return ('s', ty, 0, tuple(self.cfields(v, ty, 0)))
            return None
        if v.get('zst'):
            if ty[0] == 'fndef':
                return ('fn', ty)
            if ty[0] in ('tuple',) or (ty[0] == 'adt' and not self.is_enum(ty)):
                fs = self.fields_of(ty)
                if fs is not None and len(fs) == 0:
                    return ('s', ty, 0, ())
            if ty[0] == 'closure':
                return ('s', ty, 0, ())
        if 'fields' in v:
            if ty[0] == 'adt':
                vi = v.get('variant', 0)
                fs = self.fields_of(ty, vi)
                if fs is not None and len(fs) == len(v['fields']):
                    return ('s', ty, vi, tuple(self.cfields(v, ty, vi)))
            if ty[0] == 'tuple':
                return ('s', ty, 0, tuple(self.cfields(v, ty, 0)))
            if ty[0] == 'array' and len(v['fields']) <= 64:
                out = []
                for x in v['fields']:
                    y = self.cvalue(x, ty[1])
                    if y is None:
                        return None
                    out.append(y)
                return ('s', ty, 0, tuple(out))
        return None

    def cfields(self, v, ty, vi):
        fs = self.fields_of(ty, vi)
        out = []
        for x, (n, t) in zip(v.get('fields', []), fs):
            y = self.cvalue(x, t)
            out.append(y if y is not None else self.unk(('cf', str(x)[:200]), t))
        return out

    def ctxterm(self, key):
        return mk(('ctx', key), None)

    def op_ty(self, fr, o):
        if o[0] in 'cm' and len(o[0]) == 1:
            return None
        if o[0] == 'k':
            return self.ty(fr, o[1]['t'])
        return None

    def place_ty(self, fr, p):
        t = fr.body['locals'][p[0]][0]
        T = self.ty(fr, t)
        variant = 0
        for e in p[1:]:
            if T is None:
                return None
            if e == '*':
                T = T[2] if T[0] == 'ref' else None
            elif e[0] == 'f':
                T = self.ty(fr, e[2])
            elif e[0] in ('i', 'ci'):
                T = self.elem_ty(T)
            elif e[0] == 'ss':
                T = ('slice', self.elem_ty(T))
        return T

    def opty(self, fr, o):
        if o[0] == 'k':
            return self.ty(fr, o[1]['t'])
        if o[0] in ('c', 'm'):
            return self.place_ty(fr, o[1])
        return BOOL

    def len_of(self, st, v):
        """length of the array/slice a reference value points to"""
        if v[0] == 'r':
            tgt = None
            root, projs = v[1], v[2]
            if projs and projs[-1][0] == 'ss':
                base = (root, projs[:-1])
                l = self.len_of_loc(st, base)
                p = projs[-1]
                # stored as absolute: from, to (Lin or int), from_end
                if p[3] is True:
                    return L.addc(l, -(p[1] + p[2]))
                if isinstance(p[1], int):
                    return L.const(p[2] - p[1])
                return L.sub(p[2], p[1])
            return self.len_of_loc(st, (root, projs))
        if v[0] == 't':
            ty = v[2]
            if ty is not None and ty[0] == 'ref' and ty[2][0] == 'array':
                return ty[2][2]
            return L.var(mk(('len', v[1]), USIZE))
        return L.var(mk(('len', self.to_term(v)), USIZE))

    def len_of_loc(self, st, loc):
        x = self.read(st, loc)
        ty = self.arr_ty(x)
        if ty is not None and ty[0] == 'array':
            if not ty[2][1] and 0 < ty[2][0] < 5000:
                self.cmp_consts.add(ty[2][0])
            return ty[2]
        if loc[0][0] == 'RS' and not loc[1]:
            ls = set(self.len_of(st, ('r', r, p, False)) for r, p in loc[0][1])
            if len(ls) == 1:
                return ls.pop()
        if x[0] == 'vec':
            return x[2]
        root, projs = loc
        if root[0] == 'D' and not projs and ty is not None and ty[0] == 'slice':
            return L.var(mk(('len', root[1]), USIZE))
        return L.var(mk(('len', self.to_term(x)), USIZE))

    def binop(self, fr, st, op, a, b, ta):
        isint = ta is not None and ta[0] == 'int' or (ta is None and a[0] == 'i')
        if ta is not None and ta[0] == 'char':
            isint = False
        if op.endswith('WithOverflow'):
            base = op[:-len('WithOverflow')]
            if base == 'Mul' and not self.mul_fits(st, self.to_lin(a), self.to_lin(b), ta):
                r = self.arith(st, base, self.to_lin(a), self.to_lin(b), ta)
                return ('s', ('tuple', (ta, BOOL)), 0, (('i', r), ('b', ('a', ('muloverflow', r), True))))
            r = self.arith(st, base, self.to_lin(a), self.to_lin(b), ta)
            lo, hi = intmin(ta[1]), INTMAX[ta[1]]
            ok = cand(cge(L.addc(r, -lo)), cge(L.addc(L.neg(r), hi)))
            return ('s', ('tuple', (ta, BOOL)), 0, (('i', r), ('b', cneg(ok))))
        if isint and op in ('Add', 'Sub', 'Mul', 'Div', 'Rem', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
            return ('i', self.arith(st, op.replace('Unchecked', ''), self.to_lin(a), self.to_lin(b), ta))
        if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne'):
            if isint:
                x, y = self.to_lin(a), self.to_lin(b)
                for z in (x, y):
                    if not z[1] and 0 < z[0] < 5000:
                        self.cmp_consts.add(z[0])
                if op == 'Lt':
                    return ('b', cge(L.addc(L.sub(y, x), -1)))
                if op == 'Le':
                    return ('b', cge(L.sub(y, x)))
                if op == 'Gt':
                    return ('b', cge(L.addc(L.sub(x, y), -1)))
                if op == 'Ge':
                    return ('b', cge(L.sub(x, y)))
                if op == 'Eq':
                    return ('b', ceq(L.sub(x, y)))
                return ('b', cne(L.sub(x, y)))
            if a[0] == 'b' and b[0] == 'b':
                x, y = a[1], b[1]
                eq = cor(cand(x, y), cand(cneg(x), cneg(y)))
                return ('b', eq if op == 'Eq' else cneg(eq) if op == 'Ne' else ('a', ('bop', op, self.to_term(a), self.to_term(b)), True))
            return ('b', self.float_cmp(op, self.to_term(a), self.to_term(b)))
        if op in ('BitAnd', 'BitOr', 'BitXor') and a[0] == 'b' and b[0] == 'b':
            if op == 'BitAnd':
                return ('b', cand(a[1], b[1]))
            if op == 'BitOr':
                return ('b', cor(a[1], b[1]))
            return ('b', cor(cand(a[1], cneg(b[1])), cand(cneg(a[1]), b[1])))
        if isint and op in ('BitAnd', 'Shr', 'Shl', 'BitOr', 'BitXor', 'ShrUnchecked', 'ShlUnchecked'):
            return ('i', self.bitop(st, op.replace('Unchecked', ''), self.to_lin(a), self.to_lin(b), ta))
        return self.of_term(mk(('op', op, self.to_term(a), self.to_term(b)), ta), ta)

    def bitop(self, st, op, x, y, ta):
        if not x[1] and not y[1] and x[0] >= 0 and y[0] >= 0:
            n = {'BitAnd': lambda a, b: a & b, 'BitOr': lambda a, b: a | b, 'BitXor': lambda a, b: a ^ b,
                 'Shr': lambda a, b: a >> b, 'Shl': lambda a, b: (a << b) & INTMAX[ta[1]] if b < 200 else 0}[op](x[0], y[0])
            return L.const(n)
        t = mk(('bit', op, x, y), ta)
        st_f = st.facts
        if op == 'BitAnd' and intmin(ta[1]) == 0:
            st_f.add(L.sub(x, L.var(t)))
            st_f.add(L.sub(y, L.var(t)))
        if op == 'Shr' and intmin(ta[1]) == 0:
            st_f.add(L.sub(x, L.var(t)))
            if not y[1] and 0 <= y[0] < 64:
                k = 1 << y[0]
                st_f.add(L.sub(x, L.var(t, k)))
                st_f.add(L.addc(L.sub(L.var(t, k), x), k - 1))
        if op == 'Shl' and not y[1] and 0 <= y[0] < 63 and self.entails(st, L.sub(L.const(INTMAX[ta[1]] >> y[0]), x)):
            return L.scale(x, 1 << y[0])
        return L.var(t)

    def float_cmp(self, op, ta, tb):
        if op == 'Lt':
            return ('a', ('flt', ta, tb), True)
        if op == 'Gt':
            return ('a', ('flt', tb, ta), True)
        if op == 'Le':
            return ('a', ('fle', ta, tb), True)
        if op == 'Ge':
            return ('a', ('fle', tb, ta), True)
        x, y = (ta, tb) if ta <= tb else (tb, ta)
        return ('a', ('feq', x, y), op == 'Eq')

    def arith(self, st, op, x, y, ty):
        if op == 'Add':
            return L.add(x, y)
        if op == 'Sub':
            return L.sub(x, y)
        if op == 'Mul':
            if not x[1]:
                return L.scale(y, x[0])
            if not y[1]:
                return L.scale(x, y[0])
            # nonlinear monomial
            a, b = (x, y) if x <= y else (y, x)
            t = mk(('mul', a, b), ty)
            st.facts.add(L.var(t)) if self.entails(st, x) and self.entails(st, y) else None
            # (x<=X-1 , y < Y) style lemmas are added by mul_lemmas
            self.mul_lemmas(st, t, x, y)
            return L.var(t)
        if op == 'Div':
            if not y[1] and y[0] > 0:
                if not x[1]:
                    q = abs(x[0]) // y[0]
                    return L.const(q if x[0] >= 0 else -q)
                t = mk(('div', x, y), ty)
                if self.entails(st, x):
                    st.facts.add(L.sub(x, L.var(t, y[0])))
                    st.facts.add(L.addc(L.sub(L.var(t, y[0]), x), y[0] - 1))
                    st.facts.add(L.var(t))
                return L.var(t)
            t = mk(('div', x, y), ty)
            if self.entails(st, x) and self.entails(st, L.addc(y, -1)):
                st.facts.add(L.sub(x, L.var(t)))
                st.facts.add(L.var(t))
            return L.var(t)
        if op == 'Rem':
            if not y[1] and y[0] > 0 and not x[1] and x[0] >= 0:
                return L.const(x[0] % y[0])
            t = mk(('rem', x, y), ty)
            if self.entails(st, x) and self.entails(st, L.addc(y, -1)):
                st.facts.add(L.var(t))
                st.facts.add(L.addc(L.sub(y, L.var(t)), -1))
                st.facts.add(L.sub(x, L.var(t)))
            elif self.entails(st, x):
                st.facts.add(L.var(t))
            return L.var(t)
        raise AssertionError(op)

    def mul_fits(self, st, x, y, ta):
        """can a product of two non-constant integers exceed the type?"""
        if not x[1] or not y[1]:
            return True
        def free(t):
            if TM.ops[t][0] != 'arg':
                return False
            return not any((t, -1) in f[1] and any(c > 0 and TM.ops[u][0] != 'arg' for u, c in f[1]) for f in st.facts)
        if ta[1] in ('usize', 'u64', 'i64', 'isize') and not any(free(t) for l in (x, y) for t, _ in l[1]):
            # assumption: machine-word products of lengths, dimensions and counters fit
            self.assumed_mul += 1
            return True
        bs = []
        for l in (x, y):
            for e in (8, 16, 20, 24, 32, 40, 47, 64):
                if self.entails(st, L.addc(L.neg(l), 2 ** e)) and self.entails(st, L.addc(l, 2 ** e)):
                    bs.append(2 ** e)
                    break
            else:
                return False
        return bs[0] * bs[1] <= INTMAX[ta[1]]

    def mul_lemmas(self, st, t, x, y):
        """t = x*y. For every bound x <= X of x by a single other expression with the product X*y
        already present, add t <= X*y; also t >= x when y>=1."""
        if self.entails(st, L.addc(y, -1)) and self.entails(st, x):
            st.facts.add(L.sub(L.var(t), x))
        if self.entails(st, L.addc(x, -1)) and self.entails(st, y):
            st.facts.add(L.sub(L.var(t), y))

    def statement(self, fr, st, s):
        if s[0] == '=':
            v = self.rvalue(fr, st, s[2])
            self.write(st, self.place(fr, st, s[1]), v)
        elif s[0] == 'setd':
            loc = self.place(fr, st, s[1])
            v = self.read(st, loc)
            ty = self.place_ty(fr, s[1])
            self.write(st, loc, ('s', ty, s[2], v[3] if v[0] == 's' else ()))

    def rvalue(self, fr, st, r):
        k = r[0]
        if k == 'use':
            return self.operand(fr, st, r[1])
        if k == 'ref' or k == 'rawptr':
            root, projs = self.place(fr, st, r[2])
            return ('r', root, projs, r[1] == 'mut' or k == 'rawptr')
        if k == 'bin':
            a = self.operand(fr, st, r[2])
            b = self.operand(fr, st, r[3])
            return self.binop(fr, st, r[1], a, b, self.opty(fr, r[2]))
        if k == 'un':
            a = self.operand(fr, st, r[2])
            if r[1] == 'Not':
                if a[0] == 'b':
                    return ('b', cneg(a[1]))
                return self.of_term(mk(('op', 'Not', self.to_term(a)), self.opty(fr, r[2])), self.opty(fr, r[2]))
            if r[1] == 'Neg':
                if a[0] == 'i':
                    return ('i', L.neg(a[1]))
                ty = self.opty(fr, r[2])
                return self.of_term(mk(('op', 'neg', self.to_term(a)), ty), ty)
            if r[1] == 'PtrMetadata':
                return ('i', self.len_of(st, a))
            return self.unk(('un', r[1], self.to_term(a)), None)
        if k == 'cast':
            a = self.operand(fr, st, r[2])
            ty = self.ty(fr, r[3])
            kind = r[1]
            if kind == 'IntToInt':
                x = self.to_lin(a)
                if ty[0] == 'int':
                    lo, hi = intmin(ty[1]), INTMAX[ty[1]]
                    if self.entails(st, L.addc(x, -lo)) and self.entails(st, L.addc(L.neg(x), hi)):
                        return ('i', x)
                t = mk(('cast', ty, x), ty)
                return self.of_term(t, ty)
            if kind.startswith('PointerCoercion') or kind in ('PtrToPtr', 'Transmute'):
                if a[0] in ('r', 'fn', 's'):
                    return a
                if a[0] == 't' and ty[0] == 'ref' and a[2] is not None and a[2][0] == 'ref' and a[2][2][0] == 'array' and ty[2][0] == 'slice':
                    # unsize: keep array-ness by referring to the same deref root
                    return ('r', ('D', a[1], a[2][2]), (), a[2][1])
                return a
            if kind == 'FloatToInt':
                t = mk(('f2i', self.to_term(a), ty), ty)
                return self.of_term(t, ty)
            t = mk(('cast', kind, self.to_term(a), ty), ty)
            return self.of_term(t, ty)
        if k == 'agg':
            vals = tuple(self.operand(fr, st, o) for o in r[2])
            kd = r[1]
            if kd[0] == 'adt':
                ty = ('adt', kd[1], self.targs(kd[4], fr.subst))
                v = ('s', ty, kd[2], vals)
                if self.on_construct:
                    self.on_construct(self, fr, st, v)
                return v
            if kd[0] == 'tuple':
                return ('s', ('tuple', tuple(self.vty(x, fr, o) for x, o in zip(vals, r[2]))), 0, vals)
            if kd[0] == 'array':
                ety = self.ty(fr, kd[1])
                return ('s', ('array', ety, L.const(len(vals))), 0, vals)
            if kd[0] == 'closure':
                return ('cl', kd[2], tuple(sorted(fr.subst.items(), key=lambda x: x[0])), vals)
            return self.unk(('agg', self.cur_site), None)
        if k == 'repeat':
            a = self.operand(fr, st, r[1])
            n = self.carg(r[2], fr.subst)[1]
            ety = self.opty(fr, r[1])
            return ('rep', ('array', ety, n), n, a)
        if k == 'discr':
            loc = self.place(fr, st, r[1])
            v = self.read(st, loc)
            if v[0] == 's' and v[1] is not None and self.is_enum(v[1]):
                a = self.P.adts[v[1][1]]
                return ('i', L.const(a['v'][v[2]].get('disc', v[2])))
            ty = self.place_ty(fr, r[1])
            t = mk(('discr', v[1]) if v[0] == 't' else ('discre', loc, self.cur_site), ('int', 'isize'))
            if v[0] != 't':
                self.kill_term(st, t)
            return ('dv', loc, ty, t)
        return self.unk(('rv', self.cur_site), None)

    def vty(self, v, fr, o):
        t = self.opty(fr, o)
        return t

    # ---- control
    def exec_body(self, fr, st, args):
        """run a body with argument values; returns (state, return value) or None if it diverges"""
        body = fr.body
        for i, a in enumerate(args):
            st.env[('L', fr.ctx, i + 1)] = a
        cfg = fr.fn.cfg if body is fr.fn.body else None
        if cfg is None:
            class _F:
                pass
            f = _F()
            f.bbs = body['bb']
            from mirlib import Cfg
            cfg = Cfg(f)
        exits = {}
        self.run_region(fr, cfg, list(cfg.rpo), {0: st}, None, exits)
        out = None
        for key, s in sorted(exits.items()):
            out = s if out is None else self.join(out, s, (fr.ctx, 'ret'))
        if out is None:
            return None
        rv = self.read(out, (('L', fr.ctx, 0), ()))
        for root in [r for r in out.env if r[0] == 'L' and r[1] == fr.ctx]:
            del out.env[root]
        return out, rv

    def run_region(self, fr, cfg, blocks, incoming, head, exits):
        """process blocks (RPO order).  incoming: block -> state.  Edges to blocks outside `blocks`
        are returned as {target: state}; edges back to `head` are returned under key 'back'."""
        bset = set(blocks)
        out = {}
        inc = dict(incoming)
        done_loops = set()
        skip = set()
        for b in blocks:
            if b in skip:
                continue
            if b not in inc:
                continue
            if b in cfg.loops and b != head:
                lbody = [x for x in blocks if x in cfg.loops[b]]
                res = self.run_loop(fr, cfg, b, lbody, inc[b], exits)
                for x in lbody:
                    skip.add(x)
                edges = res
            else:
                edges = self.exec_block(fr, cfg, b, inc[b], exits)
            for tgt, s in edges:
                if tgt == head and head is not None:
                    self.merge_into(out, 'back', s, (fr.ctx, 'back', tgt))
                elif tgt in bset:
                    self.merge_into(inc, tgt, s, (fr.ctx, 'j', tgt))
                else:
                    self.merge_into(out, tgt, s, (fr.ctx, 'j', tgt))
        return out

    def merge_into(self, d, k, s, key):
        if k in d:
            d[k] = self.join(d[k], s, key)
        else:
            d[k] = s

    def run_loop(self, fr, cfg, h, body, entry, exits):
        cur = entry
        mark = len(self.obls)
        base_exits = dict(exits)
        for it in range(40):
            del self.obls[mark:]
            exits.clear()
            exits.update(base_exits)
            start = cur.copy()
            self.loop_hook(fr, cfg, h, cur)
            out = self.run_region(fr, cfg, body, {h: start}, h, exits)
            back = out.pop('back', None)
            if back is None:
                break
            nxt = self.widen(cur, back, (fr.ctx, 'loop', h), it)
            if nxt is None:
                self.all_facts(entry, cur, back, out)
                break
            cur = nxt
        else:
            self.obl(fr, 'analysis', fr.fn.span, L.const(-1), cur, 'loop did not stabilise')
        return [(k, s) for k, s in out.items()]

    def loop_hook(self, fr, cfg, h, st):
        pass

    def all_facts(self, entry, cur, back, out):
        """elementwise facts: an iteration that comes back to the loop head established `f(X[k])`, so
        once the traversal of X is exhausted `f` holds for every element"""
        for root, v in cur.env.items():
            v0, v1 = entry.env.get(root), back.env.get(root)
            if v[0] != 'it' or v0 is None or v1 is None or v0[0] != 'it' or v1[0] != 'it':
                continue
            k, c = v[2], v[1]
            if k is None or c is None or v0[2] != L.ZERO or v1[2] != L.addc(k, 1) or len(k[1]) != 1 or k[0] != 0:
                continue
            found = []
            for f in back.facts:
                it = [t for t, _ in f[1] if TM.ops[t][0] == 'idx' and TM.ops[t][2] == k]
                if len(it) == 1 and all(t == it[0] or self.stable(t) for t, _ in f[1]):
                    found.append(('all', TM.ops[it[0]][1], f, it[0]))
            if not found:
                continue
            for s in out.values():
                if self.entails(s, L.sub(k, c)):
                    s.tf.update(found)

    def stable(self, t):
        op = TM.ops[t]
        if op[0] in ('cg', 'arg'):
            return True
        if op[0] in ('deref', 'len'):
            return self.stable(op[1])
        if op[0] == 'fld':
            return self.stable(op[3])
        return False

    def widen(self, cur, back, key, it):
        """returns None if back is covered by cur, else a weaker state"""
        j = self.join(cur, back, key)
        # covered?
        if j.env == cur.env and j.facts >= cur.facts and j.tf >= cur.tf:
            return None
        if it > 0:
            # only keep facts that survived (Houdini); new facts may appear only at first join
            new_roots = [r for r in j.env if cur.env.get(r) != j.env[r]]
            if not new_roots:
                j.facts &= cur.facts | set(f for f in j.facts if f in cur.facts)
                if j.facts == cur.facts and j.tf == cur.tf and j.env == cur.env:
                    return None
        if it > 12:
            # force convergence: drop unstable facts
            j.facts = set(f for f in j.facts if f in cur.facts)
        return j

    def exec_block(self, fr, cfg, b, st, exits):
        self.steps += 1
        if self.steps > self.step_limit:
            raise Budget()
        st = st.copy()
        bb = fr.body['bb'][b]
        for i, s in enumerate(bb['s']):
            self.cur_site = (fr.ctx, b, i)
            self.statement(fr, st, s)
        t = bb['t']
        self.cur_site = (fr.ctx, b, 't')
        k = t['k']
        if k == 'goto' or k == 'drop':
            return [(t['t'], st)]
        if k == 'return':
            self.return_hook(fr, st, b)
            self.merge_into(exits, 0, st, (fr.ctx, 'ret'))
            return []
        if k == 'switch':
            return self.switch(fr, st, t)
        if k == 'assert':
            c = self.cond(self.operand(fr, st, t['c']))
            if not t['e']:
                c = cneg(c)
            self.use_sites.add((fr.fn.id, b))
            if self.check_panics:
                self.nchecked += 1
                if not self.holds(st, c):
                    self.report_cond(fr, st, t['m'], t['sp'], c, b)
            s2 = self.assume(st, c, True)
            return [] if s2 is None else [(t['t'], s2)]
        if k == 'call':
            site = (fr.ctx, b)
            self.use_sites.add((fr.fn.id, b))
            r = self.call(fr, st, t, site)
            if r is None or t['t'] is None:
                return []
            st2, v = r
            self.cur_site = (fr.ctx, b, 'w')
            v = self.retype(fr, v, t['dst'])
            self.write(st2, self.place(fr, st2, t['dst']), v)
            return [(t['t'], st2)]
        return []

    def retype(self, fr, v, place):
        """give a value read through an unresolved reference the declared type of its place"""
        if v[0] == 't' and v[2] is None:
            ty = self.place_ty(fr, place)
            if ty is not None and ty[0] in ('int', 'bool', 'array', 'adt', 'tuple'):
                return self.of_term(v[1], ty)
        elif v[0] == 'i' and v[1][0] == 0 and len(v[1][1]) == 1 and v[1][1][0][1] == 1 and TM.types[v[1][1][0][0]] is None:
            ty = self.place_ty(fr, place)
            if ty is not None and ty[0] == 'int':
                TM.types[v[1][1][0][0]] = ty
        return v

    def return_hook(self, fr, st, b):
        pass

    def report_cond(self, fr, st, kind, span, c, b):
        # split conjunctions into linear pieces
        if isinstance(c, tuple) and c[0] == 'and':
            for x in (c[1], c[2]):
                if not self.holds(st, x):
                    self.report_cond(fr, st, kind, span, x, b)
            return
        if isinstance(c, tuple) and c[0] == 'ge':
            self.obl(fr, kind, span, c[1], st, showlin(c[1]) + ' >= 0')
        elif isinstance(c, tuple) and c[0] == 'ne' :
            # x != 0 with x >= 0 known -> x >= 1
            l = c[1]
            if self.entails(st, l):
                self.obl(fr, kind, span, L.addc(l, -1), st, showlin(l) + ' != 0')
            elif self.entails(st, L.neg(l)):
                self.obl(fr, kind, span, L.addc(L.neg(l), -1), st, showlin(l) + ' != 0')
            else:
                self.obl(fr, kind, span, L.const(-1), st, showlin(l) + ' != 0')
        else:
            self.obl(fr, kind, span, L.const(-1), st, str(c)[:80])

    def obl(self, fr, kind, span, lin_, st, detail):
        if not self.check_panics:
            return
        if kind in ('overflow Add', 'overflow Sub') and lin_[0] > 2 ** 61 and not (lin_[1] and all(TM.ops[t][0] == 'arg' for t, _ in lin_[1])):
            # assumption: a machine-word sum of counters, offsets and lengths does not reach 2^63
            self.assumed_add += 1
            return
        if kind == 'overflow Add' and lin_[0] > 2 ** 30 and len(lin_[1]) == 1 and lin_[1][0][1] == -1 and TM.ops[lin_[1][0][0]][0] == 'phi':
            # assumption: a 32-bit loop counter does not run for 2^31 rounds
            self.assumed_add += 1
            return
        if self.contradictory(st):
            return
        chain = []
        f = fr
        while f is not None:
            chain.append(f.fn.d)
            f = f.parent
        self.obls.append(Obl(fr.fn, kind, span, lin_, frozenset(st.facts), frozenset(st.tf), detail, tuple(chain)))

    def switch(self, fr, st, t):
        v = self.operand(fr, st, t['d'])
        out = []
        targets = t['v']
        oth = t['o']
        dead = lambda b: fr.body['bb'][b]['t']['k'] == 'unreachable'
        if v[0] == 'b' or (v[0] == 't' and v[2] == BOOL):
            c = self.cond(v)
            for val, b in targets:
                cc = c if val != '0' else cneg(c)
                if self.is_false(st, cc):
                    continue
                s = self.assume(st, cc)
                if s is not None:
                    out.append((b, s))
            cc = c if all(x == '0' for x, _ in targets) else cneg(c)
            if not self.is_false(st, cc):
                s = self.assume(st, cc)
                if s is not None:
                    out.append((oth, s))
            return out
        if v[0] == 'dv':
            return self.switch_variant(fr, st, v, targets, oth, dead)
        x = self.to_lin(v)
        rest = st
        for val, b in targets:
            n = int(val)
            tyv = self.opty(fr, t['d'])
            if tyv is not None and tyv[0] == 'int' and tyv[1][0] == 'i':
                bits = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}[tyv[1]]
                if n >= 1 << (bits - 1):
                    n -= 1 << bits
            s = self.assume(rest, ceq(L.addc(x, -n))) if rest is not None else None
            if s is not None and not dead(b):
                out.append((b, s))
            rest = self.assume(rest, cne(L.addc(x, -n))) if rest is not None else None
        if rest is not None and not dead(oth):
            out.append((oth, rest))
        return out

    def switch_variant(self, fr, st, v, targets, oth, dead):
        _, loc, ty, dt = v
        cur = self.read(st, loc)
        out = []
        if ty is None or ty[0] != 'adt' or ty[1] not in self.P.adts:
            for _, b in targets:
                if not dead(b):
                    out.append((b, st.copy()))
            if not dead(oth):
                out.append((oth, st.copy()))
            return out
        a = self.P.adts[ty[1]]
        disc = {}
        for i, x in enumerate(a['v']):
            disc[str(x.get('disc', i))] = i
        # avoid duplicates: group variants by target
        listed = set()
        plan = []
        for val, b in targets:
            vi = disc.get(val)
            if vi is None:
                continue
            listed.add(vi)
            plan.append((vi, b))
        for vi in range(len(a['v'])):
            if vi not in listed:
                plan.append((vi, oth))
        groups = {}
        for vi, b in plan:
            if dead(b):
                continue
            s = self.refine_variant(st, loc, cur, ty, vi)
            if s is not None:
                groups.setdefault(b, []).append((vi, s))
        for b, l in groups.items():
            s = l[0][1]
            for vi, s2 in l[1:]:
                s = self.join(s, s2, (fr.ctx, 'sw', b))
            out.append((b, s))
        return out

    def refine_variant(self, st, loc, cur, ty, vi):
        if cur[0] == 's':
            if cur[2] != vi:
                return None
            return st.copy()
        if cur[0] == 'e':
            x = cur[2].get(vi)
            if x is None:
                return None
            s = st.copy()
            for f in x[2]:
                if not self.add_fact(s, f):
                    return None
            for a in x[3]:
                if a[0] == 'A':
                    if self.assume_atom(s, a[1], a[2]) is None:
                        return None
                elif a[0] == 'ne':
                    if self.assume(s, ('ne', a[1]), True) is None:
                        return None
                elif a[0] == 'var':
                    if any(z[0] == 'var' and z[1] == a[1] and z[2] != a[2] for z in s.tf):
                        return None
                    s.tf.add(a)
                else:
                    s.tf.add(a)
            self.write(s, loc, ('s', cur[1], vi, x[0]))
            return s
        t = self.to_term(cur)
        for a in st.tf:
            if a[0] == 'var' and a[1] == t and a[2] != vi:
                return None
            if a[0] == 'nvar' and a[1] == t and a[2] == vi:
                return None
        s = st.copy()
        dt = TM.ids.get(('discr', t))
        if dt is not None and cur[0] == 't' and ty[1] in self.P.adts:
            s = self.assume(s, ceq(L.addc(L.var(dt), -self.P.adts[ty[1]]['v'][vi].get('disc', vi))))
            if s is None:
                return None
        s.tf.add(('var', t, vi))
        fs = self.fields_of(ty, vi)
        if fs is not None:
            vals = []
            for i, (n, ft) in enumerate(fs):
                tt = mk(('fld', vi, i, t, n), ft)
                vals.append(self.of_term(tt, ft))
            if loc[0][0] != 'RS':
                self.write(s, loc, ('s', ty, vi, tuple(vals)))
        return s

    # ------------------------------------------------------------ calls
    def callee_subst(self, fn, args):
        sub = {}
        for g, x in zip(fn.j.get('generics', []), args):
            sub[g[1]] = x
        return sub

    def call(self, fr, st, t, site):
        f = t['f']
        args = [self.operand(fr, st, a) for a in t['a']]
        dty = self.place_ty(fr, t['dst'])
        if f is None:
            fv = self.operand(fr, st, t['fo'])
            return self.call_value(fr, st, fv, args, site, dty, t)
        path = f.get('r', f['d'])
        rid = f.get('rid')
        # calls through Fn* traits with a known callee value
        if f.get('trait') in ('core::ops::FnOnce', 'core::ops::FnMut', 'core::ops::Fn'):
            return self.call_fn_trait(fr, st, f, args, site, dty, t)
        if f.get('rk') in ('Virtual', 'FnPtrShim', 'ClosureOnceShim', 'ReifyShim'):
            return self.call_unknown(fr, st, path, args, site, dty, t)
        gargs = self.targs(f.get('ra', f.get('a', [])), fr.subst)
        return self.call_path(fr, st, f, path, rid, gargs, args, site, dty, t)

    def call_path(self, fr, st, f, path, rid, gargs, args, site, dty, t):
        m = self.models.get(path)
        if m is not None:
            self.gargs = gargs
            r = m(self, fr, st, args, site, dty, t)
            if r is not NotImplemented:
                return r
        if rid is not None and rid in self.P.fns and f.get('rk') == 'Item':
            return self.call_local(fr, st, self.P.fns[rid], gargs, args, site, dty, t)
        if f.get('trait') and 'rid' not in f:
            # trait method on a still-generic type: try to resolve with the frame's substitution
            tgt = self.resolve_trait(f, gargs)
            if tgt is not None:
                fn2, g2 = tgt
                return self.call_local(fr, st, fn2, g2, args, site, dty, t)
            return self.call_trait(fr, st, f, path, gargs, args, site, dty, t)
        if self.is_total(path):
            return self.call_total(fr, st, path, args, site, dty)
        m = self.iter_model(path)
        if m is not None:
            r = m(self, fr, st, args, site, dty, t)
            if r is not NotImplemented:
                return r
        for i, a in enumerate(args):
            if a[0] in ('cl', 'fn', 'it') or a[0] == 'r' and self.read(st, (a[1], a[2]))[0] in ('cl', 'it'):
                self.callback(self, fr, st, a, (site, 'arg', i), t)
        if self.ext_total(path):
            return self.call_total(fr, st, path, args, site, dty)
        if self.check_panics and not self.contradictory(st):
            self.obl(fr, 'external ' + path, t['sp'], L.const(-1), st, 'call to external function without a model: ' + path)
        return self.call_unknown(fr, st, path, args, site, dty, t)

    def resolve_trait(self, f, gargs):
        """Self type known through substitution: find the impl"""
        tr, m = f['trait'], f['m']
        if not gargs:
            return None
        self_ty = gargs[0]
        if self_ty[0] == 'param' or self_ty[0] == 'const' or self_ty[0] == 'alias':
            return None
        for did in self.P.trait_impls.get((tr, m), []):
            im = self.P.impl_of_item[did]
            sub = {}
            pat = self.P.T[im['self']]
            if self.match_ty(pat, self_ty, sub):
                fn = self.P.fns.get(did)
                if fn is None:
                    return None
                g2 = []
                own = fn.j.get('generics', [])
                ni = len(im['generics'])
                for i, g in enumerate(own):
                    if i < ni:
                        g2.append(sub.get(g[1], ('param', g[1])))
                extra = list(gargs[len(gargs) - (len(own) - ni):]) if len(own) > ni else []
                return fn, tuple(g2 + extra)
        did = self.P.trait_default.get((tr, m))
        if did and did in self.P.fns and any(self.match_ty(self.P.T[im['self']], self_ty, {}) for im in self.P.impls if im.get('trait') == tr):
            return self.P.fns[did], gargs
        return None

    def match_ty(self, pat, ty, sub):
        k = pat['k']
        if k == 'param':
            if pat['name'] in sub:
                return sub[pat['name']] == ty
            sub[pat['name']] = ty
            return True
        if k in ('int', 'uint'):
            return ty == ('int', pat['n'])
        if k == 'float':
            return ty == ('float', pat['n'])
        if k == 'bool':
            return ty == BOOL
        if k == 'adt':
            if ty[0] != 'adt' or ty[1] != pat['d'] or len(ty[2]) != len(pat['a']):
                return False
            for p, x in zip(pat['a'], ty[2]):
                if isinstance(p, int):
                    if not self.match_ty(self.P.T[p], x, sub):
                        return False
                elif p['c'] == 'param':
                    sub[p['name']] = x
                elif p['c'] == 'val':
                    if x != ('const', L.const(p.get('v', -1))):
                        return False
            return True
        if k == 'array':
            if ty[0] != 'array' or not self.match_ty(self.P.T[pat['e']], ty[1], sub):
                return False
            if pat['l']['c'] == 'param':
                sub[pat['l']['name']] = ('const', ty[2])
            return True
        if k == 'ref':
            return ty[0] == 'ref' and self.match_ty(self.P.T[pat['e']], ty[2], sub)
        if k == 'slice':
            return ty[0] == 'slice' and self.match_ty(self.P.T[pat['e']], ty[1], sub)
        if k == 'closure':
            return False
        return False

    def pure_term(self, path, args, st=None):
        ks = []
        for a in args:
            if a[0] == 'r':
                if a[3]:
                    return None
                v = self.read(st, (a[1], a[2])) if st is not None else None
                if v is None:
                    return None
                ks.append(('&', self.to_term(v)))
            elif a[0] == 't':
                ks.append(a[1])
            elif a[0] in ('cl', 'it'):
                return None
            else:
                ks.append(self.to_term(a))
        return ('call', path) + tuple(ks)

    def fresh(self, st, site, tag, ty):
        t = mk(('site', site, tag), ty)
        self.kill_term(st, t)
        st.tf = set(x for x in st.tf if not _mentions(x, t))
        if ty is not None:
            self.inv_facts(st, t, ty)
        return self.of_term(t, ty)

    def havoc_refs(self, st, args, site):
        for i, a in enumerate(args):
            self.havoc_val(st, a, (site, i))

    def havoc_val(self, st, a, key, depth=0):
        if a[0] == 'r' and a[3]:
            loc = (a[1], a[2])
            old = self.read(st, loc)
            ty = self.arr_ty(old)
            if old[0] == 'i':
                ty = self.lin_ty(old[1]) or USIZE
            elif old[0] == 'b':
                ty = BOOL
            self.cur_site = (key, 'hv')
            self.write(st, loc, self.fresh(st, key, 'hv', ty))
        elif a[0] in ('s',) and depth < 4:
            for j, x in enumerate(a[3]):
                self.havoc_val(st, x, (key, j), depth + 1)
        elif a[0] == 'cl' and depth < 4:
            for j, x in enumerate(a[3]):
                self.havoc_val(st, x, (key, j), depth + 1)
        elif a[0] == 't' and a[2] is not None and a[2][0] == 'ref' and a[2][1]:
            root = ('D', a[1], a[2][2])
            st.env[root] = self.fresh(st, key, 'hv', a[2][2])
        elif a[0] == 'it':
            self.havoc_item(st, a[3], key)

    def havoc_item(self, st, item, key):
        if item[0] == 'slice' and item[3]:
            self.havoc_val(st, ('r', item[1], item[2], True), key)
        elif item[0] == 'map' and item[2][0] in ('cl',):
            self.havoc_val(st, item[2], key)
            self.havoc_item(st, item[1], key)
        elif item[0] in ('enum', 'skip', 'rev', 'filter'):
            self.havoc_item(st, item[1], key)
        elif item[0] in ('zip', 'chain'):
            self.havoc_item(st, item[1], (key, 0))
            self.havoc_item(st, item[2], (key, 1))

    def call_total(self, fr, st, path, args, site, dty):
        pt = self.pure_term(path, args, st)
        if pt is not None and dty is not None and dty[0] != 'ref':
            t = mk(pt, dty)
            self.inv_facts(st, t, dty)
            return st, self.of_term(t, dty)
        self.havoc_refs(st, args, site)
        return st, self.fresh(st, site, 'r', dty)

    def call_unknown(self, fr, st, path, args, site, dty, t):
        self.havoc_refs(st, args, site)
        return st, self.fresh(st, site, 'r', dty)

    def call_value(self, fr, st, fv, args, site, dty, t):
        """call a function value with already-spread args"""
        if fv[0] == 'r':
            fv2 = self.read(st, (fv[1], fv[2]))
            if fv2[0] in ('cl', 'fn'):
                return self.call_closure(fr, st, fv2, fv, args, site, dty, t)
        if fv[0] in ('cl', 'fn'):
            return self.call_closure(fr, st, fv, None, args, site, dty, t)
        self.havoc_refs(st, args, site)
        return st, self.fresh(st, site, 'r', dty)

    def call_fn_trait(self, fr, st, f, args, site, dty, t):
        callee = args[0]
        tup = args[1]
        if tup[0] == 's':
            spread = list(tup[3])
        else:
            spread = [tup]
        return self.call_value(fr, st, callee, spread, site, dty, t)

    def call_closure(self, fr, st, cv, ref, args, site, dty, t):
        if cv[0] == 'fn':
            ty = cv[1]
            fid = ty[2]
            fn = self.P.fns.get(fid)
            if fn is not None and fn.body:
                return self.call_local(fr, st, fn, ty[3], args, site, dty, t)
            # constructor functions: Some, Ok, tuple structs
            nm = ty[1].rsplit('::', 1)[-1]
            r = self.ctor(ty, args, dty)
            if r is not None:
                return st, r
            m = self.models.get(ty[1])
            if m is not None:
                r = m(self, fr, st, args, site, dty, t)
                if r is not NotImplemented:
                    return r
            if not self.is_total(ty[1]) and not self.ext_total(ty[1]) and self.check_panics:
                self.obl(fr, 'external ' + ty[1], t['sp'], L.const(-1), st, 'function value without a model: ' + ty[1])
            return self.call_unknown(fr, st, ty[1], args, site, dty, t)
        _, fid, subst, caps = cv
        fn = self.P.fns[fid]
        if len(fr.stack) > 24 or fn.id in fr.stack and fr.stack.count(fn.id) > 1:
            self.havoc_refs(st, list(args) + [cv], site)
            return st, self.fresh(st, site, 'r', dty)
        ctx = self.ctxterm((site, fid, 'cl'))
        f2 = Frame(fn, dict(subst), ctx, fr.depth + 1, fr)
        # self argument: by value, & or &mut
        sty = self.P.T[fn.lty(1)]
        st = st.copy()
        if sty['k'] in ('ref', 'ptr'):
            if ref is not None:
                selfv = ref
            else:
                root = ('C', ctx)
                st.env[root] = cv
                selfv = ('r', root, (), True)
        else:
            selfv = cv
        r = self.exec_body(f2, st, [selfv] + list(args))
        if r is None:
            return None
        return r

    def ctor(self, ty, args, dty):
        d = ty[1]
        for adt, vi in self.ctor_index().get(d, ()):
            n = len(self.P.adts[adt]['v'][vi]['f'])
            if n == len(args):
                rty = dty
                if rty is None or rty[0] != 'adt' or rty[1] != adt:
                    gs = ty[3]
                    rty = ('adt', adt, gs)
                return ('s', rty, vi, tuple(args))
        return None

    def ctor_index(self):
        if not hasattr(self, '_ctors'):
            self._ctors = {}
            for a in self.P.adts.values():
                for i, v in enumerate(a['v']):
                    if a['kind'] == 'enum':
                        self._ctors.setdefault(a['d'] + '::' + v['n'], []).append((a['d'], i))
                    else:
                        self._ctors.setdefault(a['d'], []).append((a['d'], 0))
        return self._ctors

    def wants_inline(self, fr, fn, args, dty):
        if fn.id in fr.stack:
            return False
        if any(a[0] in ('cl', 'fn') for a in args) or any(a[0] == 'it' for a in args):
            return True
        if fr.depth >= self.max_depth:
            return False
        if self.inline_pred is not None:
            r = self.inline_pred(self, fr, fn, args, dty)
            if r is not None:
                return r
        n = sum(len(b['s']) + 1 for b in fn.bbs if not b.get('cl'))
        if self.inline_all and n <= self.size_limit:
            return True
        if n <= 12:
            return True
        if dty is not None and self.has_int_shallow(dty) and n <= self.size_limit:
            return True
        if dty == BOOL and n <= 60:
            return True
        if dty is not None and dty[0] == 'adt' and dty[1] == 'core::result::Result' and dty[2][0] == ('tuple', ()) and n <= 60:
            return True
        for a in args:
            if a[0] == 'r' and a[3]:
                x = self.read_safe(a)
                ty = self.arr_ty(x) if x is not None else None
                if x is not None and (x[0] in ('i', 'b', 'it') or (ty is not None and self.has_int(ty))) and n <= self.size_limit:
                    return True
        return False

    def read_safe(self, a):
        try:
            return self.read(self._cur_state, (a[1], a[2]))
        except Exception:
            return None

    def has_int_shallow(self, ty, d=0):
        if ty[0] == 'int':
            return True
        if ty[0] == 'tuple':
            return any(self.has_int_shallow(x, d + 1) for x in ty[1])
        if ty[0] == 'array' and d < 2:
            return self.has_int_shallow(ty[1], d + 1)
        if ty[0] == 'adt' and d < 2:
            if ty[1] in ('core::option::Option', 'core::result::Result'):
                return any(self.has_int_shallow(x, d + 1) for x in ty[2] if x[0] != 'const')
            if self.P.adts.get(ty[1], {}).get('local'):
                fs = self.fields_of(ty)
                return fs is not None and not self.is_enum(ty) and any(t[0] == 'int' for _, t in fs)
        if ty[0] == 'ref':
            return ty[2][0] in ('slice', 'int', 'str')
        return False

    def call_local(self, fr, st, fn, gargs, args, site, dty, t):
        if fn.body is None:
            return self.call_unknown(fr, st, fn.d, args, site, dty, t)
        self._cur_state = st
        if self.wants_inline(fr, fn, args, dty):
            return self.inline(fr, st, fn, gargs, args, site)
        # summary: preconditions
        if self.check_panics and fn.id not in fr.stack:
            pre = self.summary(fn)
            if pre:
                bad = self.check_pre(fr, st, fn, pre, gargs, args, t)
                if bad:
                    if fr.depth < self.max_depth + 3 and len(fr.stack) < 20:
                        return self.inline(fr, st, fn, gargs, args, site)
                    for p in bad:
                        self.obls.append(p)
        pt = self.pure_term(fn.d, args, st) if dty is not None and dty[0] != 'ref' else None
        if pt is not None:
            tt = mk(pt + (gargs,), dty)
            self.inv_facts(st, tt, dty)
            return st, self.of_term(tt, dty)
        self.havoc_refs(st, args, site)
        return st, self.fresh(st, site, 'r', dty)

    def inline(self, fr, st, fn, gargs, args, site):
        ctx = self.ctxterm((site, fn.id))
        f2 = Frame(fn, self.callee_subst(fn, gargs), ctx, fr.depth + 1, fr)
        return self.exec_body(f2, st.copy(), args)

    def call_trait(self, fr, st, f, path, gargs, args, site, dty, t):
        tr = f['trait']
        import models
        r = models.trait_call(self, fr, st, f, gargs, args, site, dty, t)
        if r is not NotImplemented:
            return r
        pt = self.pure_term(path, args, st) if dty is not None and dty[0] != 'ref' else None
        if pt is not None and models.pure_trait(tr):
            tt = mk(pt, dty)
            return st, self.of_term(tt, dty)
        self.havoc_refs(st, args, site)
        return st, self.fresh(st, site, 'r', dty)

    # ------------------------------------------------------------ roots and summaries
    def entry_state(self, fn):
        st = State()
        ctx = self.ctxterm(('root', fn.id))
        fr = Frame(fn, {}, ctx, 0)
        args = []
        for i in range(1, fn.argc + 1):
            ty = self.ty(fr, fn.lty(i))
            t = mk(('arg', i, fn.lname(i) or '', fn.id), ty)
            self.inv_facts(st, t, ty)
            args.append(self.of_term(t, ty))
            if ty[0] == 'ref':
                tt = mk(('deref', t), ty[2])
                self.inv_facts(st, tt, ty[2])
        return fr, st, args

    def base_of(self, fn):
        out = []
        for g in fn.j.get('generics', []):
            if g[0] == 'c':
                out.append(mk(('cg', g[1]), USIZE))
        return out

    def analyze(self, fn):
        """analyse fn as a root; returns the list of unproved obligations"""
        saved = (self.obls, getattr(self, 'base_terms', []), getattr(self, 'cur_site', None), self.steps)
        saved_k, self.cmp_consts = self.cmp_consts, set()
        self.obls = []
        self.base_terms = self.base_of(fn)
        self.steps = 0
        fr, st, args = self.entry_state(fn)
        try:
            r = self.exec_body(fr, st, args)
        except Budget:
            self.obls.append(Obl(fn, 'budget', fn.span, L.const(-1), frozenset(), frozenset(), 'analysis budget exceeded', (fn.d,)))
        res = self.obls
        self.last_obls = res
        self.obls, self.base_terms, self.cur_site, self.steps = saved
        self.cmp_consts = saved_k
        return dedupe(res)

    def summary(self, fn):
        s = self.summaries.get(fn.id)
        if s is not None:
            return s
        if fn.id in self.in_progress:
            return []
        self.in_progress.add(fn.id)
        try:
            s = self.analyze(fn)
            if fn.j.get('reach'):
                # what a caller can do nothing about is reported once, at the public function itself
                s = [o for o in s if o.lin[1] and self.is_entry_lin(o.lin, fn.id)]
        finally:
            self.in_progress.discard(fn.id)
        self.summaries[fn.id] = s
        return s

    def is_entry_lin(self, l, fid):
        return all(self.is_entry_term(t, fid) for t, _ in l[1])

    def is_entry_term(self, t, fid, d=0):
        op = TM.ops[t]
        if op[0] == 'cg':
            return True
        if op[0] == 'arg':
            return op[3] == fid
        if op[0] == 'deref':
            return self.is_entry_term(op[1], fid)
        if op[0] == 'fld':
            return self.is_entry_term(op[3], fid)
        if op[0] == 'len':
            return self.is_entry_term(op[1], fid)
        if op[0] == 'idx':
            return self.is_entry_term(op[1], fid) and self.is_entry_lin(op[2], fid)
        return False

    def subst_entry(self, st, t, fid, args, sub):
        """value of callee entry term t at the call site"""
        op = TM.ops[t]
        if op[0] == 'cg':
            v = sub.get(op[1])
            return ('i', v[1]) if v is not None and v[0] == 'const' else ('i', L.var(t))
        if op[0] == 'arg':
            return args[op[1] - 1]
        if op[0] == 'deref':
            v = self.subst_entry(st, op[1], fid, args, sub)
            if v[0] == 'r':
                return self.read(st, (v[1], v[2]))
            tt = self.to_term(v)
            ty = v[2][2] if v[0] == 't' and v[2] is not None and v[2][0] == 'ref' else None
            return self.root_value(st, ('D', tt, ty))
        if op[0] == 'fld':
            v = self.subst_entry(st, op[3], fid, args, sub)
            return self.sub_value(st, v, ('f', op[2], op[1], TM.types[t], op[4]))
        if op[0] == 'len':
            v = self.subst_entry(st, op[1], fid, args, sub)
            return ('i', self.len_of(st, v))
        if op[0] == 'idx':
            v = self.subst_entry(st, op[1], fid, args, sub)
            return self.sub_value(st, v, ('i', self.subst_lin(st, op[2], fid, args, sub)))
        raise KeyError(op)

    def subst_lin(self, st, l, fid, args, sub):
        r = L.const(l[0])
        for t, c in l[1]:
            r = L.add(r, self.to_lin(self.subst_entry(st, t, fid, args, sub)), c)
        return r

    def check_pre(self, fr, st, fn, pre, gargs, args, t):
        sub = self.callee_subst(fn, gargs)
        bad = []
        self.cur_site = (fr.ctx, 'pre', fn.id, t['sp'])
        for o in pre:
            ok = False
            if self.is_entry_lin(o.lin, fn.id) and o.lin[1]:
                try:
                    l = self.subst_lin(st, o.lin, fn.id, args, sub)
                    ok = self.entails(st, l)
                except KeyError:
                    ok = False
            if not ok:
                # guards: the callee only fails when these entry facts hold
                tmp = st.copy()
                dead = False
                for g in o.guards:
                    if self.is_entry_lin(g, fn.id):
                        try:
                            if not self.add_fact(tmp, self.subst_lin(tmp, g, fn.id, args, sub)):
                                dead = True
                                break
                        except KeyError:
                            pass
                if not dead:
                    if o.lin[1] and self.is_entry_lin(o.lin, fn.id):
                        try:
                            ok = self.entails(tmp, self.subst_lin(tmp, o.lin, fn.id, args, sub))
                        except KeyError:
                            ok = False
                    dead = not ok and self.contradictory(tmp)
                ok = ok or dead
            if not ok:
                bad.append(Obl(o.fn, o.kind, o.span, L.const(-1), frozenset(st.facts), frozenset(), o.detail, (fn.d,) + o.chain))
        return bad


def root_of(key):
    k = key
    while not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], tuple) and k[1] and k[1][0] in ('L', 'D', 'C', 'RS', 'V')):
        k = k[0]
    return k[1]


def _mentions(x, t):
    if isinstance(x, int) and not isinstance(x, bool):
        return x == t
    if isinstance(x, tuple):
        return any(_mentions(y, t) for y in x)
    return False


def TM_int(ty):
    if ty is not None and ty[0] == 'array' and ty[1][0] == 'int':
        return ty[1]
    return USIZE


class FD(dict):
    """frozen dict for enum variants"""
    __slots__ = ('_h',)

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash(tuple(sorted(self.items(), key=lambda x: x[0])))
            return self._h

    def __lt__(self, o):
        return sorted(self.items()) < sorted(o.items())


IOTA = mk(('iota',), USIZE)


def dedupe(obls):
    seen = {}
    out = []
    for o in obls:
        k = (o.fn.id, o.kind, o.span, o.lin, o.detail)
        if k in seen:
            # keep only guards common to both
            p = seen[k]
            p.guards = p.guards & o.guards
            continue
        seen[k] = o
        out.append(o)
    return out
