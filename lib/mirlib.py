"""Loads the JSON program dumped by /verif/driver and offers the basic views every analysis uses:
bodies by id, control-flow graph, dominators, call graph with trait resolution, pretty printing."""
import json, sys, functools, re

OPTRAITS = {
    'core::ops::Add', 'core::ops::Sub', 'core::ops::Mul', 'core::ops::Div', 'core::ops::Neg',
    'core::ops::AddAssign', 'core::ops::SubAssign', 'core::ops::MulAssign', 'core::ops::DivAssign',
}


CORE_MODS = ('iter|ops|slice|option|result|cmp|clone|convert|default|fmt|array|num|mem|marker|str|f64|f32|hash|ascii|'
             'char|panicking|any|cell|error|intrinsics|ptr|primitive|usize|u64|u32|u8|i32|i64|sync::atomic|hint|time::Duration')
_RE_CORE = re.compile(r'\bstd::(%s)\b' % CORE_MODS)
_RE_ALLOC = re.compile(r'\b(?:multicalc::|multicalc_robot_model::)?(?:std|alloc)::(vec|string|boxed|borrow|rc|collections|format|fmt::format|alloc|slice|str)\b')


def normalise(text):
    """one spelling for core/alloc paths whether the crate sees them through std, core or an extern alloc"""
    text = text.replace('multicalc::alloc::', 'alloc::')
    text = _RE_CORE.sub(r'core::\1', text)
    return re.sub(r'\bstd::(vec|string|boxed|borrow|rc|collections|format)\b', r'alloc::\1', text)


class Fn:
    __slots__ = ('p', 'j', 'id', 'd', 'kind', 'body', 'span', 'name', '_cfg', 'promoted_of')

    def __init__(self, p, j):
        self.p = p
        self.j = j
        self.id = j['id']
        self.d = j['d']
        self.kind = j['kind']
        self.body = j.get('body')
        self.span = j['span']
        self.name = j.get('name')
        self._cfg = None

    @property
    def argc(self):
        return self.body['argc']

    @property
    def bbs(self):
        return self.body['bb']

    def lty(self, l):
        return self.body['locals'][l][0]

    def lname(self, l):
        x = self.body['locals'][l]
        return x[1] if len(x) > 1 else None

    def file(self):
        return self.span.rsplit(':', 1)[0]

    def __repr__(self):
        return '<Fn %s>' % self.d

    @property
    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg


def term_succs(t):
    k = t['k']
    if k == 'goto' or k == 'drop' or k == 'assert':
        return [t['t']]
    if k == 'switch':
        r = [b for _, b in t['v']]
        r.append(t['o'])
        return r
    if k == 'call':
        return [] if t['t'] is None else [t['t']]
    return []


class Cfg:
    def __init__(self, fn):
        bbs = fn.bbs
        n = len(bbs)
        self.n = n
        self.succ = [term_succs(b['t']) for b in bbs]
        # prune unreachable targets: a switch arm straight into `unreachable`
        self.pred = [[] for _ in range(n)]
        seen = set()
        order = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.reach = seen
        self.rpoidx = {b: i for i, b in enumerate(self.rpo)}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in self.rpo[1:]:
                new = None
                for p in self.pred[b]:
                    if p in idom:
                        new = p if new is None else self._isect(idom, p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        # natural loops
        self.loops = {}
        self.back = []
        self.irreducible = []
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dominates(s, b):
                    self.back.append((b, s))
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(self.pred[x])
                elif self.rpoidx[s] <= self.rpoidx[b]:
                    self.irreducible.append((b, s))

    def _isect(self, idom, a, b):
        ix = self.rpoidx
        while a != b:
            while ix[a] > ix[b]:
                a = idom[a]
            while ix[b] > ix[a]:
                b = idom[b]
        return a

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def loops_of(self, b):
        return [h for h, body in self.loops.items() if b in body]


class Program:
    def __init__(self, files):
        self.T = []
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.statics = []
        self.modules = []
        self.crates = []
        for f in files:
            self._load(f)
        self.by_d = {}
        for f in self.fns.values():
            self.by_d.setdefault(f.d, []).append(f)
        self._impl_index()

    def _load(self, path):
        with open(path) as fh:
            j = json.loads(normalise(fh.read()))
        off = len(self.T)
        self.crates.append((j['crate'], j['features']))
        if off:
            _shift(j, off)
        self.T.extend(j['types'])
        for f in j['fns']:
            self.fns[f['id']] = Fn(self, f)
        for a in j['adts']:
            old = self.adts.get(a['d'])
            if old is None or a['local']:
                self.adts[a['d']] = a
        self.impls.extend(j['impls'])
        for t in j['traits']:
            self.traits[t['d']] = t
        self.statics.extend(j['statics'])
        self.modules.extend(j['modules'])

    def _impl_index(self):
        # trait method name -> [fn ids implementing], per trait
        self.trait_impls = {}
        self.impl_of_item = {}
        for im in self.impls:
            for nm, did, kind in im['items']:
                self.impl_of_item[did] = im
                if 'trait' in im:
                    self.trait_impls.setdefault((im['trait'], nm), []).append(did)
        self.trait_default = {}
        for t in self.traits.values():
            for nm, did, has in t['items']:
                if has:
                    self.trait_default[(t['d'], nm)] = did

    def ty(self, i):
        return self.T[i]

    def tstr(self, i):
        return self.T[i].get('p', '?')

    # --- callee resolution: list of local Fn candidates, or external path
    def callee(self, t):
        """returns (path, [local fn ids]) for a call terminator; path None for indirect calls"""
        f = t.get('f')
        if f is None:
            return None, []
        rid = f.get('rid')
        path = f.get('r', f['d'])
        if rid and rid in self.fns and f.get('rk') == 'Item':
            return path, [rid]
        if f.get('trait') and 'rid' not in f:
            tr = f['trait']
            if tr in self.traits:
                c = list(self.trait_impls.get((tr, f['m']), []))
                dflt = self.trait_default.get((tr, f['m']))
                if dflt:
                    c.append(dflt)
                return f['d'], [x for x in c if x in self.fns]
        return path, []

    def pretty(self, fn):
        out = ['fn %s  [%s] %s' % (fn.d, fn.id, fn.span)]
        out += ppbody(self, fn.body)
        for i, b in enumerate(fn.j.get('promoted', [])):
            out.append('  promoted[%d]:' % i)
            out += ['  ' + x for x in ppbody(self, b)]
        return '\n'.join(out)


def _shift(j, off):
    """renumber type ids in a JSON crate dump by off"""
    def args(a):
        return [x + off if isinstance(x, int) else x for x in a]

    for t in j['types']:
        for k in ('e',):
            if k in t:
                t[k] += off
        if 'a' in t:
            t['a'] = args(t['a'])
        if 'u' in t:
            t['u'] = args(t['u'])
    for a in j['adts']:
        for v in a['v']:
            for f in v['f']:
                if f['t'] >= 0:
                    f['t'] += off
        for g in a['generics']:
            if g[0] == 'c':
                g[2] += off
    for im in j['impls']:
        im['self'] += off
        if 'trait_args' in im:
            im['trait_args'] = args(im['trait_args'])
    def place(p):
        for e in p[1:]:
            if isinstance(e, list) and e[0] == 'f':
                e[2] += off
                e[4] += off
    def cval(v):
        v['t'] += off
        for x in v.get('fields', []):
            cval(x)
    def operand(o):
        if o[0] in 'cm':
            place(o[1])
        elif o[0] == 'k':
            k = o[1]
            k['t'] += off
            if 'args' in k:
                k['args'] = args(k['args'])
            if 'val' in k:
                cval(k['val'])
    def rv(r):
        k = r[0]
        if k in ('use', 'repeat'):
            operand(r[1])
        elif k == 'ref' or k == 'rawptr':
            place(r[2])
        elif k == 'cast':
            operand(r[2]); r[3] += off
        elif k == 'bin':
            operand(r[2]); operand(r[3])
        elif k == 'un':
            operand(r[2])
        elif k == 'discr':
            place(r[1])
        elif k == 'agg':
            if r[1][0] == 'array':
                r[1][1] += off
            elif r[1][0] == 'adt':
                r[1][4] = args(r[1][4])
            for o in r[2]:
                operand(o)
    def body(b):
        for l in b['locals']:
            l[0] += off
        for _, p in b['upv']:
            place(p)
        for bb in b['bb']:
            for st in bb['s']:
                if st[0] == '=':
                    place(st[1]); rv(st[2])
                elif st[0] == 'setd':
                    place(st[1])
            t = bb['t']
            k = t['k']
            if k == 'switch':
                operand(t['d']); t['dt'] += off
            elif k == 'drop':
                place(t['p']); t['ty'] += off
            elif k == 'call':
                for a in t['a']:
                    operand(a)
                place(t['dst'])
                if t['f']:
                    for key in ('a', 'ra'):
                        if key in t['f']:
                            t['f'][key] = args(t['f'][key])
                elif 'fo' in t:
                    operand(t['fo'])
            elif k == 'assert':
                operand(t['c'])
                for o in t['ops']:
                    operand(o)
    for f in j['fns']:
        for k in ('self', 'out', 'ty'):
            if k in f:
                f[k] += off
        if 'in' in f:
            f['in'] = [x + off for x in f['in']]
        if 'trait_args' in f:
            f['trait_args'] = args(f['trait_args'])
        for g in f.get('generics', []):
            if g[0] == 'c':
                g[2] += off
        for pr in f.get('preds', []):
            pr[0] += off
            pr[2] = args(pr[2])
        if 'value' in f:
            cval(f['value'])
        if f.get('body'):
            body(f['body'])
        for b in f.get('promoted', []):
            body(b)


# ---------- pretty printing ----------
def ppplace(p):
    s = '_%d' % p[0]
    for e in p[1:]:
        if e == '*':
            s = '(*%s)' % s
        elif e[0] == 'f':
            s += '.%s' % (e[3] if e[3] is not None else e[1])
        elif e[0] == 'i':
            s += '[_%d]' % e[1]
        elif e[0] == 'ci':
            s += '[%s%d]' % ('-' if e[3] else '', e[1])
        elif e[0] == 'ss':
            s += '[%d..%s%d]' % (e[1], '-' if e[3] else '', e[2])
        elif e[0] == 'd':
            s = '(%s as %s)' % (s, e[2])
        else:
            s += '?' + str(e)
    return s


def ppconst(P, k):
    if 'tc' in k:
        c = k['tc']
        return c.get('name') or str(c.get('v', c.get('s')))
    if 'def' in k:
        s = k['def']
        if 'promoted' in k:
            s += '::promoted[%d]' % k['promoted']
        if 'val' in k and 'bits' in k['val']:
            s += '=' + k['val']['bits']
        return s
    v = k.get('val')
    if v:
        if 'bits' in v:
            return v['bits'] + ':' + P.tstr(k['t'])
        if 'str' in v:
            return repr(v['str'])
    return 'const ' + P.tstr(k['t'])


def ppop(P, o):
    if o[0] == 'c':
        return ppplace(o[1])
    if o[0] == 'm':
        return 'move ' + ppplace(o[1])
    if o[0] == 'k':
        return ppconst(P, o[1])
    return str(o)


def pprv(P, r):
    k = r[0]
    if k == 'use':
        return ppop(P, r[1])
    if k == 'repeat':
        return '[%s; %s]' % (ppop(P, r[1]), r[2].get('name', r[2].get('v')))
    if k == 'ref':
        return '&%s %s' % (r[1], ppplace(r[2]))
    if k == 'cast':
        return '%s as %s (%s)' % (ppop(P, r[2]), P.tstr(r[3]), r[1])
    if k == 'bin':
        return '%s(%s, %s)' % (r[1], ppop(P, r[2]), ppop(P, r[3]))
    if k == 'un':
        return '%s(%s)' % (r[1], ppop(P, r[2]))
    if k == 'discr':
        return 'discr(%s)' % ppplace(r[1])
    if k == 'agg':
        kd = r[1]
        nm = kd[0] if kd[0] != 'adt' else '%s::%s' % (kd[1], kd[3])
        if kd[0] == 'closure':
            nm = 'closure ' + kd[1]
        return '%s(%s)' % (nm, ', '.join(ppop(P, x) for x in r[2]))
    return str(r)


def ppbody(P, b):
    out = []
    for i, l in enumerate(b['locals']):
        tag = ' (arg)' if 1 <= i <= b['argc'] else ''
        out.append('    let _%d: %s%s%s' % (i, P.tstr(l[0]), ' // ' + l[1] if len(l) > 1 else '', tag))
    for u in b['upv']:
        out.append('    // %s = %s' % (u[0], ppplace(u[1])))
    for i, bb in enumerate(b['bb']):
        if bb.get('cl'):
            continue
        out.append('  bb%d:' % i)
        for st in bb['s']:
            if st[0] == '=':
                out.append('    %s = %s' % (ppplace(st[1]), pprv(P, st[2])))
            else:
                out.append('    %s' % st)
        t = bb['t']
        k = t['k']
        if k == 'call':
            f = t['f']
            nm = (f.get('r', f['d']) + (' [%s]' % f['rk'] if 'rk' in f else ' [unres]')) if f else ppop(P, t['fo'])
            out.append('    %s = CALL %s(%s) -> bb%s   // %s' % (ppplace(t['dst']), nm, ', '.join(ppop(P, a) for a in t['a']), t['t'], t['sp'].split('/')[-1]))
        elif k == 'switch':
            out.append('    switch %s %s else bb%s' % (ppop(P, t['d']), ', '.join('%s->bb%s' % (v, x) for v, x in t['v']), t['o']))
        elif k == 'assert':
            out.append('    assert %s%s [%s] (%s) -> bb%s   // %s' % ('' if t['e'] else '!', ppop(P, t['c']), t['m'], ', '.join(ppop(P, a) for a in t['ops']), t['t'], t['sp'].split('/')[-1]))
        elif k in ('goto', 'drop'):
            out.append('    %s -> bb%s' % (k, t['t']))
        else:
            out.append('    ' + k)
    return out


if __name__ == '__main__':
    import glob
    P = Program(sys.argv[2].split(','))
    for f in P.fns.values():
        if sys.argv[1] in f.d and f.body:
            print(P.pretty(f))
