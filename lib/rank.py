"""Loop ranking by abstract interpretation: the fallback of C02 for loops the syntactic recogniser (term.py) does not know.

At the fixpoint of a loop the interpreter of absint.py has, for every back edge, the linear integer facts and the values an
iteration leaves behind.  A component whose value moves one way on every back edge, and on some of them strictly while still
on the right side of a bound the loop does not change, ranks those edges; they are set aside and the rest must be ranked by
further components (a lexicographic measure).  Advancing a counted iterator is such a component."""
import lin as L
import absint
from absint import TM, Interp, Budget


class Prover(Interp):
    def __init__(self, P, **opt):
        opt.setdefault('check_panics', False)
        opt.setdefault('step_limit', 150000)
        super().__init__(P, **opt)
        self.backs = {}
        self.kills = []
        self.verdicts = {}

    def kill_term(self, st, t):
        for k in self.kills:
            k.add(t)
        super().kill_term(st, t)

    def merge_into(self, d, k, s, key):
        if k == 'back':
            self.backs.setdefault(key, []).append(s.copy())
        super().merge_into(d, k, s, key)

    def run_loop(self, fr, cfg, h, body, entry, exits):
        cur = entry
        base_exits = dict(exits)
        key = (fr.ctx, 'back', h)
        for it in range(40):
            exits.clear()
            exits.update(base_exits)
            self.backs[key] = []
            self.kills.append(set())
            start = cur.copy()
            out = self.run_region(fr, cfg, body, {h: start}, h, exits)
            killed = self.kills.pop()
            back = out.pop('back', None)
            if back is None:
                self.verdicts[(fr.fn.id, h, fr.ctx)] = (True, 'never repeats')
                break
            nxt = self.widen(cur, back, (fr.ctx, 'loop', h), it)
            if nxt is None:
                self.verdicts[(fr.fn.id, h, fr.ctx)] = self.rank(fr, cfg, h, set(body), cur, self.backs[key], killed)
                self.all_facts(entry, cur, back, out)
                break
            cur = nxt
        else:
            self.verdicts[(fr.fn.id, h, fr.ctx)] = (False, 'analysis did not stabilise')
        return [(k, s) for k, s in out.items()]

    # ---- which symbols keep their value while the loop runs
    def varies(self, x, ctx, body, memo, depth=0):
        if isinstance(x, bool) or x is None or isinstance(x, str) or depth > 40:
            return False
        if isinstance(x, int):
            if x in memo:
                return memo[x]
            if x < 0 or x >= len(TM.ops):
                return False
            memo[x] = False
            r = memo[x] = self.varies(TM.ops[x], ctx, body, memo, depth + 1)
            return r
        if isinstance(x, (tuple, frozenset, list)):
            if isinstance(x, tuple) and len(x) >= 2 and x[0] == ctx:
                if isinstance(x[1], int) and not isinstance(x[1], bool) and x[1] in body:
                    return True
                if isinstance(x[1], str) and len(x) >= 3 and x[2] in body:
                    return True
            return any(self.varies(y, ctx, body, memo, depth + 1) for y in x)
        return False

    def components(self, st):
        out = []

        def go(root, path, v, d):
            if v[0] == 'i':
                out.append((root, path, v[1]))
            elif v[0] == 'it' and v[2] is not None:
                out.append((root, path + ('k',), v[2]))
            elif v[0] == 's' and d < 3:
                for i, x in enumerate(v[3]):
                    go(root, path + (i,), x, d + 1)
        for root, v in st.env.items():
            go(root, (), v, 0)
        return out

    def at(self, st, root, path):
        v = st.env.get(root)
        for p in path:
            if v is None:
                return None
            if p == 'k':
                return v[2] if v[0] == 'it' else None
            if v[0] != 's' or p >= len(v[3]):
                return None
            v = v[3][p]
        return v[1] if v is not None and v[0] == 'i' else None

    def bounded(self, st, v, sign, inv):
        """the state keeps v on one side of something the loop does not change: L - v >= 0 (sign 1) or v - L >= 0"""
        if sign < 0 and self.entails(st, v):
            return True
        own = {t for t, _ in v[1]}
        cands = set()
        for f in st.facts:
            ts = [t for t, _ in f[1]]
            if any(t in own for t in ts) and all(t in own or inv(t) for t in ts):
                cands.add(f)
        for f in cands:
            if all(t in own for t in (t for t, _ in f[1])) and abs(f[0]) >= 1 << 24:
                # the width of the machine word is no bound
                continue
            # f = rest + c*v with c of the right sign
            cs = [c for t, c in f[1] if t in own]
            vs = [dict(v[1])[t] for t, c in f[1] if t in own]
            if len(own) == len(cs) and all(c * w * sign < 0 for c, w in zip(cs, vs)) and len(set(c / w for c, w in zip(cs, vs))) == 1:
                return True
        ts = set(t for f in st.facts for t, _ in f[1] if t not in own and inv(t))
        for t in sorted(ts)[:60]:
            d = L.sub(L.var(t), v)
            if self.entails(st, d if sign > 0 else L.neg(d)):
                return True
        return False

    def rank(self, fr, cfg, h, body, cur, backs, killed):
        backs = [b for b in backs if not self.contradictory(b)]
        memo = {}

        def inv(t):
            return t not in killed and not self.varies(t, fr.ctx, body, memo) and not any(x in killed for x in subterms(t))
        edges = []
        for b in backs:
            edges.append(b)
        left = list(range(len(edges)))
        comps = []
        for root, path, v in self.components(cur):
            ds = [self.at(b, root, path) for b in edges]
            if any(d is not None and d != v for d in ds):
                comps.append((root, path, v, ds))
        used = []
        while left:
            for root, path, v, ds in comps:
                hit = None
                for sign in (1, -1):
                    strict = []
                    for e in left:
                        if ds[e] is None:
                            break
                        d = L.scale(L.sub(ds[e], v), sign)
                        if d == L.ZERO:
                            continue
                        if self.entails(edges[e], L.addc(d, -1)) and self.bounded(edges[e], v, sign, inv):
                            strict.append(e)
                        elif not self.entails(edges[e], d):
                            break
                    else:
                        if strict:
                            hit = (sign, strict)
                            break
                if hit:
                    break
            else:
                return False, 'no component makes bounded progress on %d of %d back edges' % (len(left), len(edges))
            left = [e for e in left if e not in hit[1]]
            used.append('%s %s' % (self.name(fr, root), 'up' if hit[0] > 0 else 'down'))
        return True, ', '.join(used)

    def name(self, fr, root):
        if root[0] == 'L' and root[1] == fr.ctx and isinstance(root[2], int):
            return fr.fn.lname(root[2]) or 'local %d' % root[2]
        return str(root[0])


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return seen
    seen.add(t)

    def go(x):
        if isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, int) and not isinstance(x, bool) and 0 <= x < len(TM.ops) and TM.ops[x][0] not in ('key', 'ctx'):
            subterms(x, seen)
    op = TM.ops[t]
    if op[0] in ('fld', 'idx', 'len', 'deref', 'min', 'max', 'cast', 'call', 'bin', 'mul', 'div', 'rem', 'bits', 'and', 'or', 'shl', 'shr'):
        go(op[1:])
    return seen


def prove(P, fn, header):
    """(proved, description): every analysed context of the loop at block `header` of fn makes bounded progress"""
    root = fn
    if fn.kind not in ('Fn', 'AssocFn'):
        # a closure: analysed inside the function that builds it
        parent = fn.id.split('::{closure')[0]
        root = P.fns.get(parent)
        if root is None:
            for g in P.fns.values():
                if g.d == fn.d.split('::{closure')[0]:
                    root = g
        if root is None or not root.body:
            return False, 'no enclosing function'
    I = Prover(P)
    try:
        I.analyze(root)
    except Exception as e:
        return False, 'not analysed: %s' % e
    if any(o.kind in ('budget', 'analysis') for o in getattr(I, 'last_obls', ())):
        return False, 'analysis budget'
    vs = [v for (f, h, c), v in I.verdicts.items() if f == fn.id and h == header]
    if not vs:
        return False, 'loop not reached'
    for v in vs:
        if not v[0]:
            return v
    return vs[0]
