"""Call graph over the dumped program.  Edges: direct calls (resolved statically), function items and closures
mentioned as values, constants that name functions.  Calls on a type parameter (`T: Trait`) are not edges between
instances: rustc monomorphises them on a strictly smaller type, they are recorded separately as `generic`."""


def consts_of(body):
    """every constant operand of a body"""
    def ops(o):
        if o[0] == 'k':
            yield o[1]
    for bb in body['bb']:
        if bb.get('cl'):
            continue
        for st in bb['s']:
            if st[0] == '=':
                r = st[2]
                k = r[0]
                if k in ('use', 'repeat'):
                    yield from ops(r[1])
                elif k == 'cast':
                    yield from ops(r[2])
                elif k == 'bin':
                    yield from ops(r[2]); yield from ops(r[3])
                elif k == 'un':
                    yield from ops(r[2])
                elif k == 'agg':
                    for o in r[2]:
                        yield from ops(o)
        t = bb['t']
        if t['k'] == 'call':
            for a in t['a']:
                yield from ops(a)
        elif t['k'] == 'switch':
            yield from ops(t['d'])


def closures_of(body):
    for bb in body['bb']:
        if bb.get('cl'):
            continue
        for st in bb['s']:
            if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'closure':
                yield st[2][1]


class CallGraph:
    def __init__(self, P):
        self.P = P
        self.edges = {}      # fn id -> set of fn ids
        self.ext = {}        # fn id -> set of external callee paths
        self.generic = {}    # fn id -> set of (trait, method) called on type parameters
        self.indirect = {}   # fn id -> number of calls through fn pointers / dyn / unknown values
        for f in P.fns.values():
            if f.body:
                self._scan(f)

    def _scan(self, f):
        P = self.P
        E = self.edges.setdefault(f.id, set())
        X = self.ext.setdefault(f.id, set())
        G = self.generic.setdefault(f.id, set())
        for body in [f.body] + f.j.get('promoted', []):
            for c in closures_of(body):
                for cf in P.by_d.get(c[1], []):
                    E.add(cf.id)
                    if len(c) > 2 and isinstance(c[2], str) and c[2] in P.fns:
                        E.add(c[2])
            for bb in body['bb']:
                if bb.get('cl'):
                    continue
                t = bb['t']
                if t['k'] != 'call':
                    continue
                cf = t.get('f')
                if cf is None:
                    self.indirect[f.id] = self.indirect.get(f.id, 0) + 1
                    continue
                path, loc = P.callee(t)
                if cf.get('rid') in P.fns:
                    E.add(cf['rid'])
                elif loc:
                    G.add((cf['trait'], cf['m']))
                elif cf.get('trait') in P.traits:
                    G.add((cf['trait'], cf['m']))
                else:
                    X.add(path)
            for k in consts_of(body):
                ty = P.T[k['t']]
                if ty.get('k') == 'fndef':
                    d = ty.get('d')
                    hit = False
                    for x in P.by_d.get(d, []):
                        E.add(x.id)
                        hit = True
                    if not hit and d:
                        X.add(d)
                d = k.get('def')
                if d and 'promoted' not in k:
                    for x in P.by_d.get(d, []):
                        if x.body:
                            E.add(x.id)

    def reach(self, roots):
        seen = set(roots)
        st = list(roots)
        while st:
            x = st.pop()
            for y in self.edges.get(x, ()):
                if y not in seen:
                    seen.add(y)
                    st.append(y)
        return seen

    def sccs(self):
        return tarjan(self.edges)


def tarjan(edges):
    idx = {}
    low = {}
    onst = set()
    st = []
    out = []
    n = [0]
    for root in list(edges):
        if root in idx:
            continue
        work = [(root, iter(edges.get(root, ())))]
        idx[root] = low[root] = n[0]; n[0] += 1
        st.append(root); onst.add(root)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1
                    st.append(w); onst.add(w)
                    work.append((w, iter(edges.get(w, ()))))
                    adv = True
                    break
                elif w in onst:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                comp = []
                while True:
                    w = st.pop(); onst.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                out.append(comp)
    return out
