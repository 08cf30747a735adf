"""Integer invariants of the crate's structs with private fields, inferred by elimination (Houdini): every candidate
`field <= bound` / `element <= bound` is assumed of values that already exist and must hold of every value the code
constructs and after every write to the field; candidates that do not are dropped until the rest is inductive."""
import sys, collections
import lin as L
import absint
from absint import mk, TM, USIZE


def field_ty(P, f):
    return P.T[f['t']]


def candidates(P):
    """adt -> list of (const, ((sym, coef), ...))"""
    out = {}
    for a in P.adts.values():
        if not a.get('local') or a['kind'] != 'struct':
            continue
        c = []
        cgs = [g[1] for g in a['generics'] if g[0] == 'c']
        fields = a['v'][0]['f']
        lens = [P.T[f['t']]['l'].get('v') for f in fields if P.T[f['t']]['k'] == 'array' and P.T[f['t']]['l']['c'] == 'val']
        for f in fields:
            if f.get('vis') == 'pub':
                continue
            t = P.T[f['t']]
            if t['k'] == 'uint' and t['n'] == 'usize':
                for g in cgs:
                    for d in (0, -1):
                        c.append((d, ((('cg', g), 1), (('f', f['n']), -1))))
                for k in lens:
                    for d in (0, -1):
                        c.append((k + d, ((('f', f['n']), -1),)))
                c.append((-1, ((('f', f['n']), 1),)))
            elif t['k'] == 'array' and P.T[t['e']]['k'] == 'uint' and P.T[t['e']]['n'] == 'usize':
                for g in cgs:
                    c.append((-1, ((('cg', g), 1), (('e', f['n']), -1))))
        if all(f.get('vis') != 'pub' for f in fields):
            # relations between the dimensions every constructor insists on
            for g in cgs:
                for h in cgs:
                    if g != h:
                        c.append((0, ((('cg', g), 1), (('cg', h), -1))))
        if c:
            out[a['d']] = c
    return out


def walk_places(body):
    """every assignment target and every mutable borrow"""
    for b in body['bb']:
        for s in b['s']:
            if s[0] == '=':
                yield s[1]
                r = s[2]
                if r[0] == 'rawptr' or r[0] == 'ref' and r[1] == 'mut':
                    yield r[2]
        t = b['t']
        if t['k'] == 'call':
            yield t['dst']


def modifiers(P, cands):
    """fn id -> candidate ADTs it constructs or whose candidate fields it writes or mutably borrows"""
    fieldset = {}
    for d, cs in cands.items():
        names = set(x[1] for c in cs for x, _ in c[1] if x[0] in ('f', 'e'))
        fieldset[d] = names
    out = {}
    for f in P.fns.values():
        if f.body is None:
            continue
        m = set()
        for b in f.body['bb']:
            for s in b['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] in cands:
                    m.add(s[2][1][1])
        for pl in walk_places(f.body):
            for e in pl[1:]:
                if e[0] == 'f':
                    t = P.T[e[4]]
                    if t['k'] == 'adt' and t['d'] in cands and e[3] in fieldset[t['d']]:
                        m.add(t['d'])
        if m:
            out[f.id] = m
    return out


def plan(P, mods, callers):
    """(roots, inlined): private modifying helpers are analysed inside their callers"""
    roots, inl, todo = set(), set(), list(mods)
    seen = set()
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        f = P.fns[i]
        if f.kind == 'Closure':
            # analysed where the enclosing function uses it
            par = f.j.get('parent')
            if par in P.fns:
                todo.append(par)
            else:
                roots.add(i)
            continue
        cs = callers.get(i, ())
        if f.j.get('reach') or f.j.get('trait') or not cs or f.kind not in ('Fn', 'AssocFn'):
            roots.add(i)
        else:
            inl.add(i)
            todo += list(cs)
    return roots, inl


def holds(I, st, v, cand):
    """does candidate `cand` hold of struct value v in st"""
    ty = v[1]
    a = I.P.adts[ty[1]]
    idx = {f['n']: i for i, f in enumerate(a['v'][0]['f'])}
    m = {}
    for g, x in zip(a['generics'], ty[2]):
        if x[0] == 'const':
            m[g[1]] = x[1]
    r = L.const(cand[0])
    tmp = st
    for s, c in cand[1]:
        if s[0] == 'cg':
            if s[1] not in m:
                return False
            r = L.add(r, m[s[1]], c)
        elif s[0] == 'f':
            r = L.add(r, I.to_lin(v[3][idx[s[1]]]), c)
        elif s[0] == 'e':
            arr = v[3][idx[s[1]]]
            aty = I.arr_ty(arr)
            if aty is None or aty[0] != 'array':
                return False
            if arr[0] == 's':
                elems = arr[3]
            else:
                tmp = st.copy()
                k = mk(('probe', 0), USIZE)
                I.kill_term(tmp, k)
                tmp.facts.add(L.addc(L.sub(aty[2], L.var(k)), -1))
                save = I.cur_site
                I.cur_site = (save, 'probe')
                elems = (I.sub_value(tmp, arr, ('i', L.var(k))),)
                I.cur_site = save
            for e in elems:
                if not I.entails(tmp, L.add(r, I.to_lin(e), c)):
                    return I.contradictory(st)
            return True
    return I.entails(tmp, r) or I.contradictory(st)


_G = {}


def _work(i):
    P, cands, inl = _G['P'], _G['cands'], _G['inl']
    bad = set()

    def check(I, st, v):
        if v[0] == 's' and v[1] is not None and v[1][0] == 'adt' and v[1][1] in cands:
            d = v[1][1]
            for n, c in enumerate(cands[d]):
                if (d, c) not in bad and not holds(I, st, v, c):
                    bad.add((d, c))

    fid = _G['roots'][i]
    f = P.fns[fid]
    try:
        I = absint.Interp(P, invs=cands, check_panics=False, step_limit=60000,
                          on_construct=lambda I, fr, st, v: check(I, st, v),
                          on_field=lambda I, st, v, k: check(I, st, v),
                          inline_pred=lambda I, fr, fn, args, dty: True if fn.id in inl else None)
        I.analyze(f)
        if any(o.kind in ('budget', 'analysis') for o in I.last_obls):
            raise RuntimeError('budget')
    except Exception as e:
        if _G.get('debug'):
            raise
        # could not be analysed: nothing is known about what it builds
        for d in _G['affects'].get(fid, ()):
            for c in cands[d]:
                bad.add((d, c))
    return bad


def infer(P, callers, procs=8, log=None):
    import multiprocessing as mp
    cands = candidates(P)
    mods = modifiers(P, cands)
    roots, inl = plan(P, mods, callers)
    # which ADTs a root can affect: its own and those of the inlined helpers below it
    down = collections.defaultdict(set)
    for i in mods:
        seen, todo = set(), [i]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            down[x] |= mods[i]
            f = P.fns[x]
            if f.kind == 'Closure':
                if f.j.get('parent') in P.fns:
                    todo.append(f.j['parent'])
            elif x not in roots:
                todo += list(callers.get(x, ()))
    roots = sorted(roots, key=lambda i: (-sum(len(b['s']) + 1 for b in P.fns[i].bbs), i))
    rounds = 0
    stale = set(cands)
    while stale:
        rounds += 1
        todo = [i for i in roots if down[i] & stale]
        _G.update(P=P, cands=cands, inl=inl, roots=todo, affects=down)
        with mp.Pool(procs) as pool:
            res = pool.map(_work, range(len(todo)), chunksize=1)
        bad = set().union(*res) if res else set()
        if log:
            log('round %d: %d roots, %d candidates, %d dropped' % (rounds, len(todo), sum(map(len, cands.values())), len(bad)))
        if not bad:
            break
        cands = {d: [c for c in cs if (d, c) not in bad] for d, cs in cands.items()}
        stale = set(d for d in cands)   # a dropped fact may have supported any other
        cands = {d: cs for d, cs in cands.items() if cs}
    return cands, len(roots), rounds


def show(c):
    k, ts = c
    return ' '.join('%+d*%s' % (n, '.'.join(map(str, s))) for s, n in ts) + ' %+d >= 0' % k
