"""Effects of the core library: no heap in the default configuration, none reached from any default-configuration API when the
alloc feature is on, no unsafe code, no global or hidden mutable state, no time/IO/thread/randomness source."""
import ctx, callgraph

HIDDEN = ('core::cell::', 'core::sync::atomic::', 'std::sync::', 'alloc::rc::', 'alloc::sync::', 'std::cell::', 'std::thread', 'core::cell', 'core::sync')
ALLOWED_CORE = {'core', 'libm', 'multicalc', '<'}


def root(path):
    return path.split('::')[0].lstrip('<&').split(' ')[0] if path else '?'


def type_closure(P, i, seen):
    """all types mentioned inside a type"""
    if i in seen or i < 0:
        return
    seen.add(i)
    t = P.T[i]
    for k in ('e',):
        if k in t:
            type_closure(P, t[k], seen)
    for a in t.get('a', []) or []:
        if isinstance(a, int):
            type_closure(P, a, seen)


def check(rep):
    core = ctx.program('core')
    full = ctx.program('full')
    core_names = {f.d for f in core.fns.values() if f.body}
    for tag, P in (('core', core), ('full', full)):
        G = callgraph.CallGraph(P)
        nodes = [f for f in P.fns.values() if f.id.startswith('multicalc:') and f.body]
        # 1 statics / unsafe / hidden state
        for s in P.statics:
            d = s['d'] if isinstance(s, dict) else str(s)
            if d.startswith('multicalc::'):
                rep.bad('static', 'static:' + d, 'a static item: state shared between calls')
        for f in nodes:
            if f.j.get('unsafe'):
                rep.bad('unsafe', 'unsafe:' + f.d, 'unsafe fn', f.span)
            else:
                rep.ok('safe-fn')
            for bb in f.bbs:
                for st in bb['s']:
                    if st[0] == '=' and st[2][0] == 'cast' and ('Expose' in st[2][1] or 'FromExposed' in st[2][1] or 'Transmute' in st[2][1]):
                        rep.bad('address', 'address:' + f.d, 'an address or bit pattern is turned into a value: %s' % st[2][1], st[3])
        for d, a in P.adts.items():
            if not d.startswith('multicalc::') or not a['local']:
                continue
            seen = set()
            for v in a['v']:
                for fl in v['f']:
                    type_closure(P, fl['t'], seen)
            hit = None
            for i in seen:
                t = P.T[i]
                p = t.get('d', '') or t.get('p', '')
                if t['k'] == 'rawptr' or t['k'] == 'ptr':
                    hit = 'raw pointer field'
                elif any(p.startswith(h) for h in HIDDEN):
                    hit = 'field of type %s' % p
                elif tag == 'core' and p.startswith('alloc::'):
                    hit = 'heap-owning field %s' % p
            if hit:
                rep.bad('hidden-state', 'hidden:' + d, hit)
            else:
                rep.ok('plain-data-type', d)
        # 2 callees
        unsafe_callee = 0
        for f in nodes:
            for x in G.ext.get(f.id, ()):
                r = root(x)
                if x.startswith('core::cell') or x.startswith('core::sync') or x.startswith('core::arch') or x.startswith('core::ptr::') or x.startswith('core::intrinsics'):
                    rep.bad('callee', 'callee:%s:%s' % (f.d, x), 'reaches hidden state or raw memory through %s' % x, f.span)
                elif r in ('core', 'libm', 'multicalc') or (tag == 'full' and (r == 'alloc' or 'alloc::' in x)) or (r not in ('std', 'alloc') and 'std::' not in x and 'alloc::' not in x and ' as core::' in x):
                    rep.ok('callee-' + tag, '%s -> %s' % (f.d, x))
                else:
                    rep.bad('callee', 'callee:%s:%s' % (f.d, x), 'calls outside core/libm%s: %s' % ('/alloc' if tag == 'full' else '', x), f.span)
        # 3 nothing offered without alloc allocates once alloc is on
        if tag == 'full':
            allocs = {f.id for f in nodes if any(x.startswith('alloc::') or '<alloc::' in x or 'alloc::vec' in x for x in G.ext.get(f.id, ()))}
            # trait calls on type parameters may land in any impl of the crate that is itself available without alloc
            for f in nodes:
                if f.d not in core_names:
                    continue
                rep.ok('no-heap-fn')
            starts = [f.id for f in nodes if f.d in core_names]
            for sid in starts:
                bad = G.reach([sid]) & allocs
                if bad:
                    rep.bad('heap', 'heap:' + P.fns[sid].d, 'reaches a heap allocation: %s' % ', '.join(sorted(P.fns[x].d for x in bad)[:3]), P.fns[sid].span)
    rep.floor('no-heap-fn', 1000)
    rep.floor('plain-data-type', 100)
    return ('Call graph and type layout of the core crate in both configurations: every callee outside the crate is in core or libm (alloc only with the '
            'feature on, and never on a path from an API that exists without it); no static items, unsafe functions, interior mutability, raw pointers, '
            'pointer-to-integer casts, clocks, I/O, threads or atomics.')
