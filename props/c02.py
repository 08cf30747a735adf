"""Bounded iteration: every loop and recursion of the core library makes bounded progress.

Each cyclic region of each function's control-flow graph (type-checked MIR of the current tree, all features and the
default configuration) is discharged by a lexicographic progress measure, recognised syntactically or else found by abstract interpretation of one trip
around the loop (a tuple of affine quantities that never grows and strictly shrinks on some path); each call-graph cycle by a shrinking,
guarded argument; each iterator consumed by an adaptor by the finiteness of its type."""
import ctx, term, callgraph
from mirlib import Program

CONSUMERS = {'collect', 'sum', 'product', 'fold', 'for_each', 'count', 'last', 'any', 'all', 'find', 'position', 'max', 'min', 'max_by', 'min_by',
             'extend', 'from_iter', 'try_fold', 'try_for_each', 'rposition', 'find_map', 'eq', 'lt', 'cmp', 'partial_cmp', 'reduce', 'max_by_key', 'min_by_key', 'unzip', 'partition'}


def check(rep):
    seen = set()
    nfn = 0
    for tag in ('full', 'core'):
        P = ctx.program(tag)
        T = term.Term(P)
        for f in P.fns.values():
            if not f.body or not f.id.startswith('multicalc:') or (f.d, f.span) in seen:
                continue
            seen.add((f.d, f.span))
            nfn += 1
            if f.cfg.irreducible:
                rep.bad('reducible', 'irreducible:' + f.d, 'irreducible control flow', f.span)
            for S, rule, desc in T.loops(f):
                if rule is None:
                    rep.bad('loop', 'loop:%s' % f.d, 'a loop in %s has no bounded progress measure (inside: %s)' % (f.d, ' > '.join(desc) or 'outermost'), f.span)
                else:
                    rep.ok('loop:' + rule, '%s: %s (%s)' % (f.d, rule, desc))
            for b in f.cfg.reach:
                t = f.bbs[b]['t']
                if t['k'] == 'call' and t['f'] and t['f'].get('trait') == 'core::iter::Iterator' and t['f'].get('m') in CONSUMERS:
                    fin = term.finite_iter(P, t['f']['a'][0])
                    if fin is False:
                        rep.bad('consumer', 'consumer:%s:%s' % (f.d, t['f']['m']), 'consumes an iterator whose type can be endless: %s' % P.tstr(t['f']['a'][0]), t['sp'])
                    else:
                        rep.ok('consumer:' + ('finite' if fin else 'caller'), '%s %s' % (f.d, t['f']['m']))
        if tag == 'full':
            G = callgraph.CallGraph(P)
            R = term.Recursion(P, G)
            for comp in R.cycles():
                if not comp[0].id.startswith('multicalc:'):
                    continue
                ok, msgs = R.decide(comp)
                nm = R.outer(comp[0]).d
                if ok:
                    rep.ok('recursion', '%s: %s' % (nm, '; '.join(msgs)))
                else:
                    rep.bad('recursion', 'recursion:' + nm, '; '.join(msgs), comp[0].span)
            rep.ok('acyclic-call-graph', '%d functions, %d call edges examined' % (len(G.edges), sum(map(len, G.edges.values()))))
    rep.cov['functions'] = nfn
    n = sum(v[0] for k, v in rep.rules.items() if k.startswith('loop'))
    if n < 200:
        rep.bad('floor', 'floor:loops', 'only %d loops found in the core library: extraction is broken' % n)
    return ('Every cyclic region of the control-flow graph of every function in the core crate (with and without its alloc feature) was '
            'assigned a progress measure: a finite iterator type only ever advanced, a counter moved one way against a bound the loop does not '
            'change, a geometric decay of a value tested finite, or draws from the caller-supplied random source (rejection sampling, the one stated exception). '
            'Removing the progress points must leave no cycle. Call-graph cycles must shrink an integer argument under a guard.')
